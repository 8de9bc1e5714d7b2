"""What each property's check explores."""
import core
import suites_codec as sc
import suites_session as ss
import suites_parts as sp
import suites_streams as st
import suites_edit as se
import suites_build as sb
import suites_geo as sg

CHECKS = {}


def check(f):
    CHECKS[f.__name__] = f
    return f


def replay(ctx, rec):
    """Execute one reported violation again."""
    sc.load(ctx, which=["EntityIdentifier"])
    core._CTX = ctx
    name, args, n, bad, err = core._run_case((rec["suite"], rec["args"]))
    for where, detail in bad:
        print("%s: %s" % (where, detail[:2000]))
    if err:
        print(err)
        return 2
    print("violated" if bad else "holds")
    return 1 if bad else 0


def by_class(ctx):
    out = {}
    for i, r in enumerate(ctx.vec):
        out.setdefault(r["c"], []).append(i)
    return out


def picks(ctx, pats=None, shapes=None):
    return [i for i, r in enumerate(ctx.vec)
            if (pats is None or r["pat"] in pats) and (shapes is None or r["s"] in shapes)]


def show(ctx):
    for i in (0, len(ctx.vec) // 3, len(ctx.vec) - 1):
        r = ctx.vec[i]
        ctx.sample({"class": r["c"], "shape": r["s"], "pattern": r["pat"], "octets": sc.hexs(r["b"])[:400]})


def sweep_cases(ctx, name):
    """Full sweeps on one vector of each class that has every part, boundary sweeps on others."""
    cases = [(name, {"vec": i, "full": ctx.vec[i]["s"] in (0, 2)}) for i in picks(ctx, ["ctr"])]
    if ctx.thorough:
        cases += [(name, {"vec": i, "full": True}) for i in picks(ctx, ["mix", "zero", "ff"])]
    else:
        cases += [(name, {"vec": i, "full": False}) for i in picks(ctx, ["mix"], [1, 3])]
    return cases


def long_lists(ctx, what):
    ctx.run([("long_sizes", {"vec": i, "list": j, "what": what}) for i in picks(ctx, ["ctr"], [2])
             for j in range(len(sc.list_cases(ctx, ctx.vec[i])))], chunk=1)


def all_rows(ctx, what, which=None):
    """Rows of values in the objects of every class, or of these."""
    ctx.run([("rows", {"vec": i, "round": k, "rows": 40, "what": what}) for i in picks(ctx, ["ctr"])
             if which is None or ctx.vec[i]["c"] in which for k in range(20 if ctx.thorough else 4)])


@check
def C01(ctx):
    sc.load(ctx, poke=True, cut=0, longs=True)
    show(ctx)
    ctx.run([("enc", {"vec": i}) for i in range(len(ctx.vec))])
    ctx.run(sweep_cases(ctx, "enc_fields"))
    long_lists(ctx, "octets")
    all_rows(ctx, "octets")
    ctx.run([("standard_size", {"class": c, "octets": n}) for c, n in ctx.dump["standard"].items()])
    sc.judge(ctx, {"octets"}, ("enc",), 60 if ctx.thorough else 12, 0, 8 if ctx.thorough else 5)


@check
def C02(ctx):
    sc.load(ctx, cut=0, longs=True)
    show(ctx)
    ctx.run([("dec", {"vec": i}) for i in range(len(ctx.vec))])
    ctx.run(sweep_cases(ctx, "dec_fields"))
    long_lists(ctx, "value")
    all_rows(ctx, "value")
    ctx.run([("ua_lists", {"list": x}) for x in ("shaftRPMs", "apaData", "emitterSystems")])
    sc.judge(ctx, {"value", "refused"}, ("dec",), 60 if ctx.thorough else 12, 100 if ctx.thorough else 8)


@check
def C03(ctx):
    sc.load(ctx, cut=0, longs=True)
    show(ctx)
    ctx.run([("reenc", {"vec": i, "full": False}) for i in picks(ctx, None if ctx.thorough else ["zero", "ff", "80", "inf", "7f", "long"])])
    ctx.run(sweep_cases(ctx, "reenc"))
    long_lists(ctx, "relay")
    all_rows(ctx, "relay")
    sc.judge(ctx, {"reencoded", "refused"}, ("dec",), 20 if ctx.thorough else 6, 150 if ctx.thorough else 30)


@check
def C05(ctx):
    sc.load(ctx, cut=400 if ctx.thorough else 60)
    show(ctx)
    pats = None if ctx.thorough else ["ctr", "zero", "ff", "mix"]
    ctx.run([("trunc", {"vec": i, "limit": 100000 if ctx.thorough else 600}) for i in picks(ctx, pats)])
    all_rows(ctx, "cut")
    sc.judge(ctx, {"accepted"}, ("dec", "fac"), 2, 150 if ctx.thorough else 40)


@check
def C06(ctx):
    sc.load(ctx, cut=0, longs=True)
    show(ctx)
    ctx.run([("consume", {"vec": i}) for i in range(len(ctx.vec))])
    long_lists(ctx, "consumed")
    all_rows(ctx, "consumed")
    rng = ctx.rng("streams")
    ok = [i for i, r in enumerate(ctx.vec) if r["c"] != "PduSuperclass"]
    ctx.run([("stream_of", {"vecs": [rng.choice(ok) for _ in range(rng.choice([2, 5, 20]))]})
             for _ in range(4000 if ctx.thorough else 600)])
    sc.judge(ctx, {"consumed"}, ("dec",), 4, 150 if ctx.thorough else 25)


@check
def C07(ctx):
    sc.load(ctx, cut=0)
    show(ctx)
    cases = []
    for i in picks(ctx, ["ctr"], [1, 2, 3, 4] if ctx.thorough else [1, 2]):
        for j, lc in enumerate(sc.list_cases(ctx, ctx.vec[i])):
            cases.append((-len(lc.octets[0]) * min(lc.limit(), 70000), ("lists", {"vec": i, "list": j})))
    ctx.run([x for _, x in sorted(cases, key=lambda t: t[0])], chunk=1)
    all_rows(ctx, "counts")
    ctx.run([("list_edits", {"vec": i, "round": k, "steps": 80 if ctx.thorough else 30})
             for i in picks(ctx, ["mix"], [1, 2, 3, 4]) for k in range(20 if ctx.thorough else 4)])
    sc.judge(ctx, {"octets", "value", "accepted", "refused", "consumed"}, ("enc", "dec"), 30 if ctx.thorough else 6,
             60 if ctx.thorough else 10, 12, classes=[c for c in ctx.b.layout if sc.has_lists(ctx.b, c)])


    edits(ctx, ["octets", "counts"], 800, kinds=("list", "lu", "sv"))


def edits(ctx, what, num, depth=14, which=(), kinds=()):
    """Histories of Edit.tla."""
    hists = se.edits_load(ctx, num * (6 if ctx.thorough else 1), depth * (2 if ctx.thorough else 1), which, kinds)
    ctx.sample({"edits": [[h["op"], h["path"], h["i"]] for h in hists[0]["hist"]], "class": hists[0]["c"]})
    ctx.run(core.slices(ctx, "edited", hists, "edits", 10, what=what))


@check
def C09(ctx):
    sc.load(ctx, cut=0)
    show(ctx)
    rng = ctx.rng("pure")
    per = by_class(ctx)
    rounds = 10 if ctx.thorough else 2
    ctx.run([("pure", {"vec": i, "other": rng.randrange(len(ctx.vec)), "same": rng.choice(per[ctx.vec[i]["c"]])})
             for i in range(len(ctx.vec)) for _ in range(rounds)])
    all_rows(ctx, "pure")


@check
def C24(ctx):
    sc.load(ctx, cut=0)
    show(ctx)
    ctx.run([("ranges", {"vec": i, "mode": m}) for i in picks(ctx, None if ctx.thorough else ["ctr", "ff"])
             for m in ("ctor", "set", "parsed")])
    all_rows(ctx, "outside")


def sessions(ctx, per_class, depth, short):
    """Histories of Session.tla on every class: random long ones and every short one."""
    ss.explore(ctx)
    rng = ctx.rng("sessions")
    per = ss.kinds_of(ctx)
    names = sorted(per)
    hists = ss.histories(ctx, 1600 if ctx.thorough else 800, depth)
    brief = ss.short_histories(ctx, short)
    cases = []
    for c in names:
        for k in range(per_class):
            d = rng.choice(names)
            cases.append(("session", {"hist": rng.choice(hists), "A": [c, ss.contents_for(ctx, per, c, rng)],
                                      "B": [d, ss.contents_for(ctx, per, d, rng)], "salt": [c, k]}))
        con = [c, ss.contents_for(ctx, per, c, rng)]
        for at in range(0, len(brief), 64):
            cases.append(("session_group", {"hists": [at, at + 64], "A": con, "B": con, "salt": [c, at]}))
    ctx.brief = brief
    ctx.sample({"history": [x[:4] for x in hists[0]]})
    ctx.run(cases)
    crowded(ctx, per)


def crowded(ctx, per):
    """Histories of Crowd.tla: every class, in company of another."""
    rng = ctx.rng("crowds")
    ctx.crowds = ss.crowds(ctx, 32 if ctx.thorough else 8, 2500 if ctx.thorough else 500, 1500 if ctx.thorough else 300)
    names = sorted(per)
    cases = []
    for c in names:
        for k in range(6 if ctx.thorough else 1):
            d = rng.choice(names)
            few = lambda x: [x, [rng.choice([i for p in per[x] for i in per[x][p]]) for _ in range(5)]]
            cases.append(("crowd", {"at": rng.randrange(len(ctx.crowds)), "A": few(c), "B": few(d), "salt": [c, k]}))
    ctx.sample({"crowd": [[e["op"], e["i"], e["k"], e["lb"], e["way"]] for e in ctx.crowds[0]["log"][:20]]})
    ctx.run(cases, chunk=1)


@check
def C08(ctx):
    sc.load(ctx, cut=0)
    show(ctx)
    all_rows(ctx, "apart")
    sessions(ctx, 400 if ctx.thorough else 40, 40 if ctx.thorough else 24, 4 if ctx.thorough else 3)


@check
def C10(ctx):
    sc.load(ctx, cut=0)
    show(ctx)
    rng = ctx.rng("reparse")
    per = by_class(ctx)
    ctx.run([("reparse", {"vec": i, "vec2": rng.choice(per[ctx.vec[i]["c"]])})
             for i in range(len(ctx.vec)) for _ in range(40 if ctx.thorough else 5)])
    all_rows(ctx, "again")
    sessions(ctx, 400 if ctx.thorough else 40, 40 if ctx.thorough else 24, 4 if ctx.thorough else 2)


@check
def C04(ctx):
    sc.load(ctx, pats=["ctr", "mix"], cut=0)
    grams = sp.dispatch_load(ctx)
    g = [r for r in grams if r["res"] == "pdu"][0]
    ctx.sample({"octets": sc.hexs(g["b"]), "answer": g["c"]})
    ctx.run(core.slices(ctx, "grams", grams, "dispatch", 25))
    ctx.run([("entries", {"vec": i}) for i in picks(ctx, ["ctr"], [1, 2, 3] if ctx.thorough else [2])
             if ctx.vec[i]["c"] in ctx.b.dispatch.values()], chunk=1)
    ctx.run([("pdu_defaults", {"class": c}) for c, l in ctx.b.layout.items() if l["k"] == "pdu"])
    all_rows(ctx, "factory", [c for t, c in ctx.b.dispatch.items()])
    sc.judge(ctx, {"unsupported", "class", "value", "refused"}, ("fac",), 0, 200 if ctx.thorough else 25,
             classes=[c for c, l in ctx.b.layout.items() if l["k"] == "pdu"])


@check
def C14(ctx):
    pools, hists = st.streams_load(ctx)
    ctx.sample(pools[0])
    ctx.sample({"history": [[h["op"], h["n"], h["res"], h["pos"]] for h in hists[0]]})
    ctx.run(core.slices(ctx, "pools", pools, "prim", 20))
    ctx.run(core.slices(ctx, "hists", hists, "stream_history", 10))
    ctx.run([("odd_values", {"prim": p}) for p in st.PRIMS])
    st.record_streams(ctx, 4000 if ctx.thorough else 150, ctx.thorough)


@check
def C15(ctx):
    sc.load(ctx, which=["EntityIdentifier"])
    defs, published, groups, hists = sp.bits_load(ctx)
    ctx.sample(groups[len(groups) // 2][0])
    ctx.run(core.slices(ctx, "defs", defs, "bit_defs", 200))
    ctx.run(core.slices(ctx, "groups", groups, "bit_states", 20))
    ctx.run(core.slices(ctx, "bithists", hists, "bit_histories", 20))
    ctx.run([("bit_records", {"class": c, "ws": ws}) for c, ws in sorted(published.items())])


@check
def C17(ctx):
    sc.load(ctx, which=["EntityMarking", "EntityStatePdu", "AggregateStatePdu"], cut=0)
    texts, hists = sp.marking_load(ctx)
    ctx.sample(texts[len(texts) // 2])
    ctx.run(core.slices(ctx, "texts", texts, "marking_texts", 10))
    ctx.run(core.slices(ctx, "marks", hists, "marking_histories", 10))


@check
def C11(ctx):
    sc.load(ctx, pats=["ctr"], cut=0)
    mine = sb.datums_load(ctx)
    for i in (mine[0], mine[len(mine) // 2]):
        r = ctx.vec[i]
        ctx.sample({"class": r["c"], "octets": sc.hexs(r["b"])[:300]})
    ctx.run([("enc", {"vec": i}) for i in mine])
    ctx.run([("dec", {"vec": i}) for i in mine])
    ctx.run([("reenc", {"vec": i, "full": False}) for i in mine[::1 if ctx.thorough else 12]])
    ctx.run([("consume", {"vec": i}) for i in mine])
    ctx.run([("trunc", {"vec": i, "limit": 300 if ctx.thorough else 40}) for i in mine[::1 if ctx.thorough else 3]])
    carriers = sorted({ctx.vec[i]["c"] for i in mine})
    for what in ("octets", "value", "relay"):
        all_rows(ctx, what, carriers)
    edits(ctx, ["octets", "counts"], 400, which=carriers, kinds=("list", "vdat"))


@check
def C12(ctx):
    sc.load(ctx, which=["TransmitterPdu", "BasicHaveQuickMP", "CCTTSincgarsMP", "GenericRadio", "SimpleIntercomRadio", "UnknownRadio",
                        "BeamAntennaPattern", "UnknownAntennaPattern", "HighFidelityHAVEQUICKRadio"], cut=0)
    old = list(range(len(ctx.vec)))
    mine = sb.transmit_load(ctx)
    r = ctx.vec[mine[len(mine) // 2]]
    ctx.sample({"pattern": r["pat"], "octets": sc.hexs(r["b"])})
    for name, more in (("enc", {}), ("dec", {}), ("reenc", {"full": False}), ("consume", {})):
        ctx.run([(name, dict(more, vec=i)) for i in old + mine[::1 if ctx.thorough or name != "reenc" else 5]])
    ctx.run([("trunc", {"vec": i, "limit": 1000 if ctx.thorough else 40}) for i in mine[::1 if ctx.thorough else 6] + old])
    pdus = [i for i in old if ctx.vec[i]["c"] == "TransmitterPdu"]
    for what in ("octets", "value", "relay", "counts", "consumed"):
        all_rows(ctx, what)
    ctx.run([("overlong", {})])
    ctx.run([("mismatched", {"vec": i}) for i in pdus + mine[::1 if ctx.thorough else 4]])
    per = pdus + mine
    rng = ctx.rng("reparse")
    ctx.run([("reparse", {"vec": i, "vec2": rng.choice(per)}) for i in per[::1 if ctx.thorough else 3]])
    edits(ctx, ["octets", "counts", "sizes"], 500, which=["TransmitterPdu"], kinds=("mod", "ant", "sv"))


@check
def C13(ctx):
    sc.load(ctx, pats=["ctr", "ff", "zero"], cut=0)
    fr, sz = sb.frames_load(ctx)
    ctx.sample({"class": fr[5]["c"], "octets": sc.hexs(fr[5]["b"]), "ok": fr[5]["ok"]})
    ctx.run(core.slices(ctx, "frs", fr, "frames", 40, more=ctx.thorough))
    ctx.run(core.slices(ctx, "szs", sz, "record_sizes", 2))
    carriers = sorted({r["c"] for r in fr})
    mine = [i for i, r in enumerate(ctx.vec) if r["c"] in carriers or ctx.b.layout[r["c"]]["k"] == "sv"]
    for name, more in (("enc", {}), ("dec", {}), ("reenc", {"full": False}), ("consume", {}), ("sizes", {}),
                       ("trunc", {"limit": 2000 if ctx.thorough else 300})):
        ctx.run([(name, dict(more, vec=i)) for i in mine])
    framed = set(carriers) | {c for c, l in ctx.b.layout.items() if l["k"] == "sv"}
    for what in ("octets", "value", "relay", "consumed"):
        all_rows(ctx, what, framed)
    edits(ctx, ["octets", "counts", "sizes"], 500, which=carriers, kinds=("sv",))


@check
def C16(ctx):
    sc.load(ctx, pats=["def"], cut=0)
    made = sb.ctor_load(ctx)
    ctx.sample({"class": made[len(made) // 2]["c"], "given": made[len(made) // 2]["given"]})
    ctx.run(core.slices(ctx, "made", made, "ctors", 20))
    for name, more in (("enc", {}), ("dec", {}), ("reenc", {"full": False}), ("consume", {})):
        ctx.run([(name, dict(more, vec=i)) for i in range(len(ctx.vec))])
    ctx.run([("pdu_defaults", {"class": c}) for c, l in ctx.b.layout.items() if l["k"] == "pdu"])
    ctx.run([("default_again", {"class": c}) for c, l in ctx.b.layout.items()
             if c not in ctx.b.nodefault and l["k"] not in ("abs", "mod", "ant")])


@check
def C25(ctx):
    sc.load(ctx, cut=0)
    fr, sz = sb.frames_load(ctx)
    mine = sb.transmit_load(ctx)
    ctx.sample(sz[len(sz) // 2])
    ctx.run(core.slices(ctx, "szs", sz, "record_sizes", 2))
    ctx.run([("sizes", {"vec": i}) for i in range(mine[0])] + [("sizes", {"vec": i}) for i in mine[::1 if ctx.thorough else 5]])
    all_rows(ctx, "sizes")
    edits(ctx, ["sizes"], 300)
    # the classes with parts of variable size, more often
    edits(ctx, ["sizes", "octets"], 300, which=sorted({r["c"] for r in fr} | {"TransmitterPdu", "DirectedEnergyAreaAimpoint"}),
          kinds=("sv", "mod", "ant", "list", "rest"))


RATES = {"yaw", "pitch", "roll", "orientation", "input changed", "shared with input", "matrix", "cross"}


@check
def C18(ctx):
    ctx.run(core.slices(ctx, "steering", sg.steer_load(ctx), "steer", 20, what="position"))
    sg.judge_geo(ctx, "reckon", 12000 if ctx.thorough else 1500, {"position"})


@check
def C19(ctx):
    ctx.run(core.slices(ctx, "steering", sg.steer_load(ctx), "steer", 20, what="orientation"))
    sg.judge_geo(ctx, "reckon", 12000 if ctx.thorough else 1500, RATES)


@check
def C20(ctx):
    sg.judge_geo(ctx, "geodesy", 60000 if ctx.thorough else 7000)


@check
def C21(ctx):
    sg.judge_geo(ctx, "local", 24000 if ctx.thorough else 3000)


@check
def C22(ctx):
    sg.judge_geo(ctx, "attitude", 24000 if ctx.thorough else 3000)


@check
def C23(ctx):
    rows = sg.grid_load(ctx)
    ctx.sample({"row": rows[200]["row"], "letter": rows[200]["letter"]})
    ctx.run(core.slices(ctx, "rows", rows, "grid_rows", 6))
    sg.judge_geo(ctx, "utm", 40000 if ctx.thorough else 5000)
