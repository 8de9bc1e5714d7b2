"""Replaying the specifications of the factory and of the parts: datums, variable parts, streams, bit fields, markings."""
import io, math, os, pathlib, struct, tempfile

import tlc
from core import part, slices, suite
from bind import DataInputStream, DataOutputStream, Bad, factory, lookup
from suites_codec import vdiff, diff, hexs, holder, list_cases, tla_set, vec_of


def ints(xs):
    return "{%s}" % ", ".join(str(x) for x in xs)


# -- the factory (Dispatch.tla) ------------------------------------------------
def dispatch_load(ctx):
    heads = range(1, 10) if ctx.thorough else (1, 2, 4, 5)
    cfg = ("CONSTANTS Headers = %s BodyPats = %s BodyShapes = %s EmitOn = TRUE\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
           "INVARIANTS TypeAlone Unsupported Accepts HeaderKept Emit\n" % (
               ints(heads), tla_set(["ctr", "mix", "zero", "ff"] if ctx.thorough else ["ctr", "mix"]),
               ints(range(5) if ctx.thorough else (0, 1, 2))))
    return sorted(ctx.tlc(tlc.run("Dispatch", cfg)), key=lambda r: (r["t"], r["res"], len(r["b"]), r["b"]))


def answer(b, call):
    try:
        obj = call()
    except Exception as ex:
        return "error", "", [], repr(ex)
    if obj is None:
        return "none", "", [], ""
    name = type(obj).__name__
    if name not in b.layout:
        return "pdu", name, [], ""
    return "pdu", name, b.project(name, obj), ""


@suite
def dispatch(ctx, args):
    """C04: each entry point gives the answer of the specification."""
    b, bad, n = ctx.b, [], 0
    grams = part(ctx, args)
    d = tempfile.mkdtemp(prefix="pdu-")
    path = os.path.join(d, "datagram")
    try:
        for g in grams:
            data = bytes(g["b"])
            with open(path, "wb") as f:
                f.write(data)
            where = "type-%d:%s" % (g["t"], g["res"])
            calls = [("createPdu", lambda: factory.createPdu(data)),
                     ("getPdu", lambda: factory.getPdu(DataInputStream(io.BytesIO(data)))),
                     ("createPduFromFilePath", lambda: factory.createPduFromFilePath(path))]
            if g["res"] == "pdu":
                def direct():
                    return b.parse(g["c"], data)[0]
                calls.append(("the class", direct))
            for name, call in calls:
                n += 1
                try:
                    res, c, v, why = answer(b, call)
                except Bad as ex:
                    bad.append((where, "%s: %s; octets %s" % (name, ex, hexs(data))))
                    continue
                if (res, c) != (g["res"], g["c"]):
                    bad.append((where, "%s answers %s %s %s instead of %s %s; octets %s" % (
                        name, res, c, why, g["res"], g["c"], hexs(data))))
                elif v != g["v"]:
                    bad.append((where, "%s: %s; octets %s" % (name, vdiff(b, c, g["v"], v), hexs(data))))
    finally:
        os.path.exists(path) and os.unlink(path)
        os.rmdir(d)
    return n, bad


@suite
def entries(ctx, args):
    """C04: PDUs of every length up to 65535 octets come out the same by every way in."""
    r = vec_of(ctx, args)
    b, c = ctx.b, r["c"]
    bad, n = [], 0
    types = sorted(t for t, k in b.dispatch.items() if k == c)
    at = [it["n"] for it in b.layout[c]["f"]].index("pduType")
    d = tempfile.mkdtemp(prefix="pdu-")
    path = os.path.join(d, "datagram")
    try:
        for lc in list_cases(ctx, r):
            each = len(lc.octets[0])
            rest = len(lc.e) - (lc.hi - lc.lo)
            sizes = {min(lc.limit(), max(0, (total - rest) // each)) for total in (
                (700, 1500, 4200, 8300, 16500, 33000, 65535) if ctx.thorough else (1500, 8300, 65535))}
            base = lc.make(range(len(lc.elems)))
            obj = b.build(c, lc.v, "set")
            h, _ = holder(b, c, obj, lc.path)
            for size in sorted(sizes):
                picks = [j % len(lc.elems) for j in range(size)]
                for t in types:
                    want = bytearray(lc.expect(picks))
                    want[2] = t
                    want = bytes(want)
                    value = list(lc.value(picks))
                    value[at] = [t]
                    with open(path, "wb") as f:
                        f.write(want)
                    with open(path, "rb") as f:
                        for name, call in (
                                ("createPdu", lambda: factory.createPdu(want)),
                                ("getPdu", lambda: factory.getPdu(DataInputStream(io.BytesIO(want)))),
                                ("getPdu of a file", lambda: factory.getPdu(DataInputStream(f))),
                                ("createPduFromFilePath", lambda: factory.createPduFromFilePath(path)),
                                ("createPduFromFilePath", lambda: factory.createPduFromFilePath(pathlib.Path(path)))):
                            n += 1
                            what = "%s:long" % c
                            try:
                                got = answer(b, call)
                            except Bad as ex:
                                bad.append((what, "%s, %d octets: %s" % (name, len(want), ex)))
                                continue
                            if got[:2] != ("pdu", c):
                                bad.append((what, "%s, %d octets: answers %s %s %s" % ((name, len(want), got[0], got[1], got[3]))))
                            elif list(got[2]) != value:
                                bad.append((what, "%s, %d octets: %s" % (name, len(want), vdiff(b, c, value, got[2])[:300])))
    finally:
        os.path.exists(path) and os.unlink(path)
        os.rmdir(d)
    return n, bad


@suite
def pdu_defaults(ctx, args):
    """C04, C16: a PDU constructed without arguments says its own type, family and version 7, and decodes as itself."""
    b, bad = ctx.b, []
    c = args["class"]
    obj = b.new(c)
    lay = b.layout[c]
    want = (7, lay["ty"], int(lay["fam"]))
    got = (obj.protocolVersion, obj.pduType, obj.protocolFamily)
    if got != want:
        bad.append(("%s:defaults" % c, "version, type, family are %s instead of %s" % (got, want)))
    data = b.serialize(obj)
    if list(data[:1] + data[2:4]) != list(want):
        bad.append(("%s:defaults" % c, "header octets %s" % hexs(data[:12])))
    n = 2
    if b.dispatch.get(lay["ty"]) == c:
        n += 1
        back = factory.createPdu(data)
        if type(back).__name__ != c or b.project(c, back) != b.project(c, obj):
            bad.append(("%s:default-decode" % c, "createPdu gives %r" % (back,)))
    elif lay["k"] == "pdu":
        n += 1
        back = b.parse(c, data)[0]
        if b.project(c, back) != b.project(c, obj):
            bad.append(("%s:default-decode" % c, "parse gives something else"))
    return n, bad


# -- bit fields (Bits.tla) ---------------------------------------------------------
BITS = ("CONSTANTS P8 = %d P16 = %d P32 = %d Depth = %d EmitOn = TRUE Wild = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
        "INVARIANTS Width RoundTrip MSBFirst %s\nPROPERTIES Independent\n")


def bits_load(ctx):
    p = (8, 4, 3) if ctx.thorough else (8, 3, 2)
    recs = ctx.tlc(tlc.run("Bits", BITS % (p + (0, "FALSE", "Emit")) + "VIEW View\n"))
    defs = [r for r in recs if "def" in r]
    published = [r["published"] for r in recs if "published" in r][0]
    per = {}
    for r in recs:
        if "ws" in r:
            per.setdefault(tuple(r["ws"]), []).append(r)
    groups = [per[k] for k in sorted(per)]
    depth = 30 if ctx.thorough else 12
    recs = ctx.tlc(tlc.simulate("Bits", BITS % (0, 0, 0, depth, "TRUE", "EmitHist"), 12000 if ctx.thorough else 800, depth + 5, ctx.seed))
    return defs, published, groups, [r for r in recs if "ws" in r]


def nat(bits):
    return int("".join(map(str, bits)) or "0", 2)


def bit_name(i, prefix="f"):
    """Names in no order of any kind: the order of the fields is that of the definition."""
    return "%s%s%d" % ("zaMkB_cYf"[i * 5 % 9], prefix, i * 7 % 33)


def bitstruct(ws, prefix="f"):
    from opendis.record import bitfield
    d = [(bit_name(i, prefix), bitfield.INTEGER, w) for i, w in enumerate(ws)]
    return bitfield.bitfield("T", tuple(d) if len(ws) % 3 == 1 else d)


def out(x):
    s = io.BytesIO()
    x.serialize(DataOutputStream(s))
    return s.getvalue()


def bit_values(x, ws, prefix="f"):
    return [getattr(x, bit_name(i, prefix)) for i in range(len(ws))]


@suite
def bit_states(ctx, args):
    """C15: every structure and contents of the specification: packed, parsed, and reached from one another field by field."""
    n, bad = 0, []
    for group in part(ctx, args):
        ws = group[0]["ws"]
        where = "bits-%d" % sum(ws)
        B = bitstruct(ws)
        twin = bitstruct(ws, "g")       # another structure of the same name and widths
        if B.marshalledSize() != sum(ws) // 8:
            bad.append((where + ":size", "widths %s: marshalledSize %s" % (ws, B.marshalledSize())))
        prev = B()
        held = []
        for r in group:
            n += 1
            vals, octets = [nat(v) for v in r["vals"]], bytes(r["b"])
            x = B(*vals)
            y = B(**{bit_name(i): v for i, v in enumerate(vals)})
            if out(x) != octets or out(y) != octets:
                bad.append((where + ":octets", "widths %s values %s: %s instead of %s" % (ws, vals, hexs(out(x)), hexs(octets))))
                break
            s = DataInputStream(io.BytesIO(octets + b"\x5a\xa5"))
            z = B.parse(s)
            if bit_values(z, ws) != vals or s.stream.tell() != len(octets):
                bad.append((where + ":parse", "widths %s octets %s: %s instead of %s" % (ws, hexs(octets), bit_values(z, ws), vals)))
                break
            g = twin.parse(DataInputStream(io.BytesIO(octets)))
            if bit_values(g, ws, "g") != vals:
                bad.append((where + ":parse", "a second structure: %s instead of %s" % (bit_values(g, ws, "g"), vals)))
            # from the contents before to these, one field after the other
            now = bit_values(prev, ws)
            for i in sorted(range(len(ws)), key=lambda i: (i * 7 + n) % (len(ws) + 1)):
                setattr(prev, bit_name(i), vals[i])
                now[i] = vals[i]
                if bit_values(prev, ws) != now:
                    bad.append((where + ":set", "widths %s, field %d set to %d: %s instead of %s" % (ws, i, vals[i], bit_values(prev, ws), now)))
                    return n, bad
            if out(prev) != octets or out(z) != octets:
                bad.append((where + ":octets", "widths %s values %s set one by one: %s" % (ws, vals, hexs(out(prev)))))
                break
            held.append((x, vals, octets))
            prev = z
            for cut in range(len(octets)):
                try:
                    B.parse(DataInputStream(io.BytesIO(octets[:cut])))
                    bad.append((where + ":truncated", "widths %s parsed from %d octets" % (ws, cut)))
                except Exception:
                    pass
        for x, vals, octets in held:
            if bit_values(x, ws) != vals or out(x) != octets:
                bad.append((where + ":shared", "widths %s: a structure made earlier now holds %s instead of %s" % (ws, bit_values(x, ws), vals)))
                break
    return n, bad


@suite
def bit_histories(ctx, args):
    n, bad = 0, []
    for r in part(ctx, args):
        ws = r["ws"]
        where = "bits-%d:history" % sum(ws)
        B = bitstruct(ws)
        x = B()
        for k, h in enumerate(r["hist"]):
            if h["op"] == "stop":
                break
            n += 1
            vals = [nat(v) for v in h["vals"]]
            if h["op"] == "set":
                setattr(x, bit_name(h["i"] - 1), vals[h["i"] - 1])
            elif h["op"] == "parse":
                x = B.parse(DataInputStream(io.BytesIO(bytes(h["b"]))))
            if out(x) != bytes(h["b"]) or bit_values(x, ws) != vals:
                bad.append((where, "widths %s step %d %s: values %s octets %s instead of %s %s" % (
                    ws, k, h["op"], bit_values(x, ws), hexs(out(x)), vals, hexs(h["b"]))))
                break
    return n, bad


@suite
def bit_defs(ctx, args):
    from opendis.record import bitfield
    n, bad = 0, []
    for r in part(ctx, args):
        if r["un"]:
            continue
        n += 1
        d = [(bit_name(i), k, w) for i, (k, w) in enumerate(r["def"])]
        try:
            bitfield.bitfield("T", d)
            ok = True
        except Exception as ex:
            ok, why = False, repr(ex)
        if ok != r["ok"]:
            bad.append(("definition:%s" % ("refused" if r["ok"] else "accepted"), "%s%s" % (r["def"], "" if ok else " " + why)))
    return n, bad


@suite
def bit_records(ctx, args):
    """C15: the records made of bit fields have their published bits."""
    b, n, bad = ctx.b, 0, []
    c = args["class"]
    names = {"SpreadSpectrum": ["frequencyHopping", "pseudoNoise", "timeHopping", "padding"],
             "NetId": ["netNumber", "frequencyTable", "mode", "padding"], "DEFireFlags": ["weaponOn", "stateUpdateFlag", "padding"]}[c]
    cls = b.types[c]
    x = cls()
    ws = args["ws"]
    flags = {a for a in names if c == "SpreadSpectrum" and a != "padding" or a == "weaponOn"}
    args_of = [a for a in names if c != "DEFireFlags" or a != "padding"]
    rng = ctx.rng("bit records", c)
    tops = [0] + list(range(1 << 16)) if ctx.thorough else sorted({0, 0xffff} | {1 << i for i in range(16)} | {0xffff ^ 1 << i for i in range(16)} |
                                                              {rng.randrange(1 << 16) for _ in range(3000)})
    for v in tops:
        n += 1
        bits = format(v, "016b")
        vals, at = [], 0
        for w in ws:
            vals.append(int(bits[at:at + w], 2))
            at += w
        octets = v.to_bytes(2, "big")
        s = DataInputStream(io.BytesIO(octets + b"\x77"))
        x.parse(s)
        got = [int(getattr(x, a)) for a in names]
        if got != vals or s.stream.tell() != 2:
            bad.append((c + ":parse", "octets %s: %s instead of %s" % (hexs(octets), dict(zip(names, got)), vals)))
            break
        if out(x) != octets:
            bad.append((c + ":octets", "octets %s are written back as %s" % (hexs(octets), hexs(out(x)))))
            break
        typed = [(a, bool(t) if a in flags else t) for a, t in zip(names, vals)]
        y = cls(**{a: t for a, t in typed if a in args_of})
        z = cls()
        for a, t in typed:
            setattr(z, a, t)
            if a not in args_of:
                setattr(y, a, t)
        if out(y) != octets or out(z) != octets:
            bad.append((c + ":octets", "values %s are written as %s and %s instead of %s" % (vals, hexs(out(y)), hexs(out(z)), hexs(octets))))
            break
        for i, a in enumerate(names):       # changing one field changes no other
            t = rng.randrange(1 << ws[i])
            setattr(x, a, bool(t) if a in flags else t)
            vals[i] = t
            want = bytes(int("".join(format(q, "0%db" % w) for q, w in zip(vals, ws)), 2).to_bytes(2, "big"))
            if out(x) != want:
                bad.append((c + ":set", "%s set to %d: %s instead of %s" % (a, t, hexs(out(x)), hexs(want))))
                return n, bad
    return n, bad


# -- the entity marking (Marking.tla) -------------------------------------------------
def marking_load(ctx):
    head = "CONSTANTS Marks = %d Depth = %d EmitOn = %s Lengths = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Twelve ReadsBack %s\nPROPERTIES SetOnly TextOnly Alone\n"
    ctx.tlc(tlc.run("Marking", head % (1, 0, "FALSE", ints((0, 1, 10, 11, 12)), "") + "VIEW View\n"))
    ctx.tlc(tlc.run("Marking", head % (2, 0, "FALSE", ints((1, 12) if ctx.thorough else ()), "") + "VIEW View\n"))
    depth = 40 if ctx.thorough else 14
    recs = ctx.tlc(tlc.simulate("Marking", head % (3, depth, "TRUE", ints(list(range(16)) + [20, 40, 200]), "Emit"),
                                10000 if ctx.thorough else 1000, depth + 5, ctx.seed))
    return tlc.unique(r for r in recs if "text" in r), [r["hist"] for r in recs if "hist" in r]


def marking_matches(m, octets, shown, where, said, bad):
    got = out(m)
    if got != bytes(octets):
        bad.append((where + ":octets", "%s: %s instead of %s" % (said, hexs(got), hexs(octets))))
        return False
    if shown:
        want = bytes(shown[0]).decode("latin-1")
        if m.charactersString() != want:
            bad.append((where + ":text", "%s: reads back %r instead of %r" % (said, m.charactersString(), want)))
            return False
    return True


@suite
def marking_texts(ctx, args):
    b, n, bad = ctx.b, 0, []
    M = b.types["EntityMarking"]
    for k, r in enumerate(part(ctx, args)):
        text = bytes(r["text"]).decode("latin-1")
        for cs in (0, 1, 255):
            for m in (M(cs), M(cs, list(range(200, 211))), M(cs, [0x41] * 11)):
                n += 1
                m.setString(text)
                marking_matches(m, [cs] + r["b"], r["shown"], "setString", repr(text), bad)
        # inside a PDU: nothing after it moves
        for c in ("EntityStatePdu", "AggregateStatePdu"):
            a = {"EntityStatePdu": "marking", "AggregateStatePdu": "aggregateMarking"}[c]
            p = b.new(c)
            m = getattr(p, a)
            if type(m) is not M:
                continue
            n += 1
            before = out(p)
            m.setString(text)
            after = out(p)
            at = [i for i in range(len(before)) if before[i] != after[i]] if len(before) == len(after) else [-1]
            if at and (at[0] < 0 or at[-1] - at[0] >= 11):
                bad.append(("%s.%s" % (c, a), "%r changes octets %s" % (text, at[:3] + at[-3:])))
            back = b.parse(c, after)[0]
            marking_matches(getattr(back, a), [0] + r["b"], r["shown"], "%s.%s" % (c, a), repr(text), bad)
    return n, bad


@suite
def marking_histories(ctx, args):
    b, n, bad = ctx.b, 0, []
    for hist in part(ctx, args):
        M = b.types["EntityMarking"]
        ms = [M() for _ in hist[0]["b"]]
        for k, h in enumerate(hist):
            if h["op"] == "stop":
                break
            n += 1
            at = h["m"] - 1
            m = ms[at]
            if h["op"] == "setString":
                m.setString(bytes(h["t"]).decode("latin-1"))
            elif h["op"] == "characterSet":
                m.characterSet = h["t"][0]
            elif h["op"] == "poke":
                m.characters[h["t"][0] - 1] = h["t"][1]
            elif h["op"] == "fresh":
                ms[at] = M()
            else:
                m.parse(DataInputStream(io.BytesIO(bytes(h["t"]))))
            said = "step %d of %s" % (k, [(x["op"], x["m"], bytes(x["t"])) for x in hist[:k + 1]])
            if not all(marking_matches(x, h["b"][q], h["shown"][q], h["op"] if q == at else "another", "marking %d, %s" % (q + 1, said), bad)
                       for q, x in enumerate(ms)):
                break
    return n, bad
