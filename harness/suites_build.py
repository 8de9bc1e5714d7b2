"""Replaying Ctor.tla, Datums.tla, Transmit.tla and Frames.tla; reported sizes."""
import io

import tlc
from core import part, slices, suite
from bind import Bad, DataInputStream, DataOutputStream, lookup, FAMILY, record
from suites_codec import diff, hexs, offsets, snapshot, tla_set, vdiff, vec_of
from suites_edit import counts_wrong, parts_of, size_wrong
from suites_parts import ints

END = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n"


# -- constructors (Ctor.tla) -------------------------------------------------------
def ctor_load(ctx):
    cfg = "CONSTANTS Kits = %s Which = {} Pairs = %s EmitOn = TRUE\n" % (
        ints(range(1, 8) if ctx.thorough else (1, 2, 3, 4)), "TRUE" if ctx.thorough else "FALSE")
    recs = ctx.tlc(tlc.run("Ctor", cfg + END % "Everything Nothing Representable OwnType Emit"))
    return sorted(recs, key=lambda r: (r["c"], len(r["given"]), r["given"], r["b"]))


def arguments(b, c, r, mode):
    vals = dict(b.fields(c, r["full"], mode))
    return {p: vals[b.alias.get((c, p), p)] for p in r["given"]}


@suite
def ctors(ctx, args):
    """C16: the object holds the arguments given, defaults otherwise; the arguments stay as they were."""
    b, bad, n = ctx.b, [], 0
    for r in part(ctx, args):
        c = r["c"]
        order = b.ctor[c]
        forms = ["keywords"]
        if r["given"] == order[:len(r["given"])] and r["given"]:
            forms.append("positions")
        if len(r["given"]) > 1:
            forms.append("reversed")
        for form in forms:
            n += 1
            where = "%s:%s" % (c, r["given"][0] if len(r["given"]) == 1 else "constructor" if r["given"] else "default")
            said = "%s(%s) by %s" % (c, ", ".join(r["given"])[:300], form)
            try:
                kw = arguments(b, c, r, "ctor")
                before = snapshot(kw)
                if form == "positions":
                    obj = b.types[c](*[kw[p] for p in order[:len(kw)]])
                elif form == "reversed":
                    obj = b.types[c](**{p: kw[p] for p in reversed(list(kw))})
                else:
                    obj = b.types[c](**kw)
                if snapshot(kw) != before:
                    bad.append((where, said + " changed its arguments"))
                got = b.project(c, obj)
                if got != r["v"]:
                    bad.append((where, "%s: %s" % (said, vdiff(b, c, r["v"], got))))
                    continue
                data = b.serialize(obj)
                if data != bytes(r["b"]):
                    bad.append((where, "%s: %s" % (said, diff(r["b"], data))))
            except Exception as ex:
                bad.append((where, "%s: %r" % (said, ex)))
    return n, bad


@suite
def default_again(ctx, args):
    """C16: a default object, decoded from its own octets, is equal to it; so is one decoded into a used object."""
    b, c, n, bad = ctx.b, args["class"], 0, []
    obj = b.new(c)
    v, data = b.project(c, obj), b.serialize(obj)
    back, at = b.parse(c, data)
    n += 1
    if b.project(c, back) != v or at != len(data):
        bad.append(("%s:default" % c, "decoded default: %s" % vdiff(b, c, v, b.project(c, back))))
    if b.serialize(b.new(c)) != data or b.project(c, b.new(c)) != v:
        bad.append(("%s:default" % c, "two default objects differ"))
    return n, bad


# -- datums (Datums.tla) and Transmitter PDUs (Transmit.tla) as further vectors ------
def datums_load(ctx):
    cfg = "CONSTANTS MaxBits = %d Long = %s MaxPair = %d Lens = %s Most = %d Many = %s EmitOn = TRUE\n" % (
        (700, "{65528, 65536, 65537, 65544, 131080, 524288, 524296}", 200, ints((0, 1, 8, 40, 57, 63, 64, 65, 128, 130)), 2, ints((15, 33, 64, 100, 129, 255, 256, 257, 300))) if ctx.thorough else
        (200, "{65535, 65544, 131080}", 66, ints((0, 1, 8, 40, 57, 64, 65, 130)), 2, ints((17, 65, 260))))
    return extra(ctx, tlc.run("Datums", cfg + END % "Sized Framed Restored Emit"))


def transmit_load(ctx):
    cfg = ("CONSTANTS Systems = {0,1,2,3,4,5,6,7,77,65535} Majors = {0,1,2,65535} ModLens = {0,1,8,15,16,17,24,40} AntTypes = {0,1,2,65535} "
           "AntLens = {0,1,8,39,40,41,48,80} Lists = {0,1,2,3,4} LongMods = {64,127,128,129,255} "
           "LongAnts = {127,128,255,256,257,4096,%s65535} Deep = %s EmitOn = TRUE\n" % (("32767,32768,", "TRUE") if ctx.thorough else ("", "FALSE")))
    if ctx.thorough:
        cfg = cfg.replace("{0,1,2,3,4,5,6,7,77,65535}", "{0,1,2,3,4,5,6,7}").replace("AntTypes = {0,1,2,65535}", "AntTypes = {0,1,2}").replace(
            "Lists = {0,1,2,3,4}", "Lists = {0,2,3}").replace("Majors = {0,1,2,65535}", "Majors = {0,1}")
    return extra(ctx, tlc.run("Transmit", cfg + END % "Whole Selected InOrder Emit"))


def extra(ctx, result):
    """Vectors besides those of Vectors.tla: their indices."""
    recs = sorted(ctx.tlc(result), key=lambda r: (r["c"], r["pat"], len(r["b"]), r["b"]))
    offsets(recs)
    at = len(ctx.vec)
    ctx.vec = ctx.vec + recs
    return list(range(at, len(ctx.vec)))


@suite
def mismatched(ctx, args):
    """C12: whatever the type fields say, the parts the object holds are written whole and their lengths declared."""
    b, n, bad = ctx.b, 0, []
    r = vec_of(ctx, args)
    c, v, e = r["c"], r["v"], bytes(r["b"])
    rng = ctx.rng("mismatch", args.get("vec", 0))
    obj = b.build(c, v, rng.choice(["ctor", "set", "mut"]))
    for k in range(6):
        system, major, ant = (rng.choice([0, 1, 2, 3, 6, 9, 65535]) for _ in range(3))
        obj.modulationType.radioSystem, obj.modulationType.majorModulation, obj.antennaPatternType = system, major, ant
        want = bytearray(e)
        for path, k2, at, w in [(o[1], o[0], o[2], o[3]) for o in r["ops"]]:
            it = b.layout[c]["f"][path[0] - 1]
            if it["n"] == "antennaPatternType":
                want[at:at + w] = ant.to_bytes(2, "big")
            if it["n"] == "modulationType" and len(path) == 2:
                name = b.layout["ModulationType"]["f"][path[1] - 1]["n"]
                if name in ("radioSystem", "majorModulation"):
                    want[at:at + w] = (system if name == "radioSystem" else major).to_bytes(2, "big")
        n += 1
        got = b.serialize(obj)
        if got != bytes(want):
            bad.append(("%s:declared" % c, "radio system %d, major %d, antenna type %d: %s" % (system, major, ant, diff(want, got))))
    return n, bad


@suite
def overlong(ctx, args):
    """C12: parts longer than their declared length can say are refused, whatever else the PDU holds."""
    b, n, bad = ctx.b, 0, []
    for what, cls, sizes in (("modulationParameters", "UnknownRadio", (256, 257, 264, 511, 512, 65536)),
                             ("antennaPattern", "UnknownAntennaPattern", (65536, 65537, 65576, 131072))):
        for size in sizes:
            for build in (lambda: b.types["TransmitterPdu"](), lambda: b.parse("TransmitterPdu", b.serialize(b.types["TransmitterPdu"]()))[0]):
                obj = build()
                n += 1
                setattr(obj, what, b.types[cls](bytes(size)))
                try:
                    got = b.serialize(obj)
                except Exception:
                    continue
                bad.append(("TransmitterPdu:overlong", "%s of %d octets is written, as %d octets" % (what, size, len(got))))
    return n, bad


# -- standard variable records (Frames.tla) -------------------------------------------
def frames_load(ctx):
    cfg = "CONSTANTS Lens = %s BodyPats = %s EmitOn = TRUE\n" % (
        (ints(list(range(0, 50)) + [56, 64, 72, 80, 88, 96, 97, 104, 112, 65535]), tla_set(["zero", "ctr", "small", "ff"])) if ctx.thorough else
        (ints((0, 5, 6, 7, 8, 9, 10, 14, 16, 24, 32, 33, 40, 48, 56, 88, 96, 104)), tla_set(["zero", "ctr", "small"])))
    recs = ctx.tlc(tlc.run("Frames", cfg + END % "Refused Placeholders Counted Emit"))
    return (sorted((r for r in recs if "frames" in r), key=lambda r: (r["c"], r["b"])),
            sorted((r for r in recs if "size" in r), key=str))


@suite
def frames(ctx, args):
    """C13: frames decode as the specification says, or are rejected."""
    b, n, bad = ctx.b, 0, []
    for r in part(ctx, args):
        c, data = r["c"], bytes(r["b"])
        said = "frames %s in %s" % (", ".join(hexs(f) for f in r["frames"]), c)
        where = "%s:%s" % (c, "frames" if r["ok"] else "accepted")
        tail = b"\xff\xff\0\x01\0\x10" if r["ok"] else b"\0" * 64
        for post in (b"", tail) if r["ok"] or args.get("more") else (b"",):
            n += 1
            s = io.BytesIO(data + post)
            obj = b.new(c) if c not in b.nodefault else None
            try:
                b.parse_into(c, obj, DataInputStream(s))
                v = b.project(c, obj)
            except Exception as ex:
                if r["ok"]:
                    bad.append((where, "%s: %r" % (said, ex)))
                continue
            if not r["ok"]:
                bad.append((where, "%s: accepted as %s" % (said, str(v[-1])[:400])))
                continue
            if v != r["v"]:
                bad.append((where, "%s: %s" % (said, vdiff(b, c, r["v"], v))))
                continue
            if s.tell() != len(data):
                bad.append((where, "%s: %d octets of %d consumed" % (said, s.tell(), len(data))))
            again = b.serialize(obj)
            if again != bytes(r["re"]):
                bad.append((where, "%s: %s" % (said, diff(r["re"], again))))
    return n, bad


@suite
def record_sizes(ctx, args):
    """C13, C25: a record too long for its length field is refused, up to there it is written whole."""
    b, n, bad = ctx.b, 0, []
    for r in part(ctx, args):
        if "data" in r:
            for fam in sorted(FAMILY):
                for ty in (5000, 0, 0xffffffff):
                    obj = record.getStandardVariableClass(ty, lookup(FAMILY[fam]))(bytes(i * 7 % 256 for i in range(r["data"])))
                    n += 1
                    if _whole(b, bad, "Unknown:size", obj, ty, r["size"], r["fits"]) and r["fits"] and r["size"] % 8 == 0:
                        n += _received(b, bad, fam, ty, obj)
        else:
            A, B, D = (lookup(x) for x in ("DirectedEnergyAreaAimpoint", "BeamAntennaPattern", "DirectedEnergyTargetEnergyDeposition"))
            obj = A([B() for _ in range(r["beams"])], [D() for _ in range(r["deps"])])
            n += 1
            if _whole(b, bad, "DirectedEnergyAreaAimpoint:size", obj, 4001, r["size"], r["fits"]) and r["fits"] and r["size"] % 8 == 0:
                n += _received(b, bad, "damage", 4001, obj)
    return n, bad


def _received(b, bad, fam, ty, obj):
    """A record of any size that was written is the record that is read, in the PDUs that carry it."""
    data, n = b.serialize(obj), 0
    said = "a record of %d octets of type %d" % (len(data), ty)
    for c, l in b.layout.items():
        items = l.get("f") or []
        if not items or items[-1]["k"] != "sv" or items[-1]["t"] != fam or c in b.nodefault:
            continue
        n += 1
        try:
            v = b.project(c, b.new(c))
            one = b.project_sv(obj)
            for frames in ([one], [one, one]):
                pdu = b.build(c, v[:-1] + [frames], "ctor")
                e = b.serialize(pdu)
                back, at = b.parse(c, e)
                if not e.endswith(data * len(frames)) or at != len(e) or b.serialize(back) != e or b.project(c, back) != b.project(c, pdu):
                    bad.append(("%s:received" % c, "%s, %d times: %d octets, read up to %d, written again as %d" % (
                        said, len(frames), len(e), at, len(b.serialize(back)))))
        except Exception as ex:
            bad.append(("%s:received" % c, "%s: %r" % (said, ex)))
    return n


def _whole(b, bad, where, obj, ty, size, fits):
    said = "a record of %d octets" % size
    if obj.marshalledSize() != size:
        bad.append((where, "%s reports %d" % (said, obj.marshalledSize())))
    try:
        data = b.serialize(obj)
    except Exception as ex:
        if fits:
            bad.append((where, "%s: %r" % (said, ex)))
        return False
    if not fits:
        bad.append((where, "%s written with length %s" % (said, hexs(data[4:6]))))
    elif len(data) != size or data[:4] != ty.to_bytes(4, "big") or data[4:6] != size.to_bytes(2, "big"):
        bad.append((where, "%s written as %d octets %s.." % (said, len(data), hexs(data[:8]))))
        return False
    return True


# -- reported sizes ---------------------------------------------------------------------
@suite
def sizes(ctx, args):
    """C25: every record of an object reports the number of octets it writes, however it came to be."""
    b, n, bad = ctx.b, 0, []
    r = vec_of(ctx, args)
    c, v, e = r["c"], r["v"], bytes(r["b"])
    for mode in ("ctor", "set", "mut", "parsed"):
        try:
            obj = b.parse(c, e)[0] if mode == "parsed" else b.build(c, v, mode)
            for pc, p in parts_of(b, c, obj):
                if hasattr(p, "marshalledSize"):
                    n += 1
                    w = size_wrong(b, pc, p)
                    if w:
                        bad.append(("%s:size" % pc, "in %s by %s: %s" % (c, mode, w)))
                if pc != "Unknown" and hasattr(p, "marshalledSize") and b.layout[pc]["k"] in ("sv", "mod", "ant"):
                    # the size reported, as the declared length, restores the record
                    n += 1
                    data = b.serialize(p)
                    back = b.types[pc]()
                    s = io.BytesIO(data[6 if b.layout[pc]["k"] == "sv" else 0:] + b"\xff" * 8)
                    if b.layout[pc]["k"] == "sv":
                        back.parse(DataInputStream(s), p.marshalledSize())
                    else:
                        back.parse(DataInputStream(s), bytelength=p.marshalledSize())
                    if b.serialize(back) != data or b.project(pc, back) != b.project(pc, p):
                        bad.append(("%s:length" % pc, "parsed with the size it reports: %s" % diff(data, b.serialize(back))))
                    if s.tell() != len(data) - (6 if b.layout[pc]["k"] == "sv" else 0):
                        bad.append(("%s:length" % pc, "parsed with the size it reports: %d octets consumed" % s.tell()))
        except Exception as ex:
            bad.append(("%s:size" % c, "by %s: %r" % (mode, ex)))
    return n, bad
