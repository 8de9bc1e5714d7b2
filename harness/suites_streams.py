"""Replaying Streams.tla into the stream classes, and recording their use for StreamTrace.tla."""
import io, json, math, os, random, shutil, tempfile

import tlc
from core import part, slices, suite
from bind import DataInputStream, DataOutputStream
from suites_codec import hexs

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"
# name -> (kind of value, octets): what the recorder generates for each primitive
PRIMS = {"boolean": ("bool", 1), "byte": ("int", 1), "unsigned_byte": ("int", 1), "char": ("char", 2), "char8": ("char", 1),
         "double": ("float", 8), "float": ("float", 4), "short": ("int", 2), "unsigned_short": ("int", 2), "long": ("int", 8),
         "int": ("int", 4), "unsigned_int": ("int", 4), "utf": ("octets", 2), "bytes": ("octets", 0), "float32": ("float", 4),
         "float64": ("float", 8), "int8": ("int", 1), "int16": ("int", 2), "int32": ("int", 4), "int64": ("int", 8),
         "uint8": ("int", 1), "uint16": ("int", 2), "uint32": ("int", 4), "uint64": ("int", 8)}


class Skip(Exception):
    """The value cannot be written down in Python (a character beyond Unicode)."""


def real(name, flat):
    """The Python value of a value of the specification."""
    t = flat[0]
    if t == "int":
        x = int.from_bytes(bytes(flat[2]), "big") * (-1 if flat[1] else 1)
        if PRIMS[name][0] == "char":
            if not 0 <= x < 0x110000:
                raise Skip()
            return chr(x)
        return x
    if t == "float":
        neg, kind, e, bits = flat[1:]
        x = {"zero": 0.0, "inf": math.inf, "nan": math.nan}.get(kind)
        if x is None:
            x = math.ldexp(int("".join(map(str, bits)), 2), e - len(bits) + 1)
        return -x if neg else x
    if t == "bool":
        return bool(flat[1])
    return bytes(flat[1])


def flat(name, x):
    """The value of the specification for a Python value that a primitive gave, or None."""
    kind = PRIMS[name][0]
    if kind == "bool":
        return ["bool", int(x)] if isinstance(x, bool) else None
    if kind == "octets":
        return ["octets", list(x)] if isinstance(x, (bytes, bytearray)) else None
    if kind == "char":
        if not isinstance(x, str) or len(x) != 1:
            return None
        x = ord(x)
    if kind in ("int", "char"):
        if not isinstance(x, int) or isinstance(x, bool):
            return None
        m = abs(x)
        return ["int", x < 0, list(m.to_bytes((m.bit_length() + 7) // 8, "big"))]
    if not isinstance(x, float):
        return None
    neg = math.copysign(1, x) < 0
    if x != x or math.isinf(x) or x == 0:
        return ["float", neg and x == x, "nan" if x != x else "inf" if math.isinf(x) else "zero", 0, []]
    m, e = math.frexp(abs(x))
    bits = bin(int(m * 2 ** 53))[2:].rstrip("0")
    return ["float", neg, "fin", e - 1, [int(c) for c in bits]]


def same(a, b):
    return a == b or (a and b and a[0] == b[0] == "float" and a[2] == b[2] == "nan")


def do_write(stream, name, x):
    getattr(DataOutputStream(stream), "write_" + name)(x)


def do_read(stream, name, k):
    f = getattr(DataInputStream(stream), "read_" + name)
    return f(k) if name == "bytes" else f()


# -- behaviours of Streams.tla ------------------------------------------------------
def streams_load(ctx):
    ctx.tlc(tlc.run("Streams", "CONSTANTS Depth=0 EmitOn=FALSE MaxLen=%d\n" % (3 if ctx.thorough else 2) + CFG +
                    "VIEW View\nINVARIANTS TypeOK\nPROPERTIES ReadOnly Local\n"))
    recs = ctx.tlc(tlc.simulate("Streams", "CONSTANTS Depth=%d EmitOn=TRUE MaxLen=400\n" % (60 if ctx.thorough else 25) + CFG + "INVARIANTS TypeOK Emit\n",
                                4000 if ctx.thorough else 480, 70, ctx.seed))
    return tlc.unique(r for r in recs if "prim" in r), [r["hist"] for r in recs if "hist" in r]


@suite
def prim(ctx, args):
    """C14: each value of the pools on its own."""
    n, bad = 0, []
    for r in part(ctx, args):
        name, ok = r["prim"], r["ok"]
        try:
            x = real(name, r["v"])
        except Skip:
            continue
        n += 1
        for start in (b"", b"\x11\x22\x33"):
            s = io.BytesIO(start)
            s.seek(len(start))
            try:
                do_write(s, name, x)
                got = True
            except Exception:
                got = False
            if got != ok:
                bad.append(("write_%s:%s" % (name, "refused" if ok else "accepted"), "%r; octets %s" % (x, hexs(s.getvalue()))))
                break
            if not ok:
                break
            if s.getvalue() != start + bytes(r["b"]):
                bad.append(("write_%s:octets" % name, "%r gives %s instead of %s" % (x, hexs(s.getvalue()[len(start):]), hexs(r["b"]))))
                break
        if not ok:
            continue
        for more in (b"", b"\xee\xdd"):
            s = io.BytesIO(bytes(r["b"]) + more)
            try:
                y = do_read(s, name, len(r["b"]))
            except Exception as ex:
                bad.append(("read_%s:refused" % name, "%s raises %r" % (hexs(r["b"]), ex)))
                break
            want = flat(name, x) if PRIMS[name] != ("float", 4) else flat(name, rounded(r["b"]))
            if not same(flat(name, y), want) or s.tell() != len(r["b"]):
                bad.append(("read_%s:value" % name, "%s read as %r after writing %r, %d octets taken" % (hexs(r["b"]), y, x, s.tell())))
                break
    return n, bad


def rounded(b):
    import struct
    return struct.unpack(">f", bytes(b))[0]


def streams_of():
    """The kinds of stream the histories run on."""
    yield "memory", io.BytesIO()
    yield "file", tempfile.TemporaryFile(buffering=16)


@suite
def stream_history(ctx, args):
    """C14: primitives in any order on one stream: result, position and octets of every step."""
    n, bad = 0, []
    for hist in part(ctx, args):
        for kind, s in streams_of():
            with s:
                n += play(hist, kind, s, bad)
    return n, bad


def play(hist, kind, s, bad):
    o, i = DataOutputStream(s), DataInputStream(s)
    n = 0
    for k, h in enumerate(hist):
        op, name = h["op"], h["n"]
        if op == "stop":
            break
        n += 1
        where = "%s_%s:history" % (op, name) if name else op
        if op == "seek":
            s.seek(h["k"])
            continue
        got, res = None, "ok"
        try:
            if op == "write":
                try:
                    x = real(name, h["v"])
                except Skip:
                    continue
                getattr(o, "write_" + name)(x)
            else:
                f = getattr(i, "read_" + name)
                got = f(h["k"]) if name == "bytes" else f()
        except Exception as ex:
            res = "error"
            why = repr(ex)
        said = "step %d on a %s stream, %s_%s(%s)" % (k, kind, op, name, h["v"] if op == "write" else h["k"])
        if res != h["res"]:
            bad.append((where, "%s: %s instead of %s %s; before: %s" % (said, res, h["res"], why if res == "error" else repr(got), hist[k - 1:k])))
            break
        if res == "error":
            if op == "read":
                continue        # the position is not known until the next seek
        elif op == "read" and not same(flat(name, got), h["v"]):
            bad.append((where, "%s: %r instead of %s" % (said, got, h["v"])))
            break
        at = s.tell()
        s.seek(0)
        mem = s.read()
        s.seek(at)
        if at != h["pos"] or mem != bytes(h["mem"]):
            bad.append((where, "%s: position %d octets %s instead of %d %s" % (said, at, hexs(mem), h["pos"], hexs(h["mem"]))))
            break
    return n


# -- recorded uses for StreamTrace.tla -----------------------------------------------
def values(name, rng, count):
    kind, w = PRIMS[name]
    if kind == "bool":
        return [True, False]
    if kind == "octets":
        return [rng.randbytes(rng.choice([0, 1, 2, 3, 7, 8, 50])) for _ in range(count // 4)] + [bytes(300)]
    if kind == "char":
        return [chr(x) for x in range(256)] + [chr(rng.randrange(0xd800)) for _ in range(count)] + [chr(x) for x in (0xe000, 0xffff, 0x10000, 0x10ffff)]
    if kind == "int":
        if w == 1:
            return list(range(-300, 560))
        out = [rng.getrandbits(rng.randrange(1, 8 * w + 2)) * rng.choice([1, 1, -1]) for _ in range(count)]
        for e in (8 * w - 1, 8 * w, 8 * w + 1, 7, 8, 15, 16, 31, 32, 63, 64):
            out += [2 ** e + d for d in (-2, -1, 0, 1)] + [-2 ** e + d for d in (-1, 0, 1)]
        return out
    out = []
    for _ in range(count):
        e = rng.choice([rng.randrange(-1080, 1024), rng.randrange(-155, 130), rng.randrange(-10, 40)])
        x = math.ldexp(rng.choice([rng.getrandbits(53), rng.getrandbits(25) | 1 << 24, rng.getrandbits(12) + 1]), e - 52)
        out.append(rng.choice([x, -x]))
    return out + [3.4028234663852886e38, 3.4028235677973365e38, 3.4028235677973362e38, 1.7976931348623157e308, 5e-324, 1.401298464324817e-45]


@suite
def record_stream(ctx, args):
    """Use a primitive on many values and octets and write down what happened."""
    name = args["prim"]
    rng = ctx.rng("prim", name)
    kind, w = PRIMS[name]
    out = []
    for x in values(name, rng, args["count"]):
        v = flat(name, x)
        s = io.BytesIO()
        try:
            do_write(s, name, x)
            out.append({"e": "w", "n": name, "v": v, "ok": True, "b": list(s.getvalue())})
        except Exception:
            out.append({"e": "w", "n": name, "v": v, "ok": False, "b": []})
    pats = [bytes([x]) for x in range(256)] if w == 1 else []
    for k in range(args["count"]):
        pats.append(rng.randbytes(rng.choice([w, w, w + 3, max(0, w - 1), rng.randrange(0, 12)])))
        if kind == "float" and k % 4 == 0:      # zeros, infinities, NaN, subnormals
            pats.append(bytes(rng.choice([[0x7f, 0x80], [0xff, 0x80], [0x7f, 0xf0], [0xff, 0xf0], [0x80, 0], [0, 0], [0x7f, 0x7f]])) +
                        rng.choice([bytes(w - 2), rng.randbytes(w - 2)]))
    for k in range(2 ** 16 if w == 2 and args["all"] else 0):
        pats.append(k.to_bytes(2, "big"))
    if name == "utf":
        pats += [bytes([0, k]) + rng.randbytes(j) for k in (0, 1, 5, 200) for j in (0, 1, 4, 5, 6, 199, 200, 201)]
    for b in pats:
        k = rng.choice([0, 1, len(b), len(b), len(b) + 1, 5]) if name == "bytes" else 0
        s = io.BytesIO(b)
        try:
            x = do_read(s, name, k)
            v = flat(name, x)
            out.append({"e": "r", "n": name, "b": list(b), "k": k, "ok": True, "v": v if v else ["other", repr(x)], "u": s.tell()})
        except Exception:
            out.append({"e": "r", "n": name, "b": list(b), "k": k, "ok": False, "v": ["none", 0], "u": 0})
    with open(args["path"], "w") as f:
        for e in out:
            f.write(json.dumps(e) + "\n")
    return 0, []


def judge_stream(ctx, lines, d):
    path = os.path.join(d, "trace.json")
    with open(path, "w") as f:
        f.writelines(lines)
    recs = ctx.tlc(tlc.run("StreamTrace", CFG + "INVARIANT Report\n", {"TRACE": path}))
    if [r["events"] for r in recs if "events" in r] != [len(lines)]:
        raise RuntimeError("TLC did not read the whole trace")
    ctx.judged += len(lines)
    ctx.sample({"judged": json.loads(lines[0])})
    for r in recs:
        if "bad" in r:
            e = json.loads(lines[r["bad"] - 1])
            for why in r["why"]:
                ctx.violation("rejudge_stream", {"event": e}, "%s_%s:%s" % ("write" if e["e"] == "w" else "read", e["n"], why),
                              "the specification does not allow %s" % e)


@suite
def rejudge_stream(ctx, args):
    e = dict(args["event"])
    s = io.BytesIO(bytes(e["b"]))
    try:
        if e["e"] == "w":
            s = io.BytesIO()
            do_write(s, e["n"], real(e["n"], e["v"]))
            e.update(ok=True, b=list(s.getvalue()))
        else:
            x = do_read(s, e["n"], e["k"])
            e.update(ok=True, v=flat(e["n"], x) or ["other", repr(x)], u=s.tell())
    except Exception:
        e["ok"] = False
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        judge_stream(ctx, [json.dumps(e) + "\n"], d)
        bad = [(v["where"], v["detail"]) for v in ctx.violations]
        del ctx.violations[:]
        return 1, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


def record_streams(ctx, count, all16):
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        ctx.run([("record_stream", {"prim": p, "count": count, "all": all16, "path": os.path.join(d, p)}) for p in PRIMS], chunk=1)
        lines = []
        for p in PRIMS:
            if os.path.exists(os.path.join(d, p)):
                lines += open(os.path.join(d, p)).readlines()
        judge_stream(ctx, lines, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


@suite
def odd_values(ctx, args):
    """C14: values of the wrong kind, too long and negative counts are refused."""
    name = args["prim"]
    kind, w = PRIMS[name]
    odd = {"int": ["1", None, 1.5, b"\1", [1], 2 ** 70, -2 ** 70], "float": ["1", None, b"1", [1.0], 1j],
           "char": ["", "ab", None, 5, 1.5], "octets": [None, 5, 1.5], "bool": []}[kind]
    if name == "utf":
        odd += [bytes(65536), bytes(70000)]
    if name == "char8":
        odd += [chr(256), chr(0x20ac)]
    n, bad = 0, []
    for x in odd:
        n += 1
        s = io.BytesIO()
        try:
            do_write(s, name, x)
        except Exception:
            continue
        bad.append(("write_%s:accepted" % name, "%r written as %s" % (x if not isinstance(x, bytes) else len(x), hexs(s.getvalue()))))
    if name == "bytes":
        for k in (-1, -5):
            n += 1
            try:
                bad.append(("read_bytes:accepted", "read_bytes(%d) gives %r" % (k, do_read(io.BytesIO(b"abc"), name, k))))
            except Exception:
                pass
    if name == "utf":           # the longest text, exactly
        n += 1
        s = io.BytesIO()
        x = bytes(range(256)) * 256
        do_write(s, name, x[:65535])
        s.seek(0)
        if s.getvalue()[:2] != b"\xff\xff" or do_read(s, name, 0) != x[:65535]:
            bad.append(("write_utf:longest", "65535 octets do not come back"))
    return n, bad
