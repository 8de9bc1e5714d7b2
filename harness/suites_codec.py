"""Replaying the specification's codec behaviours (Vectors.tla) into the implementation."""
import copy, enum, io, math, os, struct

import numpy as np

import tlc
from core import suite
from bind import Binding, Bad, DataInputStream, DataOutputStream, factory

INVS = "Representable StandardSize RoundTrip Reencode Truncated PrimsAreEnc Locality Emit"


def tla_set(xs):
    return "{%s}" % ", ".join('"%s"' % x for x in xs)


LONGS = [6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 23, 24, 31, 32, 33, 47, 48, 63, 64, 65, 100]
LONGER = [21, 22, 25, 26, 27, 28, 29, 30, 34, 35, 36, 40, 49, 50, 51, 66, 80, 99, 101, 127, 128, 129, 200, 250, 254, 255]


def load(ctx, which=(), pats=(), poke=False, cut=60, longs=False):
    """Explore the codec specification and keep the vectors it emits, and the layout tables."""
    cfg = ("CONSTANTS Which = %s Pats = %s Longs = {%s} EmitOn = TRUE CutMax = %d PokeOn = %s\nSPECIFICATION Spec\n"
           "CHECK_DEADLOCK FALSE\nINVARIANTS %s\n")
    recs = ctx.tlc(tlc.run("Vectors", cfg % (tla_set(which), tla_set(pats), "", cut, str(poke).upper(), INVS)))
    ctx.dump = [r for r in recs if "layout" in r][0]
    recs = [r for r in recs if "layout" not in r]
    if longs:                   # long lists and free parts
        sizes = ", ".join(str(n) for n in LONGS + (LONGER if ctx.thorough else []))
        more = ctx.tlc(tlc.run("Vectors", cfg % (tla_set(which), tla_set(["mix"]), sizes, 0, "FALSE", INVS)))
        recs += [dict(r, pat="long") for r in more if "layout" not in r]
    ctx.vec = sorted(recs, key=lambda r: (r["c"], r["s"], r["pat"]))
    ctx.b = Binding(ctx.dump)
    offsets(ctx.vec)
    return ctx.vec


def offsets(vecs):
    """Turn the ops [kind, path, length] of the vectors into [kind, path, offset, length]."""
    for r in vecs:
        at, ops = 0, []
        for k, path, n in r["ops"]:
            ops.append((k, tuple(path), at, n))
            at += n
        assert at == len(r["b"])
        r["ops"] = ops


def vec_of(ctx, args, key="vec"):
    return args[{"vec": "vector", "vec2": "vector2"}[key]] if {"vec": "vector", "vec2": "vector2"}[key] in args \
        else ctx.vec[args[key]]


def hexs(b):
    return bytes(b).hex()


def diff(a, b):
    """Where two octet strings differ."""
    a, b = bytes(a), bytes(b)
    i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "lengths %d and %d, first difference at octet %d: expected ..%s.., got ..%s.." % (
        len(a), len(b), i, a[max(0, i - 4):i + 8].hex(), b[max(0, i - 4):i + 8].hex())


def vdiff(b, c, v, w):
    """The first item in which two tuples of class c differ."""
    for it, x, y in zip(b.layout[c]["f"], v, w):
        if x != y:
            return "%s.%s: expected %s, got %s" % (c, it["n"] or it["k"], str(x)[:200], str(y)[:200])
    return "lengths differ"


def is_nan(octets):
    w = len(octets)
    x = struct.unpack(">f" if w == 4 else ">d", bytes(octets))[0]
    return math.isnan(x)


def set_at(v, path, x):
    """v with the component at path replaced (the tuples share the rest)."""
    v = list(v)
    if len(path) == 1:
        v[path[0] - 1] = x
    else:
        v[path[0] - 1] = set_at(v[path[0] - 1], path[1:], x)
    return v


def get_at(v, path):
    for i in path:
        v = v[i - 1]
    return v


def item_at(b, c, v, path):
    """The layout item of the primitive at path."""
    it = b.layout[c]["f"][path[0] - 1]
    x = v[path[0] - 1]
    k = it["k"]
    if len(path) == 1:
        return it
    if k == "rec":
        return item_at(b, it["t"], x, path[1:])
    if k == "list":
        return item_at(b, it["t"], x[path[1] - 1], path[2:])
    if k == "sv":
        e = x[path[1] - 1]
        return {"k": "rest", "n": "data", "w": 0} if e[0] == "Unknown" else item_at(b, e[0], e[2], path[3:])
    if k in ("mod", "ant"):
        return item_at(b, x[0], x[1], path[2:])
    return it


SELECTORS = {("TransmitterPdu", "modulationType"), ("TransmitterPdu", "antennaPatternType")}


def selects(b, c, path):
    """Does the field at path select how other octets are interpreted?"""
    return (c, b.layout[c]["f"][path[0] - 1]["n"]) in SELECTORS


# Values put into a field of w octets, as octet strings
def octets_for(rng, k, w, full):
    if k == "f":
        fmt = ">f" if w == 4 else ">d"
        xs = [0.0, -0.0, 1.0, -1.0, 0.5, 1e-30, -1e30, float("inf"), float("-inf"), 3.4e38, 123456.0]
        out = [struct.pack(fmt, x) for x in xs]
        out += [bytes(w - 1) + b"\1", b"\x7f\x7f" + b"\xff" * (w - 2) if w == 4 else b"\x7f\xef" + b"\xff" * 6]
        for _ in range(6):
            x = bytes(rng.randrange(256) for _ in range(w))
            if not is_nan(x):
                out.append(x)
        return out
    if w == 1 and full:
        return [bytes([x]) for x in range(256)]
    n = 8 * w
    xs = {0, 1, 2, 3, (1 << n) - 1, (1 << n) - 2, 1 << (n - 1), (1 << (n - 1)) - 1, (1 << (n - 1)) + 1}
    xs |= {1 << i for i in range(n)} | {((1 << n) - 1) ^ (1 << i) for i in range(0, n, 3)}
    xs |= {int.from_bytes(bytes(range(17, 17 + w)), "big"), 10 ** min(2 * w, 9) % (1 << n)}
    xs |= {(1 << (8 * i)) - 1 for i in range(1, w)} | {1 << (8 * i) for i in range(1, w)}
    xs |= {rng.randrange(1 << n) for _ in range(12 if full else 4)}
    return [x.to_bytes(w, "big") for x in sorted(xs)]


def bits_for(rng, widths, v):
    """Settings of a bit field structure: every field at its extremes while the others stay."""
    out = []
    for j, w in enumerate(widths):
        for x in {0, 1, (1 << w) - 1, 1 << (w - 1), rng.randrange(1 << w)}:
            u = list(v)
            u[j] = x
            out.append(u)
    return out


def bits_octets(widths, v):
    n = 0
    for w, x in zip(widths, v):
        n = n << w | x
    return n.to_bytes(2, "big")


def variants(ctx, r, full, kinds=("u", "i", "f", "a", "rest", "bits", "flag")):
    """(op, new value in the tuple, octets in place of the op's): one field changed at a time."""
    b, c, v = ctx.b, r["c"], r["v"]
    rng = ctx.rng("sweep", c, r["s"], r["pat"])
    for op in r["ops"]:
        k, path, at, n = op
        if k not in kinds or n == 0:
            continue
        if k == "bits":
            it = item_at(b, c, v, path)
            for u in bits_for(rng, it["w"], get_at(v, path)):
                yield op, u, bits_octets(it["w"], u)
        elif k == "flag":
            for x in (0, 1):
                yield op, [x], bytes([x])
        elif k in ("a", "rest"):
            old = get_at(v, path)
            for j in sorted({0, min(1, n - 1), n // 2, n - 1}):
                for x in {0, 255, 128, (old[j] + 1) % 256}:
                    u = list(old)
                    u[j] = x
                    yield op, u, bytes(u)
        else:
            for x in octets_for(rng, k, n, full and n == 1):
                yield op, list(x), x


def row_value(rng, k, w, common):
    """A value for a field of w octets, in a row of values for all fields: small ones, extremes, one that others have too."""
    if k == "f":
        x = rng.choice([0.0, 0.0, 1.0, -1.0, 0.5, -0.0, 1e9, float("inf"), None, None])
        if x is not None:
            return struct.pack(">f" if w == 4 else ">d", x)
        x = rng.randbytes(4)
        if is_nan(x):
            return bytes(w)
        if w == 4:
            return x
        return struct.pack(">d", struct.unpack(">f", x)[0]) if rng.randrange(2) else x + rng.randbytes(4)
    x = rng.choices([0, 1, 2, rng.randrange(3, 10), (1 << 8 * w) - 1, 1 << (8 * w - 1), common, None], [20, 13, 9, 28, 8, 4, 10, 8])[0]
    return rng.randbytes(w) if x is None else (x % (1 << 8 * w)).to_bytes(w, "big")


def row(ctx, rng, r):
    """Values for all fields of a vector at once: [(op, new value in the tuple, octets)].  By Vectors.tla's Poke each
    changes exactly its own octets."""
    b, c, v = ctx.b, r["c"], r["v"]
    common = rng.choice([0, 1, 2, 5, 77, 255, 256, 65535, 1 << 31, rng.randrange(1 << 64)])
    items = b.layout[c]["f"]
    out, chosen, like = [], {}, {}
    header = length_at(b, r)
    for i, it in enumerate(items):      # some records all zero, some equal to another of their kind
        if it["k"] == "rec":
            same = [j for j in range(i) if items[j]["k"] == "rec" and items[j]["t"] == it["t"]]
            k = rng.randrange(4)
            if k == 0:
                like[i + 1,] = None
            elif k == 1 and same:
                like[i + 1,] = (rng.choice(same) + 1,)
        elif it["k"] in ("list", "sv"):
            for j in range(1, len(v[i])):
                if rng.randrange(4) == 0:
                    like[i + 1, j + 1] = (i + 1, rng.randrange(j) + 1)
    for op in r["ops"]:
        k, path, at, n = op
        if n == 0 or k not in ("u", "i", "f", "a", "rest", "bits", "flag") or selects(b, c, path) or rng.randrange(12) == 0:
            continue
        d = 1 if tuple(path[:1]) in like else 2
        if tuple(path[:d]) in like and k in ("u", "i", "f", "a", "rest"):
            first = like[tuple(path[:d])]
            x = chosen.get(first + tuple(path[d:]), None if d == 2 else bytes(n)) if first else bytes(n)
            if x is not None and len(x) == n:
                chosen[tuple(path)] = x
                out.append((op, list(x), x))
                continue
        if k == "bits":
            it = item_at(b, c, v, path)
            x = [rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1), rng.randrange(1 << w)]) for w in it["w"]]
            out.append((op, x, bits_octets(it["w"], x)))
        elif k == "flag":
            x = rng.randrange(2)
            out.append((op, [x], bytes([x])))
        else:
            if k in ("a", "rest"):
                x = rng.choice([bytes(n), b"\xff" * n, rng.randbytes(n), rng.randbytes(n // 2) + bytes(n - n // 2), bytes(n // 2) + rng.randbytes(n - n // 2),
                                b" " * n, b"TANK 1 \0AB    ".ljust(n)[:n]])
            else:
                x = row_value(rng, k, n, common)
                if op is header and rng.randrange(4):       # as senders set it, or nearly
                    m = len(r["b"])
                    x = (rng.choice([m, m, m, m - 1, m + 1, m // 2, 12, 0]) % 65536).to_bytes(2, "big")
            chosen[tuple(path)] = x
            out.append((op, list(x), x))
    return out


def length_at(b, r):
    """The PDU header's own length field: its op, if there is one.  It is carried as it is, and decides nothing."""
    for op in r["ops"] if b.layout[r["c"]]["k"] == "pdu" else ():
        if op[3] == 2 and len(op[1]) <= 2 and item_at(b, r["c"], r["v"], op[1])["n"] == "length":
            return op


def native(b, it, x):
    """The attribute value for octets x of a primitive item."""
    if it["k"] in ("u", "i", "f", "lu"):
        return b.leaf(dict(it, k="u") if it["k"] == "lu" else it, x)
    if it["k"] == "rest":
        return bytes(x)
    return list(x)


# ---------------------------------------------------------------------------
@suite
def enc(ctx, args):
    """C01: the octets serialize() writes are those of the layout, at any stream position, however built."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    for mode in ("ctor", "set", "mut"):
        obj = b.build(c, v, mode)
        for pre in (b"", b"\xaa\0\x55"):
            s = io.BytesIO()
            s.write(pre)
            obj.serialize(DataOutputStream(s))
            n += 1
            if s.getvalue() != pre + e:
                bad.append(("%s:octets" % c, "%s built by %s at position %d: %s" % (
                    c, mode, len(pre), diff(pre + e, s.getvalue()))))
    return n, bad


@suite
def enc_fields(ctx, args):
    """C01: each field, at any depth, changes exactly its own octets."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    obj = b.build(c, v, "set")
    built = set()
    for (k, path, at, w), x, o in variants(ctx, r, args["full"]):
        want = e[:at] + o + e[at + w:]
        loc = b.locate(c, obj, path)
        if k == "bits":
            old = [(loc[0], a, getattr(loc[0], a)) for a in loc[2]["t"]]
            for (h, a, _), y in zip(old, x):
                setattr(h, a, y)
        else:
            old = b.get(loc)
            b.put(loc, x[0] if k == "flag" else native(b, loc[2], x))
        n += 1
        try:
            got = b.serialize(obj)
            if got != want:
                bad.append(("%s:field:%s" % (c, loc[2]["n"] or "bits"), "%s path %s = %s: %s" % (c, path, hexs(o), diff(want, got))))
        except Exception as ex:
            bad.append(("%s:field:%s" % (c, loc[2]["n"] or "bits"), "%s path %s = %s: %r" % (c, path, hexs(o), ex)))
        if k == "bits":
            for h, a, y in old:
                setattr(h, a, y)
        else:
            b.put(loc, old)
        if path not in built:       # once per field, an object constructed with the value
            built.add(path)
            n += 1
            got = b.serialize(b.build(c, set_at(v, path, x), "ctor"))
            if got != want:
                bad.append(("%s:field:%s" % (c, loc[2]["n"] or "bits"), "%s constructed with path %s = %s: %s" % (
                    c, path, hexs(o), diff(want, got))))
    if b.serialize(obj) != e:
        bad.append(("%s:restored" % c, "fields restored, octets differ"))
    return n, bad


class Named(enum.IntEnum):
    NONE = 0
    ONE = 1
    TWO = 2
    THREE = 3
    FOUR = 4
    FIVE = 5
    ALL8 = 255
    ALL16 = 65535
    ALL32 = (1 << 32) - 1


def guises(rng):
    """Programs give numbers in all their types: members of an enumeration, numpy's, whole numbers for floats."""
    def one(y):
        k = rng.randrange(3)
        if isinstance(y, int):
            if k == 0 and y in Named._value2member_map_:
                return Named(y)
            if k <= 1 and abs(y) < 1 << 63:
                return rng.choice([np.int64, np.uint64])(y) if y >= 0 else np.int64(y)
        elif isinstance(y, float):
            if k == 0 and y and abs(y) < 1 << 53 and y.is_integer():
                return int(y)
            if k == 1:
                z = np.float32(y) if abs(y) < 1e38 or math.isinf(y) else np.float64(y)
                return z if float(z) == y and math.copysign(1, z) == math.copysign(1, y) else np.float64(y)
        return y
    return one


def twinned(b, rng, c, v, mode):
    """An object, in which sometimes records that are equal are one, occurring several times."""
    b.twins = {} if rng.randrange(2) and mode != "mut" else None
    try:
        return b.build(c, v, mode)
    finally:
        b.twins = None


@suite
def rows(ctx, args):
    """C01-C13, C24, C25: fields do not influence one another: all of them set at once, in every pair of small values."""
    r = vec_of(ctx, args)
    b, c, what = ctx.b, r["c"], args["what"]
    bad, n = [], 0
    rng = ctx.rng("rows", c, r["s"], args["round"])
    used = b.new(c)
    for _ in range(args["rows"]):
        v, e = r["v"], bytearray(r["b"])
        for op, x, o in row(ctx, rng, r):
            v = set_at(v, op[1], x)
            e[op[2]:op[2] + op[3]] = o
        e = bytes(e)
        mode = rng.choice(["ctor", "set", "mut"])
        n += 1
        try:
            if what == "octets":
                b.guise = guises(rng) if rng.randrange(3) == 0 else None
                b.twins = {} if rng.randrange(3) == 0 and mode != "mut" else None
                try:
                    got = b.serialize(b.build(c, v, mode))
                finally:
                    said = mode + (" in other number types" if b.guise else "") + (", equal parts being one object" if b.twins else "")
                    b.guise = b.twins = None
                if got != e:
                    bad.append(("%s:rows" % c, "built by %s: %s" % (said, diff(e, got))))
            elif what == "value":
                _, why, detail = decode_check(b, c, b.serialize(b.build(c, v, mode)), v)
                if why:
                    bad.append(("%s:rows:%s" % (c, why), "%s; octets %s" % (detail, hexs(e))))
            elif what == "consumed":
                pre, post = rng.randbytes(rng.randrange(3)), rng.choice([b"", bytes(9), b"\xff" * 40, e])
                _, why, detail = decode_check(b, c, e, v, pre, post)
                if why:
                    bad.append(("%s:rows:%s" % (c, why), "%s; octets %s, then %s" % (detail, hexs(e), hexs(post))))
            elif what == "cut":
                head = length_at(b, r)
                for m in {rng.randrange(len(e)) for _ in range(4)} if e and b.layout[c]["k"] not in ("mod", "ant", "sv") else ():
                    if head and rng.randrange(2):       # the header says that this is all
                        e = e[:head[2]] + (m % 65536).to_bytes(2, "big") + e[head[2] + 2:]
                    try:
                        b.parse(c, e[:m])
                    except Exception:
                        continue
                    bad.append(("%s:rows:accepted" % c, "%d of %d octets accepted: %s" % (m, len(e), hexs(e[:m]))))
            elif what == "counts":
                got = b.serialize(twinned(b, rng, c, v, mode))
                for k, path, at, w in r["ops"]:
                    if k == "c" and len(got) == len(e) and got[at:at + w] != e[at:at + w]:
                        bad.append(("%s:rows:count" % c, "the count or length at octet %d of %s is written %s" % (at, hexs(e), hexs(got[at:at + w]))))
                back = b.project(c, b.parse(c, e)[0])
                for it, x, y in zip(b.layout[c]["f"], v, back):
                    if it["k"] in ("list", "lu", "sv") and len(x) != len(y):
                        bad.append(("%s:rows:count" % c, "%d elements of %s read instead of %d from %s" % (len(y), it["n"], len(x), hexs(e))))
            elif what == "outside":
                obj = b.build(c, v, mode)
                ops = [op for op in r["ops"] if op[0] in ("u", "i", "f") and op[3]]
                for k, path, at, w in rng.sample(ops, min(5, len(ops))):
                    loc = b.locate(c, obj, path)
                    old = b.get(loc)
                    x = rng.choice(outside(k, w))
                    if isinstance(x, int) and rng.randrange(2) and abs(x) < 1 << 63:
                        x = np.int64(x)
                    b.put(loc, x)
                    try:
                        got = b.serialize(obj)
                    except Exception:
                        got = None
                    b.put(loc, old)
                    if got is not None:
                        bad.append(("%s:rows:range:%s" % (c, loc[2]["n"]), "path %s = %r is written as %s in %s" % (path, x, hexs(got[at:at + w]), hexs(e))))
            elif what == "pure":
                obj = twinned(b, rng, c, v, mode)
                before = b.project(c, obj)
                first = b.serialize(obj)
                if b.project(c, obj) != before or b.serialize(obj) != first:
                    bad.append(("%s:rows:pure" % c, "serializing %s changes the object" % hexs(e)))
            elif what == "factory":
                ty, = [t for t, x in b.dispatch.items() if x == c]
                path, = [op[1] for op in r["ops"] if op[2] == 2 and op[3] == 1]
                v, e = set_at(v, path, [ty]), e[:2] + bytes([ty]) + e[3:]
                for name, call in (("createPdu", lambda: factory.createPdu(e)), ("getPdu", lambda: factory.getPdu(DataInputStream(io.BytesIO(e))))):
                    obj = call()
                    if type(obj) is not b.types[c]:
                        bad.append(("%s:rows:class" % c, "%s gives a %s for %s" % (name, type(obj).__name__, hexs(e))))
                    elif b.project(c, obj) != v:
                        bad.append(("%s:rows:factory" % c, "%s: %s; octets %s" % (name, vdiff(b, c, v, b.project(c, obj)), hexs(e))))
            elif what == "sizes":
                from suites_edit import parts_of, size_wrong
                obj = b.parse(c, e)[0] if mode == "mut" and b.layout[c]["k"] not in ("mod", "ant") else twinned(b, rng, c, v, mode)
                for pc, part in parts_of(b, c, obj):
                    w = size_wrong(b, pc, part)
                    if w:
                        bad.append(("%s:rows:size" % pc, "in %s by %s: %s" % (c, mode, w)))
            elif what == "apart":
                here, other = b.build(c, v, mode), b.new(c)
                b.parse_into(c, other, DataInputStream(io.BytesIO(e)), len(e))
                if rng.randrange(2):
                    here, other = other, here
                now = v
                change = row(ctx, rng, r)
                for op, x, o in rng.sample(change, min(6, len(change))):
                    if op[0] in ("bits", "flag"):
                        continue
                    loc = b.locate(c, here, op[1])
                    b.put(loc, native(b, loc[2], x))
                    now = set_at(now, op[1], x)
                    if b.project(c, here) != now or b.project(c, other) != v:
                        bad.append(("%s:rows:shared" % c, "%s set to %s: %s; octets %s" % (
                            op[1], hexs(o), vdiff(b, c, now + v, b.project(c, here) + b.project(c, other)), hexs(e))))
                        break
            elif what == "again":
                b.parse_into(c, used, DataInputStream(io.BytesIO(e)), len(e))
                got = b.project(c, used)
                if got != v:
                    bad.append(("%s:rows:again" % c, "into a used object: %s; octets %s" % (vdiff(b, c, v, got), hexs(e))))
            else:
                s = io.BytesIO(e)
                obj = b.new(c)
                b.parse_into(c, obj, DataInputStream(s), len(e))
                got = b.serialize(obj)
                if got != e:
                    bad.append(("%s:rows" % c, diff(e, got)))
        except Exception as ex:
            bad.append(("%s:rows:raises" % c, "%s: %r" % (hexs(e), ex)))
    return n, bad


def decode_check(b, c, data, want, pre=b"", post=b""):
    """Parse data into a fresh object: the tuple must be want and all of data consumed."""
    s = io.BytesIO(pre + data + post)
    s.seek(len(pre))
    obj = b.new(c)
    b.parse_into(c, obj, DataInputStream(s), len(data))
    got = b.project(c, obj)
    if got != want:
        return obj, "value", vdiff(b, c, want, got)
    if s.tell() != len(pre) + len(data):
        return obj, "consumed", "%d octets of %d consumed" % (s.tell() - len(pre), len(data))
    return obj, None, None


@suite
def dec(ctx, args):
    """C02: what was serialized parses back into the same fields."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    for mode in ("ctor", "set", "mut"):
        n += 1
        try:
            data = b.serialize(b.build(c, v, mode))
            obj, why, detail = decode_check(b, c, data, v)
            if why:
                bad.append(("%s:%s" % (c, why), "%s built by %s: %s; octets %s" % (c, mode, detail, hexs(data))))
        except Exception as ex:
            bad.append(("%s:raises" % c, "%s built by %s: %r" % (c, mode, ex)))
    return n, bad


@suite
def dec_fields(ctx, args):
    """C02: serialize and parse restores each field, at any depth, for every value."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    obj = b.build(c, v, "set")
    for (k, path, at, w), x, o in variants(ctx, r, args["full"]):
        if selects(b, c, path):
            continue
        loc = b.locate(c, obj, path)
        n += 1
        where = "%s:field:%s" % (c, loc[2]["n"] or "bits")
        try:
            if k == "bits":
                olds = [getattr(loc[0], a) for a in loc[2]["t"]]
                for a, y in zip(loc[2]["t"], x):
                    setattr(loc[0], a, y)
            else:
                old = b.get(loc)
                b.put(loc, x[0] if k == "flag" else native(b, loc[2], x))
            data = b.serialize(obj)
            if k == "bits":
                for a, y in zip(loc[2]["t"], olds):
                    setattr(loc[0], a, y)
            else:
                b.put(loc, old)
            _, why, detail = decode_check(b, c, data, set_at(v, path, x))
            if why:
                bad.append((where, "path %s = %s: %s" % (path, hexs(o), detail)))
        except Exception as ex:
            bad.append((where, "path %s = %s: %r" % (path, hexs(o), ex)))
    return n, bad


@suite
def reenc(ctx, args):
    """C03: octets parsed and serialized again are the same octets, whatever the fields hold."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0

    def one(data, what):
        s = io.BytesIO(data)
        obj = b.new(c)
        try:
            b.parse_into(c, obj, DataInputStream(s), len(data))
            again = b.serialize(obj)
        except Exception as ex:
            bad.append(("%s:raises" % c, "%s: %r" % (what, ex)))
            return
        if again != data:
            bad.append(("%s:octets" % c, "%s: %s" % (what, diff(data, again))))
        elif b.serialize(b.parse(c, again)[0]) != data:
            bad.append(("%s:octets" % c, "%s: second generation differs" % what))
    one(e, "vector")
    n += 1
    for (k, path, at, w), x, o in variants(ctx, r, args["full"]) if r["pat"] != "long" else ():
        if not selects(b, c, path):
            one(e[:at] + o + e[at + w:], "path %s = %s" % (path, hexs(o)))
            n += 1
    return n, bad


@suite
def trunc(ctx, args):
    """C05: every proper prefix is rejected, through the class and through the factory."""
    r = vec_of(ctx, args)
    b, c, e = ctx.b, r["c"], bytes(r["b"])
    lay = b.layout[c]
    bad, n = [], 0
    cuts = range(len(e))
    head = length_at(b, r)
    if len(e) > args["limit"]:
        near = {x + d for _, _, at, w in r["ops"] for x in (at, at + w) for d in (-1, 0, 1)}
        cuts = sorted(x for x in near if 0 <= x < len(e))
    if r["pat"] == "long" and len(cuts) > 100:
        cuts = cuts[:40] + ctx.rng("cuts", args["vec"]).sample(cuts[40:-20], 20) + cuts[-20:]
    for m in cuts:
        data = e[:m]
        n += 1
        if lay["k"] in ("mod", "ant"):
            # framed by the declared length: the octets of the declared length are not all there
            if m == len(e):
                continue
            s = DataInputStream(io.BytesIO(data))
            try:
                obj = b.parse_into(c, b.new(c), s, len(e))
                bad.append(("%s:accepted" % c, "%d of %d octets accepted: %s" % (m, len(e), hexs(data))))
            except Exception:
                pass
            continue
        try:
            b.parse(c, data)
            bad.append(("%s:accepted" % c, "%d of %d octets accepted: %s" % (m, len(e), hexs(data))))
        except Exception:
            pass
        if head and head[2] + 2 <= m < 65536:   # the header's length says that this is all, or that it was all
            n += 1
            x = m if m % 3 else len(e)
            data = data[:head[2]] + (x % 65536).to_bytes(2, "big") + data[head[2] + 2:]
            try:
                b.parse(c, data)
                bad.append(("%s:accepted" % c, "%d of %d octets accepted: %s" % (m, len(e), hexs(data))))
            except Exception:
                pass
        if lay["k"] == "pdu" and b.dispatch.get(e[2]) == c:
            n += 1
            try:
                obj = factory.createPdu(data)
                bad.append(("%s:factory" % c, "createPdu accepts %d of %d octets: %r" % (m, len(e), obj)))
            except Exception:
                pass
            try:
                obj = factory.getPdu(DataInputStream(io.BytesIO(data)))
                bad.append(("%s:factory" % c, "getPdu accepts %d of %d octets: %r" % (m, len(e), obj)))
            except Exception:
                pass
            if m in (0, 1, 2, 3, 11, 12, len(e) // 2, len(e) - 2, len(e) - 1):
                n += 2
                for how, obj in short_files(data):
                    bad.append(("%s:file" % c, "%s accepts %d of %d octets: %r" % (how, m, len(e), obj)))
    return n, bad


def short_files(data):
    """What the file entry point gives for a file, and for a stream over a file, ending too soon."""
    import os, tempfile
    fd, path = tempfile.mkstemp(prefix="short-")
    try:
        with os.fdopen(fd, "wb") as f:
            f.write(data)
        try:
            yield "createPduFromFilePath", factory.createPduFromFilePath(path)
        except Exception:
            pass
        try:
            with open(path, "rb") as f:
                yield "getPdu over a file", factory.getPdu(DataInputStream(f))
        except Exception:
            pass
    finally:
        os.unlink(path)


@suite
def consume(ctx, args):
    """C06: exactly the encoding is consumed; what precedes or follows it in the stream does not matter."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    head = length_at(b, r)
    for pre, post, said in ((b"", b"\xff" * 40, None), (b"\x01\x02\x03", b"", None), (b"\0" * 11, b"\0" * 64, None), (e, e, None), (b"\x07", b"\x80\x01", None),
                            (b"", b"", 0), (b"", b"\x11" * 40, 0), (e, e, 0), (b"", b"\x22" * 40, 40), (b"", b"", 8), (b"\x01", b"\x33" * 8, -8)):
        n += 1
        if said is not None:        # the header's length says what this PDU takes, or more, or less
            if not head:
                continue
            x = list(((len(r["b"]) + said) % 65536).to_bytes(2, "big"))
            v, e = set_at(r["v"], head[1], x), bytes(r["b"][:head[2]] + x + r["b"][head[2] + 2:])
        try:
            _, why, detail = decode_check(b, c, e, v, pre, post)
            if why:
                bad.append(("%s:%s" % (c, why), "with %d octets before and %d after: %s" % (len(pre), len(post), detail)))
        except Exception as ex:
            bad.append(("%s:raises" % c, "with %d octets before and %d after: %r" % (len(pre), len(post), ex)))
    if b.layout[c]["k"] == "pdu" and b.dispatch.get(e[2]) == c:
        for post in (b"\0", b"\xff" * 33, e):
            n += 1
            try:
                got = b.project(c, factory.createPdu(e + post))
                if got != v:
                    bad.append(("%s:factory" % c, vdiff(b, c, v, got)))
            except Exception as ex:
                bad.append(("%s:factory" % c, "with %d octets after: %r" % (len(post), ex)))
    return n, bad


@suite
def stream_of(ctx, args):
    """C06: encodings of different classes one after another in one stream."""
    b = ctx.b
    rs = args.get("vectors") or [ctx.vec[i] for i in args["vecs"]]
    bad = []
    s = io.BytesIO()
    out = DataOutputStream(s)
    at = []
    for r in rs:
        at.append(s.tell())
        b.build(r["c"], r["v"], "ctor").serialize(out)
    at.append(s.tell())
    want = b"".join(bytes(r["b"]) for r in rs)
    if s.getvalue() != want:
        bad.append(("stream:written", "several serialize() calls on one stream: " + diff(want, s.getvalue())))
    s = io.BytesIO(want)
    inp = DataInputStream(s)
    p = 0
    for r in rs:
        c = r["c"]
        try:
            obj = b.parse_into(c, b.new(c), inp, len(r["b"]))
            got = b.project(c, obj)
        except Exception as ex:
            bad.append(("%s:stream" % c, "at octet %d: %r" % (p, ex)))
            break
        p += len(r["b"])
        if got != r["v"]:
            bad.append(("%s:stream" % c, "at octet %d: %s" % (p, vdiff(b, c, r["v"], got))))
        if s.tell() != p:
            bad.append(("%s:stream" % c, "stream at octet %d instead of %d" % (s.tell(), p)))
            break
    return 2 * len(rs) + oneway(b, rs, want, bad), bad


class Sink(io.RawIOBase):
    """The writing end of a connection: no position, nothing to read back."""

    def __init__(self):
        self.got = b""

    def writable(self):
        return True

    def write(self, data):
        self.got += bytes(data)
        return len(data)


class Source(io.RawIOBase):
    """The reading end of a connection: octets arrive in pieces and only once."""

    def __init__(self, data):
        self.data = data

    def readable(self):
        return True

    def readinto(self, room):
        k = min(len(room), 7, len(self.data))
        room[:k] = self.data[:k]
        self.data = self.data[k:]
        return k


def oneway(b, rs, want, bad):
    """The same over streams that only go forward."""
    sink = Sink()
    with io.BufferedWriter(sink) as w:
        out = DataOutputStream(w)
        for r in rs:
            try:
                b.build(r["c"], r["v"], "ctor").serialize(out)
            except Exception as ex:
                bad.append(("%s:oneway" % r["c"], "written to a stream without positions: %r" % ex))
                return 1
        w.flush()
        if sink.got != want:
            bad.append(("stream:oneway", "written to a stream without positions: " + diff(want, sink.got)))
    with io.BufferedReader(Source(want + b"\x55\xaa"), 16) as f:
        inp = DataInputStream(f)
        for r in rs:
            c = r["c"]
            try:
                got = b.project(c, b.parse_into(c, b.new(c), inp, len(r["b"])))
            except Exception as ex:
                bad.append(("%s:oneway" % c, "read from a stream without positions: %r" % ex))
                return 2 * len(rs)
            if got != r["v"]:
                bad.append(("%s:oneway" % c, "read from a stream without positions: " + vdiff(b, c, r["v"], got)))
        left = f.read()
        if left != b"\x55\xaa":
            bad.append(("stream:oneway", "%d octets left in the stream instead of 2" % len(left)))
    return 2 * len(rs)


def snapshot(x, depth=0):
    """Everything reachable from an object, for comparing before and after."""
    if isinstance(x, (int, float, str, bytes, bytearray, type(None))):
        return repr(x)
    if isinstance(x, (list, tuple)):
        return [id(x)] + [snapshot(y, depth + 1) for y in x]
    if isinstance(x, dict):
        return sorted((str(k), snapshot(y, depth + 1)) for k, y in x.items())
    if depth > 12 or not hasattr(x, "__dict__"):
        return repr(x) if hasattr(x, "value") else type(x).__name__
    return [type(x).__name__, id(x)] + sorted((k, snapshot(y, depth + 1)) for k, y in vars(x).items())


@suite
def pure(ctx, args):
    """C09: serialize() changes nothing and repeats exactly; it only appends."""
    r = vec_of(ctx, args)
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    other = ctx.vec[args["other"]] if "other" in args and ctx.vec else r
    for mode in ("ctor", "set", "parsed"):
        obj = b.parse(c, e)[0] if mode == "parsed" else b.build(c, v, mode)
        ref = b.parse(c, e)[0] if mode == "parsed" else b.build(c, v, mode)
        before = b.project(c, obj)
        outs = []
        for k in range(4):
            s = io.BytesIO()
            pre = bytes(range(k * 7))
            s.write(pre)
            obj.serialize(DataOutputStream(s))
            outs.append(s.getvalue()[len(pre):])
            n += 1
            if s.getvalue()[:len(pre)] != pre:
                bad.append(("%s:earlier" % c, "octets already in the stream changed"))
            if s.tell() != len(s.getvalue()):
                bad.append(("%s:position" % c, "stream not at the end after serialize"))
            s = io.BytesIO(b"\xa5" * (len(e) + 30))     # in the middle of what is there
            s.seek(11)
            obj.serialize(DataOutputStream(s))
            if s.getvalue() != b"\xa5" * 11 + outs[0] + b"\xa5" * 19 or s.tell() != 11 + len(e):
                bad.append(("%s:earlier" % c, "serialized at octet 11 of a stream of %d: %s, position %d" % (len(e) + 30, hexs(s.getvalue()), s.tell())))
            if k == 1:
                b.serialize(b.build(other["c"], other["v"], "ctor"))
                b.serialize(b.build(c, ctx.vec[args["same"]]["v"] if "same" in args and ctx.vec else v, "ctor"))
            if k == 2:
                for a in dir(type(obj)):
                    if isinstance(getattr(type(obj), a, None), property):
                        getattr(obj, a)
                if hasattr(obj, "marshalledSize"):
                    obj.marshalledSize()
        if len(set(outs)) != 1:
            bad.append(("%s:repeat" % c, "%s: serializing again gives other octets: %s" % (
                mode, diff(outs[0], next(o for o in outs if o != outs[0])))))
        after = b.project(c, obj)
        if after != before:
            bad.append(("%s:changed" % c, "%s: serialize changed the object: %s" % (mode, vdiff(b, c, before, after))))
        for it in b.layout[c]["f"]:          # the public attributes the layout does not carry (stored counts)
            if it["k"] in ("cnt", "plen") and it["n"] and hasattr(ref, it["n"]):
                if getattr(ref, it["n"]) != getattr(obj, it["n"]):
                    bad.append(("%s:changed" % c, "%s: serialize changed %s" % (mode, it["n"])))
        # a write that fails half way leaves the object as it was
        ops = [o for o in r["ops"] if o[0] in ("u", "i", "f") and o[3]]
        for k, path, at, w in ops[::max(1, len(ops) // 4)]:
            loc = b.locate(c, obj, path)
            old = b.get(loc)
            b.put(loc, outside(k, w)[0])
            try:
                obj.serialize(DataOutputStream(io.BytesIO()))
            except Exception:
                pass
            b.put(loc, old)
            n += 1
            if b.project(c, obj) != before:
                bad.append(("%s:changed" % c, "%s: a failing serialize changed the object: %s" % (
                    mode, vdiff(b, c, before, b.project(c, obj)))))
            if b.serialize(obj) != outs[0]:
                bad.append(("%s:repeat" % c, "%s: after a failing serialize: %s" % (mode, diff(outs[0], b.serialize(obj)))))
        # two streams written in turn
        s1, s2 = io.BytesIO(), io.BytesIO()
        o1, o2 = DataOutputStream(s1), DataOutputStream(s2)
        obj.serialize(o1); ref.serialize(o2); ref.serialize(o1); obj.serialize(o2)
        n += 1
        if s1.getvalue() != outs[0] * 2 or s2.getvalue() != outs[0] * 2:
            bad.append(("%s:append" % c, "%s: two streams written in turn differ" % mode))
    return n, bad


@suite
def reparse(ctx, args):
    """C10: parsing into an object that holds other contents equals parsing into a fresh one."""
    r, q = vec_of(ctx, args), vec_of(ctx, args, "vec2")
    b, c, v, e = ctx.b, r["c"], r["v"], bytes(r["b"])
    bad, n = [], 0
    for mode in ("ctor", "mut", "parsed", "failed"):
        n += 1
        try:
            if mode in ("parsed", "failed"):
                obj = b.parse(c, q["b"])[0]
            else:
                obj = b.build(c, q["v"], mode)
        except Exception as ex:
            bad.append(("%s:first" % c, repr(ex)))
            continue
        if mode == "failed":        # an aborted decode into the object comes in between
            try:
                b.parse_into(c, obj, DataInputStream(io.BytesIO(bytes(q["b"])[:len(q["b"]) * 2 // 3])), len(q["b"]))
            except Exception:
                pass
        try:
            s = io.BytesIO(e + b"\x11\x22")
            b.parse_into(c, obj, DataInputStream(s), len(e))
            got = b.project(c, obj)
            if got != v:
                bad.append(("%s:reused" % c, "into an object with other contents (%s): %s" % (mode, vdiff(b, c, v, got))))
            elif b.serialize(obj) != e:
                bad.append(("%s:reused" % c, "serialized after parsing into used object: " + diff(e, b.serialize(obj))))
            elif s.tell() != len(e):
                bad.append(("%s:reused" % c, "%d octets consumed of %d" % (s.tell(), len(e))))
        except Exception as ex:
            bad.append(("%s:reused" % c, "into an object with other contents (%s): %r" % (mode, ex)))
    return n, bad


# ---------------------------------------------------------------------------
def lists_of(b, c, v, path=()):
    """Paths of the lists of a tuple, with the class they are in: (path, class, item index)."""
    for i, it in enumerate(b.layout[c]["f"]):
        p = path + (i + 1,)
        x = v[i]
        if it["k"] in ("list", "lu", "sv"):
            yield p, c, i
            if it["k"] == "list":
                for j, e in enumerate(x):
                    yield from lists_of(b, it["t"], e, p + (j + 1,))
        elif it["k"] == "rec":
            yield from lists_of(b, it["t"], x, p)


def holder(b, c, obj, path):
    """(object whose attribute is the list at path, its class)."""
    while len(path) > 1:
        it = b.layout[c]["f"][path[0] - 1]
        obj = getattr(obj, it["n"])
        if it["k"] == "list":
            obj, path = obj[path[1] - 1], path[2:]
        else:
            path = path[1:]
        c = it["t"]
    return obj, c


def has_lists(b, c):
    return any(it["k"] in ("list", "lu", "sv") or (it["k"] == "rec" and has_lists(b, it["t"])) for it in b.layout[c]["f"])


class ListCase:
    """A list of an object, and the octets expected for any content of it."""

    def __init__(self, ctx, r, path, c0, i):
        b = self.b = ctx.b
        self.r, self.c, self.v, self.e, self.path = r, r["c"], r["v"], bytes(r["b"]), path
        self.items = b.layout[c0]["f"]
        self.it = self.items[i]
        self.counts = []        # the derived octets of this list: (offset, octets, multiplier, addend, attribute)
        spans = {}
        inside = []
        for k, p, at, w in r["ops"]:
            if p[:len(path)] == path and len(p) > len(path):
                j = p[len(path)]
                lo, hi = spans.get(j, (at, at))
                spans[j] = (min(lo, at), max(hi, at + w))
                inside.append(at)
            if k == "c" and len(p) == len(path) and p[:-1] == path[:-1]:
                it = self.items[p[-1] - 1]
                if it["k"] == "cnt" and it["l"] == self.it["n"]:
                    self.counts.append((at, w, it["m"], it["a"], it["n"]))
        self.elems = [get_at(self.v, path + (j,)) for j in sorted(spans)]
        self.octets = [self.e[lo:hi] for _, (lo, hi) in sorted(spans.items())]
        self.lo = min(lo for lo, hi in spans.values()) if spans else None
        self.hi = max(hi for lo, hi in spans.values()) if spans else None

    def limit(self):
        return min(((1 << (8 * w)) - 1 - a) // m for _, w, m, a, _ in self.counts)

    def expect(self, picks):
        """Octets of the whole object when the list holds the elements picked (indices), None if unrepresentable."""
        n = len(picks)
        if n > self.limit():
            return None
        out = self.e[:self.lo] + b"".join(self.octets[j] for j in picks) + self.e[self.hi:]
        for at, w, m, a, _ in self.counts:
            if at >= self.lo:
                raise AssertionError("count after its list")
            out = out[:at] + (n * m + a).to_bytes(w, "big") + out[at + w:]
        return out

    def value(self, picks):
        return set_at(self.v, self.path, [self.elems[j] for j in picks])

    def make(self, picks):
        it = self.it
        one = {**it}
        return [self.b.pairs([one], [[self.elems[j]]], "set").__next__()[1][0] for j in picks]


def list_cases(ctx, r):
    out = []
    if ctx.b.layout[r["c"]]["k"] == "sv":       # framed by a length that covers the lists: see sv_sizes
        return out
    for path, c0, i in lists_of(ctx.b, r["c"], r["v"]):
        lc = ListCase(ctx, r, path, c0, i)
        if lc.elems and lc.counts:
            out.append(lc)
    return out


def sizes_for(limit, thorough):
    small = list(range(0, 36)) + [63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257]
    if limit > 300:
        small += [511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193]
        if thorough:
            small += [16383, 16384, 16385, 20000]
    edge = [limit - 1, limit, limit + 1, limit + 2, limit + 1 + limit // 2]
    return sorted({n for n in small + (edge if limit < 70000 else []) if n >= 0})


@suite
def lists(ctx, args):
    """C07: count and length fields describe the list actually carried, at every length up to and beyond the limit."""
    r = vec_of(ctx, args)
    b, c = ctx.b, r["c"]
    bad, n = [], 0
    for lc in [list_cases(ctx, r)[args["list"]]]:
        name = "%s:list:%s" % (c, lc.it["n"])
        obj = b.build(c, lc.v, "set")
        h, hc = holder(b, c, obj, lc.path)
        k = len(lc.elems)
        base = lc.make(range(k))
        heavy = 40000 // max(1, len(lc.octets[0]))
        for size in sizes_for(lc.limit(), ctx.thorough):
            n += 1
            picks = [j % k for j in range(size)]
            b.assign(h, lc.it["n"], [base[j] for j in picks])
            want = lc.expect(picks)
            try:
                got = b.serialize(obj)
            except Exception as ex:
                if want is not None:
                    bad.append((name, "%d elements: serialize raises %r" % (size, ex)))
                continue
            if want is None:
                bad.append((name, "%d elements do not fit the count but serialize wrote %s.." % (size, hexs(got[:40]))))
                continue
            if got != want:
                bad.append((name, "%d elements: %s" % (size, diff(want, got))))
                continue
            for at, w, m, a, attr in lc.counts:
                if attr and isinstance(getattr(type(h), attr, None), property) and getattr(h, attr) != size * m + a:
                    bad.append((name, "%s reports %r for %d elements" % (attr, getattr(h, attr), size)))
            if size > heavy and size not in (lc.limit(),) and not ctx.thorough:
                continue
            try:
                back, why, detail = decode_check(b, c, want, lc.value(picks), b"", b"\xff" * 9)
                if why:
                    bad.append((name, "decoding %d elements: %s" % (size, detail)))
                else:
                    h2, _ = holder(b, c, back, lc.path)
                    if len(getattr(h2, lc.it["n"])) != size:
                        bad.append((name, "decoding %d elements gives %d" % (size, len(getattr(h2, lc.it["n"])))))
                    for at, w, m, a, attr in lc.counts:
                        if attr and isinstance(getattr(type(h2), attr, None), property) and getattr(h2, attr) != size * m + a:
                            bad.append((name, "decoded: %s reports %r for %d elements" % (attr, getattr(h2, attr), size)))
            except Exception as ex:
                bad.append((name, "decoding %d elements: %r" % (size, ex)))
    return n, bad


@suite
def long_sizes(ctx, args):
    """C01, C02, C03, C06: long lists, up to the largest their count can state."""
    r = vec_of(ctx, args)
    b, c, what = ctx.b, r["c"], args["what"]
    lc = list_cases(ctx, r)[args["list"]]
    name = "%s:long:%s" % (c, lc.it["n"])
    bad, n, k = [], 0, len(lc.elems)
    base = lc.make(range(k))
    room = (4000000 if ctx.thorough else 300000) // len(lc.octets[0])
    for size in (255, 256, 257, 1000, 4095, 4096, 4097, 8000, 8190, 8191, 8192, 20000, 65535):
        if size > min(lc.limit(), room):
            break
        n += 1
        picks = [j * 7 % 5 % k for j in range(size)]
        want = lc.expect(picks)
        try:
            if what == "octets":
                obj = b.build(c, lc.v, "set")
                h, _ = holder(b, c, obj, lc.path)
                b.assign(h, lc.it["n"], [base[j] for j in picks])
                got = b.serialize(obj)
                if got != want:
                    bad.append((name, "%d elements: %s" % (size, diff(want, got))))
            elif what == "relay":
                got = b.serialize(b.parse(c, want)[0])
                if got != want:
                    bad.append((name, "%d elements, parsed and serialized: %s" % (size, diff(want, got))))
            else:
                _, why, detail = decode_check(b, c, want, lc.value(picks), b"", b"\xff" * 1000 if what == "consumed" else b"")
                if why:
                    bad.append((name, "decoding %d elements: %s" % (size, detail)))
        except Exception as ex:
            bad.append((name, "%d elements: %r" % (size, ex)))
    return n, bad


@suite
def list_edits(ctx, args):
    """C07: after any sequence of list edits the counts and octets are those of the contents."""
    r = vec_of(ctx, args)
    b, c = ctx.b, r["c"]
    bad, n = [], 0
    for lc in list_cases(ctx, r):
        name = "%s:edits:%s" % (c, lc.it["n"])
        rng = ctx.rng("edits", c, r["s"], lc.path, args["round"])
        if args["round"] % 2:
            obj = b.parse(c, lc.e)[0]
        else:
            obj = b.build(c, lc.v, "ctor")
        picks = list(range(len(lc.elems)))
        h, hc = holder(b, c, obj, lc.path)
        log = []
        for step in range(args["steps"]):
            lst = getattr(h, lc.it["n"])
            op = rng.choice(["append", "append", "insert", "del", "pop", "extend", "clear", "replace", "slice", "reverse", "put",
                             "serialize", "double"])
            j = rng.randrange(len(lc.elems))
            at = rng.randrange(len(picks) + 1)
            log.append((op, j, at))
            if op == "append":
                lst.append(lc.make([j])[0]); picks.append(j)
            elif op == "insert":
                lst.insert(at, lc.make([j])[0]); picks.insert(at, j)
            elif op == "del" and picks:
                del lst[at % len(picks)]; del picks[at % len(picks)]
            elif op == "pop" and picks:
                lst.pop(); picks.pop()
            elif op == "extend":
                lst.extend(lc.make([j, 0, j])); picks.extend([j, 0, j])
            elif op == "clear":
                del lst[:]; picks = []
            elif op == "replace":
                b.assign(h, lc.it["n"], lc.make([j] * at)); picks = [j] * at
            elif op == "slice":
                lst[at:] = lc.make([0, j]); picks[at:] = [0, j]
            elif op == "reverse":
                lst.reverse(); picks.reverse()
            elif op == "put" and picks:
                lst[at % len(picks)] = lc.make([j])[0]; picks[at % len(picks)] = j
            elif op == "double" and len(picks) < 20:
                b.assign(h, lc.it["n"], lst + lst[:]); picks = picks + picks
            n += 1
            want = lc.expect(picks)
            if want is None:
                del lst[:]; picks = []
                continue
            try:
                for at_, w, m, a, attr in lc.counts:
                    if attr and isinstance(getattr(type(h), attr, None), property) and getattr(h, attr) != len(picks) * m + a:
                        bad.append((name, "%s reports %r for %d elements after %s" % (attr, getattr(h, attr), len(picks), log)))
                got = b.serialize(obj)
                if got != want:
                    bad.append((name, "after %s: %s" % (log, diff(want, got))))
                    break
                got = b.project(c, b.parse(c, want)[0])
                if got != lc.value(picks):
                    bad.append((name, "decoding after %s: %s" % (log, vdiff(b, c, lc.value(picks), got))))
                    break
            except Exception as ex:
                bad.append((name, "after %s: %r" % (log, ex)))
                break
    return n, bad


def outside(k, w):
    """Values that do not fit a field."""
    if k == "u":
        n = 8 * w
        return [-1, 1 << n, (1 << n) + 1, (1 << n) * 3 + 7, -(1 << (n - 1)), -(1 << n), 1 << 70, 0.5, 1.5, -0.25, "1", b"\1", None, [1]]
    if k == "i":
        n = 8 * w
        return [1 << (n - 1), (1 << n) - 1, 1 << n, -(1 << (n - 1)) - 1, -(1 << n), 1 << 70, 0.5, 2.5, "1", None, [1]]
    if k == "f":
        return (["x", b"\1\2\3\4", None, [1.0]] + ([1e39, -1e39, 3.5e38, 1e300, -1.7e308, 10 ** 60] if w == 4 else [10 ** 400]))
    return []


@suite
def ranges(ctx, args):
    """C24: a value that does not fit its field makes serialize raise; those that fit are accepted."""
    r = vec_of(ctx, args)
    b, c, e = ctx.b, r["c"], bytes(r["b"])
    bad, n = [], 0
    obj = b.build(c, r["v"], args["mode"]) if args["mode"] != "parsed" else b.parse(c, e)[0]
    for k, path, at, w in r["ops"]:
        if k not in ("u", "i", "f", "a") or w == 0:
            continue
        loc = b.locate(c, obj, path)
        what = "%s:range:%s" % (c, loc[2]["n"])
        old = b.get(loc)
        trials = outside(k, w)
        if k == "a":
            trials = []
            for j in (0, w - 1):
                for x in (256, -1, 1000, 0.5, None):
                    u = list(old)
                    u[j] = x
                    trials.append(u)
        for x in trials:
            n += 1
            b.put(loc, x)
            try:
                got = b.serialize(obj)
                bad.append((what, "path %s = %r is written as %s" % (path, x, hexs(got[at:at + w]))))
            except Exception:
                pass
        if k in ("u", "i"):
            lo, hi = (0, (1 << 8 * w) - 1) if k == "u" else (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1)
            for x in (lo, lo + 1, hi - 1, hi, hi // 2, True):
                n += 1
                b.put(loc, x)
                try:
                    got = b.serialize(obj)[at:at + w]
                    if got != int(x).to_bytes(w, "big", signed=k == "i"):
                        bad.append((what, "path %s = %r is written as %s" % (path, x, hexs(got))))
                except Exception as ex:
                    bad.append((what, "path %s = %r is refused: %r" % (path, x, ex)))
        b.put(loc, old)
    if b.serialize(obj) != e:
        bad.append(("%s:range" % c, "fields restored, octets differ: " + diff(e, b.serialize(obj))))
    return n, bad


# ---------------------------------------------------------------------------
# Recorded executions, judged by CodecTrace.tla
class Maker:
    """Random objects of the layouts, as tuples."""

    def __init__(self, b, rng, most=4):
        self.b, self.rng, self.most = b, rng, most

    def octets(self, n):
        m = self.rng.random()
        if m < 0.08:
            return [0] * n
        if m < 0.14:
            return [255] * n
        if m < 0.2:
            return [0] * (n - 1) + [self.rng.randrange(4)] if n else []
        return [self.rng.randrange(256) for _ in range(n)]

    def number(self):
        r = self.rng.random()
        if r < 0.3:
            return 0
        return self.rng.randrange(1, self.most + 1)

    def sv(self, fam):
        b = self.b
        names = {"vtp": ["HighFidelityHAVEQUICKRadio"],
                 "damage": ["DirectedEnergyDamage", "DirectedEnergyPrecisionAimpoint", "DirectedEnergyAreaAimpoint"]}
        names = names.get(fam, names["vtp"] + names["damage"])
        c = self.rng.choice(names + ["Unknown"])
        if c == "Unknown":
            ty = self.rng.choice([1, 2, 999, 2999, 3001, 4999, 5000, 65535, 65536, 3002, 1 << 24, 0x7fffffff, 0xffffffff, 0])
            if ty in {b.layout[x]["ty"] for x in b.svnames}:
                ty = 77
            n = self.rng.randrange(0, 6) * 8 + 2
            return [c, list(ty.to_bytes(4, "big")), self.octets(n)]
        return [c, list(b.layout[c]["ty"].to_bytes(4, "big")), self.make(c)]

    def make(self, c):
        v = []
        for it in self.b.layout[c]["f"]:
            k, w = it["k"], it["w"]
            if k in ("u", "i", "a"):
                v.append(self.octets(w))
            elif k == "f":
                x = self.octets(w)
                while is_nan(x):
                    x = self.octets(w) if x != [255] * w else [0] * w
                v.append(x)
            elif k == "rec":
                v.append(self.make(it["t"]))
            elif k == "list":
                v.append([] if it["t"] == "-" or it["t"] not in self.b.layout else [self.make(it["t"]) for _ in range(self.number())])
            elif k == "lu":
                v.append([self.octets(w) for _ in range(self.number() * self.rng.choice([1, 1, 5]))])
            elif k == "sv":
                v.append([self.sv(it["t"]) for _ in range(self.number())])
            elif k == "vdat":
                n = self.rng.choice([0, 1, 7, 8, 9, 63, 64, 65, 127, 128, 129, self.rng.randrange(300)])
                v.append([list(n.to_bytes(4, "big")), self.octets((n + 7) // 8)])
            elif k == "bits":
                v.append([self.rng.randrange(1 << x) for x in w])
            elif k == "flag":
                v.append([self.rng.randrange(2)])
            elif k == "rest":
                v.append(self.octets(self.rng.randrange(1, 40)))
            else:
                v.append([])
        if c == "TransmitterPdu":
            self.parts(v)
        return v

    def parts(self, v):
        f = self.b.layout["TransmitterPdu"]["f"]
        at = {it["n"]: i for i, it in enumerate(f) if it["n"]}
        mt = v[at["modulationType"]]
        mt[3] = [0, self.rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 9])]
        mt[1] = [0, self.rng.choice([0, 1, 2])]
        v[at["antennaPatternType"]] = [0, self.rng.choice([0, 1, 2, 3])]
        m = self.rng.choice(["", "BasicHaveQuickMP", "CCTTSincgarsMP", "UnknownRadio"])
        a = self.rng.choice(["", "BeamAntennaPattern", "UnknownAntennaPattern"])
        v[at["modulationParameters"]] = [m, self.make(m)] if m else []
        v[at["antennaPattern"]] = [a, self.make(a)] if a else []


def has_nan(b, c, obj):
    """Does a decoded object hold a NaN anywhere (their payloads are outside the properties)?"""
    def look(x, depth=0):
        if isinstance(x, float):
            return math.isnan(x)
        if isinstance(x, (list, tuple)):
            return any(look(y, depth + 1) for y in x)
        if hasattr(x, "__dict__") and depth < 14:
            return any(look(y, depth + 1) for y in vars(x).values())
        return False
    return look(obj)


def record_enc(b, c, v, mode):
    obj = b.build(c, v, mode)
    return {"e": "enc", "c": c, "v": b.project(c, obj), "b": list(b.serialize(obj))}


def record_dec(b, c, data):
    """Parse data with class c; None when the outcome is outside the properties (NaN)."""
    s = io.BytesIO(bytes(data))
    e = {"e": "dec", "c": c, "b": list(data), "ok": False, "v": [], "n": 0, "re": []}
    obj = b.new(c)
    try:
        b.parse_into(c, obj, DataInputStream(s), len(data))
    except Exception:
        return e
    if has_nan(b, c, obj):
        return None
    e["ok"] = True
    e["v"] = b.project(c, obj)
    e["n"] = s.tell()
    e["re"] = list(b.serialize(obj))
    return e


def record_fac(b, data, entry="createPdu"):
    e = {"e": "fac", "b": list(data), "res": "error", "c": "", "v": []}
    try:
        obj = factory.createPdu(bytes(data)) if entry == "createPdu" else factory.getPdu(DataInputStream(io.BytesIO(bytes(data))))
    except Exception:
        return e
    if obj is None:
        e["res"] = "none"
        return e
    if has_nan(b, None, obj):
        return None
    name = type(obj).__name__
    e["res"], e["c"] = "pdu", name
    e["v"] = b.project(name, obj)
    return e


def mutate(rng, b, r, pool):
    """Octets near an encoding."""
    data = bytearray(r["b"])
    ops = [o for o in r["ops"] if o[3]]
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not data:
            break
        m = rng.random()
        cs = [o for o in ops if o[0] in ("c", "t", "vlen") and o[2] + o[3] <= len(data)]
        if m < 0.35:
            j = rng.randrange(len(data))
            if r["c"] in b.dispatch.values() and j == 2 and rng.random() < .8:
                continue
            data[j] = rng.choice([rng.randrange(256), data[j] ^ (1 << rng.randrange(8)), 0, 255, (data[j] + 1) % 256])
        elif m < 0.65 and cs:
            k, _, at, w = rng.choice(cs)
            x = int.from_bytes(data[at:at + w], "big")
            x = rng.choice([x + 1, x - 1, 0, 1, 2, x + 8, x - 8, x * 2, x ^ (1 << rng.randrange(8 * w)), (1 << 8 * w) - 1]) % (1 << 8 * w)
            data[at:at + w] = x.to_bytes(w, "big")
        elif m < 0.75:
            del data[rng.randrange(len(data)):]
        elif m < 0.82:
            data += bytes(rng.randrange(256) for _ in range(rng.randrange(1, 30)))
        elif m < 0.88:
            j = rng.randrange(len(data))
            del data[j:j + rng.choice([1, 1, 2, 4, 8])]
        elif m < 0.94:
            j = rng.randrange(len(data))
            data[j:j] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 2, 4, 8])))
        else:
            q = rng.choice(pool)["b"]
            j = rng.randrange(len(data))
            data[j:] = bytes(q[min(j, len(q)):])
    return bytes(data)


@suite
def record(ctx, args):
    """Run one batch of calls on the implementation and write what happened to a trace file."""
    import json
    b = ctx.b
    rng = ctx.rng("record", args["batch"])
    events = []
    bad = []
    for c in args["classes"]:
        mk = Maker(b, rng, args["most"])
        for _ in range(args["objects"]):
            v = mk.make(c)
            mode = rng.choice(["ctor", "set", "mut"])
            try:
                e = record_enc(b, c, v, mode)
            except Exception as ex:
                bad.append(("%s:record" % c, "serialize of %r: %r" % (v, ex)))
                continue
            if "enc" in args["kinds"]:
                events.append(e)
            if "dec" in args["kinds"]:
                try:
                    events.append(record_dec(b, c, e["b"]))
                except Exception as ex:
                    bad.append(("%s:record" % c, "%s: %r" % (hexs(e["b"]), ex)))
        if b.layout[c]["k"] in ("mod", "ant", "sv"):      # framed by what contains them, and exercised there
            continue
        mine = [r for r in ctx.vec if r["c"] == c and r["pat"] != "long"]
        for _ in range(args["mutants"]):
            data = mutate(rng, b, rng.choice(mine), [r for r in ctx.vec if r["pat"] != "long"])
            try:
                if "dec" in args["kinds"]:
                    events.append(record_dec(b, c, data))
                if "fac" in args["kinds"] and b.layout[c]["k"] == "pdu":
                    events.append(record_fac(b, data, rng.choice(["createPdu", "getPdu"])))
            except Exception as ex:
                bad.append(("%s:record" % c, "%s: %r" % (hexs(data), ex)))
    with open(args["path"], "w") as f:
        for e in events:
            if e is not None:
                f.write(json.dumps(e) + "\n")
    return 0, bad


def judge(ctx, clauses, kinds, objects, mutants, most=4, classes=None, name="judge"):
    """Record executions of every class and have TLC judge them; report the clauses asked for."""
    import json, shutil, tempfile
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        todo = sorted(classes or ctx.b.layout)
        todo = [c for c in todo if c not in ("PduSuperclass",)]
        batches = [todo[i::24] for i in range(24)]
        ctx.run([("record", {"batch": i, "classes": x, "objects": objects, "mutants": mutants, "most": most, "kinds": list(kinds),
                             "path": os.path.join(d, "%d.json" % i)}) for i, x in enumerate(batches) if x])
        events = []
        for i, x in enumerate(batches):
            p = os.path.join(d, "%d.json" % i)
            if os.path.exists(p):
                events += [l for l in open(p)]
        judge_lines(ctx, events, clauses, d, name)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_lines(ctx, lines, clauses, d, name="judge"):
    import json
    path = os.path.join(d, "trace.json")
    with open(path, "w") as f:
        f.writelines(lines)
    recs = ctx.tlc(tlc.run("CodecTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Report\n", {"TRACE": path}))
    n = [r["events"] for r in recs if "events" in r][0]
    if n != len(lines):
        raise RuntimeError("TLC read %d of %d events" % (n, len(lines)))
    ctx.judged += n
    ctx.sample({"judged": json.loads(lines[0])})
    for r in recs:
        if "bad" in r:
            e = json.loads(lines[r["bad"] - 1])
            for why in r["why"]:
                if why in clauses:
                    ctx.violation("rejudge", {"event": e}, "%s:%s" % (e.get("c") or "factory", why),
                                  "the specification does not allow: %s %s octets %s ok=%s consumed=%s" % (
                                      e["e"], why, hexs(e["b"]), e.get("ok", e.get("res")), e.get("n")))


@suite
def rejudge(ctx, args):
    """Replay of a judged event: run it again and judge it again."""
    import json, shutil, tempfile
    e = args["event"]
    b = ctx.b
    new = (record_enc(b, e["c"], e["v"], "ctor") if e["e"] == "enc" else
           record_dec(b, e["c"], e["b"]) if e["e"] == "dec" else record_fac(b, e["b"]))
    d = tempfile.mkdtemp(prefix="trace-")
    try:
        before = len(ctx.violations)
        judge_lines(ctx, [json.dumps(new) + "\n"], {"octets", "accepted", "refused", "value", "consumed", "reencoded",
                                                      "unsupported", "class"}, d)
        bad = [(v["where"], v["detail"]) for v in ctx.violations[before:]]
        del ctx.violations[before:]
        return 1, bad
    finally:
        shutil.rmtree(d, ignore_errors=True)


@suite
def standard_size(ctx, args):
    """C01: a PDU without list elements has the size IEEE 1278.1-2012 gives it."""
    b, bad = ctx.b, []
    c, want = args["class"], args["octets"]
    got = len(b.serialize(b.new(c)))
    if got != want:
        bad.append(("%s:standard-size:%d" % (c, got), "%d octets, the standard's fixed part is %d" % (got, want)))
    return 1, bad


@suite
def ua_lists(ctx, args):
    """C02: a UA PDU with a record in one of its lists reads back."""
    b = ctx.b
    obj = b.types["UaPdu"]()
    getattr(obj, args["list"]).append(b.types["AcousticEmitter"](1, 2, 3))
    data = b.serialize(obj)
    try:
        back = b.parse("UaPdu", data)[0]
    except Exception as ex:
        return 1, [("UaPdu:%s:%s" % (args["list"], type(ex).__name__), "serialized with one record in %s, parse raises %r" % (args["list"], ex))]
    if b.serialize(back) != data:
        return 1, [("UaPdu:%s:differs" % args["list"], diff(data, b.serialize(back)))]
    return 1, []
