"""Replaying Edit.tla: objects of any class edited step by step through the public interface."""
import io, json

import tlc
from core import part, slices, suite
from bind import Bad, DataInputStream, DataOutputStream
from suites_codec import hexs, diff, vdiff, tla_set

LISTS = ("list", "lu", "sv")


def edits_load(ctx, num, depth=14, which=(), kinds=()):
    cfg = ("CONSTANTS Which = %s Kinds = %s Depth = %d\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS Decodes Fitting Emit\n"
           % (tla_set(which), tla_set(kinds), depth))
    return tlc.unique(ctx.tlc(tlc.simulate("Edit", cfg, num, depth + 3, ctx.seed)))


def place(b, c, obj, path):
    """(object, its class, layout item) of the item at path."""
    it = b.layout[c]["f"][path[0] - 1]
    if len(path) == 1:
        return obj, c, it
    x = getattr(obj, it["n"])
    if it["k"] == "rec":
        return place(b, it["t"], x, path[1:])
    if it["k"] == "list":
        return place(b, it["t"], x[path[1] - 1], path[2:])
    if it["k"] == "sv":
        e = x[path[1] - 1]
        return place(b, type(e).__name__, e, path[3:])
    return place(b, type(x).__name__, x, path[2:])


def parts_of(b, c, obj):
    """Every record reachable from obj by its layout, with the class it is: (class name, object)."""
    yield c, obj
    for it in b.layout[c]["f"]:
        k = it["k"]
        if k == "rec":
            yield from parts_of(b, it["t"], getattr(obj, it["n"]))
        elif k == "list":
            for e in getattr(obj, it["n"]):
                yield from parts_of(b, it["t"], e)
        elif k == "sv":
            for e in getattr(obj, it["n"]):
                if type(e).__name__ in b.svnames:
                    yield from parts_of(b, type(e).__name__, e)
                else:
                    yield "Unknown", e
        elif k in ("mod", "ant") and getattr(obj, it["n"]) is not None:
            x = getattr(obj, it["n"])
            yield from parts_of(b, type(x).__name__, x)


def counts_wrong(b, c, obj):
    """Count properties that do not tell how long their list is."""
    items = b.layout.get(c, {"f": []})["f"]
    for it in items:
        if it["k"] == "cnt" and it["n"] and isinstance(getattr(type(obj), it["n"], None), property):
            want = len(getattr(obj, it["l"])) * it["m"] + it["a"]
            got = getattr(obj, it["n"])
            if got != want:
                return "%s.%s is %r for %d elements" % (c, it["n"], got, len(getattr(obj, it["l"])))


def size_wrong(b, c, obj):
    """A reported marshalled size that is not the number of octets written."""
    if not hasattr(obj, "marshalledSize"):
        return None
    said = obj.marshalledSize()
    n = len(b.serialize(obj))
    if said != n or isinstance(said, bool) or not isinstance(said, int):
        return "%s reports %r octets and writes %d" % (c, said, n)
    if c == "Unknown" or b.layout[c]["k"] == "sv":
        if obj.recordLength != n or b.serialize(obj)[4:6] != n.to_bytes(2, "big"):
            return "%s: record length %r, declares %s, writes %d octets" % (c, obj.recordLength, hexs(b.serialize(obj)[4:6]), n)


def apply(b, c, obj, h, rng):
    """One edit; the object edited (another one after some reloads)."""
    op, x = h["op"], h["x"]
    if op == "reload":
        data = b.serialize(obj)
        if rng.random() < 0.5 and b.layout[c]["k"] not in ("mod", "ant"):
            b.parse_into(c, obj, DataInputStream(io.BytesIO(data)))
            return obj
        return b.parse(c, data)[0]
    holder, hc, it = place(b, c, obj, h["path"])
    if op == "set":
        mode = rng.choice(["ctor", "set", "mut"])
        if it["k"] == "rec" and mode == "mut":
            b.mutate(it["t"], getattr(holder, it["n"]), x)
            return obj
        for a, y in b.fields_one(it, x, mode):
            b.assign(holder, a, y)
        return obj
    lst = getattr(holder, it["n"])
    i = h["i"] - 1
    if op in ("insert", "replace"):
        e = b.fields_one(it, [x], rng.choice(["ctor", "set"]))[0][1][0]
    if op == "insert":
        if rng.random() < 0.3:
            b.assign(holder, it["n"], list(lst[:i]) + [e] + list(lst[i:]))
        elif i == len(lst) and rng.random() < 0.7:
            lst.append(e)
        else:
            lst.insert(i, e)
    elif op == "replace":
        lst[i] = e
    elif op == "remove":
        if i == len(lst) - 1 and rng.random() < 0.5:
            lst.pop()
        else:
            del lst[i]
    elif op == "clear":
        if rng.random() < 0.3:
            b.assign(holder, it["n"], [])
        else:
            del lst[:]
    elif op == "swap":
        lst[0], lst[i] = lst[i], lst[0]
    return obj


def name_of(b, c, path):
    """The field a path leads to, for the name of a violation."""
    out = [c]
    try:
        items = b.layout[c]["f"]
        it = items[path[0] - 1]
        out.append(it["n"] or it["k"])
    except Exception:
        pass
    return ".".join(out)


@suite
def edits(ctx, args):
    """Histories of Edit.tla: after every step the octets, the sizes reported and the counts are those of the contents."""
    b, n, bad = ctx.b, 0, []
    what = args["what"]
    for r in part(ctx, args):
        c = r["c"]
        rng = ctx.rng("edit", json.dumps(r["hist"][0]["x"]), len(r["hist"]))
        obj = None
        done = []
        for h in r["hist"]:
            if h["op"] == "stop":
                break
            n += 1
            want = bytes(h["b"])
            said = [h["op"], name_of(b, c, h["path"]) if h["path"] else "", h["path"], h["i"]]
            done.append(said)
            where = "%s:%s" % (said[1] or c, h["op"])
            try:
                if h["op"] == "new":
                    obj = b.build(c, h["x"], rng.choice(["ctor", "set", "mut"] if c not in b.nodefault else ["ctor"]))
                else:
                    obj = apply(b, c, obj, h, rng)
                if "sizes" in what:
                    for pc, p in parts_of(b, c, obj):
                        w = size_wrong(b, pc, p)
                        if w:
                            bad.append(("%s:size" % pc, "%s after %s" % (w, done)))
                            break
                got = b.serialize(obj)
                if "octets" in what and got != want:
                    bad.append((where, "after %s: %s" % (done, diff(want, got))))
                    break
                if "counts" in what:
                    for pc, p in parts_of(b, c, obj):
                        w = counts_wrong(b, pc, p)
                        if w:
                            bad.append(("%s:count" % pc, "%s after %s" % (w, done)))
                            break
                if got != want:
                    break       # the object is not the one of the specification any more
                if h["op"] == "reload" and "octets" in what:
                    v = b.project(c, obj)
                    if v != h["x"]:
                        bad.append((where, "after %s: %s" % (done, vdiff(b, c, h["x"], v))))
                        break
            except Exception as ex:
                bad.append((where, "after %s: %r" % (done, ex)))
                break
    return n, bad
