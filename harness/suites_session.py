"""Replaying the histories of Session.tla: a program holding several objects of the real classes."""
import io, threading

import tlc
from core import suite
from bind import DataInputStream, DataOutputStream, Bad, factory
from suites_codec import vdiff, diff, hexs

LISTY = {"list", "lu", "sv", "vdat", "rest", "mod", "ant", "cnt", "plen", "z", "align"}
WHOLE = {("TransmitterPdu", "modulationType"), ("TransmitterPdu", "antennaPatternType")}


def group(b, c, it):
    if b.layout[c]["k"] == "sv" or it["k"] in LISTY or (c, it["n"]) in WHOLE:
        return "l"
    return "n" if it["k"] == "rec" else "s"


def histories(ctx, num, depth, maxwire=4):
    cfg = ('CONSTANTS Objs={1,2,3} Same=2 Labels={0,1,2} Groups={"s","n","l"} MaxWire=%d Depth=%d EmitOn=TRUE\n'
           "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Emit\n" % (maxwire, depth))
    recs = ctx.tlc(tlc.simulate("Session", cfg, num, depth + 3, ctx.seed))
    return sorted((clean(r["hist"]) for r in recs), key=repr)


def short_histories(ctx, depth):
    """Every history of this length over two objects of one class."""
    cfg = ('CONSTANTS Objs={1,2} Same=2 Labels={0,1} Groups={"s","n","l"} MaxWire=1 Depth=%d EmitOn=TRUE\n'
           "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Emit\n" % depth)
    return sorted((clean(r["hist"]) for r in ctx.tlc(tlc.run("Session", cfg))), key=repr)


def explore(ctx):
    """All reachable states of the session with the properties checked on every transition."""
    cfg = ('CONSTANTS Objs={1,2,3} Same=2 Labels={0,1} Groups={"s","l"} MaxWire=%d Depth=2 EmitOn=FALSE\n'
           "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS TypeOK\n"
           "PROPERTIES Isolated WritePure ReadGives BadHarmless WireGrows\n" % (2 if ctx.thorough else 1))
    ctx.tlc(tlc.run("Session", cfg))


def clean(hist):
    """[op, object, group, label, states, message sent] with states a list over the objects."""
    out = []
    for s in hist:
        held = s["held"]
        if isinstance(held, dict):
            held = [held[k] for k in sorted(held)]
        out.append([s["op"], s["o"], s["g"], s["lb"], [[h["st"], h["con"]] for h in held], s["sent"]])
    return out


class Contents:
    """The concrete contents a class gives to the labels of the specification."""

    def __init__(self, ctx, c, vecs):
        self.b, self.c = ctx.b, c
        self.items = ctx.b.layout[c]["f"]
        self.groups = [group(ctx.b, c, it) for it in self.items]
        if ctx.b.layout[c]["k"] == "pdu":       # messages of this program carry their class's type number
            ty = ctx.b.layout[c]["ty"]
            vecs = [dict(r, v=r["v"][:2] + [[ty]] + r["v"][3:], b=r["b"][:2] + [ty] + r["b"][3:]) for r in vecs]
        self.vecs = vecs
        self.slices = []
        for r in vecs:
            e = bytes(r["b"])
            sl = {}
            for k, path, at, n in r["ops"]:
                i = path[0] if path else 0
                sl[i] = sl.get(i, b"") + e[at:at + n]
            self.slices.append(sl)

    def value(self, con):
        return [self.vecs[con[g]]["v"][i] for i, g in enumerate(self.groups)]

    def octets(self, con):
        out = self.slices[con["l"]].get(0, b"")
        for i, g in enumerate(self.groups):
            out += self.slices[con[g]].get(i + 1, b"")
        return out


class Gate:
    """Stops a parse or serialize running in a thread at its n-th call on the stream, until let go."""

    def __init__(self, at):
        self.at, self.calls = at, 0
        self.paused, self.go = threading.Event(), threading.Event()

    def step(self):
        self.calls += 1
        if self.calls == self.at:
            self.paused.set()
            if not self.go.wait(60):
                raise OSError("gate never opened")


class GatedIn(io.BytesIO):
    gate = None

    def read(self, n=-1):
        if self.gate:
            self.gate.step()
        return super().read(n)


class GatedOut(io.BytesIO):
    gate = None

    def write(self, x):
        if self.gate:
            self.gate.step()
        return super().write(x)


class Running:
    """A call in progress."""

    def __init__(self, gate, call):
        self.gate, self.err = gate, None

        def body():
            try:
                call()
            except BaseException as ex:
                self.err = ex
            finally:
                gate.paused.set()
        self.t = threading.Thread(target=body, daemon=True)
        self.t.start()
        if not gate.paused.wait(60):
            raise OSError("call did not start")

    def finish(self):
        self.gate.go.set()
        self.t.join(60)
        if self.t.is_alive():
            raise OSError("call did not end")
        if self.err:
            raise self.err


class Player:
    def __init__(self, ctx, hist, kinds, rng):
        self.b, self.kinds, self.rng = ctx.b, kinds, rng
        self.hist = hist
        self.obj = {}
        self.calls = {}
        self.wout = {}
        self.src = io.BytesIO()             # what the program reads from
        self.wire = []
        self.rpos = 0
        self.sink = io.BytesIO()            # what it writes to
        self.out = DataOutputStream(self.sink)
        self.inp = DataInputStream(self.src)
        self.bad = []
        self.n = 0

    def kind(self, o):
        return self.kinds["A" if o <= 2 else "B"]

    def fresh(self, k):
        c = k.c
        if k.vecs[0]["pat"] == "def":
            return self.b.new(c)
        return self.b.build(c, k.vecs[0]["v"], "set")

    def receive(self, k, octets):
        p = self.src.tell()
        self.src.seek(0, 2)
        self.src.write(octets)
        self.src.seek(p)
        self.wire.append((k, octets))

    def cut(self, k, lb):
        e = bytes(k.vecs[lb]["b"])
        return e, e[:self.rng.randrange(len(e))] if e else None

    def edit(self, k, o, g, v, mode):
        c, b, obj = k.c, self.b, self.obj[o]
        for it, gr, x in zip(k.items, k.groups, v):
            if gr != g:
                continue
            if mode == "set":
                for a, y in b.fields_one(it, x, self.rng.choice(["ctor", "set"])):
                    b.assign(obj, a, y)
            else:
                self.inplace(obj, it, x)

    def inplace(self, obj, it, x):
        """Change what obj holds, keeping the nested objects and lists where possible."""
        b, k, n = self.b, it["k"], it["n"]
        if k == "rec":
            self.inside(it["t"], getattr(obj, n), x)
        elif k in ("list", "lu", "sv"):
            lst = getattr(obj, n)
            new = b.fields_one(it, x, "set")[0][1]
            keep = min(len(lst), len(x))
            for j in range(keep):
                if k == "list":
                    self.inside(it["t"], lst[j], x[j])
                elif k == "sv" and type(lst[j]) is type(new[j]) and x[j][0] != "Unknown":
                    self.inside(x[j][0], lst[j], x[j][2])
                else:
                    lst[j] = new[j]
            while len(lst) > len(x):
                lst.pop()
            for y in new[keep:]:
                lst.append(y)
        elif k == "a":
            getattr(obj, n)[:] = list(x)
        elif k in ("mod", "ant"):
            cur = getattr(obj, n)
            if x and cur is not None and type(cur).__name__ == x[0]:
                self.inside(x[0], cur, x[1])
            else:
                setattr(obj, n, b.fields_one(it, x, "set")[0][1])
        elif k == "vdat":
            for a, y in b.fields_one(it, x, "set"):
                if isinstance(y, list) and isinstance(getattr(obj, a), list):
                    getattr(obj, a)[:] = y
                else:
                    setattr(obj, a, y)
        else:
            for a, y in b.fields_one(it, x, "set"):
                setattr(obj, a, y)

    def inside(self, c, obj, v):
        for it, x in zip(self.b.layout[c]["f"], v):
            self.inplace(obj, it, x)

    def report(self, i, what):
        step = self.hist[i]
        ops = " ".join("%s(%s)" % (h[0], ",".join(str(x) for x in h[1:4] if x not in ("", 0))) for h in self.hist[:i + 1])
        self.bad.append(("%s:%s" % (self.kinds["A"].c, step[0]), "A=%s B=%s after %s: %s" % (
            self.kinds["A"].c, self.kinds["B"].c, ops, what)))

    def factory(self, k, data):
        b, c = self.b, k.c
        if b.layout[c]["k"] == "pdu" and b.dispatch.get(b.layout[c]["ty"]) == c:
            if self.rng.random() < .5:
                return factory.createPdu(data)
            return factory.getPdu(DataInputStream(io.BytesIO(data)))
        obj = b.new(c)
        # a record's declared size covers what is left: only whole messages are given here
        return b.parse_into(c, obj, DataInputStream(io.BytesIO(data)), len(data))

    def play(self):
        try:
            for i in range(len(self.hist)):
                if not self.step(i):
                    break
        finally:
            for r in self.calls.values():
                r.gate.go.set()
        return self.n, self.bad

    def step(self, i):
        op, o, g, lb, held, sent = self.hist[i]
        b = self.b
        k = self.kind(o) if o else self.kinds["A"]
        before = [self.obj.get(x) for x in (1, 2, 3)]
        mark = self.src.tell()
        try:
            if op == "new":
                self.obj[o] = self.fresh(k)
            elif op == "make":
                self.obj[o] = b.build(k.c, k.vecs[lb]["v"], "ctor")
            elif op in ("set", "edit"):
                self.edit(k, o, g, k.vecs[lb]["v"], op)
            elif op == "write":
                at = self.sink.tell()
                prev = self.sink.getvalue()
                self.obj[o].serialize(self.out)
                new = self.sink.getvalue()
                want = k.octets(sent)
                if new[:at] != prev[:at] or self.sink.tell() != len(new):
                    self.report(i, "octets already in the stream changed")
                if new[at:] != want:
                    self.report(i, "writing object %d: %s" % (o, diff(want, new[at:])))
                self.receive(k, want)
            elif op == "send":
                kk = self.kinds[g]
                self.receive(kk, bytes(kk.vecs[lb]["b"]))
            elif op == "read":
                k2, e = self.wire[self.rpos]
                self.rpos += 1
                b.parse_into(k.c, self.obj[o], self.inp, len(e))
                mark += len(e)
            elif op == "fac":
                k2, e = self.wire[self.rpos]
                self.obj[o] = self.factory(k, e)
            elif op == "bad":
                kk = self.rng.choice([self.kinds["A"], self.kinds["B"]])
                e, data = self.cut(kk, lb)
                if data is not None:
                    try:
                        if b.layout[kk.c]["k"] == "pdu":
                            self.factory(kk, data)
                        else:
                            b.parse_into(kk.c, b.new(kk.c), DataInputStream(io.BytesIO(data)), len(e))
                        self.report(i, "%d octets of %d accepted: %s" % (len(data), len(e), hexs(data)))
                    except (OSError, MemoryError) as ex:
                        if not isinstance(ex, EOFError):
                            raise
                    except Exception:
                        pass
            elif op == "alien":
                ty = self.rng.choice([t for t in range(256) if t not in b.dispatch])
                data = bytes([7, 1, ty]) + bytes(self.rng.randrange(256) for _ in range(self.rng.choice([0, 9, 60])))
                if factory.createPdu(data) is not None:
                    self.report(i, "type %d decoded" % ty)
            elif op == "badinto":
                e, data = self.cut(k, lb)
                if data is not None:
                    try:
                        b.parse_into(k.c, self.obj[o], DataInputStream(io.BytesIO(data)), len(e))
                        self.report(i, "%d octets of %d accepted: %s" % (len(data), len(e), hexs(data)))
                    except Exception:
                        pass
            elif op == "begin":
                s = GatedIn(bytes(k.vecs[lb]["b"]) + b"\xee\x00")
                s.gate = Gate(self.rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 77]))
                obj, size = self.obj[o], len(k.vecs[lb]["b"])
                self.calls[o] = Running(s.gate, lambda: b.parse_into(k.c, obj, DataInputStream(s), size))
            elif op == "beginw":
                s = GatedOut()
                s.gate = Gate(self.rng.choice([1, 2, 3, 5, 8, 13, 21, 40, 77]))
                obj = self.obj[o]
                self.wout[o] = s
                self.calls[o] = Running(s.gate, lambda: obj.serialize(DataOutputStream(s)))
            elif op == "end":
                self.calls.pop(o).finish()
            elif op == "endw":
                self.calls.pop(o).finish()
                want = k.octets(held[o - 1][1])
                got = self.wout.pop(o).getvalue()
                if got != want:
                    self.report(i, "writing object %d while others were used: %s" % (o, diff(want, got)))
            elif op == "drop":
                self.obj.pop(o)
        except Bad as ex:
            self.report(i, "object %d: %s" % (o, ex))
            return False
        except OSError:
            if op not in ("bad", "badinto"):
                raise
        except Exception as ex:
            self.report(i, "object %d: %r" % (o, ex))
            return False
        if self.src.tell() != mark:
            self.report(i, "input stream at %d instead of %d" % (self.src.tell(), mark))
            return False
        for x in (1, 2, 3):
            if x > len(held):
                continue
            st, con = held[x - 1]
            if st in ("ok", "writing"):
                self.n += 1
                kx = self.kind(x)
                want = kx.value(con)
                try:
                    got = b.project(kx.c, self.obj[x])
                except Bad as ex:
                    self.report(i, "object %d: %s" % (x, ex))
                    return False
                if got != want:
                    self.report(i, "object %d: %s" % (x, vdiff(b, kx.c, want, got)))
                    return False
        return not self.bad


def kinds_in(ctx, args):
    """What the labels stand for; replayed cases carry the contents with them."""
    return {x: Contents(ctx, args[x][0], args["kinds"][x] if "kinds" in args else [ctx.vec[j] for j in args[x][1]])
            for x in ("A", "B")}


@suite
def session(ctx, args):
    """C08, C10: histories of a program that uses several objects."""
    kinds = kinds_in(ctx, args)
    return Player(ctx, args["hist"], kinds, ctx.rng("session", args["salt"])).play()


@suite
def session_group(ctx, args):
    """Several short histories in one case."""
    n, bad = 0, []
    lo, hi = args["hists"]
    kinds = kinds_in(ctx, args)
    for i, h in enumerate(args.get("brief") or ctx.brief[lo:hi]):
        m, b = Player(ctx, h, kinds, ctx.rng("session", args["salt"], i)).play()
        n += m
        bad += b
    return n, bad


def kinds_of(ctx):
    """For each class, the vectors that can stand for the labels: [default, others...]."""
    out = {}
    for j, r in enumerate(ctx.vec):
        if r["c"] in ("PduSuperclass",):
            continue
        out.setdefault(r["c"], {}).setdefault(r["pat"], []).append(j)
    return out


def contents_for(ctx, per, c, rng):
    """[default, label 1, label 2] as vector numbers."""
    d = per[c].get("def") or per[c]["zero"][:1]
    pats = [p for p in per[c] if p not in ("def", "zero")]
    pair = rng.sample(pats, 2)
    return [d[0]] + [rng.choice(per[c][p][1:] or per[c][p]) for p in pair]


def crowds(ctx, num, depth, kept):
    """Histories of Crowd.tla (and its own properties, on all histories over a few entries)."""
    cfg = ('CONSTANTS Kinds={"A","B"} Labels={1,2} Ways={"fac"} MaxKept=4 Depth=2 EmitOn=FALSE\n'
           "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nVIEW View\nINVARIANTS TypeOK\nPROPERTIES Apart Holds\n")
    ctx.tlc(tlc.run("Crowd", cfg))
    cfg = ('CONSTANTS Kinds={"A","B"} Labels={1,2,3,4,5} Ways={"fac","cls","ctor"} MaxKept=%d Depth=%d EmitOn=TRUE\n'
           "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANTS TypeOK Emit\n" % (kept, depth))
    recs = ctx.tlc(tlc.simulate("Crowd", cfg, num, depth + 3, ctx.seed))
    return [r for r in tlc.unique(recs)]


@suite
def crowd(ctx, args):
    """C08, C10: a history with many objects at once."""
    b, rng = ctx.b, ctx.rng("crowd", args["salt"])
    rec = args.get("history") or ctx.crowds[args["at"]]
    kinds = {x: [args["vectors"][x][j] if "vectors" in args else ctx.vec[i] for j, i in enumerate(args[x][1])] for x in "AB"}
    names = {x: args[x][0] for x in "AB"}
    for x in "AB":              # messages carry their class's type number
        if b.layout[names[x]]["k"] == "pdu":
            ty = b.layout[names[x]]["ty"]
            kinds[x] = [dict(r, v=r["v"][:2] + [[ty]] + r["v"][3:], b=r["b"][:2] + [ty] + r["b"][3:]) for r in kinds[x]]
    pick = lambda e: kinds[e["k"]][e["lb"] % len(kinds[e["k"]])]
    table, bad, n = [], [], 0

    def decode(c, data, way):
        if way == "fac" and b.layout[c]["k"] == "pdu" and b.dispatch.get(data[2]) == c:
            how = rng.randrange(4)
            if how == 0:
                return factory.createPdu(data)
            if how == 1:
                return factory.getPdu(DataInputStream(io.BytesIO(data)))
            buf = bytearray(data)           # the program's buffer, used again for the next message
            obj = factory.createPdu(buf if how == 2 else memoryview(buf))
            buf[:] = bytes(255 - x for x in buf)
            return obj
        if rng.random() < .3:
            s = io.BytesIO(data)
            obj = b.parse_into(c, b.new(c), DataInputStream(s), len(data))
            s.seek(0)
            s.write(b"\xee" * len(data))
            return obj
        return b.parse(c, data)[0]

    def check(i, obj, e, where):
        c = names[e["k"]]
        try:
            got = b.project(c, obj)
        except Bad as ex:
            bad.append(("%s:crowd" % c, "%s: entry %d: %s" % (where, i, ex)))
            return
        if got != pick(e)["v"]:
            bad.append(("%s:crowd" % c, "%s: entry %d: %s" % (where, i, vdiff(b, c, pick(e)["v"], got))))

    for m, e in enumerate(rec["log"]):
        op = e["op"]
        if op == "stop":
            break
        c, r = names[e["k"]], pick(e)
        data = bytes(r["b"])
        where = "with A=%s B=%s after %d operations, %d objects kept" % (names["A"], names["B"], m, len(table))
        n += 1
        try:
            if op == "arrive":
                table.append(b.build(c, r["v"], "ctor") if e["way"] == "ctor" else decode(c, data, e["way"]))
                check(len(table), table[-1], e, where)
            elif op == "update":
                b.parse_into(c, table[e["i"] - 1], DataInputStream(io.BytesIO(data)), len(data))
                check(e["i"], table[e["i"] - 1], e, where)
            elif op == "relay":
                got = b.serialize(table[e["i"] - 1])
                if got != data:
                    bad.append(("%s:crowd" % c, "%s: entry %d written: %s" % (where, e["i"], diff(data, got))))
            elif op == "expire":
                table.pop(e["i"] - 1)
            elif op == "noise" and data:
                try:
                    decode(c, data[:rng.randrange(len(data))], "fac")
                except Exception:
                    pass
        except Exception as ex:
            bad.append(("%s:crowd" % c, "%s: %s: %r" % (where, op, ex)))
        if bad:
            return n, bad[:1]
    for i, (obj, e) in enumerate(zip(table, rec["table"])):
        n += 1
        check(i + 1, obj, e, "at the end of a history, of %d objects" % len(table))
        if bad:
            break
    if len(table) != len(rec["table"]):
        raise OSError("replay lost step")
    return n, bad
