"""Binds the specification's objects (tuples over Layouts.tla) to the real classes.

build(c, v) makes the implementation's object for tuple v through the public
API only (constructor arguments, attributes, list methods); project(c, obj)
reads the tuple back from the attributes.  Fields are octet lists.
"""
import io, os, struct, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import importlib
import opendis
import opendis.dis7 as dis7
import opendis.record as record
import opendis.PduFactory as factory
from opendis.stream import DataInputStream, DataOutputStream

assert os.path.dirname(os.path.abspath(opendis.__file__)) == os.path.join(REPO, "opendis"), opendis.__file__

_MODS = [dis7, record] + [importlib.import_module("opendis.record." + m)
                          for m in ("common", "radio", "warfare", "warfare.enums", "base")]


class Bad(Exception):
    """The object does not have the shape its layout says (attribute missing or of the wrong kind)."""


def lookup(name):
    for m in _MODS:
        if hasattr(m, name):
            return getattr(m, name)
    raise Bad("class %s not found" % name)


FLT = {4: ">f", 8: ">d"}
FAMILY = {"vtp": "VariableTransmitterParametersRecord", "damage": "DamageDescriptionRecord", "any": "StandardVariableRecord"}


class Binding:
    def __init__(self, dump):
        self.layout = dump["layout"]
        self.ctor = {c: [a for a in args] for c, args in dump["ctor"].items()}
        self.alias = {(c, p): a for c, p, a in dump["alias"]}
        self.derived = {(c, p) for c, p in dump["derived"]}
        self.nodefault = set(dump["nodefault"])
        self.dispatch = {int(t): c for t, c in dump["dispatch"]}
        self.types = {}
        for c in self.layout:
            self.types[c] = lookup(c)
            if self.layout[c]["k"] == "abs":    # the abstract PDU classes need a type number
                self.types[c] = type(c, (self.types[c],), {"pduType": 1})
        self.svnames = {c for c in self.layout if self.layout[c]["k"] == "sv"}

    # -- leaves ------------------------------------------------------------
    guise = None        # puts the numbers given to the code in another of their types
    twins = None        # a dict: equal records within what is built are one object, used several times

    def once(self, key, make):
        if self.twins is None:
            return make()
        key = repr(key)
        if key not in self.twins:
            self.twins[key] = make()
        return self.twins[key]

    def leaf(self, it, x):
        y = self.plain(it, x)
        return y if self.guise is None else self.guise(y)

    @staticmethod
    def plain(it, x):
        k, w = it["k"], it["w"]
        if k == "u":
            return int.from_bytes(bytes(x), "big")
        if k == "i":
            return int.from_bytes(bytes(x), "big", signed=True)
        if k == "f":
            return struct.unpack(FLT[w], bytes(x))[0]
        raise AssertionError(k)

    @staticmethod
    def unleaf(it, x, what):
        k, w = it["k"], it["w"]
        try:
            if k == "f":
                if isinstance(x, (str, bytes)):
                    raise Bad("%s: not a number: %r" % (what, x))
                return list(struct.pack(FLT[w], x))
            if not isinstance(x, int):
                raise Bad("%s: not an integer: %r" % (what, x))
            return list(int(x).to_bytes(w, "big", signed=(k == "i")))
        except (OverflowError, struct.error, TypeError) as e:
            raise Bad("%s: %r does not fit its field (%s)" % (what, x, e))

    # -- objects -----------------------------------------------------------
    def fields(self, c, v, mode="ctor"):
        """(attribute, value) for every item of the layout that carries one."""
        return self.pairs(self.layout[c]["f"], v, mode)

    def pairs(self, items, v, mode):
        for it, x in zip(items, v):
            k, n = it["k"], it["n"]
            if k in ("u", "i", "f"):
                yield n, self.leaf(it, x)
            elif k == "a":
                yield n, list(x)
            elif k == "rest":
                yield n, bytes(x)
            elif k == "flag":
                yield n, x[0]
            elif k == "bits":
                yield from zip(it["t"], x)
            elif k == "vdat":
                yield n, int.from_bytes(bytes(x[0]), "big")
                yield it["l"], list(x[1])
            elif k == "rec":
                yield n, self.once((it["t"], x), lambda: self.build(it["t"], x, mode))
            elif k == "list":
                yield n, [self.once((it["t"], e), lambda: self.build(it["t"], e, mode)) for e in x]
            elif k == "lu":
                yield n, [self.leaf({"k": "u", "w": 0}, e) for e in x]
            elif k == "sv":
                yield n, [self.once(("sv", it["t"], e), lambda: self.build_sv(e, it["t"], mode)) for e in x]
            elif k in ("mod", "ant"):
                yield n, (self.build(x[0], x[1], mode) if x else None)

    def build_sv(self, e, fam="any", mode="ctor"):
        tag, ty, val = e
        if tag == "Unknown":
            cls = record.getStandardVariableClass(int.from_bytes(bytes(ty), "big"), lookup(FAMILY[fam]))
            return cls(bytes(val))
        return self.build(tag, val, mode)

    def kwargs(self, c, pairs):
        """Split attribute values into constructor arguments and the rest."""
        vals = dict(pairs)
        kw = {}
        for p in self.ctor.get(c, []):
            a = self.alias.get((c, p), p)
            if a in vals:
                kw[p] = vals.pop(a)
            elif (c, p) in self.derived:
                kw[p] = 0
        return kw, vals

    def build(self, c, v, mode="ctor"):
        """mode ctor: constructor arguments where there are any; set: default object, attributes assigned;
        mut: default object, nested records and lists edited in place."""
        if mode == "ctor":
            kw, rest = self.kwargs(c, self.fields(c, v, mode))
            obj = self.types[c](**kw)
            for a, x in rest.items():
                self.assign(obj, a, x)
            return obj
        obj = self.new(c)
        if mode == "mut":
            self.mutate(c, obj, v)
        else:
            for a, x in self.fields(c, v, mode):
                self.assign(obj, a, x)
        return obj

    def new(self, c):
        """A default object."""
        return self.types[c]()

    @staticmethod
    def assign(obj, a, x):
        """obj.a = x; the lists of the datum PDUs are read-only properties, edited in place."""
        p = getattr(type(obj), a, None)
        if isinstance(p, property) and p.fset is None and isinstance(x, list):
            getattr(obj, a)[:] = x
        else:
            setattr(obj, a, x)

    # -- one field of an object, by its path in the tuple ----------------------
    def locate(self, c, obj, path):
        """(holder, attribute or list index, item) of the primitive at path."""
        it = self.layout[c]["f"][path[0] - 1]
        k, n = it["k"], it["n"]
        if len(path) == 1:
            return obj, n, it
        if k == "rec":
            return self.locate(it["t"], getattr(obj, n), path[1:])
        if k == "lu":
            return getattr(obj, n), path[1] - 1, {"k": "u", "w": it["w"], "n": n}
        if k == "list":
            return self.locate(it["t"], getattr(obj, n)[path[1] - 1], path[2:])
        if k == "sv":
            e = getattr(obj, n)[path[1] - 1]
            name = type(e).__name__
            if name not in self.svnames:
                return e, "data", {"k": "rest", "w": 0, "n": "data"}
            return self.locate(name, e, path[3:])
        if k in ("mod", "ant"):
            e = getattr(obj, n)
            return self.locate(type(e).__name__, e, path[2:])
        if k == "vdat":
            return obj, it["l"], {"k": "a", "w": 0, "n": it["l"]}
        raise AssertionError((c, path))

    @staticmethod
    def put(loc, x):
        h, a, it = loc
        if isinstance(a, int):
            h[a] = x
        else:
            setattr(h, a, x)

    @staticmethod
    def get(loc):
        h, a, it = loc
        return h[a] if isinstance(a, int) else getattr(h, a)

    def mutate(self, c, obj, v):
        """Give obj the contents v by editing what it holds in place."""
        for it, x in zip(self.layout[c]["f"], v):
            k, n = it["k"], it["n"]
            if k == "rec":
                self.mutate(it["t"], getattr(obj, n), x)
            elif k in ("list", "lu", "sv"):
                lst = getattr(obj, n)
                del lst[:]
                for a, y in self.fields_one(it, x, "mut"):
                    for e in y:
                        lst.append(e)
            elif k == "a":
                getattr(obj, n)[:] = list(x)
            else:
                for a, y in self.fields_one(it, x, "mut"):
                    setattr(obj, a, y)

    def fields_one(self, it, x, mode):
        return list(self.pairs([it], [x], mode))

    def project_sv(self, o):
        name = type(o).__name__
        ty = getattr(o, "recordType", None)
        if not isinstance(ty, int) or not 0 <= ty < 1 << 32:
            raise Bad("record without a type: %r" % (o,))
        tyb = list(ty.to_bytes(4, "big"))
        if name in self.svnames and isinstance(o, self.types[name]):
            return [name, tyb, self.project(name, o)]
        data = getattr(o, "data", None)
        if not isinstance(data, (bytes, bytearray)):
            raise Bad("unknown record without data: %r" % (o,))
        return ["Unknown", tyb, list(data)]

    def project(self, c, obj):
        if not isinstance(obj, self.types[c]):
            raise Bad("expected %s, found %s" % (c, type(obj).__name__))
        out = []
        for it in self.layout[c]["f"]:
            k, n = it["k"], it["n"]
            what = c + "." + str(n)
            try:
                if k in ("u", "i", "f"):
                    out.append(self.unleaf(it, getattr(obj, n), what))
                elif k == "a":
                    a = list(getattr(obj, n))
                    if len(a) != it["w"] or not all(isinstance(y, int) and 0 <= y < 256 for y in a):
                        raise Bad("%s: %r" % (what, a))
                    out.append(a)
                elif k == "rest":
                    out.append(list(getattr(obj, n)))
                elif k == "flag":
                    x = getattr(obj, n)
                    if not isinstance(x, int):
                        raise Bad(what)
                    out.append([int(x)])
                elif k == "bits":
                    xs = [getattr(obj, a) for a in it["t"]]
                    if not all(isinstance(x, int) for x in xs):
                        raise Bad("%s: %r" % (what, xs))
                    out.append([int(x) for x in xs])
                elif k == "vdat":
                    out.append([self.unleaf({"k": "u", "w": 4}, getattr(obj, n), what),
                                [int(y) for y in getattr(obj, it["l"])]])
                elif k == "rec":
                    out.append(self.project(it["t"], getattr(obj, n)))
                elif k == "list":
                    out.append([self.project(it["t"], e) for e in getattr(obj, n)])
                elif k == "lu":
                    out.append([self.unleaf({"k": "u", "w": it["w"]}, e, what) for e in getattr(obj, n)])
                elif k == "sv":
                    out.append([self.project_sv(e) for e in getattr(obj, n)])
                elif k in ("mod", "ant"):
                    o = getattr(obj, n)
                    if o is None:
                        out.append([])
                    else:
                        name = type(o).__name__
                        if name not in self.layout or self.layout[name]["k"] != k:
                            raise Bad("%s: unexpected %s" % (what, name))
                        out.append([name, self.project(name, o)])
                else:
                    out.append([])
            except AttributeError as e:
                raise Bad("%s: %s" % (what, e))
        return out

    # -- the codec of the implementation -------------------------------------
    @staticmethod
    def serialize(obj):
        s = io.BytesIO()
        obj.serialize(DataOutputStream(s))
        return s.getvalue()

    def parse_into(self, c, obj, stream, size=None):
        """Parse from the DataInputStream into obj (size: declared length of a framed record)."""
        k = self.layout[c]["k"]
        if k in ("mod", "ant"):
            obj.parse(stream, bytelength=size)
        elif k == "sv":
            ty = stream.read_uint32()
            n = stream.read_uint16()
            if ty != self.layout[c]["ty"]:
                raise ValueError("type %d" % ty)
            obj.parse(stream, n)
        else:
            obj.parse(stream)
        return obj

    def parse(self, c, data, size=None):
        """(object, octets consumed) from a fresh object of class c."""
        s = io.BytesIO(bytes(data))
        obj = self.parse_into(c, self.new(c), DataInputStream(s), len(data) if size is None else size)
        return obj, s.tell()
