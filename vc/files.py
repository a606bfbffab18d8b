"""Contracts of JSON and files.

JSON keeps numbers, texts, True, False, None; lists and tuples become lists; the keys of
dictionaries become texts (a whole number its decimal digits); what is read back is new.  Opaque
values are JSON values (an assumption of the specifications that use them).  A file holds what was
last written to its path.  monty's dumpfn writes an object as the dictionary its as_dict gives,
loadfn reads it back with from_dict of the class the entries @module and @class name, given the
entries whose keys do not start with @."""
import z3

from core import *
from ops import strcode
from models import intstr

NONTEXT = z3.Function("never", V, BOOL)


def text(i):
    return V.VStr(strcode(V.VInt(i)))


def number(q):
    """the whole number a text is the digits of"""
    return intstr(V.vs(q))


class JSON:
    def __init__(self, E):
        self.E = E

    @property
    def ops(self):
        return self.E.ops

    def install_axioms(self):
        E = self.E

        def ax(v):
            i = V.vi(v)
            out = [z3.Implies(V.is_VInt(v), intstr(strcode(v)) == i)]
            for s, c in list(E.strings.items()):
                if not s.lstrip("-").isdigit():
                    out.append(z3.Implies(V.is_VInt(v), strcode(v) != c))
            return out
        E.defs["strcode"] = ax

    def key(self, k):
        c = self.ops.const_of(k)
        if isinstance(c, str):
            return k
        if isinstance(c, int):
            return self.E.toV(str(c))
        k = z3.simplify(k)
        if z3.is_app(k) and k.decl().name() == "VStr":
            return k
        if z3.is_app(k) and k.decl().name() == "VInt":
            return text(k.arg(0))
        raise Unsupported("JSON of a dictionary with unknown keys")

    def value(self, v):
        """what is read back of a value written as JSON (frozen in, frozen out)"""
        E, ops = self.E, self.ops
        if E.scalar(v):
            return v
        if isinstance(v, (ListObj, TupleVal)):
            if isinstance(v, TupleVal) and v.ident is not None and v.items is None:
                raise Unsupported("JSON of an opaque tuple")
            return ListObj(None, self.seq(v.seq))
        if isinstance(v, Vec) or type(v).__name__ == "Mat" or isinstance(v, SetObj):
            raise Raise("TypeError", "not JSON serializable")
        if isinstance(v, DictObj):
            if v.mats:
                raise Unsupported("JSON of a dictionary in use")
            base, b = None, v.base
            if b is not None:
                q = z3.Const("json!q", V)
                if z3.is_false(z3.simplify(zb(b.has(V.VStr(z3.IntVal(0)))))):
                    back = lambda q: V.VInt(number(q))
                    is_ = lambda q: z3.And(V.is_VStr(q), text(number(q)) == q)
                    keys = None
                    if b.keys is not None:
                        keys = Seq([self.keypart(p) for p in b.keys.parts])
                    base = Base(lambda q: ops.simp(z3.And(is_(q), zb(b.has(back(q))))), lambda q: self.value(b.get(back(q))), keys, b.origin, b.nested)
                else:
                    E.assumed.add("attribute names are texts (other names do not survive JSON)")
                    base = Base(b.has, (lambda q: self.value(b.get(q))), b.keys, b.origin, b.nested)
            return DictObj(None, base, [(self.key(k), x if x is TOMB else self.value(x)) for k, x in v.ents], v.origin, True)
        raise Unsupported(f"JSON of {type(v).__name__}")

    def keypart(self, p):
        if isinstance(p, Item):
            return Item(self.key(self.E.toV(p.value)), p.guard)
        q = Part(p.n, p.cond, lambda i: self.key(self.E.toV(p.elem(i))), None, p.tag)
        k = getattr(p, "keyinv", None)
        if k is not None:
            key, has, pos = k[:3]
            back = lambda t: V.VInt(number(t))
            q.keyinv = (lambda i: self.key(self.E.toV(key(i))), lambda t: z3.And(V.is_VStr(t), text(number(t)) == t, has(back(t))), lambda t: pos(back(t)), (key, has, pos)) + tuple(k[3:])
        return q

    def seq(self, s):
        out = []
        for p in s.parts:
            if isinstance(p, Item):
                out.append(Item(self.value(p.value), p.guard))
            elif isinstance(p, Flat):
                out.append(Flat(p.n, p.cond, lambda i, p=p: self.seq(p.inner(i))))
            elif isinstance(p, OfSet):
                raise Unsupported("JSON of a set")
            else:
                out.append(Part(p.n, p.cond, lambda i, p=p: self.value(p.elem(i)), None, p.tag))
        return Seq(out)

    def fresh(self, v):
        """a frozen value as a new object"""
        ops = self.ops
        return ops.deepcopy(v) if isinstance(v, (DictObj, ListObj)) else v


class Disk:
    def __init__(self, E):
        self.E = E
        self.files = []          # (path, frozen content), the last one counts

    def write(self, path, content):
        self.files.append((path, content))

    def read(self, path):
        for p, c in reversed(self.files):
            if p is path or (self.E.scalar(p) and self.E.scalar(path) and self.E.valid(self.E.toV(p) == self.E.toV(path))):
                return c
        raise Unsupported("a file that was not written here")


class File:
    kind = "file"

    def __init__(self, path, mode):
        self.path, self.mode, self.open = path, mode, False

    def enter(self, E):
        return self


def install(E, X):
    json = JSON(E)
    E.json = json
    E.disk = disk = Disk(E)
    json.install_axioms()

    def freeze(v):
        return E.ops.freeze(v) if isinstance(v, Obj) else v

    def content(v):
        E.assumed.add("JSON: numbers, texts, truth values, None, lists and dictionaries with text keys survive; tuples become lists, whole-number keys their digits (floats: repr round trip)")
        return json.value(freeze(v))

    def f_open(E, a, k):
        path, mode = a[0], (a[1] if len(a) > 1 else k.get("mode", "r"))
        if not isinstance(mode, str):
            raise Unsupported("mode of a file")
        if k.get("encoding") not in (None, "utf-8", "utf8", "UTF-8"):
            raise Unsupported("encoding of a file")
        return File(path, mode)

    def dump(E, a, k):
        f = a[1] if len(a) > 1 else k["fp"]
        if set(k) - {"fp", "indent", "sort_keys"} or k.get("sort_keys"):
            raise Unsupported("json.dump")
        if not isinstance(f, File) or not f.mode.startswith("w"):
            raise Unsupported("json.dump to something that is no file just made")
        disk.write(f.path, content(a[0]))

    def load(E, a, k):
        if not isinstance(a[0], File) or not f_readable(a[0]):
            raise Unsupported("json.load")
        return json.fresh(disk.read(a[0].path))

    def f_readable(f):
        return f.mode.startswith("r")

    class Dumped:
        def __init__(self, v):
            self.v = v

    def dumps(E, a, k):
        if set(k) - {"indent"}:
            raise Unsupported("json.dumps")
        return JSONText(content(a[0]))

    def loads(E, a, k):
        if not isinstance(a[0], JSONText):
            raise Unsupported("json.loads")
        return json.fresh(a[0].v)

    def plain(v):
        """monty: an object is written as what its as_dict gives"""
        if isinstance(v, Inst):
            return E.interp.call(E.ops.getattr(v, "as_dict"), [], {})
        return v

    def dumpfn(E, a, k):
        E.assumed.add("monty dumpfn, loadfn: as_dict to a JSON file and from_dict of the named class from it")
        path = a[1] if len(a) > 1 else k["fn"]
        disk.write(path, content(plain(a[0])))

    def loadfn(E, a, k):
        d = disk.read(a[0])
        ks = E.ops.const_keys(d)
        if ks is None:
            raise Unsupported("loadfn")
        at = lambda n: E.ops.dict_at(d, E.toV(n))[1]
        if "@module" not in ks or "@class" not in ks:
            return json.fresh(d)
        m, c = (E.ops.const_of(E.toV(at(n))) for n in ("@module", "@class"))
        cls = E.interp.mods.get(E.interp.mods.load(m), c)
        data = json.fresh(DictObj(None, None, [(x, v) for x, v in d.ents if v is not TOMB and not str(E.ops.const_of(x)).startswith("@")]))
        return E.interp.call(E.ops.getattr(cls, "from_dict"), [data], {})
    X.update({"builtins.open": f_open, "json.dump": dump, "json.load": load, "json.dumps": dumps, "json.loads": loads,
              "monty.serialization.dumpfn": dumpfn, "monty.serialization.loadfn": loadfn})


class JSONText:
    def __init__(self, v):
        self.v = v
