"""Interpreter of the Python subset, over symbolic values."""
import ast
import os
from fractions import Fraction

import z3

from core import *

SRC = os.environ.get("VC_REPO", "/repo") + "/src"


class Modules:
    """Lazily parsed modules of the project."""

    def __init__(self, E, src=SRC):
        self.E, self.src, self.cache, self.files = E, src, {}, {}

    def path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def load(self, name):
        if name in self.cache:
            return self.cache[name]
        path = self.path(name)
        if not os.path.exists(path):
            raise Unsupported(f"module {name} not found")
        text = open(path).read()
        self.files[path] = text
        tree = ast.parse(text)
        mod = ModuleVal(name, {}, path)
        self.cache[name] = mod
        mod.pkg = name if path.endswith("__init__.py") else name.rsplit(".", 1)[0]
        mod.tree = tree
        mod.pending = {}
        self.scan(mod, tree.body)
        return mod

    def scan(self, mod, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                mod.pending[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    mod.pending[nm] = ("import", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    pk = mod.pkg.split(".")
                    pk = pk[:len(pk) - (st.level - 1)]
                    base = ".".join(pk + ([st.module] if st.module else []))
                for a in st.names:
                    mod.pending[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        mod.pending[t.id] = ("expr", st.value)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                mod.pending[st.target.id] = ("expr", st.value)
            elif isinstance(st, (ast.If, ast.Try)):
                for b in ("body", "orelse", "finalbody"):
                    self.scan(mod, getattr(st, b, []))

    def get(self, mod, name):
        if name in mod.env:
            return mod.env[name]
        if name not in mod.pending:
            sub = self.path(mod.name + "." + name)
            if mod.path.endswith("__init__.py") and os.path.exists(sub):
                return self.load(mod.name + "." + name)
            return MISSING
        p = mod.pending[name]
        if isinstance(p, ast.FunctionDef):
            v = self.E.interp.make_func(p, None, mod)
        elif isinstance(p, ast.ClassDef):
            v = self.make_class(p, mod)
        elif p[0] == "import":
            v = self.load(p[1]) if p[1].startswith("pylattica") else Ext(p[1])
        elif p[0] == "from":
            if p[1].startswith("pylattica"):
                m = self.load(p[1])
                v = self.get(m, p[2])
                if v is MISSING:
                    v = self.load(p[1] + "." + p[2])
            else:
                v = Ext(p[1] + "." + p[2])
        else:
            v = ("thunk", p[1])
        if isinstance(v, tuple) and v[0] == "thunk":
            fr = Frame(self.E, None, mod)
            g = self.E.modglobals.vars.get((mod.name, name))
            if g is not None:
                return g
            v = self.E.interp.eval(v[1], fr)
            if isinstance(v, (DictObj, ListObj, SetObj)):
                v.longlived = f"{mod.name}.{name}"
            return v                                 # evaluated afresh: module constants are not shared between paths
        mod.env[name] = v
        return v

    def make_class(self, node, mod, frame=None):
        bases = []
        for b in node.bases:
            fr = frame or Frame(self.E, None, mod)
            bases.append(self.E.interp.eval(b, fr))
        cls = ClassVal(node.name, mod, bases, {}, node)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                f = self.E.interp.make_func(st, frame, mod, cls)
                cls.attrs[st.name] = f
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        cls.attrs[t.id] = ("thunk", st.value)
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                cls.attrs[st.target.id] = ("thunk", st.value)
        return cls


def deco_name(d):
    if isinstance(d, ast.Call):
        d = d.func
    if isinstance(d, ast.Attribute):
        return d.attr
    return getattr(d, "id", "?")


class Interp:
    def __init__(self, E):
        import ops
        import loops
        self.E = E
        E.interp = self
        self.mods = Modules(E)
        self.ops = ops.Ops(E, self)
        E.ops = self.ops
        self.loops = loops.Loops(E, self)
        E.loops = self.loops
        self.depth = 0
        E.modglobals = Frame(E, None, None)

    # ------------------------------------------------------------ functions
    def make_func(self, node, env, mod, cls=None):
        deco = [deco_name(d) for d in getattr(node, "decorator_list", [])]
        fr = env or Frame(self.E, None, mod)
        a = node.args
        defaults = [self.eval(d, fr) for d in a.defaults]
        for d in defaults:
            if isinstance(d, (DictObj, ListObj, SetObj)):
                d.longlived = "default argument of " + getattr(node, "name", "lambda")
        kwd = {k.arg: self.eval(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return FuncVal(node, env, mod, cls, defaults=defaults, kwdefaults=kwd, deco=deco)

    def call(self, f, args, kw=None):
        kw = kw or {}
        E = self.E
        if isinstance(f, Native):
            if f.fn.__module__ in ("models", "files", "geometry", "ops", "loops"):
                return library(f.name, f.fn, E, args, kw)
            return f.fn(E, args, kw)
        if isinstance(f, Bound):
            if isinstance(f.func, FuncVal):
                return self.call_func(f.func, [f.self_] + args, kw)
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, FuncVal):
            return self.call_func(f, args, kw)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.ops.call_ext(f.name, args, kw)
        if isinstance(f, Inst):
            m = self.find_method(f, "__call__")
            if m is not None:
                return self.call(m, args, kw)
        raise Unsupported(f"call of {type(f).__name__}")

    def instantiate(self, cls, args, kw):
        E = self.E
        c = E.contracts.get(cls.name)
        if c is not None:
            E.used_contracts.add(cls.name)
            return c(E, args, kw)
        for b in cls.mro():
            for x in b.bases:
                if isinstance(x, Ext) and x.name.split(".")[-1] not in ("ABC", "object"):
                    raise Unsupported(f"base class {x.name}")
        o = Inst(E, cls)
        init = cls.lookup("__init__")
        if isinstance(init, FuncVal):
            self.call_func(init, [o] + args, kw)
        elif args or kw:
            raise Raise("TypeError", "arguments without __init__")
        return o

    def call_func(self, f, args, kw):
        E = self.E
        if "abstractmethod" in f.deco:
            raise Unsupported(f"call of abstract {f.qual}")
        for d in f.deco:
            if d == "lru_cache":
                E.assumed.add(f"{f.qual} is memoised (lru_cache): decided for the first call with given arguments; a later call repeats that answer")
            elif d not in ("property", "staticmethod", "classmethod"):
                raise Unsupported(f"decorator {d}")
        c = E.contracts.get(f.qual)
        if c is not None:
            E.used_contracts.add(f.qual)
            return c(E, args, kw)
        E.inlined.add(f.module.name + "." + f.qual)
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Unsupported("recursion")
        try:
            fr = Frame(E, f.env, f.module, f)
            self.bind(f, fr, args, kw)
            if isinstance(f.node, ast.Lambda):
                return self.eval(f.node.body, fr)
            if self.is_generator(f.node):
                return self.run_generator(f, fr)
            try:
                self.block(f.node.body, fr)
            except Ret as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def is_generator(self, node):
        for n in ast.walk(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return True
        return False

    def run_generator(self, f, fr):
        """Run the body at once.  What the consumer sees at a yield is what the value
        looked like then, so the yielded objects are recorded as they are (frozen)."""
        out = ListObj(self.E, Seq())
        fr.vars["*yield*"] = out
        try:
            self.block(f.node.body, fr)
        except Ret:
            pass
        return Iter(self.E, out.seq)

    def bind(self, f, fr, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        if len(args) > len(names) and not a.vararg:
            raise Raise("TypeError", "too many arguments")
        for n, v in zip(names, args):
            fr.vars[n] = v
        if a.vararg:
            fr.vars[a.vararg.arg] = TupleVal(args[len(names):])
        nd = len(f.defaults)
        for j, n in enumerate(names):
            if j < len(args):
                if n in kw:
                    raise Raise("TypeError", f"two values for {n}")
                continue
            if n in kw:
                fr.vars[n] = kw.pop(n)
            elif j >= len(names) - nd:
                fr.vars[n] = f.defaults[j - (len(names) - nd)]
            else:
                raise Raise("TypeError", f"missing argument {n} of {f.name}")
        for k in a.kwonlyargs:
            if k.arg in kw:
                fr.vars[k.arg] = kw.pop(k.arg)
            elif k.arg in f.kwdefaults:
                fr.vars[k.arg] = f.kwdefaults[k.arg]
            else:
                raise Raise("TypeError", f"missing argument {k.arg}")
        if a.kwarg:
            fr.vars[a.kwarg.arg] = self.ops.new_dict([(k, v) for k, v in kw.items()])
        elif kw:
            raise Raise("TypeError", f"unexpected argument {list(kw)[0]} of {f.name}")

    # ------------------------------------------------------------ names
    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.vars:
                v = f.vars[name]
                if v is UNDEF:
                    raise Unsupported(f"value of {name} is not known here")
                return v
            f = f.parent
        v = self.mods.get(fr.module, name)
        if v is not MISSING:
            return v
        return self.ops.builtin(name)

    def is_builtin(self, name, fr):
        v = self.lookup(name, fr)
        return isinstance(v, Native) and v.fn == self.ops.builtin(name).fn

    def find_method(self, o, name):
        c = o.cls
        if isinstance(c, ClassVal):
            a = c.lookup(name)
            if isinstance(a, FuncVal):
                if "staticmethod" in a.deco:
                    return a
                if "classmethod" in a.deco:
                    return Bound(a, c)
                return Bound(a, o)
        return None

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        E = self.E
        k = type(st).__name__
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported(f"statement {k}")
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Yield):
            v = self.eval(st.value.value, fr) if st.value.value else None
            f = fr
            while "*yield*" not in f.vars:
                f = f.parent
            self.ops.list_append(f.vars["*yield*"], self.ops.freeze(v))
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Global(self, st, fr):
        fr.globals_ |= set(st.names)

    def s_Nonlocal(self, st, fr):
        fr.nonlocals |= set(st.names)

    def s_Import(self, st, fr):
        for a in st.names:
            fr.vars[a.asname or a.name.split(".")[0]] = Ext(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            fr.vars[a.asname or a.name] = Ext((st.module or "") + "." + a.name)

    def s_FunctionDef(self, st, fr):
        fr.vars[st.name] = self.make_func(st, fr, fr.module)

    def s_Return(self, st, fr):
        raise Ret(self.eval(st.value, fr) if st.value else None)

    def s_Break(self, st, fr):
        raise Brk()

    def s_Continue(self, st, fr):
        raise Cont()

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported("bare raise")
        e = st.exc
        nm = e.func if isinstance(e, ast.Call) else e
        raise Raise(getattr(nm, "id", getattr(nm, "attr", "?")), "raised")

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise Raise("AssertionError", "assert")

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.ops.augop(st.op, cur, self.eval(st.value, fr))
            self.assign(t, v, fr)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            ix = self.eval(t.slice, fr)
            cur = self.ops.getitem(o, ix)
            self.ops.setitem(o, ix, self.ops.augop(st.op, cur, self.eval(st.value, fr)))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.ops.getattr(o, t.attr)
            self.ops.setattr(o, t.attr, self.ops.augop(st.op, cur, self.eval(st.value, fr)))
        else:
            raise Unsupported("augmented assignment")

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals_:
                raise Unsupported("assignment to a global")
            f = fr
            if t.id in fr.nonlocals:
                f = fr.parent
                while f is not None and t.id not in f.vars:
                    f = f.parent
                if f is None:
                    raise Unsupported("nonlocal")
            f.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [j for j, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.ops.unpack(v, len(t.elts), bool(stars))
            if stars:
                j = stars[0]
                after = len(t.elts) - j - 1
                if len(vals) < len(t.elts) - 1:
                    raise Raise("ValueError", "unpack")
                mid = vals[j:len(vals) - after]
                vals = vals[:j] + [ListObj(self.E, Seq.of(mid))] + vals[len(vals) - after:]
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
        elif isinstance(t, ast.Subscript):
            self.ops.setitem(self.eval(t.value, fr), self.eval(t.slice, fr), v)
        elif isinstance(t, ast.Attribute):
            self.ops.setattr(self.eval(t.value, fr), t.attr, v)
        else:
            raise Unsupported("assignment target")

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Subscript):
                self.ops.delitem(self.eval(t.value, fr), self.eval(t.slice, fr))
            elif isinstance(t, ast.Name):
                fr.vars.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            v = self.ops.enter(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def s_Try(self, st, fr):
        if st.finalbody:
            raise Unsupported("finally")
        try:
            self.block(st.body, fr)
        except Raise as e:
            for h in st.handlers:
                names = []
                if h.type is None:
                    names = None
                elif isinstance(h.type, ast.Tuple):
                    names = [getattr(x, "id", "?") for x in h.type.elts]
                else:
                    names = [getattr(h.type, "id", "?")]
                if names is None or e.kind in names or "Exception" in names or (
                        "LookupError" in names and e.kind in ("KeyError", "IndexError")):
                    if h.name:
                        fr.vars[h.name] = UNDEF
                    return self.block(h.body, fr)
            raise
        self.block(st.orelse, fr)

    def s_While(self, st, fr):
        f = self.index_loop(st, fr)
        if f is None:
            return self.loops.while_loop(st, fr)
        loop, i, xs = f
        ends = self.eval(ast.Call(ast.Name("len", ast.Load()), [xs], []), fr)
        fr.vars[i] = UNDEF
        self.s_For(loop, fr)
        if not any(isinstance(x, ast.Break) for x in ast.walk(st)):
            fr.vars[i] = ends

    def index_loop(self, st, fr):
        """`while i < len(xs): x = xs[i]; ...; i += 1` from i = 0 is `for x in xs: ...`: both look at the
        list's current length and element on every round.  None when it is not of that form."""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1) or st.orelse or len(st.body) < 2:
            return None
        a, b, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            a, b = b, a
        elif not isinstance(op, ast.Lt):
            return None
        if not (isinstance(a, ast.Name) and isinstance(b, ast.Call) and isinstance(b.func, ast.Name)
                and b.func.id == "len" and len(b.args) == 1 and isinstance(b.args[0], ast.Name)):
            return None
        i, xs = a.id, b.args[0].id
        v = fr.vars.get(i)
        if type(v) is not int or v != 0 or not isinstance(fr.vars.get(xs), ListObj):
            return None
        last, first = st.body[-1], st.body[0]
        one = lambda e: isinstance(e, ast.Constant) and type(e.value) is int and e.value == 1
        me = lambda e: isinstance(e, ast.Name) and e.id == i
        if isinstance(last, ast.AugAssign):
            ok = me(last.target) and isinstance(last.op, ast.Add) and one(last.value)
        else:
            ok = isinstance(last, ast.Assign) and len(last.targets) == 1 and me(last.targets[0]) \
                and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) \
                and ((me(last.value.left) and one(last.value.right)) or (one(last.value.left) and me(last.value.right)))
        fetch = isinstance(first, ast.Assign) and len(first.targets) == 1 and isinstance(first.value, ast.Subscript) \
            and isinstance(first.value.value, ast.Name) and first.value.value.id == xs and me(first.value.slice)
        if not ok or not fetch:
            return None
        body = st.body[1:-1]
        for n in [first.targets[0]] + body:
            for x in ast.walk(n):
                if isinstance(x, (ast.Continue, ast.Nonlocal, ast.Global)):
                    return None
                if isinstance(x, ast.Name) and (x.id == i or (x.id == xs and isinstance(x.ctx, ast.Store))):
                    return None
        loop = ast.For(first.targets[0], first.value.value, body or [ast.Pass()], [], lineno=st.lineno, col_offset=0)
        return ast.fix_missing_locations(ast.copy_location(loop, st)), i, ast.Name(xs, ast.Load())

    def s_For(self, st, fr):
        st, unused = self.drop_index(st, fr)
        self.for_stmt(st, fr)
        if unused:
            fr.vars[unused] = UNDEF

    def drop_index(self, st, fr):
        """`for i, x in enumerate(xs)` whose body never reads i is `for x in xs`."""
        it, t = st.iter, st.target
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate"
                and len(it.args) == 1 and not it.keywords and not isinstance(it.args[0], ast.Starred)
                and isinstance(t, ast.Tuple) and len(t.elts) == 2 and isinstance(t.elts[0], ast.Name)):
            return st, None
        i = t.elts[0].id
        for n in [t.elts[1]] + st.body + st.orelse:
            for x in ast.walk(n):
                if isinstance(x, (ast.Nonlocal, ast.Global)) or (isinstance(x, ast.Name) and x.id == i):
                    return st, None
        if i in fr.nonlocals or i in fr.globals_ or not self.is_builtin("enumerate", fr):
            return st, None
        loop = ast.For(t.elts[1], it.args[0], st.body, st.orelse, lineno=st.lineno, col_offset=0)
        return ast.fix_missing_locations(ast.copy_location(loop, st)), i

    def for_stmt(self, st, fr):
        it = self.eval(st.iter, fr)
        self.loops.for_loop(it, lambda v: self.assign(st.target, v, fr), lambda: self.block(st.body, fr),
                            (lambda: self.block(st.orelse, fr)) if st.orelse else None, fr, node=st)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        return self.E.branch(self.ops.truth(v))

    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return Fraction(str(v)) if v == v and abs(v) != float("inf") else self._inf()
        if v is Ellipsis or isinstance(v, (bytes, complex)):
            raise Unsupported("constant")
        return v

    def _inf(self):
        raise Unsupported("infinity")

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.ops.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.ops.getitem(self.eval(e.value, fr), self.eval(e.slice, fr))

    def e_Slice(self, e, fr):
        f = lambda x: None if x is None else self.eval(x, fr)
        return ("slice", f(e.lower), f(e.upper), f(e.step))

    def elts(self, elts, fr):
        parts = []
        for x in elts:
            if isinstance(x, ast.Starred):
                parts += self.ops.seq_of(self.eval(x.value, fr)).parts
            else:
                parts.append(Item(self.eval(x, fr)))
        return Seq(parts)

    def e_List(self, e, fr):
        return ListObj(self.E, self.elts(e.elts, fr))

    def e_Tuple(self, e, fr):
        return TupleVal(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return SetObj(self.E, self.elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = self.ops.new_dict([])
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.ops.dict_update(d, self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.ops.dict_set(d, kk, self.eval(v, fr))
        return d

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        v = None
        for j, x in enumerate(e.values):
            v = self.eval(x, fr)
            if j == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if is_z(v) and v.sort() == BOOL else v
            if isinstance(e.op, ast.Or) and t:
                return True if is_z(v) and v.sort() == BOOL else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return neg(self.ops.truth(v))
        if isinstance(e.op, ast.USub):
            return self.ops.negate(v)
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported("operator")

    def e_BinOp(self, e, fr):
        return self.ops.binop(e.op, self.eval(e.left, fr), self.eval(e.right, fr))

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.ops.compare(op, left, right)
            if len(e.ops) == 1:
                return c
            out.append(self.ops.truth(c))
            left = right
        return conj(out)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            return self._super(fr)
        f = self.eval(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.ops.seq_of(self.eval(a.value, fr)).concrete()
                if items is None:
                    raise Unsupported("* of an unknown number of arguments")
                args += items
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            v = self.eval(k.value, fr)
            if k.arg is None:
                for kk, vv in self.ops.const_items(v):
                    kw[kk] = vv
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def _super(self, fr):
        f = fr
        while f is not None and not (f.func and f.func.cls):
            f = f.parent
        if f is None:
            raise Unsupported("super")
        first = f.func.node.args.args[0].arg
        return ("super", f.func.cls, f.vars[first])

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, fr.module)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                if x.format_spec is not None or x.conversion != -1:
                    raise Unsupported("format")
                parts.append(self.eval(x.value, fr))
        return self.ops.fstring(parts)

    def comp(self, gens, fr, emit):
        """run nested generators; emit() at the innermost level"""
        inner = Frame(self.E, fr, fr.module)
        first = self.eval(gens[0].iter, fr)

        def level(j, it):
            g = gens[j]

            def body():
                for c in g.ifs:
                    if not self.truth(self.eval(c, inner)):
                        return
                if j + 1 < len(gens):
                    level(j + 1, self.eval(gens[j + 1].iter, inner))
                else:
                    emit(inner)
            self.loops.for_loop(it, lambda v: self.assign(g.target, v, inner), body, None, inner)
        level(0, first)

    def e_ListComp(self, e, fr):
        out = ListObj(self.E, Seq())
        self.comp(e.generators, fr, lambda f: self.ops.list_append(out, self.eval(e.elt, f)))
        return out

    def e_SetComp(self, e, fr):
        out = SetObj(self.E, Seq())
        self.comp(e.generators, fr, lambda f: self.ops.set_add(out, self.eval(e.elt, f)))
        return out

    def e_GeneratorExp(self, e, fr):
        out = ListObj(self.E, Seq())
        self.comp(e.generators, fr, lambda f: self.ops.list_append(out, self.eval(e.elt, f)))
        return Iter(self.E, out.seq)

    def e_DictComp(self, e, fr):
        out = self.ops.new_dict([])

        def emit(f):
            k = self.eval(e.key, f)
            self.ops.dict_set(out, k, self.eval(e.value, f))
        self.comp(e.generators, fr, emit)
        return out


MISSING = object()


class _Undef:
    def __repr__(self):
        return "<unknown>"


UNDEF = _Undef()
