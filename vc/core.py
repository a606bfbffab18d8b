"""Values, solver interface and path exploration of the verifier.

A verification unit runs real functions of /repo (parsed from the current source)
on symbolic inputs.  Containers of unknown size are closures (membership, lookup,
element at an index); loops over them are replaced by inductively verified
summaries (loops.py).  Every obligation is a formula over linear arithmetic,
uninterpreted functions and one datatype, given to z3 (cvc5 as a second opinion).
"""
import time
from fractions import Fraction

import z3

# ------------------------------------------------------------------ universal value
ObjS = z3.DeclareSort("Opaque")
_V = z3.Datatype("V")
_V.declare("VNone")
_V.declare("VBool", ("vb", z3.BoolSort()))
_V.declare("VInt", ("vi", z3.IntSort()))
_V.declare("VReal", ("vr", z3.RealSort()))
_V.declare("VStr", ("vs", z3.IntSort()))
_V.declare("VNil")
_V.declare("VPair", ("vhead", _V), ("vtail", _V))
_V.declare("VType", ("vt", z3.IntSort()))
_V.declare("VOther", ("vo", ObjS))
V = _V.create()
INT, REAL, BOOL = z3.IntSort(), z3.RealSort(), z3.BoolSort()
dc = z3.Function("deepcopied", V, V)      # identity of a deep copied leaf; transparent for content
TYPES = {"int": 1, "str": 2, "float": 3, "bool": 4, "NoneType": 5, "list": 6, "tuple": 7, "dict": 8, "set": 9}


class Unsupported(Exception):
    """The code is outside the supported subset: nothing is proved about it here."""


class Raise(Exception):
    def __init__(self, kind, msg=""):
        super().__init__(f"{kind}: {msg}")
        self.kind, self.msg = kind, msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Dead(Exception):
    """infeasible path"""


class Obj:
    """A mutable object of the interpreted program."""
    FIELDS = ()

    def __init__(self, E):
        """E is None for frozen copies, which no path ever changes"""
        if E is not None:
            E.heap.append(self)
            E.serial += 1
            self.serial = E.serial
        else:
            self.serial = -1

    def save(self):
        return tuple(list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v
                     for v in (getattr(self, f) for f in self.FIELDS))

    def load(self, st):
        for f, v in zip(self.FIELDS, st):
            setattr(self, f, list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v)


class Univ:
    """universal axiom: fn(x) for every x of the sort"""

    def __init__(self, sort, fn):
        self.sort, self.fn = sort, fn
        self.at, self.quant, self.trig = {}, None, None

    def triggers(self, E):
        """where the variable stands: (symbol, position)"""
        if self.trig is None:
            x = z3.Const("trig$" + self.sort.name(), self.sort)
            xid = x.get_id()
            self.trig = [k for k, d in E.parts_of(zb(self.fn(x)))[2].items() if xid in d]
        return self.trig

    def formula(self):
        if self.quant is None:
            x = z3.Const("u$" + self.sort.name(), self.sort)
            self.quant = z3.ForAll([x], zb(self.fn(x)))
        return self.quant


class Frame(Obj):
    FIELDS = ("vars",)

    def __init__(self, E, parent, module, func=None):
        super().__init__(E)
        self.vars, self.parent, self.module, self.func = {}, parent, module, func
        self.nonlocals = set()
        self.globals_ = set()


class Inst(Obj):
    FIELDS = ("fields",)

    def __init__(self, E, cls, fields=None):
        super().__init__(E)
        self.cls, self.fields = cls, dict(fields or {})

    def __repr__(self):
        return f"<{getattr(self.cls, 'name', self.cls)}>"


class Base:
    """Unknown part of a dictionary: closures over the key (of sort V)."""

    def __init__(self, has, get, keys=None, origin=None, nested=False):
        self.has, self.get, self.keys, self.origin, self.nested = has, get, keys, origin, nested


TOMB = object()


class Args(list):
    """arguments of a library function; which of them its contract looks at is noted"""

    def __init__(self, items):
        super().__init__(items)
        self.seen = set()

    def __getitem__(self, i):
        self.seen |= set(range(len(self))[i]) if isinstance(i, slice) else {i % len(self)} if len(self) else set()
        return list.__getitem__(self, i)

    def __iter__(self):
        self.seen |= set(range(len(self)))
        return list.__iter__(self)

    def __add__(self, other):
        return list(self) + list(other)

    def unseen(self):
        return [i for i in range(len(self)) if i not in self.seen]


class Kwargs(dict):
    def __init__(self, items):
        super().__init__(items)
        self.seen = set()

    def __getitem__(self, n):
        self.seen.add(n)
        return dict.__getitem__(self, n)

    def get(self, n, d=None):
        self.seen.add(n)
        return dict.get(self, n, d)

    def pop(self, n, *d):
        self.seen.add(n)
        return dict.pop(self, n, *d)

    def __contains__(self, n):
        self.seen.add(n)
        return dict.__contains__(self, n)

    def __iter__(self):
        self.seen |= set(dict.keys(self))
        return dict.__iter__(self)

    def keys(self):
        self.seen |= set(dict.keys(self))
        return dict.keys(self)

    def items(self):
        self.seen |= set(dict.keys(self))
        return dict.items(self)

    def unseen(self):
        return [n for n in dict.keys(self) if n not in self.seen]


def library(name, f, E, args, kw):
    """a call by an assumed contract, which has to speak of every argument given"""
    a, k = Args(args), Kwargs(kw)
    try:
        return f(E, a, k)
    finally:
        if a.unseen() or k.unseen():
            raise Unsupported(f"{name} with {a.unseen()} {k.unseen()}")


class DictObj(Obj):
    FIELDS = ("base", "ents", "mats")
    """ents: writes (keys pairwise decided distinct); mats: objects of the base handed out."""

    def __init__(self, E, base=None, ents=(), origin=None, detached=False):
        super().__init__(E)
        self.base, self.ents, self.mats = base, list(ents), []
        self.origin, self.detached = origin, detached
        self.kind = "dict"
        self.watch = None


class ListObj(Obj):
    FIELDS = ("seq",)

    def __init__(self, E, seq):
        super().__init__(E)
        self.seq = seq
        self.kind = "list"


class SetObj(Obj):
    FIELDS = ("seq",)

    def __init__(self, E, seq):
        super().__init__(E)
        self.seq = seq
        self.kind = "set"


class TupleVal:
    """tuple (or unknown-length tuple) ; immutable"""

    def __init__(self, seq, ident=None):
        self.seq = seq if isinstance(seq, Seq) else Seq.of(seq)
        self.ident = ident

    @property
    def items(self):
        return self.seq.concrete()


class Part:
    """elements elem(i) for those i in [0, n) with cond(i), in order."""

    def __init__(self, n, cond, elem, inv=None, tag=None, src=None):
        self.n, self.cond, self.elem, self.inv, self.tag = n, cond, elem, inv, tag
        # src: the index map of a slice/derived part (for diagnostics)
        self.src = src

    @property
    def single(self):
        return isinstance(self.n, int) and self.n == 1


def true(_=None):
    return True


class Item(Part):
    def __init__(self, value, guard=True):
        super().__init__(1, (lambda i, g=guard: g), (lambda i, v=value: v))
        self.value, self.guard = value, guard


class Flat(Part):
    """concatenation of inner(i) for i in [0, n) with cond(i)"""

    def __init__(self, n, cond, inner):
        super().__init__(n, cond, None)
        self.inner = inner


class OfSet(Part):
    """the distinct elements of a sequence, in unspecified order"""

    def __init__(self, seq):
        super().__init__(None, None, None)
        self.seq = seq


class HolePart(Part):
    """the unknown elements added to a list by earlier iterations"""

    def __init__(self, E):
        nm = E.name("holelist")
        self._n = z3.Int(nm + "n")
        f = z3.Function(nm + "e", INT, V)
        self.touched = False
        self.cond, self.inv, self.tag, self.src = true, None, "hole", None

        def elem(i):
            self.touched = True
            return f(zi(i))
        self.elem = elem

    @property
    def n(self):
        self.touched = True
        return self._n


class Seq:
    def __init__(self, parts=()):
        self.parts = [p for p in parts if isinstance(p, HolePart) or not (isinstance(p.n, int) and p.n == 0)]

    @staticmethod
    def of(items):
        return Seq([Item(x) for x in items])

    def concrete(self):
        if all(isinstance(p, Item) and p.guard is True for p in self.parts):
            return [p.value for p in self.parts]
        return None

    def __add__(self, other):
        return Seq(self.parts + other.parts)


class Iter(Obj):
    """a (one shot) iterator over a sequence"""
    FIELDS = ("used",)

    def __init__(self, E, seq, fetch=None):
        super().__init__(E)
        self.seq, self.used, self.fetch = seq, False, fetch


class FuncVal:
    def __init__(self, node, env, module, cls=None, name=None, defaults=None, kwdefaults=None, deco=()):
        self.node, self.env, self.module, self.cls = node, env, module, cls
        self.name = name or getattr(node, "name", "<lambda>")
        self.defaults, self.kwdefaults, self.deco = defaults or [], kwdefaults or {}, deco

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassVal:
    def __init__(self, name, module, bases, attrs, node):
        self.name, self.module, self.bases, self.attrs, self.node = name, module, bases, attrs, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                out += [c for c in b.mro() if c not in out]
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c.attrs[name]
        return None

    def __repr__(self):
        return f"<class {self.name}>"


class StubCls:
    """a class known only by its contract: get(E, object, attribute name)"""

    def __init__(self, name, get, set_=None):
        self.name, self.get, self.set_ = name, get, set_

    def __repr__(self):
        return f"<contract class {self.name}>"


class Ext:
    """something of an outside library, by dotted name"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class Text:
    """text made of known pieces and of runs of unknown characters"""

    def __init__(self, E, pieces):
        self.E = E
        self.pieces = [p for p in pieces if p != ""]   # str or Seq of characters

    def seq(self):
        return Seq([x for p in self.pieces for x in (Seq.of(list(p)) if isinstance(p, str) else p).parts])

    def getitem(self, E, ix):
        p = self.pieces
        if ix == ("slice", 1, None, None) and p and isinstance(p[0], str):
            return Text(E, [p[0][1:]] + p[1:])
        if isinstance(ix, int) and p and isinstance(p[0], str) and 0 <= ix < len(p[0]):
            return p[0][ix]
        raise Unsupported("part of a text")

    def method(self, name):
        def split(E, a, k):
            if len(a) != 1 or not isinstance(a[0], str) or len(a[0]) != 1 or k:
                raise Unsupported("split")
            if not getattr(self, "digits", False) or a[0].isdigit():
                raise Unsupported("split at a character that may be in the text")
            out, cur = [], []
            for p in self.pieces:
                if isinstance(p, str):
                    *h, t = p.split(a[0])
                    for x in h:
                        out.append(cur + [x])
                        cur = []
                    cur = cur + [t]
                else:
                    cur = cur + [p]
            r = []
            for x in out + [cur]:
                x = Text(E, x)
                x.digits = True
                r.append(x)
            return ListObj(E, Seq.of(r))
        if name == "split":
            return Native(name, split)
        return None


class Native:
    """function given by a contract or built into the verifier: fn(E, args, kwargs)"""

    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class ModuleVal:
    def __init__(self, name, env, path):
        self.name, self.env, self.path = name, env, path


class Vec:
    """a vector of reals of length n; at(i) is a z3 real.  `lin` optional: for the
    geometry contracts, the formal linear combination it is known to equal."""

    def __init__(self, n, at, lin=None, ident=None):
        self.n, self.at, self.lin, self.ident = n, at, lin, ident


# ------------------------------------------------------------------ engine
class Obligation:
    def __init__(self, name, status, detail="", secs=0.0, backend="z3"):
        self.name, self.status, self.detail, self.secs, self.backend = name, status, detail, secs, backend


def is_z(v):
    return isinstance(v, z3.ExprRef)


def conj(xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def neg(x):
    if isinstance(x, bool):
        return not x
    return z3.Not(x)


def disj(xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]


class Engine:
    QUERY_MS = 4000

    def __init__(self, deadline=None):
        self.hasvar = {}
        self.heap, self.serial = [], 0
        self.pc = []
        self.ctx = []                 # index symbols of the enclosing generic iterations
        self.defs = {}                # decl name -> axioms(args) for symbols with a definition
        self.incomplete = set()       # decl names whose axioms do not pin them down
        self.counter = 0
        self.explorers = []
        self.obls = []
        self.cache = {}
        self.keep = []
        self.strings = {}
        self.stats = {"queries": 0, "solver_s": 0.0, "cache": 0}
        self.deadline = deadline
        self.contracts = {}
        self.annotations = []       # invariants of the while loops to come
        self.guess = False          # obligations about invariants: failing one says nothing about the property
        self.used_contracts = set()
        self.inlined = set()
        self.assumed = set()
        self.loops = 0
        self.global_facts = []
        self.captured = {}
        self.fparts, self.axcache = {}, {}

    # -------- symbols
    def name(self, hint):
        """Deterministic: the same prefix of decisions gives the same names."""
        if not self.explorers:
            self.counter += 1
            return f"{hint}!{self.counter}"
        ex = self.explorers[-1]
        ex.count += 1
        return f"{hint}!{ex.eid}{ex.taken()}.{ex.count}"

    def fresh(self, hint, sort, nm=None):
        """a fresh symbol; inside a generic iteration it is a function of its index"""
        nm = nm or self.name(hint)
        if not self.ctx:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *[c.sort() for c in self.ctx], sort)
        return f(*self.ctx)

    def const(self, hint, sort):
        return z3.Const(self.name(hint), sort)

    def fun(self, hint, *sorts):
        """a fresh function; in a generic iteration it also takes the index symbols"""
        nm = self.name(hint)
        f = z3.Function(nm, *[c.sort() for c in self.ctx], *sorts)
        pre = list(self.ctx)
        return lambda *a: f(*pre, *a)

    def define(self, hint, sort, axioms, incomplete=False, params=()):
        """A symbol f(ctx, params) with axioms(*args) true for all arguments.  The
        axioms are instantiated for every occurrence in a query."""
        nm = self.name(hint)
        args = list(self.ctx) + list(params)
        if args:
            f = z3.Function(nm, *[a.sort() for a in args], sort)
            term = f(*args)
        else:
            f = None
            term = z3.Const(nm, sort)
        if incomplete:
            self.incomplete.add(nm)
        if axioms is not None:
            self.defs[nm] = axioms
        return term

    def string(self, s):
        if s not in self.strings:
            self.strings[s] = len(self.strings) + 1
        return self.strings[s]

    def opaque(self, hint):
        return V.VOther(self.fresh(hint, ObjS))

    # -------- conversion
    def toV(self, v):
        if v is None:
            return V.VNone
        if isinstance(v, bool):
            return V.VBool(z3.BoolVal(v))
        if isinstance(v, int):
            return V.VInt(z3.IntVal(v))
        if isinstance(v, str):
            return V.VStr(z3.IntVal(self.string(v)))
        if isinstance(v, (float, Fraction)):
            return V.VReal(z3.RealVal(str(Fraction(v))))
        if is_z(v):
            s = v.sort()
            if s == V:
                return v
            if s == INT:
                return V.VInt(v)
            if s == REAL:
                return V.VReal(v)
            if s == BOOL:
                return V.VBool(v)
        if isinstance(v, TupleVal):
            if v.ident is not None:
                return v.ident
            items = v.items
            if items is not None:
                t = V.VNil
                for x in reversed(items):
                    t = V.VPair(self.toV(x), t)
                return t
        if isinstance(v, Vec) and v.ident is not None:
            return v.ident
        if isinstance(v, Ext) and v.name.split(".")[-1] in TYPES:
            return V.VType(z3.IntVal(TYPES[v.name.split(".")[-1]]))
        raise Unsupported(f"no value term for {type(v).__name__}")

    def scalar(self, v):
        return v is None or isinstance(v, (bool, int, str, float, Fraction)) or is_z(v)

    def num(self, v):
        """z3 arithmetic term (or Python number) of a numeric value"""
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, (float, Fraction)):
            return z3.RealVal(str(Fraction(v)))
        if is_z(v):
            if v.sort() == BOOL:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if v.sort() == V:
                if self.branch(V.is_VInt(v)):
                    return V.vi(v)
                if self.branch(V.is_VReal(v)):
                    return V.vr(v)
                raise Unsupported("arithmetic on an opaque value")
            return v
        raise Unsupported(f"arithmetic on {type(v).__name__}")

    # -------- solving
    def axioms_for(self, fmls, rounds=2, limit=1200, maxdepth=7, trig=False):
        """Instantiate the defining axioms of the symbols occurring in the formulas.
        Returns (ground instances, universal axioms as quantified formulas)."""
        self.truncated = self.deep = False
        out, quant = [], []
        inst, visited = set(), set()
        ground = {}                      # sort -> {id: term}
        univs = []
        origin = self.origin = []        # where the universal axioms come from
        at = {}                          # (symbol, position) -> {id: term}
        pending = [(f, 0) for f in fmls]

        def visit(f, depth):
            apps, grounds, args = self.parts_of(f)
            for k, d in args.items():
                at.setdefault(k, {}).update(d)
            for srt, tid, t in grounds:
                ground.setdefault(srt, {})[tid] = t
            for tid, t, nm in apps:
                if tid in inst or nm not in self.defs:
                    continue
                if depth >= maxdepth:
                    if nm in self.loops.info and self.loops.is_inductive(nm):
                        self.deep = True
                    continue
                inst.add(tid)
                if len(inst) > limit:
                    self.truncated = True
                    continue
                for k, ax in enumerate(self.axioms_of(tid, t, nm)):
                    if isinstance(ax, Univ):
                        univs.append([ax, set()])
                        origin.append((ax, t, nm))
                    else:
                        out.append(ax)
                        pending.append((ax, depth + 1))
        n = 0
        for r in range(rounds + 1):
            while pending:
                f, d = pending.pop(0)
                visit(f, d)
            if r == rounds:
                break
            todo = []
            for u, done in univs:
                cand = ground.get(u.sort.name(), {})
                if trig:
                    tr = u.triggers(self)
                    if tr:
                        cand = {}
                        for k in tr:
                            cand.update(at.get(k, {}))
                for tid, t in list(cand.items()):
                    if tid in done:
                        continue
                    done.add(tid)
                    n += 1
                    if n > limit:
                        self.truncated = True
                        break
                    f = u.at.get(tid)
                    if f is None:
                        f = u.at[tid] = zb(u.fn(t))
                        self.keep.append(t)
                    todo.append(f)
            for f in todo:
                if z3.is_true(f):
                    continue
                out.append(f)
                pending.append((f, 0))
        for u, _ in univs:
            quant.append(u.formula())
        return out, quant

    def parts_of(self, f):
        """(applications of uninterpreted symbols, terms to instantiate axioms with) in f"""
        fid = f.get_id()
        hit = self.fparts.get(fid)
        if hit is not None:
            return hit
        self.keep.append(f)
        apps, grounds, visited, args = [], {}, set(), {}
        stack = [(f, False)]
        while stack:
            t, arg = stack.pop()
            tid = t.get_id()
            if tid in visited and not arg:
                continue
            first = tid not in visited
            visited.add(tid)
            if not z3.is_app(t):
                continue
            d = t.decl()
            unint = d.kind() == z3.Z3_OP_UNINTERPRETED
            if unint or arg:
                srt = t.sort()
                if srt == INT or srt == V or srt == ObjS:
                    if srt != INT or unint or not z3.is_app_of(t, z3.Z3_OP_ITE):
                        grounds[(srt.name(), tid)] = t
            if first:
                nm = d.name() if unint else None
                if unint:
                    apps.append((tid, t, nm))
                    for k, c in enumerate(t.children()):
                        args.setdefault((nm, k), {})[c.get_id()] = c
                isarg = unint and nm not in ("isnew", "deepcopied")
                for c in t.children():
                    stack.append((c, isarg))
        hit = self.fparts[fid] = (apps, [(s, i, t) for (s, i), t in grounds.items()], args)
        return hit

    def axioms_of(self, tid, t, nm):
        fn = self.defs[nm]
        hit = self.axcache.get(tid)
        if hit is not None and hit[0] is fn:
            return hit[1]
        r = [ax if isinstance(ax, Univ) else zb(ax) for ax in fn(*t.children()) if ax is not True]
        self.keep.append(t)
        self.axcache[tid] = (fn, r)
        return r

    def _has_var(self, t):
        """does a bound variable occur in t"""
        hit = self.hasvar.get(t.get_id())
        if hit is None:
            hit = z3.is_var(t) or any(self._has_var(c) for c in t.children())
            self.hasvar[t.get_id()] = hit
            self.keep.append(t)
        return hit

    def sat(self, extra, ms=None, want_model=False, full=False):
        """z3 verdict for pc + extra: 'unsat' / 'sat' / 'unknown'.  Universal axioms are
        instantiated; with full they are also given to the solver as quantifiers."""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the unit is used up")
        fmls = [zb(x) for x in self.pc + list(extra) if x is not True]
        key = (frozenset(f.get_id() for f in fmls), full)
        if not want_model and key in self.cache:
            self.stats["cache"] += 1
            return self.cache[key]
        ax, quant = self.axioms_for(fmls + self.global_facts, rounds=3, trig=True)
        allf = fmls + self.global_facts + ax
        if self.products:
            r, s = self._check(self.abstracted(allf), ms)
            if r == "unsat" or not (want_model or full):
                r = "unsat" if r == "unsat" else "unknown"
                self.keep.append(fmls)
                self.cache[key] = r
                return (r, None, allf) if want_model else r
        r, s = self._check(allf, ms)
        if r != "unsat" and full:
            ax, quant = self.axioms_for(fmls + self.global_facts, rounds=3)
            allf = fmls + self.global_facts + ax
            r, s = self._check(allf, ms)
        if r != "unsat" and full and quant:
            r, s = self._check(allf + quant, ms)
            allf = allf + quant
        elif r == "sat" and quant and want_model:
            pass
        self.keep.append(fmls)
        self.cache[key] = r
        if want_model:
            return r, (s.model() if r == "sat" else None), allf
        return r

    unroll = 40           # loops of at most so many rounds are run round by round
    cases = ()            # special cases in which a countermodel is looked for
    products = False      # ask first with products of unknowns as opaque numbers

    def abstracted(self, fmls):
        """the formulas with products of unknowns replaced by unknown functions of the factors (what
        follows from these follows from the formulas)"""
        memo = {}

        def go(t):
            r = memo.get(t.get_id())
            if r is not None:
                return r
            if not z3.is_app(t) or not t.num_args():
                r = t
            else:
                x = [go(c) for c in t.children()]
                if z3.is_mul(t) and sum(not (z3.is_int_value(c) or z3.is_rational_value(c)) for c in x) > 1:
                    num = [c for c in x if z3.is_int_value(c) or z3.is_rational_value(c)]
                    rest = sorted((c for c in x if not (z3.is_int_value(c) or z3.is_rational_value(c))), key=lambda c: c.get_id())
                    f = z3.Function(f"product{len(rest)}{t.sort()}", *[t.sort()] * (len(rest) + 1))
                    r = z3.Product(*num, f(*rest)) if num else f(*rest)
                else:
                    r = t.decl()(*x) if any(not a.eq(b) for a, b in zip(x, t.children())) else t
            memo[t.get_id()] = r
            self.keep.append(r)
            return r
        flat = [z3.simplify(f, som=True) for f in fmls if not z3.is_quantifier(f)]
        self.keep.append(flat)
        return [go(f) for f in flat]

    def _check(self, fmls, ms):
        s = z3.Solver()
        s.set("timeout", ms or self.QUERY_MS)
        t0 = time.time()
        s.add(*fmls)
        r = str(s.check())
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t0
        return r, s

    def valid(self, g, ms=None, full=False):
        """does g follow from the path condition?"""
        if g is True:
            return True
        if g is False:
            return self.sat([], ms) == "unsat"
        g2 = z3.simplify(g)
        if z3.is_true(g2):
            return True
        return self.sat([z3.Not(g)], ms, full=full) == "unsat"

    def valid_under(self, assumptions, g):
        n0 = len(self.pc)
        self.pc += [zb(a) for a in assumptions]
        try:
            return self.valid(g)
        finally:
            del self.pc[n0:]

    def valid_quick(self, g):
        return self.valid(g, 1000)

    def known_fact(self, f):
        """a fact about defined symbols that holds on every path"""
        if all(not f.eq(g) for g in self.global_facts):
            self.global_facts.append(f)

    def infeasible(self):
        return self.sat([], 1500) == "unsat"

    # -------- paths
    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise Dead()
        self.pc.append(c)

    def branch(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        ex = self.explorers[-1]
        if ex.pos < len(ex.prefix):
            d = ex.prefix[ex.pos]
            ex.pos += 1
            if d[1]:
                self.pc.append(c if d[0] else z3.Not(c))
            return d[0]
        t = self.sat([c], 1500) != "unsat"
        f = self.sat([z3.Not(c)], 1500) != "unsat"
        if not t and not f:
            raise Dead()
        if t and f:
            ex.todo.append(ex.prefix[:ex.pos] + [(False, True)])
            d = (True, True)
        else:
            d = (t, False)
        ex.prefix = ex.prefix[:ex.pos] + [d]
        ex.pos += 1
        if d[1]:
            self.pc.append(c if d[0] else z3.Not(c))
        return d[0]

    def explore(self, thunk, limit=64):
        """Run thunk on every feasible path from the present state.  Returns a list of
        (guard, outcome, snapshot) where outcome is ('ok', value) or ('raise', Raise),
        ('ret', v), ('brk',), ('cont',)."""
        snap = self.snapshot()
        pc0 = len(self.pc)
        ctx0 = list(self.ctx)
        if self.explorers:
            up = self.explorers[-1]
            up.subs += 1
            eid = f"{up.eid}{up.taken()}s{up.subs}_"
        else:
            self.counter += 1
            eid = f"{self.counter}_"
        ex = _Explorer(eid)
        self.explorers.append(ex)
        out = []
        try:
            while ex.todo:
                ex.prefix, ex.pos, ex.count, ex.subs = ex.todo.pop(), 0, 0, 0
                self.restore(snap)
                del self.pc[pc0:]
                self.ctx[:] = ctx0
                try:
                    try:
                        r = ("ok", thunk())
                    except Ret as e:
                        r = ("ret", e.v)
                    except Brk:
                        r = ("brk", None)
                    except Cont:
                        r = ("cont", None)
                    except Raise as e:
                        r = ("raise", e)
                except Dead:
                    continue
                out.append((list(self.pc[pc0:]), r, self.snapshot()))
                if len(out) > limit:
                    raise Unsupported("too many paths")
        finally:
            self.explorers.pop()
            del self.pc[pc0:]
            self.ctx[:] = ctx0
            self.restore(snap)
        return out

    def snapshot(self):
        return [(o, o.save()) for o in self.heap]

    def restore(self, snap):
        self.heap = [o for o, _ in snap]
        for o, st in snap:
            o.load(st)

    # -------- obligations
    def prove(self, goal, what):
        """record an obligation"""
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        st, det, backend = self.decide(goal)
        if st == "undecided":
            # look for a countermodel in special cases
            for case in self.cases:
                n0 = len(self.pc)
                self.pc += case
                try:
                    st2, det2, _ = self.decide(goal)
                finally:
                    del self.pc[n0:]
                if st2 == "failed":
                    st, det = st2, "in the case " + ", ".join(map(str, case)) + ": " + det2
                    break
        if st == "failed" and self.guess:
            st, det = "undecided", "not shown with this invariant; " + det
        self.obls.append(Obligation(what, st, det, time.time() - t0, backend))
        return st == "proved"

    def decide(self, goal):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return "proved", "", "simplifier"
        if self.sat([z3.Not(goal)]) == "unsat":
            self.second_opinion([z3.Not(goal)])
            return "proved", "", "z3"
        lemmas = self.loops.congruences([z3.Not(goal)])
        r, model, fm = self.sat([z3.Not(goal)] + lemmas, want_model=True, ms=self.QUERY_MS * 3, full=True)
        if r == "unsat":
            return "proved", "", "z3"
        if r == "sat":
            soft = sorted(n for n in self.symbols(fm) if n in self.incomplete)
            if self.truncated:
                soft.append("axiom instances")
            if soft:
                return "undecided", "countermodel, but it depends on abstracted " + ", ".join(soft[:4]), "z3"
            if self.loops.inductive(fm) or self.nested(fm):
                # the solver does not do induction, and facts about symbols are known to it for the
                # terms in the query only: believe the countermodel only if it survives with every
                # fold, sum and quantifier unrolled to a small concrete length
                for bound in (1, 2, 3):
                    m2 = self.unrolled([z3.Not(goal)] + lemmas, bound)
                    if m2 is not None:
                        return "failed", "goal: " + str(goal)[:600] + f"\ncountermodel (loops of at most {bound} rounds): " + str(m2)[:1500], "z3"
                return "undecided", "no proof by unrolling, and no countermodel with short loops; goal: " + str(goal)[:600], "z3"
            return "failed", "goal: " + str(goal)[:600] + "\ncountermodel: " + str(model)[:1500], "z3"
        return "undecided", "solver gave no answer; goal: " + str(goal)[:600], "z3"

    def nested(self, fmls):
        """does a quantified formula mention symbols with facts of their own (which are not
        stated for the quantified variable)?"""
        for f in fmls:
            if z3.is_quantifier(f):
                for t in self.subterms(f.body()):
                    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.defs and self._has_var(t):
                        return True
        return False

    def subterms(self, f):
        seen, st = set(), [f]
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            yield t
            st.extend(t.children())

    def unrolled(self, extra, bound):
        """a model of pc + extra in which every fold, sum and quantifier ranges over at most
        bound steps and is unrolled completely; None if there is none or it cannot be told"""
        fmls = [zb(x) for x in self.pc + list(extra) if x is not True] + list(self.global_facts)
        seen, more = set(), []
        for _ in range(8):
            if self.deadline and time.time() > self.deadline:
                return None
            ax, _ = self.axioms_for(fmls + more, rounds=2, limit=4000, maxdepth=16)
            if self.truncated or self.deep:
                return None
            new, rest = [], []
            for u, t, nm in self.origin:
                if u.sort == INT and nm in self.loops.info and self.loops.info[nm][4] >= 1:
                    if (t.get_id(), "u") in seen:
                        continue
                    seen.add((t.get_id(), "u"))
                    n = z3.simplify(t.arg(0))
                    m = bound
                    if z3.is_int_value(n):
                        m = n.as_long()
                        if m > 12:
                            return None
                    else:
                        new.append(n <= bound)
                    new += [zb(u.fn(z3.IntVal(k))) for k in range(m)]
                else:
                    rest.append(u)
            for t, nm in self.loops.agg_apps(fmls + more + ax):
                if t.get_id() in seen or not self.loops.is_inductive(nm):
                    continue
                seen.add(t.get_id())
                n = z3.simplify(t.arg(0))
                if z3.is_int_value(n):
                    continue
                args = [t.arg(k) for k in range(1, t.num_args())]
                new.append(n <= bound)
                new.append(z3.Implies(n <= 0, t == t.decl()(z3.IntVal(0), *args)))
                for k in range(1, bound + 1):
                    new.append(z3.Implies(n == k, t == t.decl()(z3.IntVal(k), *args)))
            if not new:
                break
            more += new
            if len(more) > 1500:
                return None
        else:
            return None
        quant = [u.formula() for u in rest]
        if self.nested(quant):
            return None
        allf = fmls + more + ax + quant
        r, s = self._check(allf, self.QUERY_MS * 2)
        if r == "sat" and self.incomplete & self.symbols(allf):
            return None
        return s.model() if r == "sat" else None

    cross = False

    def second_opinion(self, extra):
        """ask cvc5 about the same query (thorough runs)"""
        if not self.cross:
            return
        try:
            import cvc5
            from cvc5 import InputParser, SymbolManager
            fmls = [zb(x) for x in self.pc + list(extra) if x is not True]
            ax, _ = self.axioms_for(fmls + self.global_facts)
            s = z3.Solver()
            s.add(*(fmls + self.global_facts + ax))
            text = "(set-logic ALL)\n" + s.to_smt2()
            tm = cvc5.TermManager()
            sol = cvc5.Solver(tm)
            sol.setOption("tlimit-per", "8000")
            pa = InputParser(sol)
            pa.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, "q")
            sm = pa.getSymbolManager()
            self.stats["cvc5_asked"] = self.stats.get("cvc5_asked", 0) + 1
            while True:
                c = pa.nextCommand()
                if c.isNull():
                    break
                r = c.invoke(sol, sm)
                if "unsat" in str(r):
                    self.stats["cvc5_ok"] = self.stats.get("cvc5_ok", 0) + 1
        except Exception as e:
            self.stats["cvc5_err"] = repr(e)[:200]

    def symbols(self, fmls):
        seen, names, st = set(), set(), list(fmls)
        while st:
            t = st.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                names.add(t.decl().name())
            if z3.is_quantifier(t):
                st.append(t.body())
            st.extend(t.children())
        return names

    def structural(self, ok, what, detail=""):
        """an obligation decided without the solver"""
        self.obls.append(Obligation(what, "proved" if ok else "undecided", detail, 0.0, "engine"))
        return ok


class _Explorer:
    def __init__(self, eid):
        self.todo = [[]]
        self.prefix, self.pos, self.count, self.subs, self.eid = [], 0, 0, 0, eid

    def taken(self):
        return "".join("T" if d[0] else "F" for d in self.prefix[:self.pos] if d[1])
