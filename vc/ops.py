"""Operations on symbolic values: dictionaries, sequences, sets, numbers, builtins."""
import ast
from fractions import Fraction

import z3

from core import *

MISS = object()
strof = z3.Function("strof", V, V)
isother = {t: z3.Function("is_" + t, V, BOOL) for t in ("list", "tuple", "dict", "set")}


class Ops:
    def __init__(self, E, I):
        self.E, self.I = E, I
        self.ext = {}
        import models
        models.install(self)

    # ------------------------------------------------------------ truth, equality
    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, str, Fraction)):
            return bool(v)
        if is_z(v):
            s = v.sort()
            if s == BOOL:
                return v
            if s == INT or s == REAL:
                return v != 0
            return z3.If(V.is_VNone(v), False, z3.If(V.is_VBool(v), V.vb(v), z3.If(V.is_VInt(v), V.vi(v) != 0, z3.If(
                V.is_VReal(v), V.vr(v) != 0, z3.If(V.is_VStr(v), V.vs(v) != self.E.string(""), self.truthy_other(v))))))
        if isinstance(v, (ListObj, TupleVal, DictObj, SetObj)):
            n = self.length(v)
            return n > 0 if isinstance(n, int) else n > 0
        if isinstance(v, (Inst, FuncVal, Bound, ClassVal, Native)):
            if isinstance(v, Inst) and isinstance(v.cls, StubCls) and getattr(v.cls, "sized", False):
                return self.length(v) > 0
            if isinstance(v, Inst) and isinstance(v.cls, ClassVal):
                for m in ("__bool__", "__len__"):
                    if v.cls.lookup(m):
                        r = self.I.call(self.getattr(v, m), [])
                        return self.truth(r)
            return True
        raise Unsupported(f"truth of {type(v).__name__}")

    _to = z3.Function("truthy", V, BOOL)

    def truthy_other(self, v):
        return Ops._to(v)

    def eq(self, a, b):
        """value of a == b (bool or formula)"""
        E = self.E
        if a is b and not is_z(a):
            return True
        if E.scalar(a) and E.scalar(b):
            if not is_z(a) and not is_z(b):
                if isinstance(a, str) != isinstance(b, str) or (a is None) != (b is None):
                    return False
                return a == b
            sa, sb = self.sort(a), self.sort(b)
            num = (INT, REAL)
            if sa in num and sb in num:
                return self.simp(E.num(a) == E.num(b))
            if sa == BOOL and sb == BOOL:
                return self.simp(zb(a) == zb(b))
            if sa != sb and V not in (sa, sb):
                return False
            return self.simp(E.toV(a) == E.toV(b))
        if isinstance(a, TupleVal) and isinstance(b, TupleVal):
            x, y = a.items, b.items
            if x is not None and y is not None:
                if len(x) != len(y):
                    return False
                return conj([self.eq(p, q) for p, q in zip(x, y)])
            if a.ident is not None and b.ident is not None:
                return a.ident == b.ident
            return self.seq_eq_formula(a.seq, b.seq)
        if isinstance(a, TupleVal) and is_z(b) and b.sort() == V or isinstance(b, TupleVal) and is_z(a) and a.sort() == V:
            return E.toV(a) == E.toV(b)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            return self.dict_eq_formula(self.freeze(a), self.freeze(b))
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            return self.seq_eq_formula(self.freeze(a).seq, self.freeze(b).seq)
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            return self.set_eq_formula(self.freeze(a), self.freeze(b))
        if isinstance(a, Inst) and isinstance(a.cls, ClassVal):
            m = a.cls.lookup("__eq__")
            if m is not None:
                return self.I.call(Bound(m, a), [b])
            if isinstance(b, Inst):
                return a is b
        if isinstance(a, Inst) and isinstance(a.cls, StubCls):
            m = a.cls.get(E, a, "__eq__")
            if m is not None:
                return self.I.call(m, [b])
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name.split(".")[-1] == b.name.split(".")[-1]
        if isinstance(a, (ClassVal, FuncVal)) and isinstance(b, (ClassVal, FuncVal)):
            return a is b
        if is_z(a) and isinstance(b, Ext) or is_z(b) and isinstance(a, Ext):
            return E.toV(a) == E.toV(b)
        ka, kb = self.kind(a), self.kind(b)
        if ka and kb and ka != kb and "V" not in (ka, kb):
            return False
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def kind(self, v):
        if v is None:
            return "none"
        if isinstance(v, TupleVal):
            return "tuple"
        if isinstance(v, (ListObj, DictObj, SetObj)):
            return v.kind
        if isinstance(v, (int, float, Fraction)):
            return "num"
        if isinstance(v, str):
            return "str"
        if is_z(v):
            return "V" if v.sort() == V else "num"
        return None

    def sort(self, v):
        if is_z(v):
            return v.sort()
        if isinstance(v, bool):
            return BOOL
        if isinstance(v, int):
            return INT
        if isinstance(v, (float, Fraction)):
            return REAL
        return V

    def simp(self, f):
        if isinstance(f, bool):
            return f
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        return f

    def content_eq_at(self, x, y):
        """pure formula for equality of frozen values"""
        E = self.E
        if E.scalar(x) and E.scalar(y):
            return self.eq(self.strip(x), self.strip(y))
        if isinstance(x, DictObj) and isinstance(y, DictObj):
            return self.dict_eq_formula(x, y)
        if isinstance(x, TupleVal) and isinstance(y, TupleVal):
            return self.eq(x, y)
        raise Unsupported("content comparison")

    def strip(self, v):
        """remove deep copy markers (a deep copy has the same content)"""
        if not is_z(v) or v.sort() != V:
            return v
        pairs, stack, seen = [], [v], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t) and t.decl().eq(dc):
                pairs.append(t)
            stack.extend(t.children())
        while pairs:
            pairs.sort(key=lambda t: len(t.sexpr()))
            t = pairs[0]
            v = z3.substitute(v, (t, t.arg(0)))
            pairs, stack, seen = [], [v], set()
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                if z3.is_app(t) and t.decl().eq(dc):
                    pairs.append(t)
                stack.extend(t.children())
        return v

    def dict_eq_formula(self, a, b):
        E = self.E

        def same(k):
            ha, va = self.dict_at(a, k)
            hb, vb = self.dict_at(b, k)
            if ha is False and hb is False:
                return True
            inner = self.content_eq_at(va, vb) if va is not MISS and vb is not MISS else (va is vb)
            return z3.And(zb(ha) == zb(hb), z3.Implies(zb(ha), zb(inner)))
        ka, kb = self.const_keys(a), self.const_keys(b)
        if ka is not None and kb is not None:
            if set(ka) != set(kb):
                return False
            return conj([zb(same(E.toV(k))) for k in ka])
        L = E.loops
        L.symc += 1
        q = z3.Const(f"k%eq{L.symc}", V)
        t, nm = L.symbol("DICTEQ", [zb(same(q))], [q], BOOL)
        if nm not in E.defs:
            def ax(*ps, nm=nm):
                t = L.app(nm, BOOL, ps)
                w = L.app(nm + "!w", V, ps)
                return [Univ(V, lambda x: z3.Implies(t, L.body(nm, 0, [x], ps))),
                        z3.Implies(z3.Not(t), z3.Not(L.body(nm, 0, [w], ps)))]
            E.defs[nm] = ax
        return t

    def seq_eq_formula(self, a, b):
        x, y = a.concrete(), b.concrete()
        if x is not None and y is not None:
            if len(x) != len(y):
                return False
            return conj([self.eq(p, q) for p, q in zip(x, y)])
        raise Unsupported("comparison of lists of unknown length")

    def set_eq_formula(self, a, b):
        E = self.E
        ca, cb = a.seq.concrete(), b.seq.concrete()
        if ca is not None and cb is not None:
            return conj([disj([self.eq(x, y) for y in cb]) for x in ca] + [disj([self.eq(x, y) for y in ca]) for x in cb])
        if cb is None:
            a, b, ca, cb = b, a, cb, ca
        if cb is None:
            raise Unsupported("comparison of sets of unknown size")
        # every element of a is among cb, and each of cb occurs in a
        bad = self.exists(a.seq, lambda v: neg(disj([self.eq(v, y) for y in cb])))
        return conj([neg(bad)] + [self.exists(a.seq, lambda v, y=y: self.eq(v, y)) for y in cb])

    def exists(self, seq, pred):
        """formula: some element satisfies pred (pure)"""
        E = self.E
        out = []
        for p in seq.parts:
            if isinstance(p, Item):
                out.append(conj([p.guard, pred(p.value)]))
            elif isinstance(p, OfSet):
                out.append(self.exists(p.seq, pred))
            elif isinstance(p, Flat):
                j = E.const("j", INT)
                out.append(E.loops.EX(p.n, lambda i, p=p: conj([p.cond(i), self.exists(p.inner(i), pred)])))
            else:
                out.append(E.loops.EX(p.n, lambda i, p=p: conj([p.cond(i), pred(p.elem(i))])))
        return disj(out)

    # ------------------------------------------------------------ merging, freezing
    def ite(self, c, a, b):
        """value that is a if c else b (frozen operands)"""
        E = self.E
        if isinstance(c, bool):
            return a if c else b
        c = z3.simplify(c)
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
        if a is b:
            return a
        if E.scalar(a) and E.scalar(b):
            if not is_z(a) and not is_z(b) and type(a) is type(b) and a == b:
                return a
            sa, sb = self.sort(a), self.sort(b)
            if sa == BOOL and sb == BOOL:
                return z3.If(c, zb(a), zb(b))
            if sa in (INT, REAL) and sb in (INT, REAL):
                x, y = E.num(a), E.num(b)
                x, y = (zi(x) if isinstance(x, int) else x), (zi(y) if isinstance(y, int) else y)
                if x.sort() != y.sort():
                    x, y = (z3.ToReal(t) if t.sort() == INT else t for t in (x, y))
                return z3.If(c, x, y)
            return z3.If(c, E.toV(a), E.toV(b))
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            ka, kb = self.const_keys(a), self.const_keys(b)
            if ka is not None and kb is not None and len(ka) == len(set(ka)) == len(kb) and set(ka) == set(kb):
                ks = [E.toV(k) for k in ka]
                return DictObj(None, None, [(k, self.ite(c, self.dict_at(a, k)[1], self.dict_at(b, k)[1])) for k in ks])

            def has(k):
                return z3.If(c, zb(self.dict_at(a, k)[0]), zb(self.dict_at(b, k)[0]))

            def get(k):
                x, y = self.dict_at(a, k)[1], self.dict_at(b, k)[1]
                if x is MISS:
                    return y
                if y is MISS:
                    return x
                return self.ite(c, x, y)
            return DictObj(None, Base(has, get, None))
        if isinstance(a, TupleVal) and isinstance(b, TupleVal) and a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return TupleVal([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if E.scalar(a) != E.scalar(b) and all(E.scalar(x) or isinstance(x, TupleVal) and x.items is not None and all(E.scalar(y) for y in x.items) for x in (a, b)):
            return z3.If(c, E.toV(a), E.toV(b))
        if isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls and set(a.fields) == set(b.fields):
            return self.snap_of(Inst(None, a.cls, {f: self.ite(c, a.fields[f], b.fields[f]) for f in a.fields}), a, b)
        if isinstance(a, Vec) and isinstance(b, Vec) and self.same_term(a.n, b.n):
            return Vec(a.n, lambda i: z3.If(c, a.at(i), b.at(i)))
        if isinstance(a, ListObj) and isinstance(b, ListObj):
            pa, pb = a.seq.parts, b.seq.parts
            if len(pa) == len(pb) == 1 and all(type(p) is Part and p.n is not None for p in pa + pb):
                pa, pb = pa[0], pb[0]
                try:
                    self.ite(c, pa.elem(z3.Int("ite!i")), pb.elem(z3.Int("ite!i")))
                    return ListObj(None, Seq([Part(self.ite(c, pa.n, pb.n), lambda i: self.ite(c, pa.cond(i), pb.cond(i)), lambda i: self.ite(c, pa.elem(i), pb.elem(i)))]))
                except Unsupported:
                    pass
            return ListObj(None, self.guard_seq(c, a.seq) + self.guard_seq(neg(c), b.seq))
        raise Unsupported(f"either {type(a).__name__} or {type(b).__name__}")

    def guard_seq(self, g, seq):
        out = []
        for p in seq.parts:
            if isinstance(p, Item):
                out.append(Item(p.value, conj([g, p.guard])))
            elif isinstance(p, Flat):
                out.append(Flat(p.n, lambda i, p=p: conj([g, p.cond(i)]), p.inner))
            elif isinstance(p, OfSet):
                out.append(OfSet(self.guard_seq(g, p.seq)))
            else:
                out.append(Part(p.n, lambda i, p=p: conj([g, p.cond(i)]), p.elem, None, p.tag))
        return Seq(out)

    def same_term(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        return self.E.valid(zi(a) == zi(b))

    def alike(self, a, b):
        """known to be the same value by its form"""
        if a is b:
            return True
        if is_z(a) and is_z(b):
            return z3.simplify(a).eq(z3.simplify(b))
        if isinstance(a, Vec) and isinstance(b, Vec):
            t = z3.Int("alike")
            return self.same_term(a.n, b.n) and self.alike(a.at(t), b.at(t))
        if isinstance(a, TupleVal) and isinstance(b, TupleVal):
            x, y = a.seq.parts, b.seq.parts
            return len(x) == len(y) and all(isinstance(p, Item) and isinstance(q, Item) and p.guard is True and q.guard is True and self.alike(p.value, q.value) for p, q in zip(x, y))
        if isinstance(a, (int, str, bool, Fraction)) and type(a) is type(b):
            return a == b
        if isinstance(a, Inst) and isinstance(b, Inst) and isinstance(a.cls, StubCls) and a.cls is b.cls and not a.cls.inner:
            return set(a.fields) == set(b.fields) and all(self.alike(a.fields[k], b.fields[k]) for k in a.fields)
        return False

    def freeze(self, v):
        """immutable copy of the present content"""
        if isinstance(v, DictObj):
            if v.serial == -1:
                return v
            self.note_read(v, None)
            base = v.base
            mats = [(k, self.freeze(o)) for k, o in v.mats]
            d = DictObj(None, base, [(k, x if x is TOMB else self.freeze(x)) for k, x in v.ents], v.origin, True)
            if mats:
                def get(k, base=base, mats=mats):
                    r = base.get(k)
                    for mk, o in mats:
                        r = self.ite(k == mk, o, r)
                    return r
                d.base = Base(base.has, get, base.keys, base.origin, base.nested)
            return d
        if isinstance(v, ListObj):
            if v.serial == -1:
                return v
            return ListObj(None, self.freeze_seq(v.seq))
        if isinstance(v, SetObj):
            if v.serial == -1:
                return v
            return SetObj(None, self.freeze_seq(v.seq))
        if isinstance(v, TupleVal):
            return TupleVal(self.freeze_seq(v.seq), v.ident)
        if isinstance(v, Inst):
            if v.serial == -1:
                return v
            n = Inst(None, v.cls, {k: self.freeze(x) for k, x in v.fields.items()})
            n.of = ((v, dict(v.fields)),)
            return n
        return v

    def snap_of(self, n, *vs):
        n.of = tuple(x for v in vs for x in getattr(v, "of", ()))
        return n

    def unview(self, v):
        """a copy as it is now"""
        if isinstance(v, Inst):
            self.current(v)
            return Inst(None, v.cls, {k: self.unview(x) for k, x in v.fields.items()})
        if isinstance(v, TupleVal):
            return TupleVal(self.unview_seq(v.seq), v.ident)
        if isinstance(v, ListObj):
            return ListObj(None, self.unview_seq(v.seq))
        return v

    def unview_seq(self, seq):
        out = []
        for p in seq.parts:
            if isinstance(p, Item):
                out.append(Item(self.unview(p.value), p.guard))
            elif type(p) is Part:
                E, now = self.E, self.E.snapshot()

                def elem(i, p=p):
                    v = p.elem(i)
                    cur = E.snapshot()
                    E.restore(now)
                    try:
                        return self.unview(v)
                    finally:
                        E.restore(cur)
                out.append(Part(p.n, p.cond, elem, p.inv, p.tag))
            else:
                out.append(p)
        return Seq(out)

    def current(self, o):
        """o is a view of an object, taken when that was put into a container: it must
        not have been changed since"""
        for live, fields in getattr(o, "of", ()):
            for k, v in live.fields.items():
                w = fields.get(k)
                if not (v is w or (is_z(v) and is_z(w) and v.eq(w))):
                    raise Unsupported("an object is changed while a container of unknown size holds it")
        return o

    def freeze_seq(self, seq):
        out = []
        for p in seq.parts:
            if isinstance(p, Item):
                out.append(Item(self.freeze(p.value), p.guard))
            else:
                out.append(p)
        return Seq(out)

    def subst(self, v, pairs):
        """substitute symbols in a frozen value"""
        if is_z(v):
            return z3.substitute(v, *pairs)
        if isinstance(v, Item):
            return Item(self.subst(v.value, pairs), self.subst(v.guard, pairs))
        if isinstance(v, Flat):
            return Flat(self.subst(v.n, pairs), lambda i: self.subst(v.cond(i), pairs), lambda i: self.subst(v.inner(i), pairs))
        if isinstance(v, OfSet):
            return OfSet(self.subst(v.seq, pairs))
        if isinstance(v, Part):
            return Part(self.subst(v.n, pairs), lambda i: self.subst(v.cond(i), pairs), lambda i: self.subst(v.elem(i), pairs), None, v.tag)
        if isinstance(v, Seq):
            return Seq([self.subst(p, pairs) for p in v.parts])
        if isinstance(v, ListObj):
            return ListObj(None, self.subst(v.seq, pairs))
        if isinstance(v, SetObj):
            return SetObj(None, self.subst(v.seq, pairs))
        if isinstance(v, TupleVal):
            return TupleVal(self.subst(v.seq, pairs), None if v.ident is None else z3.substitute(v.ident, *pairs))
        if isinstance(v, DictObj):
            b = v.base
            nb = None
            if b is not None:
                nb = Base(lambda k: self.subst(b.has(k), pairs), lambda k: self.subst(b.get(k), pairs),
                          None if b.keys is None else self.subst(b.keys, pairs), b.origin, b.nested)
            return DictObj(None, nb, [(z3.substitute(k, *pairs), x if x is TOMB else self.subst(x, pairs)) for k, x in v.ents], v.origin, True)
        if isinstance(v, Inst):
            if getattr(v.cls, "inner", False):
                raise Unsupported("an object known by its contract, made inside a loop")
            return self.snap_of(Inst(None, v.cls, {k: self.subst(x, pairs) for k, x in v.fields.items()}), v)
        if isinstance(v, Vec):
            return Vec(self.subst(v.n, pairs), lambda i: self.subst(v.at(i), pairs), None, None if v.ident is None else self.subst(v.ident, pairs))
        h = getattr(v, "substitute", None)
        if h:
            return h(lambda x: self.subst(x, pairs))
        return v

    # ------------------------------------------------------------ dictionaries
    def new_dict(self, items):
        d = DictObj(self.E)
        for k, v in items:
            self.dict_set(d, k, v)
        return d

    def const_keys(self, d):
        """keys as Python constants if the dictionary is fully known"""
        if d.base is not None:
            return None
        out = []
        for k, v in d.ents:
            if v is TOMB:
                continue
            c = self.const_of(k)
            if c is MISS:
                return None
            out.append(c)
        return out

    def const_of(self, k):
        k = z3.simplify(k)
        if z3.is_app(k):
            n = k.decl().name()
            if n == "VStr" and z3.is_int_value(k.arg(0)):
                c = k.arg(0).as_long()
                for s, j in self.E.strings.items():
                    if j == c:
                        return s
            if n == "VInt" and z3.is_int_value(k.arg(0)):
                return k.arg(0).as_long()
            if n == "VNone":
                return None
        return MISS

    def dict_lookup(self, d, k):
        """live lookup; forks; MISS if absent"""
        E = self.E
        kV = E.toV(k)
        self.note_read(d, kV)
        for ek, val in reversed(d.ents):
            if E.branch(ek == kV):
                return MISS if val is TOMB else val
        if d.base is None:
            return MISS
        for mk, o in d.mats:
            if E.branch(mk == kV):
                return o
        if E.branch(zb(d.base.has(kV))):
            v = d.base.get(kV)
            if isinstance(v, (DictObj, ListObj, Inst, SetObj)):
                v = self.thaw(v, d)
                if d.serial != -1:
                    d.mats.append((kV, v))
            return v
        return MISS

    def note_read(self, d, k):
        for w in d.watch or ():
            w.append((k, list(self.E.pc)))

    def capture(self, v, ids=None):
        """v (or something in it) is kept inside a container of unknown size: from now on
        it must not be changed in place"""
        seen = set()

        def walk(x):
            if isinstance(x, TupleVal):
                for p in x.seq.parts:
                    if isinstance(p, Item):
                        walk(p.value)
                return
            if not isinstance(x, Obj) or id(x) in seen or x.serial == -1:
                return
            seen.add(id(x))
            if (ids is None or id(x) in ids) and not (isinstance(x, Inst) and isinstance(x.cls, StubCls)):
                # (views of contract objects know what they are views of: see current)
                self.E.captured[id(x)] = x
            if isinstance(x, DictObj):
                for _, y in x.ents:
                    walk(y)
                for _, y in x.mats:
                    walk(y)
            elif isinstance(x, (ListObj, SetObj)):
                for p in x.seq.parts:
                    if isinstance(p, Item):
                        walk(p.value)
            elif isinstance(x, Inst):
                for y in x.fields.values():
                    walk(y)
        walk(v)

    def capture_dict(self, d):
        for _, y in list(d.ents) + list(d.mats):
            if y is not TOMB:
                self.capture(y)

    def write_bulk(self, d, B):
        """the summarised writes of a loop"""
        self.check_mut(d)
        if any(isinstance(x, Obj) for _, x in list(d.ents) + list(d.mats)):
            self.capture_dict(d)
            d.leaked = True
        w, d.watch = d.watch, None
        old = self.freeze(d)
        oldkeys = self.keys_seq(old)
        d.watch = w

        def has(q):
            return self.simp(disj([B.hit(q), self.dict_at(old, q)[0]]))

        def get(q):
            _, v = self.dict_at(old, q)
            if v is MISS:
                return B.val(q)
            try:
                return self.ite(self.simp(B.hit(q)), B.val(q), v)
            except Unsupported:
                # (the value under a key that is not there does not matter)
                if self.E.valid(z3.Implies(zb(has(q)), zb(B.hit(q)))):
                    return B.val(q)
                raise
        keys = None
        if B.keys is not None and oldkeys is not None:
            if old.base is None and not old.ents:
                keys = B.keys
            else:
                keys = oldkeys + self.filter_seq(B.keys, lambda k: neg(self.dict_at(old, k)[0]))
        nb = Base(has, get, keys, None, True)
        nb.over = (d.base, list(d.ents), list(d.mats), B)
        d.base, d.ents, d.mats = nb, [], []

    def thaw(self, v, owner):
        """live view of an element of an unknown container"""
        if owner.serial == -1 or owner.detached or getattr(owner, "leaked", False):
            return v
        n = v
        if isinstance(v, DictObj):
            n = DictObj(self.E, v.base, v.ents, v.origin, False)
        elif isinstance(v, ListObj):
            n = ListObj(self.E, v.seq)
        elif isinstance(v, SetObj):
            n = SetObj(self.E, v.seq)
        elif isinstance(v, Inst):
            n = Inst(self.E, v.cls, v.fields)
        if n is not v:
            n.pristine = v
        return n

    def dict_at(self, d, kV):
        """pure lookup: (membership, value or MISS)"""
        has, val = (False, MISS)
        if d.base is not None:
            has, val = d.base.has(kV), d.base.get(kV)
            for mk, o in d.mats:
                val = self.ite(mk == kV, self.freeze(o), val)
        for ek, v in d.ents:
            c = self.simp(ek == kV)
            if v is TOMB:
                has = conj([neg(c), has])
            else:
                has = disj([c, has])
                f = self.freeze(v)
                val = f if val is MISS else self.ite(c, f, val)
        return has, val

    def longlived(self, v, name):
        if isinstance(v, (DictObj, ListObj, SetObj)):
            v.longlived = "class attribute " + name
        return v

    def check_mut(self, o):
        if o.serial == -1 or getattr(o, "detached", False) or id(o) in self.E.captured:
            raise Unsupported("in-place change of an element reached through an unknown container")
        if getattr(o, "longlived", None):
            # its content depends on everything that ran before
            raise Unsupported("change of " + o.longlived)

    def dict_set(self, d, k, v):
        self.check_mut(d)
        kV = self.E.toV(k)
        for j, (ek, _) in enumerate(d.ents):
            if self.E.branch(ek == kV):
                if d.ents[j][1] is TOMB:
                    raise Unsupported("key set again after deletion")
                d.ents[j] = (ek, v)
                return
        d.ents.append((kV, v))

    def dict_del(self, d, k):
        self.check_mut(d)
        kV = self.E.toV(k)
        if self.dict_lookup(d, k) is MISS:
            raise Raise("KeyError", "del")
        for j, (ek, _) in enumerate(d.ents):
            if self.E.branch(ek == kV):
                if d.base is None:
                    del d.ents[j]
                else:
                    d.ents[j] = (ek, TOMB)
                return
        d.ents.append((kV, TOMB))

    def dict_update(self, d, other):
        """d.update(other)"""
        if isinstance(other, DictObj):
            if other.base is None:
                for k, v in list(other.ents):
                    if v is not TOMB:
                        self.dict_set(d, k, v)
                return
            self.check_mut(d)
            self.capture_dict(d)
            self.capture_dict(other)
            if d.base is None and not d.ents:
                o = self.freeze(other)
                d.base = Base(lambda k: self.dict_at(o, k)[0], lambda k: self.dict_at(o, k)[1], self.keys_seq(o),
                              other.origin, other.base.nested)
                if self.nested_base(other.base):
                    d.leaked = other.leaked = True
                return
            old, new = self.freeze(d), self.freeze(other)

            def has(k):
                return disj([self.dict_at(new, k)[0], self.dict_at(old, k)[0]])

            def get(k):
                hn, vn = self.dict_at(new, k)
                ho, vo = self.dict_at(old, k)
                return vn if vo is MISS else self.ite(hn, vn, vo)
            ks = None
            ko, kn = self.keys_seq(old), self.keys_seq(new)
            if ko is not None and kn is not None:
                ks = ko + self.filter_seq(kn, lambda k: neg(self.dict_at(old, k)[0]))
            if self.nested_base(other.base):
                d.leaked = other.leaked = True
            d.base, d.ents, d.mats = Base(has, get, ks), [], []
            return
        if isinstance(other, (ListObj, Iter, TupleVal)):
            raise Unsupported("update from a sequence")
        raise Unsupported("update")

    def nested_base(self, b):
        return b.nested

    def filter_seq(self, seq, pred):
        out = []
        for p in seq.parts:
            if isinstance(p, Item):
                out.append(Item(p.value, conj([p.guard, pred(p.value)])))
            elif isinstance(p, (Flat, OfSet)):
                return None
            else:
                q = Part(p.n, lambda i, p=p: conj([p.cond(i), pred(p.elem(i))]), p.elem, p.inv, p.tag)
                q.keyinv = getattr(p, "keyinv", None)
                out.append(q)
        return Seq(out)

    def keys_seq(self, d):
        self.note_read(d, None)
        parts = []
        tombs = [k for k, v in d.ents if v is TOMB]
        if d.base is not None:
            if d.base.keys is None:
                return None
            ks = d.base.keys
            if tombs:
                ks = self.filter_seq(ks, lambda k: conj([neg(self.simp(k == t)) for t in tombs]))
            parts += ks.parts
        for k, v in d.ents:
            if v is not TOMB:
                g = True if d.base is None else self.simp(z3.Not(zb(d.base.has(k))))
                if g is not False:
                    parts.append(Item(k, g))
        return Seq(parts)

    def dict_keys(self, d):
        s = self.keys_seq(d)
        if s is None:
            raise Unsupported("order of a merged dictionary")
        return s

    def unkey(self, k):
        """key value as the program sees it"""
        c = self.const_of(k) if is_z(k) else k
        return k if c is MISS else c

    def items_seq(self, d, what):
        """live sequence of items/values: elements are fetched from d when visited"""
        ks = self.dict_keys(d)
        out = []

        def val(k):
            v = self.dict_lookup(d, k)
            if v is MISS:
                raise Dead()
            return v

        def pack(k):
            if what == "keys":
                return self.unkey(k)
            if what == "values":
                return val(k)
            return TupleVal([self.unkey(k), val(k)])

        def pack_pure(k):
            if what == "keys":
                return self.unkey(k)
            v = self.dict_at(snap, k)[1]
            return v if what == "values" else TupleVal([self.unkey(k), v])
        snap = self.freeze(d)
        it = Iter(self.E, None)
        parts, fetch = [], []
        for p in ks.parts:
            if isinstance(p, Item):
                parts.append(Item(("lazy", p.value), p.guard))
                fetch.append(lambda i, p=p: pack(p.value))
            else:
                q = Part(p.n, p.cond, lambda i, p=p: pack_pure(p.elem(i)), None, p.tag if what == "keys" else None)
                q.keyinv = getattr(p, "keyinv", None)
                parts.append(q)
                fetch.append(lambda i, p=p: pack(p.elem(i)))
        pure = [Item(pack_pure(p.value), p.guard) if isinstance(p, Item) else q for p, q in zip(ks.parts, parts)]
        it.seq = Seq(pure)
        it.fetch = fetch
        it.leak = d if what != "keys" else None
        return it

    # ------------------------------------------------------------ sequences
    def seq_of(self, v, live=False):
        """sequence of the elements met when iterating over v"""
        if isinstance(v, (ListObj, TupleVal)):
            return v.seq
        if isinstance(v, Iter):
            if v.used:
                return Seq()
            v.used = True
            lk = getattr(v, "leak", None)
            if lk is not None:
                self.capture_dict(lk)
                if lk.base is not None and lk.base.nested:
                    lk.leaked = True
            return v.seq
        if isinstance(v, DictObj):
            return Seq([Item(self.unkey(p.value), p.guard) if isinstance(p, Item) else p for p in self.dict_keys(v).parts])
        if isinstance(v, SetObj):
            c = v.seq.concrete()
            if c is not None and len(c) <= 1:
                return v.seq
            return Seq([OfSet(v.seq)])
        if isinstance(v, Vec):
            if isinstance(v.n, int):
                return Seq.of([v.at(z3.IntVal(i)) for i in range(v.n)])
            return Seq([Part(v.n, true, lambda i: v.at(zi(i)), None, "vec")])
        h = getattr(v, "iterate", None)
        if h:
            return h()
        if isinstance(v, str):
            return Seq.of(list(v))
        if isinstance(v, Text):
            return v.seq()
        if is_z(v) or v is None or isinstance(v, (int, Fraction)):
            raise Unsupported("iteration over a scalar")
        if isinstance(v, Inst):
            m = self.I.find_method(v, "__iter__")
            if m is not None:
                return self.seq_of(self.I.call(m, []))
        raise Unsupported(f"iteration over {type(v).__name__}")

    def list_append(self, l, v):
        self.check_mut(l)
        l.seq = l.seq + Seq([Item(v)])

    def set_add(self, s, v):
        self.check_mut(s)
        s.seq = s.seq + Seq([Item(v)])

    def length(self, v):
        if isinstance(v, DictObj):
            return self.seq_len(self.dict_keys(v))
        if isinstance(v, (ListObj, TupleVal)):
            return self.seq_len(v.seq)
        if isinstance(v, SetObj):
            return self.set_len(v.seq)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, Vec):
            return v.n
        h = getattr(v, "length", None)
        if h:
            return h()
        if isinstance(v, Inst):
            if isinstance(v.cls, StubCls):
                return self.I.call(self.getattr(v, "__len__"), [])
            m = self.I.find_method(v, "__len__")
            if m is not None:
                return self.I.call(m, [])
        raise Unsupported(f"len of {type(v).__name__}")

    def seq_len(self, seq):
        tot = 0
        for p in seq.parts:
            if isinstance(p, Item):
                tot = tot + (1 if p.guard is True else z3.If(zb(p.guard), zi(1), zi(0)))
            elif isinstance(p, OfSet):
                tot = tot + self.set_len(p.seq)
            elif isinstance(p, Flat):
                tot = tot + self.E.loops.SUM(p.n, lambda i, p=p: self.ite(p.cond(i), self.seq_len(p.inner(i)), 0))
            elif p.cond is true:
                tot = tot + p.n
            else:
                t = self.E.loops.SUM(p.n, lambda i, p=p: self.ite(p.cond(i), 1, 0))
                tot = tot + t
                if getattr(p, "some", None) is not None and is_z(t):
                    self.E.known_fact((t > 0) == zb(p.some()))
        return tot

    def set_len(self, seq):
        c = seq.concrete()
        if c is not None and len(c) <= 1:
            return len(c)
        if c is not None and all(not is_z(x) and self.E.scalar(x) for x in c):
            return len(set(c))
        return self.E.loops.CARD(seq)

    def seq_at(self, seq, i):
        """element at index i (0 <= i < length known); forks over the parts"""
        E = self.E
        off = 0
        for p in seq.parts:
            if isinstance(p, Item) and p.guard is True:
                if E.branch(self.simp(zi(i) == zi(off)) if not (isinstance(i, int) and isinstance(off, int)) else i == off):
                    return p.value
                off = off + 1
            elif not isinstance(p, (Item, Flat, OfSet)) and p.cond is true:
                end = off + p.n
                if E.branch(self.simp(zi(i) < zi(end)) if not (isinstance(i, int) and isinstance(end, int)) else i < end):
                    return p.elem(zi(i) - off if is_z(i) or is_z(off) else zi(i - off))
                off = end
            elif isinstance(p, Item):
                if E.branch(p.guard):
                    if E.branch(self.simp(zi(i) == zi(off))):
                        return p.value
                    off = off + 1
            elif isinstance(p, Part) and not isinstance(p, (Flat, OfSet)):
                # filtered: element number (i - off) of the kept ones
                return E.loops.nth(p, zi(i) - off)
            else:
                raise Unsupported("index into this list")
        raise Unsupported("index out of the list")

    def contains(self, seq, v):
        return self.exists(seq, lambda x: self.eq(x, v))

    def unpack(self, v, n, star):
        items = self.seq_of(v).concrete() if not isinstance(v, TupleVal) else v.items
        if items is None:
            raise Unsupported("unpacking a sequence of unknown length")
        if not star and len(items) != n:
            raise Raise("ValueError", "unpack")
        return list(items)

    def const_items(self, v):
        if isinstance(v, DictObj):
            ks = self.const_keys(v)
            if ks is not None:
                return [(k, self.dict_lookup(v, k)) for k in ks]
        raise Unsupported("** of an unknown mapping")

    # ------------------------------------------------------------ subscripts, attributes
    def getitem(self, o, ix):
        E = self.E
        if isinstance(o, DictObj):
            if isinstance(ix, tuple):
                raise Raise("TypeError", "slice of a dict")
            v = self.dict_lookup(o, ix)
            if v is MISS:
                if getattr(o, "counter", False):
                    return 0
                raise Raise("KeyError", str(ix)[:60])
            return v
        if isinstance(o, (ListObj, TupleVal)):
            return self.seq_getitem(o, ix)
        if isinstance(o, Vec):
            if isinstance(ix, TupleVal) and len(ix.items) == 2:
                import geometry
                whole = lambda x: isinstance(x, tuple) and x[0] == "slice" and all(y is None for y in x[1:])
                none = lambda x: x is None or isinstance(x, Ext) and x.name == "numpy.newaxis"
                if whole(ix.items[0]) and none(ix.items[1]):
                    return geometry.Mat(o.n, 1, lambda i, j: o.at(i))
                if none(ix.items[0]) and whole(ix.items[1]):
                    return geometry.Mat(1, o.n, lambda i, j: o.at(j))
            if isinstance(ix, tuple):
                raise Unsupported("slice of a vector")
            return o.at(self._index(ix, o.n))
        if isinstance(o, str) and isinstance(ix, int):
            return o[ix]
        if isinstance(o, str) and isinstance(ix, tuple):
            return o[slice(*ix[1:])]
        if isinstance(o, Inst):
            m = self.I.find_method(o, "__getitem__")
            if m is not None:
                return self.I.call(m, [ix])
        h = getattr(o, "getitem", None)
        if h:
            return h(E, ix)
        raise Unsupported(f"subscript of {type(o).__name__}")

    def _index(self, ix, n):
        E = self.E
        if not (isinstance(ix, int) or is_z(ix)):
            raise Unsupported("index")
        i = E.num(ix)
        if isinstance(i, int) and i < 0:
            i = n + i
        elif is_z(i) and E.branch(self.simp(i < 0)):
            i = n + i
        ok = (0 <= i < n) if isinstance(i, int) and isinstance(n, int) else self.simp(z3.And(zi(i) >= 0, zi(i) < zi(n)))
        if not E.branch(ok):
            raise Raise("IndexError", "index out of range")
        return zi(i) if not isinstance(i, int) else zi(i)

    def seq_getitem(self, o, ix):
        seq = o.seq
        if isinstance(ix, tuple) and ix[0] == "slice":
            r = self.slice(seq, *ix[1:])
            return ListObj(self.E, r) if isinstance(o, ListObj) else TupleVal(r)
        c = seq.concrete()
        if c is not None and isinstance(ix, int):
            if not -len(c) <= ix < len(c):
                raise Raise("IndexError", "index")
            return c[ix]
        n = self.seq_len(seq)
        i = self._index(ix, n)
        return self.seq_at(seq, i)

    def slice(self, seq, lo, hi, step):
        c = seq.concrete()
        if c is not None and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            return Seq.of(c[slice(lo, hi, step)])
        if step not in (None, 1):
            raise Unsupported("slice step")
        n = zi(self.seq_len(seq))

        def norm(x, dflt):
            if x is None:
                return dflt
            x = zi(self.E.num(x))

            def pick(c, a, b):
                c = self.simp(c)
                if c is True or c is False:
                    return a if c else b
                if self.E.valid_quick(c):
                    return a
                if self.E.valid_quick(z3.Not(c)):
                    return b
                return z3.If(c, a, b)
            neg = z3.If(x + n >= 0, x + n, zi(0))
            return pick(x < 0, neg, pick(x <= n, x, n) if not z3.is_int_value(z3.simplify(x)) or z3.simplify(x).as_long() >= 0 else n)
        a, b = norm(lo, zi(0)), norm(hi, n)
        if len(seq.parts) > 1 and self.simp(a == 1) is True and isinstance(seq.parts[0], Item) and seq.parts[0].guard is True \
                and hi is None:
            return Seq(seq.parts[1:])
        if len(seq.parts) == 1 and isinstance(seq.parts[0], Part) and not isinstance(seq.parts[0], (Item, Flat, OfSet)) \
                and seq.parts[0].cond is true:
            p = seq.parts[0]
            m = self.simp_int(z3.If(b > a, b - a, zi(0)))
            return Seq([Part(m, true, lambda i: p.elem(i + a), None, p.tag)])
        if self.simp(a == 0) is True and self.simp(b == n) is True:
            return Seq(seq.parts)
        if all(p.guard is True if isinstance(p, Item) else not isinstance(p, (Flat, OfSet, HolePart)) and p.cond is true for p in seq.parts):
            m = self.simp_int(z3.If(b > a, b - a, zi(0)))
            return Seq([Part(m, true, lambda i: self.seq_at(seq, z3.simplify(zi(i) + a)))])
        raise Unsupported("slice of this list")

    def simp_int(self, t):
        t = z3.simplify(t)
        return t.as_long() if z3.is_int_value(t) else t

    def setitem(self, o, ix, v):
        if isinstance(o, DictObj):
            return self.dict_set(o, ix, v)
        if isinstance(o, ListObj):
            self.check_mut(o)
            c = o.seq.concrete()
            if c is not None and isinstance(ix, int):
                if not -len(c) <= ix < len(c):
                    raise Raise("IndexError", "index")
                c = list(c)
                c[ix] = v
                o.seq = Seq.of(c)
                return
        h = getattr(o, "setitem", None)
        if h:
            return h(self.E, ix, v)
        raise Unsupported(f"item assignment on {type(o).__name__}")

    def delitem(self, o, ix):
        if isinstance(o, DictObj):
            return self.dict_del(o, ix)
        if isinstance(o, ListObj) and ix == 0:
            self.check_mut(o)
            if o.seq.parts and isinstance(o.seq.parts[0], Item) and o.seq.parts[0].guard is True:
                o.seq = Seq(o.seq.parts[1:])
                return
        raise Unsupported("del")

    def getattr(self, o, name):
        if isinstance(o, Inst):
            if isinstance(o.cls, StubCls):
                return o.cls.get(self.E, o, name)
            if name in o.fields:
                return o.fields[name]
            if name == "__class__":
                return o.cls
            if isinstance(o.cls, ClassVal):
                a = o.cls.lookup(name)
                if isinstance(a, FuncVal):
                    if "property" in a.deco:
                        return self.I.call_func(a, [o], {})
                    if "staticmethod" in a.deco:
                        return a
                    return Bound(a, o.cls if "classmethod" in a.deco else o)
                if isinstance(a, tuple) and a[0] == "thunk":
                    return self.longlived(self.I.eval(a[1], Frame(self.E, None, self.owner(o.cls, name).module)), name)
                if a is not None:
                    return a
            if name == "__dict__":
                raise Unsupported("__dict__")
            raise Raise("AttributeError", f"{o.cls} has no {name}")
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            if name == "__module__":
                return o.module.name
            a = o.lookup(name)
            if isinstance(a, FuncVal):
                return Bound(a, o) if "classmethod" in a.deco else a
            if isinstance(a, tuple) and a[0] == "thunk":
                return self.longlived(self.I.eval(a[1], Frame(self.E, None, self.owner(o, name).module)), name)
            raise Unsupported(f"attribute {name} of class {o.name}")
        if isinstance(o, ModuleVal):
            v = self.I.mods.get(o, name)
            import interp
            if v is interp.MISSING:
                raise Unsupported(f"{o.name}.{name}")
            return v
        if isinstance(o, Ext):
            return self.ext_attr(o, name)
        if isinstance(o, tuple) and o[0] == "super":
            _, cls, self_ = o
            inst_cls = self_.cls if isinstance(self_, Inst) else self_
            mro = inst_cls.mro()
            for c in mro[mro.index(cls) + 1:]:
                if name in c.attrs:
                    a = c.attrs[name]
                    if isinstance(a, FuncVal):
                        return Bound(a, self_)
            if name == "__init__":
                return Native("object.__init__", lambda E, a, k: None)
            raise Unsupported(f"super().{name}")
        m = o.method(name) if isinstance(o, Text) else self.method(o, name)
        if m is not None:
            return m
        raise Unsupported(f"attribute {name} of {type(o).__name__}")

    def owner(self, cls, name):
        for c in cls.mro():
            if name in c.attrs:
                return c

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            if isinstance(o.cls, StubCls):
                if o.cls.set_ is None:
                    raise Unsupported(f"{o.cls.name}.{name} is set")
                return o.cls.set_(self.E, o, name, v)
            if o.serial == -1 or id(o) in self.E.captured:
                raise Unsupported("change of an object reached through an unknown container")
            o.fields[name] = v
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    # ------------------------------------------------------------ numbers
    def augop(self, op, a, b):
        if isinstance(a, ListObj) and isinstance(op, ast.Add):
            self.check_mut(a)
            a.seq = a.seq + self.seq_of(b)
            return a
        if isinstance(a, SetObj) and isinstance(op, ast.BitOr):
            self.check_mut(a)
            a.seq = a.seq + self.seq_of_set(b)
            return a
        if isinstance(a, DictObj) and isinstance(op, ast.BitOr):
            self.dict_update(a, b)
            return a
        return self.binop(op, a, b)

    def seq_of_set(self, b):
        if isinstance(b, SetObj):
            return b.seq
        return self.seq_of(b)

    def negate(self, v):
        if isinstance(v, Vec):
            return Vec(v.n, lambda i: -v.at(i), self.lin_scale(v, z3.RealVal(-1)))
        n = self.E.num(v)
        return -n

    def lin_scale(self, v, c):
        return None if v.lin is None else [(z3.simplify(x * c), a, ch) for x, a, ch in v.lin]

    def binop(self, op, a, b):
        E = self.E
        if isinstance(op, ast.MatMult):
            import geometry
            return geometry.dot(E, a, b)
        for x, y, left in ((a, b, True), (b, a, False)):
            h = getattr(x, "binop", None)
            if h:
                return h(E, type(op).__name__, y, left)
        if isinstance(a, Vec) or isinstance(b, Vec):
            return self.vec_binop(type(op).__name__, a, b)
        if isinstance(op, ast.Add):
            if isinstance(a, ListObj) and isinstance(b, ListObj):
                return ListObj(E, a.seq + b.seq)
            if isinstance(a, TupleVal) and isinstance(b, TupleVal):
                return TupleVal(a.seq + b.seq)
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                return self.fstring([a, b])
        if isinstance(op, ast.BitOr):
            if isinstance(a, SetObj) and isinstance(b, SetObj):
                return SetObj(E, a.seq + b.seq)
            if isinstance(a, DictObj) and isinstance(b, DictObj):
                d = self.copy_dict(a)
                self.dict_update(d, b)
                return d
        if isinstance(op, ast.Mult) and isinstance(a, ListObj) and isinstance(b, int):
            return ListObj(E, Seq(a.seq.parts * b))
        if isinstance(op, ast.Sub) and isinstance(a, SetObj):
            raise Unsupported("set difference")
        x, y = E.num(a), E.num(b)
        return self.arith(type(op).__name__, x, y)

    def arith(self, op, x, y):
        E = self.E
        if isinstance(x, int) and isinstance(y, int):
            if op in ("Div", "FloorDiv", "Mod") and y == 0:
                raise Raise("ZeroDivisionError")
            if op == "Div":
                return Fraction(x, y)
            if op == "Pow" and y < 0:
                return Fraction(x) ** y
            return {"Add": x + y, "Sub": x - y, "Mult": x * y, "FloorDiv": x // y if y else 0, "Mod": x % y if y else 0,
                    "Pow": x ** y if op == "Pow" else 0}[op]
        x, y = (z3.IntVal(t) if isinstance(t, int) else t for t in (x, y))
        if op in ("Add", "Sub", "Mult", "Div") or op == "Pow":
            if op == "Div" or x.sort() != y.sort():
                x, y = (z3.ToReal(t) if t.sort() == INT else t for t in (x, y))
        if op == "Add":
            return x + y
        if op == "Sub":
            return x - y
        if op == "Mult":
            return x * y
        if op == "Div":
            if E.branch(self.simp(y == 0)):
                raise Raise("ZeroDivisionError")
            return x / y
        if op in ("FloorDiv", "Mod"):
            if x.sort() != INT or y.sort() != INT:
                x, y = (z3.ToReal(t) if t.sort() == INT else t for t in (x, y))
                m = self.rmod(x, y)
                return m if op == "Mod" else z3.ToReal(z3.ToInt(x / y))
            if E.branch(self.simp(y == 0)):
                raise Raise("ZeroDivisionError")
            if not E.branch(self.simp(y > 0)):
                raise Unsupported("negative divisor")
            return x / y if op == "FloorDiv" else x % y
        if op == "Pow" and z3.is_int_value(y) and 0 <= y.as_long() <= 4:
            r = z3.IntVal(1) if x.sort() == INT else z3.RealVal(1)
            for _ in range(y.as_long()):
                r = r * x
            return r
        raise Unsupported(f"operator {op}")

    def product(self, x, y):
        """x * y, without a product of unknowns where one factor is a choice of numbers"""
        for p, q in ((x, y), (y, x)):
            q = z3.simplify(q) if is_z(q) else q
            if is_z(q) and z3.is_app(q) and q.decl().kind() == z3.Z3_OP_ITE and all(z3.is_rational_value(t) for t in q.children()[1:]):
                return z3.If(q.arg(0), z3.simplify(p * q.arg(1)), z3.simplify(p * q.arg(2)))
        return x * y

    def rmod(self, x, y):
        """the remainder, for a positive number y"""
        y = z3.simplify(y)
        if not (z3.is_rational_value(y) and y.as_fraction() > 0):
            raise Unsupported("remainder")
        return x - z3.ToReal(z3.ToInt(x / y)) * y

    def vec_binop(self, op, a, b):
        E = self.E
        n = a.n if isinstance(a, Vec) else b.n
        if isinstance(a, (TupleVal, ListObj)):
            a = self.ext["numpy.array"](E, [a], {})
        if isinstance(b, (TupleVal, ListObj)):
            b = self.ext["numpy.array"](E, [b], {})

        def at(v, i):
            if isinstance(v, Vec):
                return v.at(i)
            x = E.num(v)
            return z3.ToReal(zi(x)) if isinstance(x, int) or x.sort() == INT else x
        if isinstance(a, Vec) and isinstance(b, Vec):
            if not self.same_term(a.n, b.n):
                raise Unsupported("vectors of different length")
        lin = None
        import geometry
        if op in ("Add", "Sub") and isinstance(a, Vec) and isinstance(b, Vec) and (a.lin is not None or b.lin is not None):
            lin = geometry.combine(E, geometry.terms(a) + (geometry.terms(b) if op == "Add" else geometry.negative(geometry.terms(b))))
        if op in ("Mult", "Div") and isinstance(a, Vec) != isinstance(b, Vec) and (op == "Mult" or isinstance(a, Vec)):
            v, s = (a, b) if isinstance(a, Vec) else (b, a)
            if isinstance(s, (int, Fraction)) or is_z(s):
                s = at(s, 0)
                lin = self.lin_scale(v, s if op == "Mult" else 1 / s)
        if lin is not None:
            return geometry.value(E, n, lin)
        f = {"Add": lambda i: at(a, i) + at(b, i), "Sub": lambda i: at(a, i) - at(b, i), "Mult": lambda i: self.product(at(a, i), at(b, i)),
             "Div": lambda i: at(a, i) / at(b, i), "Mod": lambda i: self.rmod(at(a, i), at(b, i)),
             "FloorDiv": lambda i: z3.ToReal(z3.ToInt(at(a, i) / at(b, i)))}.get(op)
        if op == "Pow" and b == 2:
            f = lambda i: at(a, i) * at(a, i)
        if f is None:
            raise Unsupported(f"vector operator {op}")
        return Vec(n, f, lin)

    def compare(self, op, a, b):
        E = self.E
        k = type(op).__name__
        if k == "Eq":
            return self.eq(a, b)
        if k == "NotEq":
            return neg(self.truth(self.eq(a, b)))
        if k in ("Is", "IsNot"):
            if E.scalar(a) and E.scalar(b):
                r = self.eq(a, b)
            else:
                r = a is b
                if not r and isinstance(a, Ext) and isinstance(b, Ext):
                    r = a.name == b.name
            return r if k == "Is" else neg(r)
        if k in ("In", "NotIn"):
            r = self.is_in(a, b)
            return r if k == "In" else neg(r)
        if isinstance(a, TupleVal) or isinstance(b, TupleVal) or isinstance(a, (str, SetObj)):
            raise Unsupported("ordering")
        x, y = E.num(a), E.num(b)
        if isinstance(x, int) and isinstance(y, int):
            return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[k]
        x, y = (zi(t) if isinstance(t, int) else t for t in (x, y))
        if x.sort() != y.sort():
            x, y = (z3.ToReal(t) if t.sort() == INT else t for t in (x, y))
        return self.simp({"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[k])

    def is_in(self, v, c):
        if isinstance(c, DictObj):
            kV = self.E.toV(v)
            self.note_read(c, kV)
            has = False if c.base is None else c.base.has(kV)
            for ek, x in c.ents:
                e = self.simp(ek == kV)
                has = conj([neg(e), has]) if x is TOMB else disj([e, has])
            return self.simp(has)
        if isinstance(c, (ListObj, TupleVal, SetObj)):
            return self.contains(c.seq, v)
        if isinstance(c, Iter):
            return self.contains(self.seq_of(c), v)
        if isinstance(c, str) and isinstance(v, str):
            return v in c
        h = getattr(c, "contains", None)
        if h:
            return h(self.E, v)
        raise Unsupported(f"in {type(c).__name__}")

    # ------------------------------------------------------------ strings
    def fstring(self, parts):
        if all(isinstance(p, (str, int)) and not isinstance(p, bool) for p in parts):
            return "".join(str(p) for p in parts)
        E = self.E
        shape = "|".join(p if isinstance(p, str) else "{}" for p in parts)
        args = []
        for p in parts:
            if not isinstance(p, str):
                args.append(E.toV(p) if E.scalar(p) else V.VNone)
        f = z3.Function("fmt<" + shape + ">", *[V] * len(args), INT)
        if len(args) == 1:
            # the text between the fixed ends is the number
            inv = z3.Function("unfmt<" + shape + ">", INT, V)
            E.defs[f.name()] = lambda x: [z3.Implies(V.is_VInt(x), inv(f(x)) == x)]
        return V.VStr(f(*args))

    def to_str(self, v):
        if isinstance(v, str):
            return v
        if isinstance(v, int) and not isinstance(v, bool):
            return str(v)
        t = self.E.toV(v)
        return z3.If(V.is_VStr(t), t, V.VStr(strcode(t)))

    # ------------------------------------------------------------ copies
    def copy_dict(self, d):
        n = DictObj(self.E)
        n.base, n.ents, n.mats = d.base, list(d.ents), list(d.mats)
        n.origin = d.origin
        if getattr(d, "counter", False):
            n.counter = True
        if d.base is not None and d.base.nested:
            n.leaked = True
            d.leaked = True
        return n

    def deepcopy(self, v, memo=None):
        E = self.E
        memo = {} if memo is None else memo
        if E.scalar(v):
            if is_z(v) and v.sort() == V:
                return dc(v)
            return v
        if id(v) in memo:
            return memo[id(v)]
        if isinstance(v, DictObj):
            f = self.freeze(v)
            reg = E.name("copy")
            d = DictObj(E, origin=reg)
            memo[id(v)] = d
            if f.base is not None:
                b = f.base
                d.base = Base(b.has, lambda k: self.dcopy_pure(b.get(k), reg), b.keys, reg, b.nested)
            d.ents = [(k, x if x is TOMB else self.deepcopy(x, memo)) for k, x in v.ents]
            if v.mats:
                mats = [(k, self.freeze(o)) for k, o in v.mats]
            return d
        if isinstance(v, ListObj):
            l = ListObj(E, Seq())
            memo[id(v)] = l
            l.seq = Seq([Item(self.deepcopy(p.value, memo), p.guard) if isinstance(p, Item) else self.dcopy_part(p) for p in v.seq.parts])
            return l
        if isinstance(v, TupleVal):
            return TupleVal(Seq([Item(self.deepcopy(p.value, memo), p.guard) if isinstance(p, Item) else self.dcopy_part(p) for p in v.seq.parts]), v.ident)
        if isinstance(v, Inst):
            o = Inst(E, v.cls)
            memo[id(v)] = o
            o.fields = {k: self.deepcopy(x, memo) for k, x in v.fields.items()}
            return o
        if isinstance(v, Vec):
            return Vec(v.n, v.at, v.lin, v.ident)
        h = getattr(v, "deepcopy", None)
        if h:
            return h(memo)
        raise Unsupported(f"deepcopy of {type(v).__name__}")

    def dcopy_part(self, p):
        if isinstance(p, (Flat, OfSet)):
            raise Unsupported("deepcopy of this list")
        return Part(p.n, p.cond, lambda i: self.dcopy_pure(p.elem(i), "copy"), None, p.tag)

    def dcopy_pure(self, v, reg):
        if is_z(v):
            return dc(v) if v.sort() == V else v
        if isinstance(v, DictObj):
            b = v.base
            nb = None if b is None else Base(b.has, lambda k: self.dcopy_pure(b.get(k), reg), b.keys, reg, b.nested)
            return DictObj(None, nb, [(k, x if x is TOMB else self.dcopy_pure(x, reg)) for k, x in v.ents], reg, True)
        if isinstance(v, TupleVal):
            return TupleVal(Seq([Item(self.dcopy_pure(p.value, reg), p.guard) if isinstance(p, Item) else self.dcopy_part(p) for p in v.seq.parts]), v.ident)
        if isinstance(v, ListObj):
            return ListObj(None, Seq([Item(self.dcopy_pure(p.value, reg), p.guard) if isinstance(p, Item) else self.dcopy_part(p) for p in v.seq.parts]))
        if isinstance(v, Inst):
            return Inst(None, v.cls, {k: self.dcopy_pure(x, reg) for k, x in v.fields.items()})
        return v


strcode = z3.Function("strcode", V, INT)
