"""Builtins and the contracts assumed of outside libraries."""
import ast

import z3

from core import *


LIBRARY = """
def Counter(elements=()):
    counts = {}
    for element in elements:
        counts[element] = counts.get(element, 0) + 1
    return counts

def reduce(function, sequence, *initial):
    if len(initial) > 0:
        value = initial[0]
        for element in sequence:
            value = function(value, element)
        return value
    it = iter(sequence)
    value = next(it)
    for element in it:
        value = function(value, element)
    return value
"""


class Cycle:
    """itertools.cycle: every value is an element of what it goes around (which one is not said)"""

    def __init__(self, E, seq):
        self.seq = seq
        self.epoch, self.used = E.loops.epoch, False

    def start(self, E):
        """where it stands: at the beginning when nobody has taken from it, else not known"""
        if not self.used and self.epoch == E.loops.epoch:
            self.used = True
            return z3.IntVal(0)
        self.used = True
        nm = E.name("around")
        E.incomplete.add(nm)
        r = E.fresh("around", INT, nm)
        n = zi(E.ops.seq_len(self.seq))
        E.assume(z3.And(r >= 0, r < n))
        return r

    def next_value(self, E):
        self.used = True
        n = E.ops.seq_len(self.seq)
        if not E.branch(E.ops.simp(zi(n) > 0)):
            raise Raise("StopIteration", "nothing to go around")
        nm = E.name("around")
        E.incomplete.add(nm)
        r = E.fresh("around", INT, nm)
        E.assume(z3.And(r >= 0, r < zi(n)))
        return E.ops.seq_at(self.seq, r)


class Install:
    def __init__(self, ops):
        self.ops, self.E = ops, ops.E
        self.natives = {}

    # ------------------------------------------------------------ builtins
    def b_len(self, E, a, k):
        return self.ops.length(a[0])

    def b_range(self, E, a, k):
        x = [E.num(v) for v in a]
        lo, hi, st = (0, x[0], 1) if len(x) == 1 else (x[0], x[1], x[2] if len(x) > 2 else 1)
        if all(isinstance(v, int) for v in (lo, hi, st)):
            if hi - lo <= 60:
                return ListObj(E, Seq.of(list(range(lo, hi, st))))
        n = zi(hi) - zi(lo)
        if isinstance(st, int) and st == 1:
            cnt = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
            if E.valid(n >= 0):
                cnt = z3.simplify(n)
        else:
            st = zi(st)
            if E.branch(self.ops.simp(st == 0)):
                raise Raise("ValueError", "range step")
            if not E.branch(self.ops.simp(st > 0)):
                raise Unsupported("negative range step")
            cnt = z3.simplify(z3.If(n > 0, (n + st - 1) / st, z3.IntVal(0)))
        m = cnt.as_long() if z3.is_int_value(cnt) else cnt
        p = Part(m, true, lambda i: z3.simplify(zi(lo) + zi(i) * zi(st)), None, "range")
        if isinstance(st, int) and st == 1:
            p.keyinv = (lambda i: V.VInt(zi(lo) + zi(i)),
                        lambda q: z3.And(V.is_VInt(q), V.vi(q) >= lo, V.vi(q) - lo < zi(m)), lambda q: V.vi(q) - lo)
        return ListObj(E, Seq([p]))

    def b_list(self, E, a, k):
        if not a:
            return ListObj(E, Seq())
        v = a[0]
        if isinstance(v, SetObj):
            return ListObj(E, E.loops.enumerate_set(v.seq))
        return ListObj(E, self.fixed(self.ops.seq_of(v)))

    def fixed(self, seq):
        """a set iterated once: its order is fixed from here on"""
        parts = []
        for p in seq.parts:
            parts += self.E.loops.enumerate_set(p.seq).parts if isinstance(p, OfSet) else [p]
        return Seq(parts)

    def b_tuple(self, E, a, k):
        if not a:
            return TupleVal([])
        if isinstance(a[0], TupleVal):
            return a[0]
        v = a[0]
        return TupleVal(self.fixed(self.ops.seq_of(v)), v.ident if isinstance(v, Vec) else None)

    def b_set(self, E, a, k):
        if not a:
            return SetObj(E, Seq())
        v = a[0]
        if isinstance(v, SetObj):
            return SetObj(E, v.seq)
        seq, out = self.ops.seq_of(v), []
        for p in seq.parts:
            if not isinstance(p, (Item, Flat, OfSet, HolePart)) and p.cond is true:
                # the same value for every index
                g = z3.Int("same!")
                x = p.elem(g)
                if isinstance(x, int) or is_z(x) and not E.loops.occurs(z3.simplify(x), [g]):
                    c = E.valid(zi(p.n) > 0)
                    out.append(Item(x, True if c else zi(p.n) > 0))
                    continue
            out.append(p)
        return SetObj(E, Seq(out))

    b_frozenset = b_set

    def b_dict(self, E, a, k):
        d = self.ops.new_dict([])
        if a:
            v = a[0]
            if isinstance(v, DictObj):
                self.ops.dict_update(d, v)
            else:
                def assign(x, box=[None]):
                    kk, vv = self.ops.unpack(x, 2, False)
                    self.ops.dict_set(d, kk, vv)
                E.loops.for_loop(v, assign, lambda: None, None, None)
        for kk, vv in k.items():
            self.ops.dict_set(d, kk, vv)
        return d

    def b_zip(self, E, a, k):
        if any(isinstance(v, Cycle) for v in a) and not all(isinstance(v, Cycle) for v in a):
            return self.zip_around(E, a)
        seqs = [self.fixed(self.ops.seq_of(v)) for v in a]
        conc = [s.concrete() for s in seqs]
        if all(c is not None for c in conc):
            return Iter(E, Seq.of([TupleVal(list(t)) for t in zip(*conc)]))
        ns = []
        for s in seqs:
            ns.append(self.ops.seq_len(s))
        els = [self.indexer(s) for s in seqs]
        n = ns[0]
        for m in ns[1:]:
            if self.ops.same_term(n, m):
                continue
            n = z3.simplify(z3.If(zi(n) < zi(m), zi(n), zi(m)))
        return Iter(E, Seq([Part(n, true, lambda i: TupleVal([f(i) for f in els]))]))

    def zip_around(self, E, a):
        """a cycle is as long as the others are, unless there is nothing to go around"""
        ops, rest = self.ops, [v for v in a if not isinstance(v, Cycle)]
        for c in a:
            if isinstance(c, Cycle) and not E.branch(ops.simp(zi(ops.seq_len(c.seq)) > 0)):
                return Iter(E, Seq())
        els, seqs = [], {}
        for j, v in enumerate(a):
            if isinstance(v, Cycle):
                n = zi(ops.seq_len(v.seq))
                off = v.start(E)
                els.append(lambda i, v=v, n=n, off=off: ops.seq_at(v.seq, z3.simplify((zi(i) + off) % n)))
            else:
                seqs[j] = self.fixed(ops.seq_of(v))
                els.append(self.indexer(seqs[j]))
        ns = [ops.seq_len(s) for s in seqs.values()]
        n = ns[0]
        for m in ns[1:]:
            if not ops.same_term(n, m):
                n = z3.simplify(z3.If(zi(n) < zi(m), zi(n), zi(m)))
        return Iter(E, Seq([Part(n, true, lambda i: TupleVal([f(i) for f in els]))]))

    def indexer(self, s):
        if len(s.parts) == 1 and not isinstance(s.parts[0], (Item, Flat, OfSet)) and s.parts[0].cond is true:
            return s.parts[0].elem
        c = s.concrete()
        if c is not None and c:
            def f(i):
                v = c[-1]
                for k in range(len(c) - 2, -1, -1):
                    v = self.ops.ite(zi(i) == k, c[k], v)
                return v
            return f
        if all((isinstance(p, Item) and p.guard is True) or (not isinstance(p, (Item, Flat, OfSet)) and p.cond is true) for p in s.parts):
            def g(i):
                off, cases = 0, []
                for p in s.parts:
                    m = 1 if isinstance(p, Item) else p.n
                    cases.append((zi(off) + zi(m), p.value if isinstance(p, Item) else p.elem(z3.simplify(zi(i) - off))))
                    off = off + m
                v = cases[-1][1]
                for end, x in reversed(cases[:-1]):
                    v = self.ops.ite(zi(i) < end, x, v)
                return v
            return g
        raise Unsupported("zip of this list")

    def b_enumerate(self, E, a, k):
        seq = self.fixed(self.ops.seq_of(a[0]))
        off = a[1] if len(a) > 1 else k.get("start", 0)
        parts = []
        for p in seq.parts:
            if isinstance(p, Item):
                parts.append(Item(TupleVal([off, p.value]), p.guard))
                off = off + (1 if p.guard is True else z3.If(p.guard, 1, 0))
            elif isinstance(p, (Flat, OfSet)):
                raise Unsupported("enumerate of a nested list")
            else:
                if p.cond is true:
                    parts.append(Part(p.n, true, lambda i, p=p, off=off: TupleVal([z3.simplify(zi(off) + zi(i)), p.elem(i)])))
                    off = z3.simplify(zi(off) + zi(p.n))
                else:
                    cnt = lambda m, p=p: E.loops.SUM(m, lambda i: self.ops.ite(p.cond(i), 1, 0))
                    parts.append(Part(p.n, p.cond, lambda i, p=p, off=off: TupleVal([zi(off) + cnt(i), p.elem(i)])))
                    off = zi(off) + cnt(p.n)
        return Iter(E, Seq(parts))

    def b_isinstance(self, E, a, k):
        v, t = a
        if isinstance(t, TupleVal):
            return disj([self.ops.truth(self.b_isinstance(E, [v, x], {})) for x in t.items])
        if isinstance(t, ClassVal):
            if isinstance(v, Inst) and isinstance(v.cls, StubCls):
                return v.cls.name == t.name
            if is_z(v) and v.sort() == V:
                raise Unsupported("isinstance of an unknown value")
            return isinstance(v, Inst) and isinstance(v.cls, ClassVal) and t in v.cls.mro()
        if not isinstance(t, Ext):
            raise Unsupported("isinstance")
        nm = t.name.split(".")[-1]
        h = getattr(v, "isinstance", None)
        if h:
            return h(E, nm)
        if is_z(v) and v.sort() == V:
            from ops import isother
            d = {"int": z3.Or(V.is_VInt(v), V.is_VBool(v)), "str": V.is_VStr(v), "float": V.is_VReal(v), "bool": V.is_VBool(v),
                 "Number": z3.Or(V.is_VInt(v), V.is_VReal(v), V.is_VBool(v))}
            if nm in d:
                return self.ops.simp(d[nm])
            if nm in isother:
                o = isother[nm](v)
                f = z3.And(V.is_VOther(v), o)
                # one value is of one of these types
                f = z3.And(f, *[z3.Not(isother[m](v)) for m in isother if m < nm])
                if nm == "tuple":
                    f = z3.Or(f, V.is_VPair(v), V.is_VNil(v))
                return f
            raise Unsupported(f"isinstance {nm} of an unknown value")
        if is_z(v):
            s = v.sort()
            return nm in {"Int": ("int", "Number"), "Real": ("float", "Number"), "Bool": ("bool", "int", "Number")}.get(str(s), ())
        kinds = {"list": isinstance(v, ListObj) and v.kind == "list", "tuple": isinstance(v, TupleVal), "dict": isinstance(v, DictObj),
                 "set": isinstance(v, SetObj), "int": isinstance(v, int), "bool": isinstance(v, bool), "str": isinstance(v, str),
                 "float": isinstance(v, (float, Fraction)) and not isinstance(v, int), "ndarray": isinstance(v, Vec),
                 "Number": isinstance(v, (int, float, Fraction)), "deque": isinstance(v, ListObj) and v.kind == "deque",
                 "Mapping": isinstance(v, DictObj)}
        if nm in kinds:
            return kinds[nm]
        if isinstance(v, (Inst, DictObj, ListObj, TupleVal, SetObj, Vec)) or E.scalar(v):
            raise Unsupported(f"isinstance {nm}")
        raise Unsupported("isinstance")

    def typeof(self, v):
        E = self.E
        if is_z(v) and v.sort() == V:
            ot = z3.Function("othertype", V, INT)(v)
            t = z3.If(ot > 9, ot, 9 + z3.If(ot < 0, -ot, ot) + 1)
            for test, code in ((V.is_VInt, "int"), (V.is_VStr, "str"), (V.is_VReal, "float"), (V.is_VBool, "bool"), (V.is_VNone, "NoneType"),
                               (V.is_VPair, "tuple"), (V.is_VNil, "tuple")):
                t = z3.If(test(v), z3.IntVal(TYPES[code]), t)
            return V.VType(t)
        if is_z(v):
            return Ext("builtins." + {"Int": "int", "Real": "float", "Bool": "bool"}[str(v.sort())])
        for ty, nm in ((bool, "bool"), (int, "int"), (str, "str"), (Fraction, "float"), (DictObj, "dict"), (TupleVal, "tuple"), (SetObj, "set")):
            if isinstance(v, ty):
                return Ext("builtins." + nm)
        if isinstance(v, ListObj):
            return Ext("builtins.list" if v.kind == "list" else "collections.deque")
        if v is None:
            return Ext("builtins.NoneType")
        if isinstance(v, Inst):
            return v.cls
        raise Unsupported("type()")

    def b_type(self, E, a, k):
        return self.typeof(a[0])

    def b_map(self, E, a, k):
        f, s = a[0], a[1]
        if isinstance(f, Ext) and f.name == "builtins.type":
            f = Native("type", self.b_type)
        out = ListObj(E, Seq())
        if len(a) > 2:
            s = self.b_zip(E, a[1:], {})
            app = lambda v: self.ops.list_append(out, self.ops.I.call(f, list(self.ops.unpack(v, len(a) - 1, False))))
        else:
            app = lambda v: self.ops.list_append(out, self.ops.I.call(f, [v]))
        E.loops.for_loop(s, app, lambda: None, None, None)
        return Iter(E, out.seq)

    def b_filter(self, E, a, k):
        f, s = a
        out = ListObj(E, Seq())

        def assign(v):
            if self.ops.I.truth(v if f is None else self.ops.I.call(f, [v])):
                self.ops.list_append(out, v)
        E.loops.for_loop(s, assign, lambda: None, None, None)
        return Iter(E, out.seq)

    def b_sum(self, E, a, k):
        if isinstance(a[0], Vec):
            return self.vsum(a[0])
        seq = self.fixed(self.ops.seq_of(a[0]))
        tot = a[1] if len(a) > 1 else 0
        for p in seq.parts:
            if isinstance(p, Item):
                x = E.num(p.value)
                tot = tot + (x if p.guard is True else self.ops.ite(p.guard, x, 0))
            elif isinstance(p, Flat):
                raise Unsupported("sum of a nested list")
            else:
                tot = tot + E.loops.SUM(p.n, lambda i, p=p: self.ops.ite(p.cond(i), self.pnum(p.elem(i)), 0))
        return tot

    def pnum(self, v):
        if is_z(v) and v.sort() == V:
            return V.vi(v)
        return self.E.num(v)

    def b_any(self, E, a, k):
        return self.ops.exists(self.ops.seq_of(a[0]), lambda v: self.ops.truth(v))

    def b_all(self, E, a, k):
        return neg(self.ops.exists(self.ops.seq_of(a[0]), lambda v: neg(self.ops.truth(v))))

    def b_iter(self, E, a, k):
        if isinstance(a[0], Iter):
            return a[0]
        return Iter(E, self.ops.seq_of(a[0]))

    def b_next(self, E, a, k):
        it = a[0]
        if hasattr(it, "next_value"):
            return it.next_value(E)
        if isinstance(it, Iter) and not it.used:
            c = it.seq.parts
            if c and isinstance(c[0], Item) and c[0].guard is True:
                it.seq = Seq(c[1:])
                return c[0].value
        raise Unsupported("next")

    def b_reversed(self, E, a, k):
        seq = self.fixed(self.ops.seq_of(a[0]))
        out = []
        for p in reversed(seq.parts):
            if isinstance(p, Item):
                out.append(p)
            elif isinstance(p, (Flat, OfSet)):
                raise Unsupported("reversed")
            else:
                out.append(Part(p.n, (true if p.cond is true else lambda i, p=p: p.cond(zi(p.n) - 1 - i)), lambda i, p=p: p.elem(zi(p.n) - 1 - i)))
        return Iter(E, Seq(out))

    def b_sorted(self, E, a, k):
        seq = self.ops.seq_of(a[0])
        c = seq.concrete()
        if c is not None and len(c) <= 1:
            return ListObj(E, Seq.of(c))
        if c is not None and not k and (all(isinstance(x, (int, Fraction)) for x in c) or all(isinstance(x, str) for x in c)):
            return ListObj(E, Seq.of(sorted(c)))
        if c is not None or k or E.ctx:
            raise Unsupported("sorted")
        # a list of the same elements in some order (which one is not said)
        seq = self.ops.freeze_seq(seq)
        n, at = self.ops.length(ListObj(E, seq)), self.indexer(seq)
        nm = E.name("sorted")
        perm, back = z3.Function(nm, INT, INT), z3.Function(nm + ".inv", INT, INT)
        own = lambda t, f: z3.is_app(t) and t.decl().eq(f)
        rng = lambda i: z3.And(i >= 0, i < zi(n))
        E.defs[nm] = lambda i: [] if own(i, back) else [z3.Implies(rng(i), z3.And(rng(perm(i)), back(perm(i)) == i))]
        E.defs[nm + ".inv"] = lambda i: [] if own(i, perm) else [z3.Implies(rng(i), z3.And(rng(back(i)), perm(back(i)) == i))]
        r = ListObj(E, Seq([Part(n, true, lambda i: at(perm(zi(i))))]))
        r.perm, r.back = perm, back
        return r

    def minmax(self, E, a, k, up):
        if len(a) > 1:
            v = E.num(a[0])
            for x in a[1:]:
                x = E.num(x)
                if isinstance(v, int) and isinstance(x, int):
                    v = max(v, x) if up else min(v, x)
                else:
                    p, q = zi(v), zi(x)
                    if p.sort() != q.sort():
                        p, q = (z3.ToReal(t) if t.sort() == INT else t for t in (p, q))
                    v = z3.simplify(z3.If(p >= q, p, q) if up else z3.If(p <= q, p, q))
            return v
        if k:
            raise Unsupported("max with a key")
        seq = self.fixed(self.ops.seq_of(a[0]))
        c = seq.concrete()
        if c is not None:
            if not c:
                raise Raise("ValueError", "max of nothing")
            return self.minmax(E, c, {}, up) if len(c) > 1 else c[0]
        n = self.ops.seq_len(seq)
        if not E.branch(self.ops.simp(zi(n) > 0)):
            raise Raise("ValueError", "max of nothing")
        if len(seq.parts) != 1 or isinstance(seq.parts[0], (Item, Flat, OfSet)):
            raise Unsupported("max of this list")
        p = seq.parts[0]
        L = E.loops
        j, cv = L._pred(lambda j: (zb(p.cond(j)), zi(self.pnum(p.elem(j)))))
        t, nm = L.symbol("MAXOF" if up else "MINOF", list(cv), [j], cv[1].sort(), (zi(p.n),))
        if nm not in E.defs:
            srt = cv[1].sort()

            def ax(*args, nm=nm):
                n, ps = args[0], args[1:]
                t = L.app(nm, srt, args)
                w = L.app(nm + "!w", INT, args)
                inr = lambda x: z3.And(x >= 0, x < n, L.body(nm, 0, [x], ps))
                VV = lambda x: L.body(nm, 1, [x], ps)
                return [Univ(INT, lambda x: z3.Implies(inr(x), z3.And(VV(x) <= t if up else VV(x) >= t, inr(w), VV(w) == t)))]
            E.defs[nm] = ax
        return t

    def b_max(self, E, a, k):
        return self.minmax(E, a, k, True)

    def b_min(self, E, a, k):
        return self.minmax(E, a, k, False)

    def b_abs(self, E, a, k):
        if isinstance(a[0], Vec):
            return self.vmap(a[0], lambda x: z3.If(x >= 0, x, -x))
        x = E.num(a[0])
        if not is_z(x):
            return abs(x)
        return z3.If(x >= 0, x, -x)

    def b_int(self, E, a, k):
        v = a[0] if a else 0
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                raise Raise("ValueError", "int()")
        if isinstance(v, (int, Fraction)):
            return int(v)
        if is_z(v):
            if v.sort() == INT:
                return v
            if v.sort() == BOOL:
                return z3.If(v, 1, 0)
            if v.sort() == REAL:
                w = whole(v)
                if w is not None:
                    return z3.simplify(w)
                return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
            if v.sort() == V:
                if E.branch(V.is_VInt(v)):
                    return V.vi(v)
                if E.branch(V.is_VStr(v)):
                    c = z3.simplify(V.vs(v))
                    if z3.is_app(c) and c.decl().name() == "strcode":
                        t = z3.simplify(c.arg(0))
                        if z3.is_app(t) and t.decl().name() == "VInt":
                            return t.arg(0)
                    return intstr(c)
        raise Unsupported("int()")

    def b_float(self, E, a, k):
        v = a[0]
        if isinstance(v, (int, Fraction)):
            return Fraction(v)
        if is_z(v) and v.sort() == INT:
            return z3.ToReal(v)
        if is_z(v) and v.sort() == REAL:
            return v
        raise Unsupported("float()")

    def b_str(self, E, a, k):
        return self.ops.to_str(a[0])

    def b_bool(self, E, a, k):
        return self.ops.truth(a[0]) if a else False

    def b_round(self, E, a, k):
        v = a[0]
        nd = a[1] if len(a) > 1 else k.get("ndigits")
        if nd is None:
            x = E.num(v)
            if not is_z(x):
                return round(x)
            if x.sort() == INT:
                return x
            return roundint(x)
        return self.round_to(v, nd)

    def round_to(self, v, nd):
        E = self.E
        if isinstance(v, (int, Fraction)) and isinstance(nd, int):
            return round(Fraction(v), nd)
        if not isinstance(nd, int):
            raise Unsupported("round")
        x = zi(E.num(v))
        if x.sort() == INT:
            x = z3.ToReal(x)
        x = z3.simplify(x)
        if z3.is_rational_value(x):
            return z3.RealVal(str(round(Fraction(str(x)), nd)))
        return roundto(x, z3.IntVal(nd))

    def b_print(self, E, a, k):
        return None

    def b_hasattr(self, E, a, k):
        o, n = a
        if isinstance(o, Inst) and isinstance(n, str):
            return n in o.fields or (isinstance(o.cls, ClassVal) and o.cls.lookup(n) is not None)
        raise Unsupported("hasattr")

    def b_getattr(self, E, a, k):
        if isinstance(a[1], str):
            try:
                return self.ops.getattr(a[0], a[1])
            except Raise:
                if len(a) > 2:
                    return a[2]
                raise
        raise Unsupported("getattr")

    def b_id(self, E, a, k):
        raise Unsupported("id")

    def b_callable(self, E, a, k):
        return isinstance(a[0], (FuncVal, Bound, Native, ClassVal))

    def b_slice(self, E, a, k):
        a = list(a)
        if len(a) == 1:
            a = [None, a[0]]
        return ("slice",) + tuple(a + [None] * (3 - len(a)))

    # ------------------------------------------------------------ vectors
    def vec(self, v):
        E, ops = self.E, self.ops
        if isinstance(v, Vec):
            return v
        if isinstance(v, (ListObj, TupleVal, Iter)):
            seq = ops.seq_of(v)
            c = seq.concrete()
            real = lambda x: z3.ToReal(zi(x)) if isinstance(x, int) or (is_z(x) and x.sort() == INT) else (
                z3.RealVal(str(x)) if isinstance(x, Fraction) else (z3.If(x, z3.RealVal(1), z3.RealVal(0)) if is_z(x) and x.sort() == BOOL else x))
            if c is not None:
                if any(not E.scalar(x) or isinstance(x, str) or x is None for x in c):
                    raise Unsupported("array of non-numbers")
                items = [real(E.num(x) if not (is_z(x) and x.sort() == V) else V.vr(x)) for x in c]

                def at(i):
                    i = z3.simplify(zi(i))
                    if z3.is_int_value(i) and 0 <= i.as_long() < len(items):
                        return items[i.as_long()]
                    r = items[-1] if items else z3.RealVal(0)
                    for k in range(len(items) - 2, -1, -1):
                        r = z3.If(i == k, items[k], r)
                    return r
                return Vec(len(items), at, getattr(v, "lin", None), v.ident if isinstance(v, TupleVal) else None)
            if len(seq.parts) == 1 and not isinstance(seq.parts[0], (Item, Flat, OfSet)) and seq.parts[0].cond is true:
                p = seq.parts[0]
                x = p.elem(z3.IntVal(0))
                if not (E.scalar(x) and not isinstance(x, str) and x is not None):
                    raise Unsupported("array of non-numbers")

                def at(i):
                    x = p.elem(zi(i))
                    if is_z(x) and x.sort() == V:
                        return vnum(x)
                    return real(x if not isinstance(x, bool) else int(x))
                r = Vec(p.n, at, getattr(v, "lin", None), v.ident if isinstance(v, TupleVal) else None)
                return r
        raise Unsupported(f"array from {type(v).__name__}")

    def pick(self, items, i):
        i = z3.simplify(zi(i))
        if z3.is_int_value(i) and 0 <= i.as_long() < len(items):
            return items[i.as_long()]
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = z3.If(i == k, items[k], r)
        return r

    def array(self, v):
        """a vector or, from a list of vectors, a matrix"""
        from geometry import Mat
        if isinstance(v, Mat):
            return v
        if isinstance(v, (ListObj, TupleVal, Iter)):
            nested = lambda x: isinstance(x, (ListObj, TupleVal, Vec))
            seq = self.ops.seq_of(v)
            c = seq.concrete()
            if c and all(nested(x) for x in c):
                rows = [self.vec(x) for x in c]
                if not all(self.ops.same_term(r.n, rows[0].n) for r in rows):
                    raise Raise("ValueError", "rows of different lengths")
                return Mat(len(rows), rows[0].n, lambda i, j: self.pick([r.at(zi(j)) for r in rows], i))
            if c is None and len(seq.parts) == 1 and not isinstance(seq.parts[0], (Item, Flat, OfSet)) and seq.parts[0].cond is true:
                p = seq.parts[0]
                g = z3.Int("row!")
                if nested(p.elem(g)):
                    m = self.vec(p.elem(g)).n
                    if is_z(m) and self.E.loops.occurs(z3.simplify(m), [g]):
                        if not self.E.valid(zi(m) == zi(self.vec(p.elem(z3.IntVal(0))).n)):
                            raise Unsupported("array of rows of unknown lengths")
                        m = self.vec(p.elem(z3.IntVal(0))).n
                    return Mat(p.n, m, lambda i, j: self.vec(p.elem(zi(i))).at(zi(j)))
        return self.vec(v)

    def np_array(self, E, a, k):
        v = a[0]
        dt = k.get("dtype") if len(a) < 2 else a[1]
        if dt is not None and not (isinstance(dt, Ext) and dt.name in ("builtins.int", "builtins.float", "builtins.bool", "numpy.float64", "numpy.int64", "numpy.int_", "numpy.uint8", "builtins.object")):
            raise Unsupported("array of this type")
        k.get("copy")           # an array made here is never written to through another name (setitem makes its own)
        h = getattr(v, "as_array", None)
        if h:
            return h(E, k)
        if E.scalar(v) and not isinstance(v, str) and v is not None:
            return E.num(v)
        r = self.array(v)
        if not isinstance(r, Vec):
            return r
        if dt is not None and isinstance(dt, Ext) and dt.name.split(".")[-1] in ("int",):
            # truncation; whole numbers and booleans stay
            whole = isinstance(v, Vec)
            if whole or not all(isinstance(x, (int, bool)) or (is_z(x) and x.sort() in (INT, BOOL)) for x in [r0 for p in self.ops.seq_of(v).parts for r0 in ([p.value] if isinstance(p, Item) else [p.elem(z3.Int("x!"))])]):
                return Vec(r.n, lambda i: z3.If(r.at(i) >= 0, z3.ToReal(z3.ToInt(r.at(i))), -z3.ToReal(z3.ToInt(-r.at(i)))))
        return Vec(r.n, r.at, r.lin, r.ident)

    def vmap(self, v, f):
        v = self.vec(v)
        return Vec(v.n, lambda i: f(v.at(i)))

    def vsum(self, v):
        v = self.vec(v)
        return self.E.loops.SUM(v.n, lambda i: v.at(i))

    def np_floor(self, E, a, k):
        if isinstance(a[0], (Vec, ListObj, TupleVal)):
            return self.vmap(a[0], lambda x: z3.ToReal(z3.ToInt(x)))
        return z3.ToReal(z3.ToInt(a[0]))

    def np_round(self, E, a, k):
        nd = a[1] if len(a) > 1 else k.get("decimals", 0)
        if not isinstance(nd, int):
            raise Unsupported("round")
        if isinstance(a[0], (Vec, ListObj, TupleVal)):
            v = self.vec(a[0])
            if nd == 0:
                return Vec(v.n, lambda i: z3.ToReal(roundint(v.at(i))))
            return Vec(v.n, lambda i: roundto(v.at(i), z3.IntVal(nd)), None, None)
        if nd == 0:
            return z3.ToReal(roundint(a[0]))
        return self.round_to(a[0], nd)

    def np_mod(self, E, a, k):
        a = [x if E.scalar(x) or isinstance(x, Vec) else self.vec(x) for x in a]
        if not any(isinstance(x, Vec) for x in a):
            return self.ops.rmod(*[toreal(E.num(x)) for x in a])
        return self.ops.vec_binop("Mod", a[0], a[1])

    def np_elementwise(op):
        def f(self, E, a, k):
            a = [x if E.scalar(x) or isinstance(x, Vec) else self.array(x) for x in a]
            return self.ops.binop({"Add": ast.Add(), "Sub": ast.Sub(), "Mult": ast.Mult(), "Div": ast.Div()}[op], *a)
        return f
    np_add, np_multiply, np_divide = np_elementwise("Add"), np_elementwise("Mult"), np_elementwise("Div")

    def np_where(self, E, a, k):
        if len(a) != 3:
            raise Unsupported("numpy.where")
        c = a[0]
        if isinstance(c, (TupleVal, ListObj)):
            x = self.ops.seq_of(c)
            f = self.indexer(x)
            n = self.ops.seq_len(x)
            t = lambda i: zb(self.ops.truth(f(i)))
        elif isinstance(c, Vec):
            n, t = c.n, lambda i: c.at(i) != 0
        else:
            raise Unsupported("numpy.where")
        p, q = (self.vec(x) if not E.scalar(x) else Vec(n, lambda i, x=x: toreal(E.num(x))) for x in a[1:])
        if not (self.ops.same_term(p.n, n) and self.ops.same_term(q.n, n)):
            raise Unsupported("numpy.where")
        return Vec(n, lambda i: z3.If(t(zi(i)), p.at(zi(i)), q.at(zi(i))))

    def np_ones(self, E, a, k):
        n = E.num(a[0]) if E.scalar(a[0]) else None
        if n is None:
            raise Unsupported("ones")
        return Vec(n, lambda i: z3.RealVal(1))

    def np_full(self, E, a, k):
        n = E.num(a[0]) if E.scalar(a[0]) else None
        if n is None or not E.scalar(a[1]):
            raise Unsupported("full")
        c = toreal(E.num(a[1]))
        return Vec(n, lambda i: c)

    def np_ceil(self, E, a, k):
        f = lambda x: -z3.ToReal(z3.ToInt(-toreal(x)))
        return self.vmap(a[0], f) if isinstance(a[0], (Vec, ListObj, TupleVal)) else f(E.num(a[0]))

    def np_subtract(self, E, a, k):
        return self.ops.vec_binop("Sub", self.vec(a[0]), self.vec(a[1]))

    def np_abs(self, E, a, k):
        return self.b_abs(E, a, k)

    def np_square(self, E, a, k):
        return self.vmap(a[0], lambda x: x * x) if isinstance(a[0], (Vec, ListObj, TupleVal)) else a[0] * a[0]

    def np_sqrt(self, E, a, k):
        x = E.num(a[0])
        if not is_z(x):
            if isinstance(x, int) and int(x ** 0.5) ** 2 == x:
                return Fraction(int(x ** 0.5))
            x = z3.RealVal(str(x))
        if x.sort() == INT:
            x = z3.simplify(x)
            if z3.is_app(x) and x.num_args() == 2 and (x.decl().kind() == z3.Z3_OP_MUL and x.arg(0).eq(x.arg(1)) or x.decl().kind() == z3.Z3_OP_POWER and x.arg(1).eq(z3.IntVal(2))):
                # of a square
                y = z3.ToReal(x.arg(0))
                return y if E.valid(y >= 0) else z3.If(y >= 0, y, -y)
            x = z3.ToReal(x)
        return sqrt_(x)

    def np_zeros(self, E, a, k):
        n = E.num(a[0])
        if not isinstance(n, (int, z3.ExprRef)):
            raise Unsupported("zeros")
        return Vec(n, lambda i: z3.RealVal(0))

    def np_sum(self, E, a, k):
        return self.vsum(a[0])

    # ------------------------------------------------------------ other libraries
    def copy_deepcopy(self, E, a, k):
        return self.ops.deepcopy(a[0])

    def copy_copy(self, E, a, k):
        v = a[0]
        if isinstance(v, DictObj):
            return self.ops.copy_dict(v)
        if isinstance(v, ListObj):
            return ListObj(E, v.seq)
        raise Unsupported("copy.copy")

    def math_ceil(self, E, a, k):
        x = a[0]
        if isinstance(x, (int, Fraction)):
            import math
            return math.ceil(x)
        if x.sort() == INT:
            return x
        CEIL = z3.Function("CEIL", REAL, INT)
        E.defs["CEIL"] = lambda x: [CEIL(x) - 1 < x, CEIL(x) >= x]
        return CEIL(x)

    def math_floor(self, E, a, k):
        x = a[0]
        if isinstance(x, (int, Fraction)):
            import math
            return math.floor(x)
        return z3.ToInt(x) if x.sort() == REAL else x

    def np_random_choice(self, E, a, k):
        """of a number n: one of 0, ..., n - 1"""
        if len(a) != 1 or k:
            raise Unsupported("numpy.random.choice")
        v = a[0]
        if isinstance(v, (ListObj, TupleVal)):
            return self.random_choice(E, a, k)
        if isinstance(v, bool) or not (isinstance(v, int) or isinstance(v, z3.ExprRef) and v.sort() == INT):
            raise Unsupported("numpy.random.choice")
        return self.random_choice(E, [ListObj(E, Seq([Part(v, true, lambda i: zi(i))]))], k)

    def random_choice(self, E, a, k):
        v = a[0]
        seq = v.seq if isinstance(v, (ListObj, TupleVal)) else None
        if seq is None:
            raise Unsupported("random.choice")
        n = self.ops.seq_len(seq)
        if not E.branch(self.ops.simp(zi(n) > 0)):
            raise Raise("IndexError", "choice from nothing")
        r = E.fresh("choice", INT)
        nm = r.decl().name()
        E.assume(z3.And(r >= 0, r < zi(n)))
        E.choices.append((v, r))
        ctx, n = list(E.ctx), zi(n)
        if ctx and not E.loops.mentions_holes(n):
            # the range holds for the choice of every iteration
            f = r.decl()
            E.defs[nm] = lambda *a: [z3.substitute(z3.Implies(n > 0, z3.And(r >= 0, r < n)), *zip(ctx, a))]
        return self.ops.seq_at(seq, r)

    def cycle(self, E, a, k):
        return Cycle(E, self.ops.freeze_seq(self.ops.seq_of(a[0])))

    def passthrough(self, E, a, k):
        """a progress bar goes through its argument; the other arguments are about what it shows"""
        for n in ("desc", "disable", "leave", "unit", "position", "total", "ncols", "mininterval"):
            k.get(n)
        return a[0]

    def prelude(self, name):
        """a library function by its definition in Python"""
        def f(E, a, k):
            I = self.ops.I
            mod = I.mods.cache.get("*library*")
            if mod is None:
                mod = ModuleVal("*library*", {}, "*library*")
                mod.pkg, mod.pending, mod.tree = "*library*", {}, ast.parse(LIBRARY)
                I.mods.cache["*library*"] = mod
                I.mods.scan(mod, mod.tree.body)
            return I.call(I.mods.get(mod, name), a, k)
        return f

    def deque(self, E, a, k):
        l = ListObj(E, self.ops.seq_of(a[0]) if a else Seq())
        l.kind = "deque"
        return l

    def chain(self, E, a, k):
        parts = []
        for x in a:
            parts += self.fixed(self.ops.seq_of(x)).parts
        return Iter(E, Seq(parts))

    def product(self, E, a, k):
        """all tuples with one element of each list, the last varying fastest"""
        rep = k.get("repeat", 1)
        if not isinstance(rep, int) or set(k) - {"repeat"}:
            raise Unsupported("itertools.product")
        seqs = [self.fixed(self.ops.seq_of(x)) for x in a] * rep

        def build(k, head):
            if k == len(seqs):
                return Seq([Item(TupleVal(head))])
            parts, last = [], k == len(seqs) - 1
            for p in seqs[k].parts:
                if isinstance(p, Item):
                    parts += self.ops.guard_seq(p.guard, build(k + 1, head + [p.value])).parts
                elif isinstance(p, (Flat, OfSet)):
                    raise Unsupported("product of nested lists")
                elif last:
                    parts.append(Part(p.n, p.cond, lambda i, p=p: TupleVal(head + [p.elem(i)])))
                else:
                    parts.append(Flat(p.n, p.cond, lambda i, p=p: build(k + 1, head + [p.elem(i)])))
            return Seq(parts)
        return Iter(E, build(0, []))

    def cpu_count(self, E, a, k):
        n = z3.Int("cpus")
        E.assume(n >= 1)
        return n

    def mp_get_context(self, E, a, k):
        if a and a[0] == "fork" or not a and not k:
            return Inst(E, StubCls("mp context", lambda E, o, nm: Native(nm, self.mp_pool) if nm == "Pool" else self.nope(nm)), {})
        raise Unsupported("start method other than fork")

    def nope(self, nm):
        raise Unsupported(f"{nm} is not in the contract")

    def mp_pool(self, E, a, k):
        """Workers are forked here: they see memory as it is now and never again.  Calls
        get copies of their arguments and give back copies of their results, in order;
        which worker takes which call makes no difference to a call."""
        E.assumed.add("multiprocessing.Pool (fork): workers see the memory of the fork, arguments and results are copied, starmap keeps the order")
        n = a[0] if a else k.get("processes")
        if n is not None:
            if not E.branch(self.ops.simp(zi(E.num(n)) >= 1)):
                raise Raise("ValueError", "number of processes")
        snap = E.snapshot()
        ops = self.ops

        def run(fn, argseq):
            now = E.snapshot()
            ghost = [o for o in E.heap if getattr(o, "ghost", False)]
            kept = [(o, o.save()) for o in ghost]
            # arguments as they are now
            argseq = ops.unview_seq(ops.freeze_seq(argseq))
            for o, st in snap:
                o.load(st)
            for o, st in kept:
                o.load(st)
            out = ListObj(E, Seq())
            E.loops.for_loop(ListObj(E, argseq), lambda v: setattr(out, "cur", v),
                             lambda: ops.list_append(out, E.interp.call(fn, list(ops.seq_of(out.cur).concrete() or self.fixed_args(out.cur)), {})), None, None)
            res = ops.freeze_seq(out.seq)
            kept = [(o, o.save()) for o in ghost]
            E.restore(now)
            for o, st in kept:
                o.load(st)
            return ListObj(E, res)

        def get(E, o, nm):
            if nm == "starmap":
                return Native(nm, lambda E, a, k: run(a[0], ops.seq_of(a[1])))
            if nm == "map":
                def one(E, a, k):
                    s = ops.seq_of(a[1])
                    return run(a[0], Seq([Item(TupleVal([p.value]), p.guard) if isinstance(p, Item) else Part(p.n, p.cond, lambda i, p=p: TupleVal([p.elem(i)])) for p in self.plain(s)]))
                return Native(nm, one)
            if nm in ("close", "join", "terminate"):
                return Native(nm, lambda E, a, k: None)
            raise Unsupported(f"Pool.{nm} is not in the contract")
        o = Inst(E, StubCls("Pool", get), {})
        o.enter = lambda E: o
        return o

    def fixed_args(self, v):
        raise Unsupported("arguments of a parallel call")

    # ------------------------------------------------------------ methods
    def method(self, o, name):
        ops, E = self.ops, self.E
        N = lambda f: Native(name, f)
        if isinstance(o, ListObj):
            if name == "append":
                return N(lambda E, a, k: ops.list_append(o, a[0]))
            if name in ("extend", "__iadd__"):
                def ext(E, a, k):
                    ops.check_mut(o)
                    o.seq = o.seq + self.fixed(ops.seq_of(a[0]))
                return N(ext)
            if name == "copy":
                return N(lambda E, a, k: ListObj(E, o.seq))
            if name in ("popleft", "pop"):
                def popleft(E, a, k):
                    ops.check_mut(o)
                    if name == "pop" and (not a or a[0] != 0):
                        if not a and o.seq.parts and isinstance(o.seq.parts[-1], Item) and o.seq.parts[-1].guard is True:
                            v = o.seq.parts[-1].value
                            o.seq = Seq(o.seq.parts[:-1])
                            return v
                        raise Unsupported("pop")
                    p = o.seq.parts
                    if not p:
                        raise Raise("IndexError", "pop from an empty deque")
                    if isinstance(p[0], Item) and p[0].guard is True:
                        o.seq = Seq(p[1:])
                        return p[0].value
                    if len(p) == 1 and not isinstance(p[0], (Item, Flat, OfSet, HolePart)) and p[0].cond is true:
                        q = p[0]
                        if not E.branch(ops.simp(zi(q.n) > 0)):
                            raise Raise("IndexError", "pop from an empty deque")
                        o.seq = Seq([Part(z3.simplify(zi(q.n) - 1), true, lambda i: q.elem(i + 1))])
                        return q.elem(z3.IntVal(0))
                    raise Unsupported("pop from this list")
                return N(popleft)
            if name == "clear":
                def clear(E, a, k):
                    ops.check_mut(o)
                    o.seq = Seq()
                return N(clear)
            if name == "count":
                return N(lambda E, a, k: self.b_sum(E, [ListObj(E, Seq([Part(p.n, p.cond, lambda i, p=p: ops.ite(ops.truth(ops.eq(p.elem(i), a[0])), 1, 0)) for p in self.plain(o.seq)]))], {}))
            return None
        if isinstance(o, DictObj):
            if getattr(o, "counter", False) and name not in ("get", "keys", "values", "items"):
                raise Unsupported("Counter." + name)
            if name == "get":
                def get(E, a, k):
                    dflt = a[1] if len(a) > 1 else k.get("default")
                    v = ops.dict_lookup(o, a[0])
                    import ops as om
                    if v is om.MISS:
                        return dflt
                    return v
                return N(get)
            if name in ("keys", "values", "items"):
                return N(lambda E, a, k: ops.items_seq(o, name) if name != "keys" else self.keysview(o))
            if name == "update":
                def upd(E, a, k):
                    if a:
                        ops.dict_update(o, a[0])
                    for x, y in k.items():
                        ops.dict_set(o, x, y)
                return N(upd)
            if name == "setdefault":
                def sd(E, a, k):
                    import ops as om
                    a = list(a)
                    v = ops.dict_lookup(o, a[0])
                    if v is om.MISS:
                        v = a[1] if len(a) > 1 else None
                        ops.dict_set(o, a[0], v)
                    return v
                return N(sd)
            if name == "copy":
                return N(lambda E, a, k: ops.copy_dict(o))
            if name == "pop":
                def pop(E, a, k):
                    import ops as om
                    a = list(a)
                    v = ops.dict_lookup(o, a[0])
                    if v is om.MISS:
                        if len(a) > 1:
                            return a[1]
                        raise Raise("KeyError", "pop")
                    ops.dict_del(o, a[0])
                    return v
                return N(pop)
            if name == "clear":
                def dclear(E, a, k):
                    ops.check_mut(o)
                    o.base, o.ents, o.mats = None, [], []
                return N(dclear)
            return None
        if isinstance(o, SetObj):
            if name == "add":
                return N(lambda E, a, k: ops.set_add(o, a[0]))
            if name == "update":
                def sup(E, a, k):
                    ops.check_mut(o)
                    for x in a:
                        o.seq = o.seq + ops.seq_of_set(x)
                return N(sup)
            if name == "union":
                def un(E, a, k):
                    s = o.seq
                    for x in a:
                        s = s + ops.seq_of_set(x)
                    return SetObj(E, s)
                return N(un)
            if name == "copy":
                return N(lambda E, a, k: SetObj(E, o.seq))
            if name == "isdisjoint":
                return N(lambda E, a, k: neg(ops.exists(o.seq, lambda x: ops.contains(ops.seq_of_set(a[0]), x))))
            if name in ("issubset", "issuperset"):
                def within(E, a, k):
                    x, y = (o.seq, ops.seq_of_set(a[0])) if name == "issubset" else (ops.seq_of_set(a[0]), o.seq)
                    return neg(ops.exists(x, lambda v: neg(ops.contains(y, v))))
                return N(within)
            return None
        if isinstance(o, str):
            if name in ("startswith", "endswith", "split", "lower", "upper", "strip", "replace"):
                def st(E, a, k):
                    if not all(isinstance(x, (str, int)) for x in a):
                        raise Unsupported("string method")
                    r = getattr(o, name)(*a)
                    return ListObj(E, Seq.of(r)) if isinstance(r, list) else r
                return N(st)
            if name == "join":
                def join(E, a, k):
                    c = ops.seq_of(a[0]).concrete()
                    if c is None or not all(isinstance(x, str) for x in c):
                        raise Unsupported("join")
                    return o.join(c)
                return N(join)
            if name == "format":
                raise Unsupported("format")
            return None
        if isinstance(o, Vec):
            if name == "tolist":
                return N(lambda E, a, k: vec_list(E, o))
            if name == "sum":
                return N(lambda E, a, k: self.vsum(o))
            if name == "setflags":
                return N(lambda E, a, k: k.get("write") and None)
            if name == "copy":
                return N(lambda E, a, k: Vec(o.n, o.at, o.lin, o.ident))
            if name == "shape":
                return TupleVal([o.n])
            if name == "dot":
                return N(lambda E, a, k: ops.ext["numpy.dot"](E, [o, a[0]], {}))
            return None
        h = getattr(o, "method", None)
        if h:
            return h(E, name)
        return None

    def plain(self, seq):
        out = []
        for p in seq.parts:
            if isinstance(p, (Flat, OfSet)):
                raise Unsupported("nested list")
            out.append(p)
        return out

    def keysview(self, d):
        it = Iter(self.E, Seq([Item(self.ops.unkey(p.value), p.guard) if isinstance(p, Item) else p for p in self.ops.dict_keys(d).parts]))
        it.src = d
        return it


intstr = z3.Function("int_of_str", INT, INT)
def whole(t):
    """the whole number that a real term is by its form"""
    if z3.is_rational_value(t):
        return z3.IntVal(t.numerator_as_long()) if t.denominator_as_long() == 1 else None
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    k = {z3.Z3_OP_ADD: lambda x: z3.Sum(x), z3.Z3_OP_MUL: lambda x: z3.Product(x), z3.Z3_OP_SUB: lambda x: x[0] - z3.Sum(x[1:]),
         z3.Z3_OP_UMINUS: lambda x: -x[0]}.get(t.decl().kind() if z3.is_app(t) else None)
    if k is None:
        return None
    x = [whole(c) for c in t.children()]
    return None if any(c is None for c in x) else k(x)


roundint = z3.Function("roundint", REAL, INT)
roundto = z3.Function("roundto", REAL, INT, REAL)
sqrt_ = z3.Function("sqrt", REAL, REAL)


def toreal(x):
    if isinstance(x, (int, Fraction)):
        return z3.RealVal(str(x))
    return z3.ToReal(x) if x.sort() == INT else x


def vec_list(E, o):
    return ListObj(E, Seq([Part(o.n, true, lambda i: o.at(zi(i)))]) if not isinstance(o.n, int) else Seq.of([o.at(z3.IntVal(i)) for i in range(o.n)]))


def vnum(x):
    return z3.If(V.is_VReal(x), V.vr(x), z3.ToReal(V.vi(x)))


def install(ops):
    m = Install(ops)
    E = ops.E
    ops.models = m
    E.choices = []
    E.enums = []
    # round half to even of exact reals
    def roundint_ax(x):
        r = z3.ToReal(roundint(x))
        return [r - x <= z3.Q(1, 2), x - r <= z3.Q(1, 2), z3.Implies(z3.Or(r - x == z3.Q(1, 2), x - r == z3.Q(1, 2)), roundint(x) % 2 == 0)]
    E.defs["roundint"] = roundint_ax
    E.defs["sqrt"] = lambda x: [z3.Implies(x >= 0, z3.And(sqrt_(x) >= 0, sqrt_(x) * sqrt_(x) == x))]
    E.incomplete |= {"sqrt", "roundto", "deepcopied"}
    X = ops.ext
    X["functools.reduce"] = m.prelude("reduce")

    def counter(E, a, k, f=m.prelude("Counter")):
        if k or any(isinstance(x, DictObj) for x in a):
            raise Unsupported("Counter of a mapping")
        d = f(E, a, k)
        d.counter = True
        return d
    X["collections.Counter"] = counter
    types = ("list", "tuple", "dict", "set", "frozenset", "int", "str", "float", "bool", "type")
    B = {}
    for n in dir(m):
        if n.startswith("b_"):
            B[n[2:]] = getattr(m, n)

    def builtin(name):
        if name in types:
            return Ext("builtins." + name)
        if name in B:
            return Native(name, B[name])
        if name == "object":
            return Ext("builtins.object")
        if name.endswith("Error") or name == "Exception":
            return Ext("builtins." + name)
        if name == "open":
            return Ext("builtins.open")
        raise Unsupported(f"name {name}")
    ops.builtin = builtin
    for t in types:
        X["builtins." + t] = B[t]
    for n, f in (("copy.deepcopy", m.copy_deepcopy), ("copy.copy", m.copy_copy), ("math.ceil", m.math_ceil), ("math.floor", m.math_floor),
                 ("math.sqrt", m.np_sqrt), ("random.choice", m.random_choice), ("numpy.random.choice", m.np_random_choice), ("tqdm.tqdm", m.passthrough), ("tqdm", m.passthrough),
                 ("collections.deque", m.deque), ("itertools.chain", m.chain), ("itertools.product", m.product), ("itertools.cycle", m.cycle), ("numpy.array", m.np_array), ("numpy.asarray", m.np_array),
                 ("numpy.floor", m.np_floor), ("numpy.round", m.np_round), ("numpy.rint", m.np_round), ("numpy.around", m.np_round),
                 ("numpy.subtract", m.np_subtract), ("numpy.mod", m.np_mod), ("numpy.remainder", m.np_mod), ("numpy.add", m.np_add), ("numpy.multiply", m.np_multiply),
                 ("numpy.divide", m.np_divide), ("numpy.where", m.np_where), ("numpy.ones", m.np_ones), ("numpy.full", m.np_full), ("numpy.ceil", m.np_ceil), ("numpy.abs", m.np_abs), ("numpy.absolute", m.np_abs), ("numpy.square", m.np_square),
                 ("numpy.sqrt", m.np_sqrt), ("numpy.zeros", m.np_zeros), ("numpy.sum", m.np_sum), ("multiprocessing.cpu_count", m.cpu_count),
                 ("multiprocessing.get_context", m.mp_get_context), ("multiprocessing.Pool", m.mp_pool)):
        X[n] = f

    import geometry
    geometry.install(E, X)
    import files
    files.install(E, X)

    def call_ext(name, a, k):
        f = X.get(name)
        if f is None:
            raise Unsupported(f"call of {name}")
        return library(name, f, E, a, k)
    ops.call_ext = call_ext

    def ext_attr(o, name):
        n = o.name + "." + name
        if n in ops.ext_const:
            return ops.ext_const[n]
        return Ext(n)
    ops.ext_const = {}
    ops.ext_attr = ext_attr
    ops.method = m.method

    def enter(v):
        h = getattr(v, "enter", None)
        if h:
            return h(E)
        raise Unsupported("with")
    ops.enter = enter
