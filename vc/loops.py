"""Loops over containers of unknown size.

The body is executed once for an arbitrary index, from a state in which everything
an iteration may change is unknown (`holes`).  What it did is turned into a summary
of any number of iterations:

  * a value that does not depend on the holes: the last iteration that wrote it
  * hole + c: a sum;  a strict maximum and its companion: the first maximum
  * any other step on scalars: the recursively defined fold of that step
  * elements added to a list or set: the concatenation over the iterations
  * writes to a dictionary under the key of the iteration: the last (or only) writer,
    the update of the entry value (for distinct keys), or a per-key count
  * break / return / raise: the state at the first index where it happens

Sums, folds, existence and first/last indices are symbols with their defining
axioms; symbols with the same body are shared.  A summary is exact, because it is
by definition the iterated effect: the holes stand for an arbitrary earlier state,
so nothing is assumed about it.  A body whose effect has no such form is refused.
"""
import itertools

import z3

from core import *


def same(a, b):
    if a is b:
        return True
    if is_z(a) and is_z(b):
        return a.eq(b)
    if isinstance(a, (int, str, Fraction)) and type(a) is type(b):
        return a == b
    return False


class Hole:
    def __init__(self, loc, entry):
        self.loc, self.entry = loc, entry
        self.sym = self.part = self.obj = self.kind = None


class Bulk:
    """writes to a dictionary: hit(q), val(q), and the written keys in first-write order"""

    def __init__(self, hit, val, keys):
        self.hit, self.val, self.keys = hit, val, keys


class NeedKeyed(Exception):
    """a dictionary is read under the key it is written under: look at one key at a time"""

    def __init__(self, loc, sort):
        self.loc, self.sort = loc, sort


class NeedLost(Exception):
    """a variable gets another list in every round"""

    def __init__(self, loc):
        self.loc = loc


class Known:
    """a term of the generic iteration with a closed form"""

    def __init__(self, sym):
        self.sym, self.kind = sym, "known"


class Loops:
    epoch = 0           # changes at every loop entered and left

    def __init__(self, E, I):
        self.E, self.I = E, I
        self.aggs = {}
        self.memo = {}
        self.fold_shapes = {}
        self.keyed = {}
        self.replaced = set()
        self.info = {}
        self.symc = 0

    @property
    def ops(self):
        return self.E.ops

    # ================================================================ aggregates
    def canon(self, terms, bounds):
        """bodies in terms of bound variables and parameters; the parameters are the
        maximal subterms without bound variables (literals stay in place)"""
        bid = {b.get_id() for b in bounds}
        memo = {}                       # id -> (has bound variable, has uninterpreted symbol)

        def info(root):
            stack = [root]
            while stack:
                t = stack[-1]
                if t.get_id() in memo:
                    stack.pop()
                    continue
                self.E.keep.append(t)
                if z3.is_quantifier(t):
                    ch = [t.body()]
                elif z3.is_app(t):
                    ch = t.children()
                else:
                    ch = []
                todo = [c for c in ch if c.get_id() not in memo]
                if todo:
                    stack.extend(todo)
                    continue
                stack.pop()
                hb = t.get_id() in bid or z3.is_var(t) or any(memo[c.get_id()][0] for c in ch)
                un = (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) or any(memo[c.get_id()][1] for c in ch)
                memo[t.get_id()] = (hb or z3.is_quantifier(t), un)
        consts, seen = [], set()
        for root in terms:
            info(root)
            stack = [root]
            while stack:
                t = stack.pop()
                if t.get_id() in seen:
                    continue
                seen.add(t.get_id())
                hb, un = memo[t.get_id()]
                if not hb:
                    if un:
                        consts.append(t)
                    continue
                if z3.is_quantifier(t):
                    stack.append(t.body())
                elif z3.is_app(t):
                    stack.extend(reversed(t.children()))
        pl = [z3.Const(f"$p{k}:{c.sort().name()}", c.sort()) for k, c in enumerate(consts)]
        bl = [z3.Const(f"$b{k}:{c.sort().name()}", c.sort()) for k, c in enumerate(bounds)]
        sub = list(zip(consts, pl)) + list(zip(bounds, bl))
        out = [z3.substitute(t, *sub) if sub else t for t in terms]
        return out, consts, pl, bl

    def symbol(self, kind, terms, bounds, sort, lead=()):
        """the shared symbol  kind(lead..., consts...)  for these bodies"""
        mk = (kind, sort.name()) + tuple(t.get_id() if is_z(t) else ("py", t) for t in terms) + ("|",) + tuple(b.get_id() for b in bounds)
        hit = self.memo.get(mk)
        if hit is None:
            self.E.keep += [t for t in terms if is_z(t)] + list(bounds)
            hit = self.memo[mk] = self._symbol(kind, terms, bounds, sort, lead)
        nm, f, consts = hit
        args = list(lead) + consts
        return (f(*args) if f is not None else z3.Const(nm, sort)), nm

    def _symbol(self, kind, terms, bounds, sort, lead):
        terms = [z3.simplify(zb(t) if isinstance(t, bool) else zi(t) if isinstance(t, int) else t) for t in terms]
        out, consts, pl, bl = self.canon(terms, bounds)
        # (operands in the order the solver gives them, parameters in order of occurrence)
        out, c2, pl, bl = self.canon([z3.simplify(t) for t in out], bl)
        consts = [z3.substitute(t, *[(z3.Const(f"$p{k}:{c.sort().name()}", c.sort()), c) for k, c in enumerate(consts)]) if consts else t for t in c2]
        out = [z3.simplify(t) for t in out]
        key = (kind, sort.name()) + tuple(t.get_id() for t in out)
        if key not in self.aggs:
            self.symc += 1
            nm = f"{kind}#{self.symc}"
            f = z3.Function(nm, *[a.sort() for a in list(lead) + pl], sort) if lead or pl else None
            self.aggs[key] = (nm, f)
            self.E.keep.append(out)
            self.info[nm] = (kind, out, bl, pl, len(lead))
        nm, f = self.aggs[key]
        return nm, f, consts

    def body(self, nm, k, bvals, pargs):
        """body term number k of symbol nm with bound and parameter values"""
        kind, out, bl, pl, nl = self.info[nm]
        sub = list(zip(bl, bvals)) + list(zip(pl, pargs))
        return z3.substitute(out[k], *sub) if sub else out[k]

    def _num(self, n):
        if isinstance(n, int):
            return n
        n = z3.simplify(n)
        return n.as_long() if z3.is_int_value(n) else n

    def _pred(self, fn, hint="j"):
        self.symc += 1
        j = z3.Int(f"{hint}%{self.symc}")
        c = fn(j)
        if is_z(c):
            (b,), (c,) = self.rename([j], [c])
            return b, c
        return j, c

    def rename(self, bounds, terms):
        """the same with bound variables named alike everywhere (unless such a name is free)"""
        new = [z3.Const(f"$v{k}:{b.sort().name()}", b.sort()) for k, b in enumerate(bounds)]
        if any(self.occurs(t, new) for t in terms):
            return bounds, terms
        sub = list(zip(bounds, new))
        return new, [z3.substitute(t, *sub) for t in terms]

    def EX(self, n, fn):
        n = self._num(n)
        if isinstance(n, int):
            if n <= 0:
                return False
            if n <= 6:
                return disj([self.ops.simp(zb(fn(z3.IntVal(k)))) for k in range(n)])
        j, c = self._pred(fn)
        c = self.ops.simp(c)
        if c is False:
            return False
        n = zi(n)
        if c is True:
            return n > 0
        if not self.occurs(c, [j]):
            return conj([n > 0, c])
        # the one index named by the condition, if it names one
        parts = c.children() if z3.is_and(c) else [c]
        for q in parts:
            if z3.is_eq(q):
                b = self.solved(q, j)
                if b is not None:
                    return self.ops.simp(z3.And(b >= 0, b < n, z3.substitute(c, (j, b))))
        free = [q for q in parts if not self.occurs(q, [j])]
        if free:
            rest = [q for q in parts if self.occurs(q, [j])]
            return self.ops.simp(z3.And(*free, zb(self.EX(n, lambda k: z3.substitute(z3.And(*rest), (j, k))))))
        t, nm = self.symbol("EX", [c], [j], BOOL, (n,))
        if nm not in self.E.defs:
            def ax(*args, nm=nm):
                n, ps = args[0], args[1:]
                t = self.app(nm, BOOL, args)
                w = self.app(nm + "!w", INT, args)
                B = lambda x: self.body(nm, 0, [x], ps)
                return [z3.Implies(t, z3.And(w >= 0, w < n, B(w))),
                        Univ(INT, lambda x: z3.Implies(z3.And(x >= 0, x < n, B(x)), t))]
            self.E.defs[nm] = ax
        return t

    def solved(self, q, j):
        """the value of the integer j that the equation q names"""
        a, b = q.children()
        if a.sort() != INT:
            return None
        co, rest = 0, []

        def add(t, k):
            nonlocal co
            if t.eq(j):
                co += k
            elif z3.is_add(t):
                for x in t.children():
                    add(x, k)
            elif z3.is_sub(t):
                for i, x in enumerate(t.children()):
                    add(x, k if i == 0 else -k)
            elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
                add(t.arg(0), -k)
            elif z3.is_mul(t) and t.num_args() == 2 and z3.is_int_value(t.arg(0)):
                add(t.arg(1), k * t.arg(0).as_long())
            else:
                rest.append((k, t))
        add(a, 1)
        add(b, -1)
        if co not in (1, -1) or any(self.occurs(t, [j]) for _, t in rest):
            return None
        return z3.simplify(z3.Sum([z3.IntVal(0)] + [z3.IntVal(-k * co) * t for k, t in rest]))

    def app(self, nm, sort, args):
        if not args:
            return z3.Const(nm, sort)
        return z3.Function(nm, *[a.sort() for a in args], sort)(*args)

    def ALL(self, n, fn):
        return neg(self.EX(n, lambda j: neg(fn(j))))

    def FIRST(self, n, fn, last=False):
        """first (last) index with fn, meaningful if there is one"""
        n = self._num(n)
        j, c = self._pred(fn)
        c = zb(c)
        n = zi(n)
        if z3.is_true(z3.simplify(c)):
            return n - 1 if last else z3.IntVal(0)
        for q in z3.simplify(c).children() if z3.is_and(c) else [c]:
            if z3.is_eq(q):
                b = self.solved(q, j)
                if b is not None:
                    return b
        kind = "LAST" if last else "FIRST"
        t, nm = self.symbol(kind, [c], [j], INT, (n,))
        if nm not in self.E.defs:
            def ax(*args, nm=nm):
                n, ps = args[0], args[1:]
                t = self.app(nm, INT, args)
                B = lambda x: self.body(nm, 0, [x], ps)
                return [Univ(INT, lambda x: z3.Implies(z3.And(x >= 0, x < n, B(x)),
                                                       z3.And(t >= 0, t < n, B(t), (t >= x) if last else (t <= x))))]
            self.E.defs[nm] = ax
        return t

    def SUM(self, n, fn):
        n = self._num(n)
        if isinstance(n, int):
            if n <= 0:
                return 0
            if n <= 6:
                tot = 0
                for k in range(n):
                    x = fn(z3.IntVal(k))
                    tot = x if k == 0 else tot + x
                return tot
        j, c = self._pred(fn)
        if isinstance(c, bool):
            c = int(c)
        if isinstance(c, Fraction):
            c = z3.RealVal(str(c))
        c = z3.simplify(zi(c))
        n = zi(n)
        srt = c.sort()
        if not self.occurs(c, [j]) and z3.is_int_value(c):
            return z3.If(n > 0, n * c, z3.IntVal(0))
        t, nm = self.symbol("SUM", [c], [j], srt, (n,))
        if nm not in self.E.defs:
            s = z3.Solver()
            s.set("timeout", 500)
            out = self.info[nm][1][0]
            s.add(z3.Not(out >= 0))
            nonneg = s.check() == z3.unsat
            s = z3.Solver()
            s.set("timeout", 500)
            s.add(z3.Not(out <= 1))
            small = nonneg and s.check() == z3.unsat

            def ax(*args, nm=nm):
                n, ps = args[0], args[1:]
                t = self.app(nm, srt, args)
                B = lambda x: self.body(nm, 0, [x], ps)
                r = [z3.Implies(n <= 0, t == 0)]
                if nonneg:
                    w = self.app(nm + "!w", INT, args)
                    r += [t >= 0, Univ(INT, lambda x: z3.Implies(z3.And(x >= 0, x < n), B(x) <= t)),
                          z3.Implies(t > 0, z3.And(w >= 0, w < n, B(w) > 0))]
                if small:
                    r.append(z3.Implies(n >= 0, t <= (n if srt == INT else z3.ToReal(n))))
                d = z3.simplify(n)
                if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ADD and d.num_args() == 2 and z3.is_int_value(d.arg(0)) and d.arg(0).as_long() == 1:
                    m = d.arg(1)
                    r.append(z3.Implies(m >= 0, t == self.app(nm, srt, (m,) + tuple(ps)) + B(m)))
                elif z3.is_int_value(d) and d.as_long() > 0:
                    m = z3.IntVal(d.as_long() - 1)
                    r.append(t == self.app(nm, srt, (m,) + tuple(ps)) + B(m))
                return r
            self.E.defs[nm] = ax
        return t

    def FOLD(self, n, entries, steps, holes, j):
        """values after n steps of  holes := steps(holes, j)  from entries (z3 terms)"""
        n = zi(n)
        mk = ("fold", j.get_id()) + tuple(x.get_id() for x in list(holes) + list(steps) + list(entries))
        hit = self.memo.get(mk)
        if hit is None:
            self.E.keep += [j] + list(holes) + list(steps) + list(entries)
            (j, *holes), steps = self.rename([j] + list(holes), list(steps))
            rank = list(range(len(holes)))
            if len(holes) > 1:
                # an order that does not depend on who asks
                gen = [(x, z3.Const("$" + ("j" if k == 0 else "h:") + x.sort().name(), x.sort())) for k, x in enumerate([j] + holes)]
                rank.sort(key=lambda k: (holes[k].sort().name(), z3.simplify(z3.substitute(steps[k], *gen)).sexpr(), entries[k].sexpr()))
            (j, *hs), st = self.rename([j] + [holes[k] for k in rank], [steps[k] for k in rank])
            hit = self.memo[mk] = self.known_fold(rank, st, hs, j)
        rank, st, hs, j = hit
        got = self._fold(n, [entries[k] for k in rank], st, hs, j)
        out = [None] * len(hs)
        for pos, k in enumerate(rank):
            out[k] = got[pos]
        return out

    def known_fold(self, rank, st, hs, j):
        """an earlier recurrence whose steps are provably the same is used again"""
        shapes = self.fold_shapes.setdefault(tuple(sorted(x.sort().name() for x in hs)), [])
        m = len(hs)
        for st0, hs0, j0 in shapes:
            if m > 4:
                break
            for perm in itertools.permutations(range(m)):  # component k here is component perm[k] there
                if any(hs[k].sort() != hs0[perm[k]].sort() for k in range(m)):
                    continue
                sub = [(j, j0)] + [(hs[k], hs0[perm[k]]) for k in range(m)]
                if all(self.same_always(z3.substitute(st[k], *sub), st0[perm[k]], j0) for k in range(m)):
                    r = [None] * m
                    for k in range(m):
                        r[perm[k]] = rank[k]
                    return r, st0, hs0, j0
        shapes.append((st, hs, j))
        return rank, st, hs, j

    def same_always(self, a, b, j):
        a, b = z3.simplify(a), z3.simplify(b)
        if a.eq(b):
            return True
        E = self.E
        pc, E.pc = E.pc, [j >= 0]
        try:
            return E.sat([a != b], 1500) == "unsat"
        finally:
            E.pc = pc

    def _fold(self, n, entries, steps, holes, j):
        out = []
        names = []
        for k in range(len(holes)):
            t, nm = self.symbol(f"FOLD{k}", list(steps), [j] + list(holes), holes[k].sort(), (n,) + tuple(entries))
            names.append(nm)
            out.append(t)
        m = len(holes)
        for k, nm in enumerate(names):
            if nm in self.E.defs:
                continue

            def ax(*args, nm=nm, k=k):
                n, ent, ps = args[0], args[1:1 + m], args[1 + m:]
                t = self.app(nm, holes[k].sort(), args)
                r = [z3.Implies(n <= 0, t == ent[k])]
                d = z3.simplify(n)
                pred = None
                if z3.is_int_value(d):
                    if d.as_long() > 0:
                        pred = z3.IntVal(d.as_long() - 1)
                elif z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ADD and z3.is_int_value(d.arg(0)) and d.arg(0).as_long() == 1:
                    pred = z3.simplify(d - 1)
                if pred is not None:
                    prev = [self.app(x, h.sort(), (pred,) + tuple(ent) + tuple(ps)) for x, h in zip(names, holes)]
                    r.append(z3.Implies(pred >= 0, t == self.body(nm, k, [pred] + prev, ps)))
                return r
            self.E.defs[nm] = ax
        return out

    def addz(self, a, b):
        if isinstance(b, int):
            b = z3.IntVal(b)
        if a.sort() != b.sort():
            a, b = (z3.ToReal(x) if x.sort() == INT else x for x in (a, b))
        return z3.simplify(a + b)

    def CARD(self, seq):
        """number of distinct elements"""
        c = seq.concrete()
        parts = seq.parts
        if len(parts) == 1 and not isinstance(parts[0], (Item, Flat, OfSet)):
            p = parts[0]
            if p.tag == "distinct":
                return self.ops.seq_len(seq)
            return self.SUM(p.n, lambda i: self.ops.ite(self.first_occ(p, i), 1, 0))
        if c is not None:
            tot = 0
            for k, x in enumerate(c):
                tot = tot + self.ops.ite(neg(disj([self.ops.eq(x, y) for y in c[:k]])), 1, 0)
            return tot
        # a number of its own: how many values are in the set
        srt = self.elem_sort(seq)
        v = z3.Const("card$v:" + srt.name(), srt)
        wrap = (lambda t: self.E.toV(t)) if srt == V else (lambda t: t)
        t, nm = self.symbol("CARD", [zb(self.ops.exists(seq, lambda x: wrap(x) == v))], [v], INT)
        if nm not in self.E.defs:
            self.E.defs[nm] = lambda *a, nm=nm: [self.app(nm, INT, a) >= 0]
            self.E.incomplete.add(nm)
        return t

    def first_occ(self, p, i):
        """element i is kept and does not occur before"""
        eq = lambda j: conj([p.cond(j), self.ops.truth(self.ops.eq(p.elem(j), p.elem(i)))])
        return conj([p.cond(i), neg(self.EX(i, eq))])

    def enumerate_set(self, seq):
        """the elements of a set in the (unspecified) order of one iteration"""
        E = self.E
        c = seq.concrete()
        if c is not None and len(c) <= 1:
            return Seq.of(c)
        n = self.CARD(seq)
        if isinstance(n, int):
            if n == 0:
                return Seq()
            n = z3.IntVal(n)
        sort = self.elem_sort(seq)
        enum = E.fun("enum", INT, sort)
        pos = E.fun("enumpos", sort, INT)
        probe = enum(z3.IntVal(0))
        nm = probe.decl().name()
        pnm = pos(probe).decl().name()
        d = len(E.ctx)
        ctx = list(E.ctx)
        wrap = (lambda t: E.toV(t)) if sort == V else (lambda t: t)
        member = lambda v: self.ops.exists(seq, lambda x: wrap(x) == v)

        def ax(*args):
            pre, k = args[:d], args[d]
            sub = list(zip(ctx, pre))
            nn = z3.substitute(zi(n), *sub) if sub else zi(n)
            t = self.app(nm, sort, args)
            mem = zb(member(t))
            mem = z3.substitute(mem, *sub) if sub else mem
            return [z3.Implies(z3.And(k >= 0, k < nn), z3.And(mem, self.app(pnm, INT, tuple(pre) + (t,)) == k))]

        def pax(*args):
            pre, v = args[:d], args[d]
            sub = list(zip(ctx, pre))
            nn = z3.substitute(zi(n), *sub) if sub else zi(n)
            p = self.app(pnm, INT, args)
            mem = zb(member(v))
            mem = z3.substitute(mem, *sub) if sub else mem
            return [z3.Implies(mem, z3.And(p >= 0, p < nn, self.app(nm, sort, tuple(pre) + (p,)) == v))]
        E.defs[nm] = ax
        E.defs[pnm] = pax
        # every member has a position: make the positions of the members known
        part = Part(n, true, lambda k: enum(zi(k)), lambda v: pos(v), "distinct")
        part.members = seq
        if sort == V:
            part.keyinv = (lambda k: enum(zi(k)), lambda q: zb(member(q)), lambda q: pos(q))
        elif sort == INT:
            part.keyinv = (lambda k: V.VInt(enum(zi(k))), lambda q: z3.And(V.is_VInt(q), zb(member(V.vi(q)))), lambda q: pos(V.vi(q)))
        part.pos = pos
        E.enums.append((sort, pos, list(ctx)))
        return Seq([part])

    def elem_sort(self, seq):
        found = set()
        for p in seq.parts:
            if isinstance(p, Item):
                found.add(self.ops.sort(p.value))
            elif isinstance(p, Flat):
                found.add(self.elem_sort(p.inner(z3.IntVal(0))))
            elif isinstance(p, OfSet):
                found.add(self.elem_sort(p.seq))
            else:
                found.add(self.ops.sort(p.elem(z3.IntVal(0))))
        return found.pop() if len(found) == 1 else V

    def occurs(self, t, syms):
        ids = {s.get_id() for s in syms}
        stack, seen = [t], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.get_id() in ids:
                return True
            if z3.is_quantifier(t):
                stack.append(t.body())
            else:
                stack.extend(t.children())
        return False

    def nth(self, p, k):
        """element number k of the kept elements of a part"""
        E = self.E
        cnt = lambda m: self.SUM(m, lambda i: self.ops.ite(p.cond(i), 1, 0))
        j, c = self._pred(p.cond)
        n = zi(p.n)
        t, nm = self.symbol("NTH", [zb(c)], [j], INT, (n, zi(k)))
        if nm not in E.defs:
            def ax(*args, nm=nm):
                n, k, ps = args[0], args[1], args[2:]
                t = self.app(nm, INT, args)
                B = lambda x: self.body(nm, 0, [x], ps)
                tot = self.SUM(n, lambda i: z3.If(B(i), 1, 0))
                below = self.SUM(t, lambda i: z3.If(B(i), 1, 0))
                return [z3.Implies(z3.And(k >= 0, k < tot), z3.And(t >= 0, t < n, B(t), below == k))]
            E.defs[nm] = ax
        return p.elem(t)

    # ---------------------------------------------------------------- congruence lemmas
    def agg_apps(self, fmls):
        out, seen, stack = {}, set(), list(fmls)
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                nm = t.decl().name()
                if nm in self.info and not self.E._has_var(t):
                    out[t.get_id()] = (t, nm)
                stack.extend(t.children())
        return list(out.values())

    def is_inductive(self, nm):
        k = self.info[nm][0]
        return k == "SUM" or k[:4] == "FOLD"

    def inductive(self, fmls):
        return any(self.is_inductive(nm) for _, nm in self.agg_apps(fmls))

    def congruences(self, fmls, depth=0):
        """equalities between aggregates in the formulas that follow by extensionality"""
        if depth > 2:
            return []
        E = self.E
        apps = self.agg_apps([zb(f) for f in E.pc if not isinstance(f, bool)] + list(fmls))
        lem = []
        if len(apps) > 24:
            apps = apps[-24:]
        for (a, na), (b, nb) in itertools.combinations(apps, 2):
            ka, kb = self.info[na], self.info[nb]
            if ka[0] != kb[0] or a.sort() != b.sort() or len(ka[1]) != len(kb[1]):
                continue
            if ka[4] != kb[4]:
                continue
            la = [a.arg(i) for i in range(ka[4])]
            lb = [b.arg(i) for i in range(kb[4])]
            pa = [a.arg(i) for i in range(ka[4], a.num_args())]
            pb = [b.arg(i) for i in range(kb[4], b.num_args())]
            if [x.sort() for x in ka[2]] != [x.sort() for x in kb[2]]:
                continue
            self.symc += 1
            bv = [z3.Const(f"c%{self.symc}.{i}", x.sort()) for i, x in enumerate(ka[2])]
            rng = z3.And(bv[0] >= 0, bv[0] < la[0]) if bv and bv[0].sort() == INT and la else z3.BoolVal(True)
            goals = [x == y for x, y in zip(la, lb)]
            if ka[0][:4] == "FOLD":
                # induction on the number of rounds: in round 0 the values are the entries
                rng = z3.And(rng, z3.Implies(bv[0] == 0, z3.And([h == e for h, e in zip(bv[1:], la[1:])])))
            for k in range(len(ka[1])):
                goals.append(z3.Implies(rng, self.body(na, k, bv, pa) == self.body(nb, k, bv, pb)))
            ok = True
            for g in goals:
                if not self.entails(g, depth + 1):
                    ok = False
                    break
            if ok:
                lem.append(a == b)
        for (a, na), (b, nb) in itertools.combinations(apps, 2):
            ka = self.info[na]
            if not (ka[0][:4] == "FOLD" or ka[0] == "SUM") or self.info[nb][0][:3] != ka[0][:3]:
                continue
            d = z3.simplify(a.arg(0) - b.arg(0))
            for x, nx, y in ((a, na, b), (b, nb, a)):
                if z3.is_int_value(d) and d.as_long() == (1 if x is a else -1):
                    args = [x.arg(k) for k in range(x.num_args())]
                    up = z3.Int("up%")
                    for ax in self.E.defs[nx](up + 1, *args[1:]):
                        if not isinstance(ax, (bool, Univ)):
                            lem.append(z3.substitute(ax, (z3.simplify(1 + up), x.arg(0)), (up, z3.simplify(x.arg(0) - 1))))
        return lem

    def entails(self, g, depth):
        E = self.E
        g = z3.simplify(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        if E.sat([z3.Not(g)], 1500) == "unsat":
            return True
        if depth > 2 or not self.agg_apps([g]):
            return False
        lem = self.congruences([g], depth)
        return bool(lem) and E.sat([z3.Not(g)] + lem, 1500) == "unsat"

    # ================================================================ statements
    def for_loop(self, it, assign, body, orelse, frame, node=None):
        E, ops = self.E, self.ops
        fetch = getattr(it, "fetch", None) if isinstance(it, Iter) else None
        if isinstance(it, Iter):
            if it.used:
                seq = Seq()
            else:
                it.used = True
                seq = it.seq
                if fetch is None and getattr(it, "leak", None) is not None:
                    ops.capture_dict(it.leak)
        else:
            seq = ops.seq_of(it)
        try:
            for k, p in enumerate(seq.parts):
                self.run_part(p, fetch[k] if fetch else None, assign, body)
        except Brk:
            return
        if orelse:
            orelse()

    def run_part(self, p, fetch, assign, body):
        E = self.E

        def one(v):
            assign(v)
            try:
                body()
            except Cont:
                pass
        if isinstance(p, Item):
            if E.branch(p.guard):
                one(fetch(None) if fetch else p.value)
        elif isinstance(p, OfSet):
            for q in self.enumerate_set(p.seq).parts:
                self.run_part(q, None, assign, body)
        elif isinstance(p, Flat):
            def visit(i):
                for q in p.inner(i).parts:
                    self.run_part(q, None, assign, body)
            self.symbolic(p.n, p.cond, visit)
        else:
            n = self._num(p.n)
            if isinstance(n, int) and n <= E.unroll:
                for i in range(n):
                    if E.branch(p.cond(z3.IntVal(i))):
                        one(fetch(z3.IntVal(i)) if fetch else p.elem(z3.IntVal(i)))
                return
            self.symbolic(n, p.cond, lambda i: one(fetch(i) if fetch else p.elem(i)), getattr(p, 'keyinv', None))

    def annotated(self, inv, st, fr):
        """A loop with an invariant: it holds at the start (entry), an arbitrary state with it is
        assumed (havoc, which names the locations the loop may change), and a round keeps it
        (again)."""
        E = self.E
        self.epoch += 1
        inv.entry(fr)
        may = {lockey(x) for x in inv.havoc(fr)}
        snap0 = E.snapshot()
        if not self.I.truth(self.I.eval(st.test, fr)):
            self.I.block(st.orelse, fr)
            return
        try:
            self.I.block(st.body, fr)
        except Brk:
            return
        except Cont:
            pass
        before = {id(o): s for o, s in snap0}
        for loc in self.changed(snap0, E.snapshot()):
            if lockey(loc) in may or loc[0] == "fld" and isinstance(loc[1], Frame) and loc[2] not in before[id(loc[1])][0]:
                continue
            raise Unsupported(f"the loop changes {loc[2] or loc[0]}, which its invariant does not mention")
        inv.again(fr)
        raise Dead()

    def while_loop(self, st, fr):
        if self.E.annotations:
            return self.annotated(self.E.annotations.pop(0), st, fr)
        k = 0
        while self.I.truth(self.I.eval(st.test, fr)):
            k += 1
            if k > 30:
                raise Unsupported("while loop with an unknown number of iterations")
            try:
                self.I.block(st.body, fr)
            except Brk:
                return
            except Cont:
                pass
        self.I.block(st.orelse, fr)

    # ================================================================ generic iterations
    def changed(self, snap0, snap1):
        """locations whose value differs between two snapshots of the same objects"""
        E = self.E
        s1 = {id(o): st for o, st in snap1}
        out = []
        for o, st in snap0:
            t = s1.get(id(o))
            if t is None:
                continue
            if isinstance(o, (Frame, Inst)):
                a, b = st[0], t[0]
                for k in list(a) + [x for x in b if x not in a]:
                    if k not in a or k not in b or not same(a[k], b[k]):
                        out.append(("fld", o, k))
            elif isinstance(o, (ListObj, SetObj)):
                if st[0] is not t[0] and (len(st[0].parts) != len(t[0].parts) or any(x is not y for x, y in zip(st[0].parts, t[0].parts))):
                    out.append(("seq", o, None))
            elif isinstance(o, DictObj):
                if st[0] is None and t[0] is None and all(self.ops.const_of(k) is not MISSC(self.ops) for k, _ in st[1] + t[1]) \
                        and [k.get_id() for k, _ in st[1]] == [k.get_id() for k, _ in t[1]]:
                    for j, ((_, x), (_, y)) in enumerate(zip(st[1], t[1])):
                        if not same(x, y):
                            out.append(("ent", o, j))
                    continue
                if st[0] is not t[0] or len(st[1]) != len(t[1]) or any(a is not b and not (same(a[0], b[0]) and same(a[1], b[1])) for a, b in zip(st[1], t[1])):
                    out.append(("dict", o, None))
                    continue
                for k, x in t[2]:
                    if self.mat_changed(o, k, x, s1):
                        out.append(("dict", o, None))
                        break
            elif isinstance(o, Iter):
                if st[0] != t[0]:
                    out.append(("iter", o, None))
            else:
                a, b = st, t
                if any(not same(x, y) and x != y for x, y in zip(a, b)):
                    out.append(("other", o, None))
        return out

    def mat_changed(self, d, k, x, states):
        st = states.get(id(x))
        if st is None:
            return False
        orig = getattr(x, "pristine", None)
        if orig is None:
            return True
        if isinstance(x, DictObj):
            if st[0] is not orig.base or len(st[1]) != len(orig.ents) or any(not (same(a[0], b[0]) and same(a[1], b[1])) for a, b in zip(st[1], orig.ents)):
                return True
            return any(self.mat_changed(x, kk, y, states) for kk, y in st[2])
        if isinstance(x, (ListObj, SetObj)):
            return st[0] is not orig.seq and any(a is not b for a, b in itertools.zip_longest(st[0].parts, orig.seq.parts))
        if isinstance(x, Inst):
            return any(not same(st[0].get(f), orig.fields.get(f)) for f in set(st[0]) | set(orig.fields))
        return True

    def get_loc(self, loc):
        k, o, f = loc
        if k == "fld":
            d = o.vars if isinstance(o, Frame) else o.fields
            return d.get(f, NOVAL)
        if k == "ent":
            return o.ents[f][1]
        if k == "seq":
            return o.seq
        return o

    def set_loc(self, loc, v):
        k, o, f = loc
        if k == "fld":
            d = o.vars if isinstance(o, Frame) else o.fields
            if v is NOVAL:
                d.pop(f, None)
            else:
                d[f] = v
        elif k == "ent":
            o.ents[f] = (o.ents[f][0], v)
        elif k == "seq":
            o.seq = v

    def make_hole(self, loc, values):
        """unknown value for a location; values are those seen at the ends of paths"""
        E, ops = self.E, self.ops
        import interp
        entry = self.get_loc(loc)
        h = Hole(loc, entry)
        if loc[0] in ("fld", "ent"):
            if entry is NOVAL or entry is interp.UNDEF:
                h.kind = "temp"
                self.set_loc(loc, interp.UNDEF)
                return h
            if E.scalar(entry) and all(E.scalar(v) for v in values):
                sorts = {str(ops.sort(v)) for v in [entry] + values}
                s = ops.sort(entry)
                if len(sorts) > 1:
                    s = REAL if sorts <= {"Int", "Real"} else V
                h.kind = "scalar"
                h.sym = z3.Const(E.name("hole"), s)
                h.sort = s
                self.set_loc(loc, h.sym)
                return h
            if isinstance(entry, ListObj) and all(isinstance(v, ListObj) for v in values) and lockey(loc) not in self.replaced:
                h.kind = "listvar"
                h.part = HolePart(E)
                h.obj = ListObj(E, Seq(entry.seq.parts + [h.part]))
                self.set_loc(loc, h.obj)
                return h
            h.kind = "lost"
            self.lost = True
            self.set_loc(loc, interp.UNDEF)
            return h
        if loc[0] == "seq":
            h.kind = "seq"
            h.part = HolePart(E)
            self.set_loc(loc, Seq(entry.parts + [h.part]))
            return h
        if loc[0] == "dict":
            d = loc[1]
            srt = self.keyed.get(lockey(loc))
            if srt is not None:
                h.kind = "keyed"
                h.old = (d.base, list(d.ents), list(d.mats))
                h.watch = []
                if isinstance(srt, str):
                    # (what a list holds already is not looked at, only added to)
                    h.kind = "keylists"
                    h.has = z3.Function(E.name("khas"), V, BOOL)
                    h.part = HolePart(E)
                    h.base = Base(lambda q: h.has(q), lambda q: ListObj(None, Seq([h.part])), None)
                    d.base, d.ents, d.mats = h.base, [], []
                    return h
                h.has, h.get = z3.Function(E.name("khas"), V, BOOL), z3.Function(E.name("kval"), V, srt)
                h.base = Base(lambda q: h.has(q), lambda q: h.get(q), None)
                h.sort = srt
                d.base, d.ents, d.mats = h.base, [], []
                return h
            h.kind = "dict"
            h.old = (d.base, list(d.ents), list(d.mats))
            h.watch = []
            d.watch = (d.watch or []) + [h.watch]
            return h
        raise Unsupported("a loop changes " + loc[0])

    def mentions_holes(self, t):
        seen, todo = set(), [t]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                nm = x.decl().name()
                if nm.startswith(("hole", "khas", "kval")):
                    return True
                todo += x.children()
        return False

    lost = False

    def symbolic(self, n, cond, visit, inv=None):
        """any number of rounds.  A loop that loses track of an object replaced in its first
        round (a value worked out once and kept) is tried again with that round on its own."""
        E = self.E
        self.epoch += 1
        was, self.lost = self.lost, False
        n0, obls = list(E.pc), len(E.obls)
        snap = E.snapshot()
        try:
            r = self.rounds(n, cond, visit, inv)
            self.epoch += 1
            return r
        except Unsupported:
            if not self.lost or isinstance(n, int) or len(E.pc) != len(n0) or len(E.obls) != obls:
                self.lost = self.lost or was
                raise
            E.restore(snap)
        finally:
            self.lost = self.lost or was
        if not E.branch(zi(n) > 0):
            return
        c = cond(z3.IntVal(0))
        if c is True or E.branch(zb(c)):
            try:
                visit(z3.IntVal(0))
            except Cont:
                pass
        return self.rounds(z3.simplify(zi(n) - 1), lambda i: cond(z3.simplify(zi(i) + 1)), lambda i: visit(z3.simplify(zi(i) + 1)),
                           inv and self.shifted(*inv[:3]) + tuple(self.shifted(*x) for x in inv[3:]))

    def shifted(self, key, has, pos):
        return (lambda i: key(z3.simplify(zi(i) + 1))), (lambda q: z3.And(has(q), pos(q) > 0)), (lambda q: pos(q) - 1)

    def rounds(self, n, cond, visit, inv=None):
        E, ops = self.E, self.ops
        E.loops_run = getattr(E, "loops_run", 0) + 1
        if isinstance(n, int) and n <= 0:
            return
        n = zi(n)
        i = z3.Int(E.name("i"))
        entry_snap = E.snapshot()
        entry_ids = {id(o) for o, _ in entry_snap}

        def thunk():
            E.assume(i >= 0)
            E.assume(i < n)
            E.ctx.append(i)
            c = cond(i)
            E.assume(ops.simp(c) if is_z(c) else c)
            visit(i)

        mod, values, holes = [], {}, []
        for rnd in range(8):
            E.restore(entry_snap)
            for h in holes:
                if h.kind == "dict":
                    h.loc[1].watch = [w for w in h.loc[1].watch or [] if w is not h.watch] or None
            holes = []
            for loc in mod:
                holes.append(self.make_hole(loc, values.get(lockey(loc), [])))
            hsnap = E.snapshot()
            runs = E.explore(thunk)
            grew = False
            for g, out, snap in runs:
                for loc in self.changed(hsnap, snap):
                    if id(loc[1]) not in entry_ids:
                        continue          # an object of the holes
                    if loc[0] == "iter":
                        raise Unsupported("an iterator is consumed inside a loop")
                    if loc[0] == "dict":
                        mod[:] = [m for m in mod if not (m[0] == "ent" and m[1] is loc[1])]
                    k = lockey(loc)
                    if k not in [lockey(m) for m in mod]:
                        mod.append(loc)
                        grew = True
                    if loc[0] in ("fld", "ent"):
                        E.restore(snap)
                        v = self.get_loc(loc)
                        E.restore(hsnap)
                        vs = values.setdefault(k, [])
                        if not any(same(v, x) for x in vs):
                            before = self.hole_sort(E, entry_snap, loc, vs)
                            vs.append(v)
                            if self.hole_sort(E, entry_snap, loc, vs) != before:
                                grew = True
            if not grew:
                break
        else:
            raise Unsupported("the set of changed locations does not settle")
        if not runs:
            E.restore(entry_snap)
            # no iteration is possible
            return
        try:
            always = cond is true or self.E.valid_under([i >= 0, i < n], self.ops.simp(zb(cond(i))))
            eff = Effects(self, n, i, holes, hsnap, runs, entry_ids, inv, always)
            redo = None
            try:
                eff.compute()
            except NeedLost as e:
                self.replaced.add(lockey(e.loc))
                redo = e
            except NeedKeyed as e:
                if lockey(e.loc) in self.keyed:
                    raise Unsupported("a key written by earlier iterations is read")
                redo = e
        finally:
            E.restore(entry_snap)
            for h in holes:
                if h.kind == "dict":
                    h.loc[1].watch = [w for w in h.loc[1].watch or [] if w is not h.watch] or None
        if isinstance(redo, NeedLost):
            return self.rounds(n, cond, visit, inv)
        if redo is not None:
            self.keyed[lockey(redo.loc)] = redo.sort
            E.keep.append(redo.loc[1])
            return self.rounds(n, cond, visit, inv)
        if eff.exits:
            b = lambda j: eff.exit_at(j)
            ex = self.EX(n, b)
            if E.branch(ex):
                f = self.FIRST(n, b)
                E.assume(z3.And(f >= 0, f < n))
                E.assume(zb(b(f)))
                E.assume(zb(neg(self.EX(f, b))))
                E.assume(eff.last(f))
                eff.apply(f)
                c = cond(f)
                E.assume(ops.simp(c) if is_z(c) else c)
                visit(f)
                # the visit must leave the loop; a normal end contradicts the exit condition
                if E.infeasible():
                    raise Dead()
                if __import__("os").environ.get("DBG"):
                    print("EXIT", zb(b(f)).sexpr()); [print("  pc", x.sexpr()) for x in E.pc]
                raise Unsupported("early exit of a loop could not be resolved")
        eff.apply(n)

    def hole_sort(self, E, entry_snap, loc, vs):
        vs = [v for v in vs]
        if all(E.scalar(v) for v in vs):
            return tuple(sorted({str(self.ops.sort(v)) for v in vs}))
        return "obj"


def MISSC(ops):
    import ops as o
    return o.MISS


def lockey(loc):
    return (loc[0], id(loc[1]), loc[2])


class _NoVal:
    def __repr__(self):
        return "<no value>"


NOVAL = _NoVal()


class Effects:
    """what one iteration does, and what any number of iterations does"""

    def __init__(self, L, n, i, holes, hsnap, runs, entry_ids, inv, always=False):
        self.always = always
        self.L, self.E, self.ops = L, L.E, L.ops
        self.n, self.i, self.holes, self.hsnap, self.entry_ids = n, i, holes, hsnap, entry_ids
        self.inv = inv
        self.normal, self.exits = [], []
        for g, out, snap in runs:
            (self.normal if out[0] in ("ok", "cont") else self.exits).append((conj(g[2:]), out, snap))
        self.S = {}               # hole -> m -> z3 term
        self.after = []

    # ---------------------------------------------------------------- helpers
    def pairs(self, j, t=None):
        p = [(self.i, zi(j))]
        for h, f in self.S.items():
            if t is None or (bool(self.mentions(t, [h.sym.decl()])) if h.kind == "known" else self.L.occurs(t, [h.sym])):
                p.append((h.sym, f(zi(j))))
        return p

    def at(self, t, j):
        """effect term t of the generic iteration, at index j"""
        if isinstance(t, bool):
            return t
        return z3.substitute(t, *self.pairs(j, t))

    def last(self, m):
        """the round before the m-th did not leave the loop and made the values of the m-th"""
        p = zi(m) - 1
        f = [zb(neg(self.exit_at(p)))]
        for h, t in self.step.items():
            v = self.S[h](zi(m))
            if z3.is_app(v) and v.decl().name().startswith("FOLD"):
                f.append(v == self.at(t, p))
        return z3.Implies(zi(m) >= 1, z3.And(f))

    def exit_at(self, j):
        return self.ops.simp(self.at(zb(disj([g for g, _, _ in self.exits])), j))

    def value(self, h, snap):
        self.E.restore(snap)
        v = self.L.get_loc(h.loc)
        self.E.restore(self.hsnap)
        return v

    def hole_syms(self):
        return [h.sym for h in self.holes if h.kind == "scalar"]

    def freeze(self, v):
        """frozen copy; earlier objects kept inside it must not be changed any more"""
        self.ops.capture(v, self.entry_ids)
        return self.ops.freeze(v)

    # ---------------------------------------------------------------- all locations
    def compute(self):
        E, ops = self.E, self.ops
        for h in self.holes:
            if h.kind == "keyed":
                self.one_by_one(h)
            elif h.kind == "keylists":
                self.lists_by_key(h)
        self.scalars()
        for h in self.holes:
            if h.kind in ("seq", "listvar"):
                self.sequence(h)
            elif h.kind == "dict":
                self.dictionary(h)
        touched = [h for h in self.holes if h.part is not None and h.part.touched]
        if touched:
            raise Unsupported("a list is read in the loop that extends it")

    def apply(self, m):
        import interp
        L = self.L
        for h in self.holes:
            if h.kind in ("temp", "lost"):
                L.set_loc(h.loc, interp.UNDEF)
            elif h.kind == "scalar":
                L.set_loc(h.loc, self.S[h](zi(m)))
        for f in self.after:
            f(m)

    # ---------------------------------------------------------------- scalars
    def coerce(self, v, sort):
        E, ops = self.E, self.ops
        if sort == V:
            return E.toV(v)
        if sort == BOOL:
            return zb(v)
        x = E.num(v) if not is_z(v) else v
        x = zi(x) if isinstance(x, int) else x
        if sort == REAL and x.sort() == INT:
            x = z3.ToReal(x)
        return x

    def scalars(self):
        E, ops, L = self.E, self.ops, self.L
        hs = [h for h in self.holes if h.kind == "scalar"]
        step, branches = {}, {}
        for h in hs:
            t = h.sym
            br = []
            for g, out, snap in self.normal:
                v = self.coerce(self.value(h, snap), h.sort)
                br.append((zb(g), v))
            if br and self.always:
                t = br[0][1]
            for g, v in br:
                t = v if t.eq(v) else z3.If(g, v, t)
            step[h] = z3.simplify(t)
            branches[h] = br
        self.step = dict(step)
        pending = list(hs)
        while pending:
            progress = False
            for h in list(pending):
                others = [x.sym for x in pending if x is not h]
                if L.occurs(step[h], others):
                    continue
                if self.one(h, step[h], branches[h]):
                    pending.remove(h)
                    progress = True
            if progress:
                continue
            if self.argmax(pending, step, branches):
                continue
            self.fold(pending, step)
            return

    def entry(self, h):
        return self.coerce(h.entry, h.sort)

    def one(self, h, t, br):
        """closed form of a single scalar, the other holes in it being resolved"""
        L, E, ops = self.L, self.E, self.ops
        e = self.entry(h)
        if t.eq(h.sym):
            self.S[h] = lambda m: e
            return True
        # unchanged in the branches where it is the hole, written (without holes) elsewhere
        wr = []
        ok = True
        for g, v in br:
            if z3.simplify(v).eq(h.sym):
                continue
            if L.occurs(v, [h.sym]) or L.occurs(g, [h.sym]):
                ok = False
                break
            wr.append((g, v))
        if ok:
            G = zb(disj([g for g, _ in wr]))
            val = wr[-1][1]
            for g, v in reversed(wr[:-1]):
                val = z3.If(g, v, val)
            val = z3.simplify(val)

            def S(m, G=G, val=val):
                ex = L.EX(m, lambda j: self.at(G, j))
                if not L.occurs(val, [self.i]) and not L.occurs(val, list(x.sym for x in self.S)):
                    v = val
                else:
                    v = self.at(val, L.FIRST(m, lambda j: self.at(G, j), last=True))
                return ops.ite(ex, v, e) if not isinstance(ex, bool) else (v if ex else e)
            self.S[h] = S
            return True
        if h.sort in (INT, REAL):
            c = 0
            ds = [z3.simplify(v - h.sym) for g, v in br]
            if self.always and all(d.eq(ds[0]) for d in ds) and not L.occurs(ds[0], [h.sym]):
                if z3.is_int_value(ds[0]) or z3.is_rational_value(ds[0]):
                    # (the number of rounds is never negative here)
                    self.S[h] = lambda m, c=ds[0]: L.addz(e, (zi(m) if h.sort == INT else z3.ToReal(zi(m))) * c)
                else:
                    self.S[h] = lambda m, c=ds[0]: L.addz(e, L.SUM(m, lambda j: self.at(c, j)))
                return True
            for g, v in br:
                d = z3.simplify(v - h.sym)
                if L.occurs(d, [h.sym]) or L.occurs(g, [h.sym]):
                    return False
                c = z3.If(g, d, c if is_z(c) else (z3.IntVal(0) if h.sort == INT else z3.RealVal(0)))
            c = z3.simplify(c)
            self.S[h] = lambda m, c=c: L.addz(e, L.SUM(m, lambda j: self.at(c, j)))
            return True
        return False

    def argmax(self, pending, step, br):
        """if v > best: best, arg = v, w   (also with >=, <, <=)"""
        L, E, ops = self.L, self.E, self.ops
        for h in pending:
            if h.sort not in (INT, REAL):
                continue
            wr = [(g, v) for g, v in br[h] if not z3.simplify(v).eq(h.sym)]
            if len(wr) != 1 or L.occurs(wr[0][1], [x.sym for x in pending]):
                continue
            g, v = wr[0]
            # g must be (hole-free condition and v REL hole)
            for rel in ("gt", "ge", "lt", "le"):
                cmpf = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b}[rel]
                c = cmpf(v, h.sym)
                base = [x for x in self.conjuncts(g) if not L.occurs(x, [p.sym for p in pending])]
                rest = zb(conj(base))
                if not E.valid(g == z3.And(rest, c)):
                    continue
                group = [p for p in pending if p is not h and L.occurs(step[p], [h.sym])]
                vals = {}
                ok = True
                for p in group:
                    w = [(gg, x) for gg, x in br[p] if not z3.simplify(x).eq(p.sym)]
                    if len(w) != 1 or not w[0][0].eq(g) or L.occurs(w[0][1], [x.sym for x in pending]):
                        ok = False
                        break
                    vals[p] = w[0][1]
                if not ok:
                    continue
                e = self.entry(h)
                self._best(h, group, vals, rest, v, e, rel)
                for p in [h] + group:
                    pending.remove(p)
                return True
        return False

    def conjuncts(self, g):
        g = z3.simplify(g)
        if z3.is_and(g):
            return [y for x in g.children() for y in self.conjuncts(x)]
        return [g]

    def _best(self, h, group, vals, rest, v, e, rel):
        L, E = self.L, self.E
        better = {"gt": lambda a, b: a > b, "ge": lambda a, b: a >= b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b}[rel]

        def idx(m):
            j, c = L._pred(lambda j: self.at(rest, j))
            vj = self.at(v, j)
            t, nm = L.symbol("BEST" + rel, [zb(c), vj], [j], INT, (m, e))
            if nm not in E.defs:
                def ax(*args, nm=nm):
                    n, ent, ps = args[0], args[1], args[2:]
                    a = L.app(nm, INT, args)
                    C = lambda x: L.body(nm, 0, [x], ps)
                    VV = lambda x: L.body(nm, 1, [x], ps)
                    inr = lambda x: z3.And(x >= 0, x < n, C(x))
                    up = rel in ("gt", "ge")
                    worse = (lambda x, y: x <= y) if up else (lambda x, y: x >= y)
                    strict = rel in ("gt", "lt")
                    return [z3.Or(a == -1, z3.And(inr(a), better(VV(a), ent))),
                            Univ(INT, lambda x: z3.Implies(z3.And(inr(x), better(VV(x), ent)), z3.And(
                                a >= 0, worse(VV(x), VV(a)), z3.Implies(VV(x) == VV(a), (a <= x) if strict else (a >= x)))))]
                E.defs[nm] = ax
            return t

        def mk(val, ent):
            def S(m):
                a = idx(zi(m))
                return z3.If(a >= 0, self.at(val, a), ent)
            return S
        self.S[h] = mk(v, e)
        for p in group:
            self.S[p] = mk(vals[p], self.entry(p))

    def fold(self, hs, step):
        L = self.L
        resolved = dict(self.S)
        form = []

        def S_all(m, hs=hs):
            if form:
                return L.FOLD(m, *form[0])
            j = z3.Int(f"fj%{L.symc}")
            L.symc += 1
            hv = [z3.Const(f"fh%{L.symc}.{k}", h.sort) for k, h in enumerate(hs)]
            sub = [(self.i, j)] + [(h.sym, x) for h, x in zip(hs, hv)] + [(r.sym, f(j)) for r, f in resolved.items()]
            steps = [z3.substitute(step[h], *sub) for h in hs]
            form.append(([self.entry(h) for h in hs], steps, hv, j))
            return L.FOLD(m, *form[0])
        for k, h in enumerate(hs):
            self.S[h] = lambda m, k=k: S_all(m)[k]

    # ---------------------------------------------------------------- lists and sets
    def sequence(self, h):
        E, ops, L = self.E, self.ops, self.L
        per = []
        for g, out, snap in self.normal:
            E.restore(snap)
            v = L.get_loc(h.loc)
            seq = v.seq if h.kind == "listvar" else v
            base = h.obj.seq.parts if h.kind == "listvar" else dict((id(o), s) for o, s in self.hsnap)[id(h.loc[1])][0].parts
            k = len(base)
            if len(seq.parts) < k or any(x is not y for x, y in zip(seq.parts[:k], base)):
                if h.kind == "listvar":
                    raise NeedLost(h.loc)
                raise Unsupported("a list is changed in a loop other than by adding to it")
            suf = Seq(seq.parts[k:])
            for p in suf.parts:
                if isinstance(p, Item):
                    ops.capture(p.value, self.entry_ids)
            per.append((g, ops.freeze_seq(suf)))
            E.restore(self.hsnap)
        per = [(g, s) for g, s in per if s.parts]
        simple = all(len(s.parts) == 1 and isinstance(s.parts[0], Item) for g, s in per)

        def build(m):
            if not per:
                return []
            if simple:
                gs = [conj([g, s.parts[0].guard]) for g, s in per]
                G = zb(disj(gs))
                vals = [s.parts[0].value for g, s in per]

                def elem(j):
                    pr = self.pairs(j)
                    v = ops.subst(vals[-1], pr)
                    for g, x in reversed(list(zip(gs[:-1], vals[:-1]))):
                        v = ops.ite(z3.substitute(zb(g), *pr), ops.subst(x, pr), v)
                    return v
                Gs = z3.simplify(G)
                # (a loop left early has no round that leaves it before)
                stay = zb(neg(disj([g for g, _, _ in self.exits])))
                always = self.L.E.valid_quick(z3.Implies(z3.And(self.i >= 0, self.i < self.n, stay), Gs))
                return [Part(L._num(m), true if always else (lambda j: ops.simp(self.at(G, j))), elem)]
            gs = zb(disj([g for g, _ in per]))

            def inner(j):
                pr = self.pairs(j)
                parts = []
                for g, s in per:
                    one = ops.subst(s, pr)
                    parts += (ops.guard_seq(z3.substitute(zb(g), *pr), one) if len(per) > 1 else one).parts
                return Seq(parts)
            return [Flat(L._num(m), lambda j: ops.simp(self.at(gs, j)), inner)]

        def put(m):
            parts = build(m)
            if h.kind == "listvar":
                L.set_loc(h.loc, ListObj(E, Seq(h.entry.seq.parts + parts)))
            else:
                L.set_loc(h.loc, Seq(h.entry.parts + parts))
        self.after.append(put)

    # ---------------------------------------------------------------- dictionaries
    def writes(self, d, e0):
        """the writes of a path to d, in order: ('key', k, v) or ('bulk', B)"""
        ops = self.ops
        base0, ents0, mats0 = e0
        chain, b, ents = [], d.base, d.ents
        out = []
        while b is not base0:
            over = getattr(b, "over", None)
            if over is None:
                raise Unsupported("a dictionary is rebuilt inside a loop")
            pb, pents, pmats, bulk = over
            for k, v in reversed(ents):
                out.append(("key", k, v))
            out.append(("bulk", bulk))
            b, ents = pb, pents
        for j in range(len(ents) - 1, -1, -1):
            k, v = ents[j]
            if j >= len(ents0):
                out.append(("key", k, v))
            else:
                if not same(ents0[j][0], k):
                    raise Unsupported("entries of a dictionary are removed inside a loop")
                if not same(ents0[j][1], v):
                    out.append(("key", k, v))
        out.reverse()
        states = {id(o): o.save() for o in self.E.heap}
        for k, x in d.mats:
            if any(x is y for _, y in mats0):
                continue
            if self.L.mat_changed(d, k, x, states):
                if any(w[0] == "bulk" for w in out):
                    raise Unsupported("in-place change and bulk change of a dictionary")
                out.insert(0, ("key", k, x))
        if len(ents) < len(ents0):
            raise Unsupported("entries of a dictionary are removed inside a loop")
        for w in out:
            if w[0] == "key" and w[2] is TOMB:
                raise Unsupported("entries of a dictionary are removed inside a loop")
        return out

    def dictionary(self, h):
        E, ops, L = self.E, self.ops, self.L
        d = h.loc[1]
        per = []
        for g, out, snap in self.normal:
            E.restore(snap)
            ws = self.writes(d, h.old)
            fr = []
            for w in ws:
                if w[0] == "key":
                    fr.append(("key", w[1], self.freeze(w[2])))
                else:
                    fr.append(w)
            E.restore(self.hsnap)
            if fr:
                per.append((zb(g), fr))
        syms = self.hole_syms()

        def sub_w(w, pr):
            if w[0] == "key":
                return ("key", z3.substitute(w[1], *pr), ops.subst(w[2], pr))
            B = w[1]
            # (the key asked for is not of the round substituted)
            x = z3.Const(E.name("bq"), V)
            return ("bulk", Bulk(lambda q: z3.substitute(z3.substitute(zb(B.hit(x)), *pr), (x, q)), lambda q: ops.subst(ops.subst(B.val(x), pr), [(x, q)]), ops.subst(B.keys, pr) if B.keys is not None else None))

        def hit_at(j, q):
            pr = self.pairs(j)
            out = []
            for g, ws in per:
                gg = z3.substitute(g, *pr)
                hs = []
                for w in ws:
                    w = sub_w(w, pr)
                    hs.append(self.ops.simp(q == w[1]) if w[0] == "key" else w[1].hit(q))
                out.append(conj([self.ops.simp(gg), disj(hs)]))
            return disj(out)

        def val_at(j, q):
            pr = self.pairs(j)
            res = None
            for g, ws in per:
                v = None
                for w in ws:
                    w = sub_w(w, pr)
                    if w[0] == "key":
                        v = w[2] if v is None else ops.ite(ops.simp(q == w[1]), w[2], v)
                    else:
                        v = w[1].val(q) if v is None else ops.ite(w[1].hit(q), w[1].val(q), v)
                if res is None:
                    res = v
                else:
                    # which path: decided by its guard and hit
                    hs = disj([ops.simp(q == sub_w(w, pr)[1]) if w[0] == "key" else sub_w(w, pr)[1].hit(q) for w in ws])
                    res = ops.ite(self.ops.simp(z3.substitute(g, *pr)), v, res)
            return res
        # reads of the dictionary must not see what earlier iterations wrote
        bad = None
        for key, pcs in h.watch:
            if key is None:
                bad = "the whole dictionary is read in the loop that changes it"
                break
            j = z3.Int(E.name("jr"))
            n0 = len(E.pc)
            E.pc += [zb(c) for c in pcs] + [j >= 0, j < self.i]
            ok = E.valid(neg(hit_at(j, key))) or E.valid(neg(hit_at(j, key)), full=True)
            del E.pc[n0:]
            if not ok:
                bad = "a key written by earlier iterations is read"
                break
        if bad:
            vals = [w[2] for _, ws in per for w in ws if w[0] == "key"]
            if bad[0] == "a" and h.old[0] is None and not h.old[1] and vals and all(isinstance(v, ListObj) for v in vals):
                raise NeedKeyed(h.loc, "lists")
            flat = lambda v: E.scalar(v) or isinstance(v, TupleVal) and v.items is not None and all(E.scalar(x) for x in v.items)
            if bad[0] == "a" and h.old[0] is None and not h.old[1] and vals and all(flat(v) for v in vals):
                if not all(E.scalar(v) for v in vals):
                    raise NeedKeyed(h.loc, V)
                sorts = {str(ops.sort(v)) for v in vals}
                raise NeedKeyed(h.loc, ops.sort(vals[0]) if len(sorts) == 1 else REAL if sorts <= {"Int", "Real"} else V)
            raise Unsupported(bad)
        one_key = per and all(len(ws) == 1 and ws[0][0] == "key" for _, ws in per)
        K = None
        if one_key:
            K = per[0][1][0][1]
            if any(not ws[0][1].eq(K) for _, ws in per):
                for g, ws in per[1:]:
                    K = z3.If(g, ws[0][1], K)
                K = z3.simplify(K)
            G = zb(disj([g for g, _ in per]))
        inv = self.affine(K) if one_key else None
        if inv is None and one_key and self.inv is not None and not syms_in(L, K, syms):
            for inv_key, inv_has, inv_pos in (self.inv[:3],) + tuple(self.inv[3:]):
                if E.valid_under([self.i >= 0, self.i < self.n], E.toV(inv_key(self.i)) == K):
                    inv = (inv_has, inv_pos)
                    break

        def bulk(m):
            m = zi(m)
            if inv is not None:
                has, pos = inv

                def hit(q):
                    p = pos(q)
                    return conj([has(q), p < m, self.ops.simp(self.at(G, p))])

                def val(q):
                    return val_at(pos(q), q)
            else:
                def hit(q):
                    return L.EX(m, lambda j: zb(hit_at(j, q)))

                def val(q):
                    return val_at(L.FIRST(m, lambda j: zb(hit_at(j, q)), last=True), q)
            keys = None
            if one_key:
                inj = inv is not None or self.injective(K, G)
                kf = lambda j: self.at(K, j)
                if inj:
                    cond = lambda j: self.ops.simp(self.at(G, j))
                    if z3.is_true(z3.simplify(G)):
                        cond = true
                else:
                    cond = lambda j: conj([self.at(G, j), neg(L.EX(j, lambda l: conj([self.at(G, l), kf(l) == kf(j)])))])
                keys = Seq([Part(L._num(m), cond, kf)])
                if inv is not None:
                    keys.parts[0].keyinv = (kf,) + tuple(inv) + ((self.inv[:3],) + tuple(self.inv[3:]) if self.inv is not None else ())
            elif per and len(per) == 1 and len(per[0][1]) == 1 and per[0][1][0][0] == "bulk":
                keys = None
            return Bulk(hit, val, keys)
        if not per:
            return
        self.after.append(lambda m: ops.write_bulk(d, bulk(m)))

    def affine(self, K):
        """inverse of a key of the form index + constant, or of a tuple with such a part"""
        K = z3.simplify(K)
        i, n, L = self.i, self.n, self.L
        if not L.occurs(K, [i]) or syms_in(L, K, self.hole_syms()):
            return None
        con = lambda t, nm: z3.is_app(t) and t.decl().name() == nm
        path = []

        def find(t, acc):
            """the accessors to a part that is index + constant"""
            if con(t, "VInt"):
                c = z3.simplify(t.arg(0) - i)
                return (acc, c) if not L.occurs(c, [i]) else None
            if con(t, "VPair"):
                return find(t.arg(0), acc + [V.vhead]) or find(t.arg(1), acc + [V.vtail])
            return None
        hit = find(K, [])
        if hit is None:
            return None
        acc, c = hit

        def get(q):
            for f in acc:
                q = z3.simplify(f(q))
            return q

        def matches(t, q, at):
            if con(t, "VPair"):
                return [V.is_VPair(q)] + matches(t.arg(0), z3.simplify(V.vhead(q)), at) + matches(t.arg(1), z3.simplify(V.vtail(q)), at)
            if con(t, "VInt"):
                return [V.is_VInt(q), V.vi(q) == z3.substitute(t.arg(0), (i, at))]
            return [q == z3.substitute(t, (i, at))]

        def pos(q):
            return z3.simplify(V.vi(get(q)) - c)

        def has(q):
            p = pos(q)
            if not acc:
                return z3.And(V.is_VInt(q), p >= 0, p < n)
            return z3.And(*matches(K, q, p), p >= 0, p < n)
        return has, pos

    def injective(self, K, G):
        E = self.E
        j = z3.Int(E.name("jk"))
        n0 = len(E.pc)
        i = self.i
        E.pc += [i >= 0, i < self.n, j >= 0, j < i, G, self.at(G, j)]
        g = K != self.at(K, j)
        ok = E.valid(g) or E.valid(g, full=True)
        del E.pc[n0:]
        return ok

    def mentions(self, t, fs):
        """arguments of the applications of fs in t"""
        out, todo, seen = [], [t], set()
        while todo:
            x = todo.pop()
            if not is_z(x) or x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_app(x):
                if any(x.decl().eq(f) for f in fs):
                    out.append(x)
                todo += x.children()
        return out

    def one_by_one(self, h):
        """A dictionary that is read and written under one key per iteration: what happens to
        the entry of a key depends on the iterations with that key only."""
        E, ops, L = self.E, self.ops, self.L
        d, i = h.loc[1], self.i
        HAS, GET = h.has, h.get
        runs, terms = [], []
        for g, out, snap in self.normal:
            E.restore(snap)
            if d.base is not h.base or len(d.ents) > 1:
                raise Unsupported("a dictionary is changed under several keys per iteration")
            w = [(k, None if v is TOMB else self.coerce(v, h.sort)) for k, v in d.ents]
            E.restore(self.hsnap)
            runs.append((zb(g), w[0] if w else None))
            terms += [zb(g)] + ([x for x in w[0]] if w else [])
        for g, _, _ in self.exits:
            terms.append(zb(g))
        for x in self.holes:
            if x.kind == "scalar":
                for g, out, snap in self.normal:
                    terms.append(self.coerce(self.value(x, snap), x.sort))
        keys = {}
        for g, w in runs:
            if w is not None:
                if w[1] is None:
                    raise Unsupported("entries of a dictionary are removed inside a loop")
                keys[w[0].get_id()] = w[0]
        for t in terms:
            for a in self.mentions(t, [HAS, GET]):
                keys[a.arg(0).get_id()] = a.arg(0)
        ks = list(keys.values())
        if not ks:
            return
        K = z3.simplify(ks[0])
        if any(not z3.simplify(x).eq(K) for x in ks) or self.mentions(K, [HAS, GET]):
            raise Unsupported("a dictionary is changed and read under several keys per iteration")
        P, X = z3.Const(E.name("kp"), BOOL), z3.Const(E.name("kx"), h.sort)
        gone = [(HAS(x), P) for x in ks] + [(GET(x), X) for x in ks]
        wr = [(z3.substitute(g, *gone), z3.substitute(w[1], *gone)) for g, w in runs if w is not None]
        T, F = z3.BoolVal(True), z3.BoolVal(False)

        def when(p):
            """(written, value) for an absent / present key"""
            ws = [(z3.simplify(z3.substitute(g, (P, p))), z3.simplify(z3.substitute(v, (P, p)))) for g, v in wr]
            ws = [(g, v) for g, v in ws if not z3.is_false(g)]
            if not ws:
                return F, X
            v = ws[-1][1]
            for g, w in reversed(ws[:-1]):
                v = z3.If(g, w, v)
            return z3.simplify(zb(disj([g for g, _ in ws]))), z3.simplify(v)
        (G0, v0), (G1, v1) = when(F), when(T)
        G, val = z3.If(P, G1, G0), z3.If(P, v1, v0)
        if z3.is_false(G0):
            v0 = v1 if not L.occurs(v1, [X]) else z3.BoolVal(False) if h.sort == BOOL else V.VNone if h.sort == V else z3.RealVal(0) if h.sort == REAL else z3.IntVal(0)
        own = [x.sym for x in self.holes if x.kind == "scalar" and x not in self.S]
        for t in (K, G, val):
            if syms_in(L, t, own):
                raise Unsupported("keys or values depend on what changes from round to round")
        if L.occurs(G0, [X]) or L.occurs(v0, [X]):
            raise Unsupported("the value of a missing key is used")
        hit0 = lambda j, q: conj([ops.simp(self.at(K, j) == q), ops.simp(self.at(G0, j))])
        hit1 = lambda j, q: conj([ops.simp(self.at(K, j) == q), ops.simp(self.at(G1, j))])
        has = lambda m, q: L.EX(m, lambda j: zb(hit0(j, q)))
        zero = {INT: z3.IntVal(0), REAL: z3.RealVal(0)}.get(h.sort)
        inr = z3.And(i >= 0, i < self.n)
        c = z3.simplify(v1 - X) if zero is not None else None
        if zero is not None and not L.occurs(c, [X]) and not L.occurs(G1, [X]) and E.valid(z3.Implies(inr, z3.And(G0 == G1, z3.Implies(G0, v0 == c)))):
            get = lambda m, q: L.SUM(m, lambda j: ops.ite(hit1(j, q), self.at(c, j), zero))
        elif z3.is_false(G1):
            get = lambda m, q: self.at(v0, L.FIRST(m, lambda j: zb(hit0(j, q))))
        else:
            j0 = z3.Int(E.name("kj"))
            q0 = z3.Const(E.name("kq"), V)

            def get(m, q):
                pr = [(i, j0)] + [(x.sym, f(j0)) for x, f in self.S.items()]
                Kj = z3.substitute(K, *pr)
                cnd = z3.And(Kj == q, z3.substitute(G, *pr))
                st = [z3.If(cnd, z3.BoolVal(True), P), z3.If(cnd, z3.substitute(val, *pr), X)]
                x0 = zero if zero is not None else z3.BoolVal(False) if h.sort == BOOL else V.VNone
                return L.FOLD(m, [z3.BoolVal(False), x0], st, [P, X], j0)[1]
        new = lambda j: conj([ops.simp(self.at(G0, j)), neg(L.EX(j, lambda l: zb(hit0(l, self.at(K, j)))))])

        def bulk(m):
            m = zi(m)
            p = Part(L._num(m), new, lambda j: self.at(K, j), None, "distinct")
            # there is a first one exactly when there is one
            p.some = lambda: L.EX(m, lambda j: ops.simp(self.at(G0, j)))
            return Bulk(lambda q: has(m, q), lambda q: get(m, q), Seq([p]))
        if wr:
            self.after.append(lambda m: ops.write_bulk(d, bulk(m)))
        for x in ks:
            self.S[Known(HAS(x))] = lambda m: zb(has(m, z3.substitute(K, *self.pairs_but(m, HAS, GET))))
            self.S[Known(GET(x))] = lambda m: get(m, z3.substitute(K, *self.pairs_but(m, HAS, GET)))

    def lists_by_key(self, h):
        """A dictionary of lists, each made and added to under one key per iteration: the list of
        a key is what the iterations with that key added."""
        E, ops, L = self.E, self.ops, self.L
        d, i, HAS = h.loc[1], self.i, h.has
        runs, keys = [], {}
        for g, out, snap in self.normal:
            E.restore(snap)
            if d.base is not h.base or len(d.ents) > 1 or len(d.mats) > 1:
                raise Unsupported("a dictionary of lists is changed under several keys per iteration")
            w = None
            for k, v in list(d.mats) + list(d.ents):
                if not isinstance(v, ListObj):
                    raise Unsupported("a dictionary of lists gets something else")
                ps = v.seq.parts
                old = bool(ps) and ps[0] is h.part
                if any(isinstance(p, HolePart) for p in ps[old:]):
                    raise Unsupported("a list of lists already seen")
                for p in ps:
                    if isinstance(p, Item):
                        ops.capture(p.value, self.entry_ids)
                s = ops.freeze_seq(Seq(ps[old:]))
                if not all(isinstance(p, Item) for p in s.parts) or len(s.parts) > 1:
                    raise Unsupported("several values are added to a list at once")
                keys[k.get_id()] = k
                if not old or s.parts:
                    w = (old, s)
            E.restore(self.hsnap)
            runs.append((zb(g), w))
        terms = [zb(g) for g, _ in runs] + [zb(g) for g, _, _ in self.exits]
        for x in self.holes:
            if x.kind == "scalar":
                for g, out, snap in self.normal:
                    terms.append(self.coerce(self.value(x, snap), x.sort))
        for t in terms:
            for a in self.mentions(t, [HAS]):
                keys[a.arg(0).get_id()] = a.arg(0)
        ks = list(keys.values())
        K = z3.simplify(ks[0])
        if any(not z3.simplify(x).eq(K) for x in ks) or self.mentions(K, [HAS]):
            raise Unsupported("a dictionary of lists is changed and read under several keys per iteration")
        own = [x.sym for x in self.holes if x.kind == "scalar"]
        if syms_in(L, K, own) or any(syms_in(L, g, own) for g, _ in runs):
            raise Unsupported("keys depend on what changes from round to round")
        T, F = z3.BoolVal(True), z3.BoolVal(False)

        def when(p):
            """(an entry is written, [(under, element added)])"""
            made, added = [], []
            for g, w in runs:
                g = z3.simplify(z3.substitute(g, *[(HAS(x), p) for x in ks]))
                if w is None or z3.is_false(g):
                    continue
                if w[0] != z3.is_true(p):
                    raise Unsupported("a list is replaced by another")
                made.append(g)
                added += [(conj([g, q.guard]), q.value) for q in w[1].parts]
            return zb(disj(made)), added
        (G0, A0), (G1, A1) = when(F), when(T)
        S0, S1 = zb(disj([g for g, _ in A0])), zb(disj([g for g, _ in A1]))

        def elem(j, A):
            pr = self.pairs(j)
            v = ops.subst(A[-1][1], pr)
            for g, x in reversed(A[:-1]):
                v = ops.ite(z3.substitute(zb(g), *pr), ops.subst(x, pr), v)
            return v
        hit0 = lambda j, q: conj([ops.simp(self.at(K, j) == q), ops.simp(self.at(G0, j))])
        has = lambda m, q: L.EX(m, lambda j: zb(hit0(j, q)))
        inr = z3.And(i >= 0, i < self.n)
        same_when = E.valid(z3.Implies(inr, S0 == S1))

        def get(m, q):
            if not A0 and not A1:
                return ListObj(None, Seq())
            cond = lambda j: conj([ops.simp(self.at(K, j) == q), ops.simp(self.at(S0, j)) if same_when else ops.simp(z3.If(has(j, q), self.at(S1, j), self.at(S0, j)))])
            if A0 and A1:
                val = lambda j: ops.ite(zb(has(j, q)), elem(j, A1), elem(j, A0))
                t = z3.Int(E.name("kj"))
                if ops.alike(elem(t, A0), elem(t, A1)):
                    val = lambda j: elem(j, A0)
            else:
                val = lambda j: elem(j, A0 or A1)
            return ListObj(None, Seq([Part(L._num(m), cond, val)]))
        new = lambda j: conj([ops.simp(self.at(G0, j)), neg(L.EX(j, lambda l: zb(hit0(l, self.at(K, j)))))])

        def bulk(m):
            m = zi(m)
            p = Part(L._num(m), new, lambda j: self.at(K, j), None, "distinct")
            p.some = lambda: L.EX(m, lambda j: ops.simp(self.at(G0, j)))
            return Bulk(lambda q: has(m, q), lambda q: get(m, q), Seq([p]))
        self.after.append(lambda m: ops.write_bulk(d, bulk(m)))
        for x in ks:
            self.S[Known(HAS(x))] = lambda m: zb(has(m, z3.substitute(K, *[(i, zi(m))])))

    def pairs_but(self, j, HAS, GET):
        return [(self.i, zi(j))] + [(h.sym, f(zi(j))) for h, f in self.S.items() if not isinstance(h, Known)]


def syms_in(L, t, syms):
    return bool(syms) and L.occurs(t, syms)
