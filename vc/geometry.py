"""Contracts of numpy's matrices: product of a vector and a matrix, inverse, norm.

A vector carries, besides its components, the formal combination it is known to equal:
a sum of (vector, matrices it is multiplied by).  Products are linear,
and a matrix cancels against its inverse; these are the assumed contracts of numpy.dot
and numpy.linalg.inv (for reals, and for a matrix that has an inverse)."""
import z3

from core import *
import models as models_mod


class Mat:
    """a matrix of n rows and m columns; at(i, j) is a z3 real"""

    def __init__(self, n, m, at, inv_of=None):
        self.n, self.m, self.at, self.inv_of = n, m, at, inv_of

    def row(self, i):
        return Vec(self.m, lambda j: self.at(zi(i), zi(j)))

    def rows(self):
        return Seq.of([self.row(k) for k in range(self.n)]) if isinstance(self.n, int) else Seq([Part(self.n, true, lambda i: self.row(i))])

    # hooks of the interpreter
    def length(self):
        return self.n

    def iterate(self):
        return self.rows()

    def as_array(self, E, k):
        return Mat(self.n, self.m, self.at, self.inv_of)

    def isinstance(self, E, nm):
        if nm in ("list", "tuple", "dict", "set", "int", "float", "str", "bool", "Number"):
            return False
        if nm == "ndarray":
            return True
        raise Unsupported("isinstance " + nm)

    def deepcopy(self, memo):
        return Mat(self.n, self.m, self.at, self.inv_of)

    def substitute(self, f):
        return Mat(f(self.n), f(self.m), lambda i, j: f(self.at(i, j)))

    def getitem(self, E, ix):
        if isinstance(ix, TupleVal) and len(ix.items) == 2:
            return self.at(zi(E.num(ix.items[0])), zi(E.num(ix.items[1])))
        if isinstance(ix, (int,)) or is_z(ix):
            return self.row(E.ops._index(ix, self.n))
        raise Unsupported("slice of a matrix")

    def method(self, E, name):
        N = lambda f: Native(name, f)
        M = E.ops.models
        if name in ("setflags",):
            return N(lambda E, a, k: k.get("write") and None)
        if name == "copy":
            return N(lambda E, a, k: Mat(self.n, self.m, self.at, self.inv_of))
        if name == "astype":
            return N(lambda E, a, k: Mat(self.n, self.m, self.at, self.inv_of))
        if name in ("flatten", "ravel"):
            def flat(E, a, k):
                if isinstance(self.n, int) and isinstance(self.m, int):
                    return Vec(self.n * self.m, lambda i: M.pick([self.at(zi(x), zi(y)) for x in range(self.n) for y in range(self.m)], i))
                return Vec(z3.simplify(zi(self.n) * zi(self.m)), lambda i: self.at(zi(i) / zi(self.m), zi(i) % zi(self.m)))
            return N(flat)
        if name == "size":
            return z3.simplify(zi(self.n) * zi(self.m))
        if name == "shape":
            return TupleVal([self.n, self.m])
        if name == "reshape":
            def reshape(E, a, k):
                d = a[0].items if len(a) == 1 and isinstance(a[0], TupleVal) else a
                if len(d) == 2 and E.ops.same_term(d[0], self.n) and E.ops.same_term(d[1], self.m):
                    return Mat(self.n, self.m, self.at, self.inv_of)
                raise Unsupported("reshape")
            return N(reshape)
        if name == "tolist":
            def tolist(E, a, k):
                r = lambda i: models_mod.vec_list(E, self.row(i))
                if isinstance(self.n, int):
                    return ListObj(E, Seq.of([r(z3.IntVal(i)) for i in range(self.n)]))
                return ListObj(E, Seq([Part(self.n, true, r)]))
            return N(tolist)
        if name in ("T", "transpose"):
            t = Mat(self.m, self.n, lambda i, j: self.at(j, i))
            return t if name == "T" else N(lambda E, a, k: t)
        if name == "dot":
            return N(lambda E, a, k: dot(E, self, a[0]))
        return None

    def binop(self, E, op, other, left):
        if op == "MatMult":
            return dot(E, self, other) if left else dot(E, other, self)
        if isinstance(other, (int, Fraction)) or is_z(other) and other.sort() in (INT, REAL):
            c = real(E, other)
            if op == "Mult":
                return Mat(self.n, self.m, lambda i, j: self.at(i, j) * c)
        if isinstance(other, Vec):
            other = Mat(1, other.n, lambda i, j, v=other: v.at(j))
        if isinstance(other, Mat) and op in ("Add", "Sub", "Mult", "Div"):
            a, b = (self, other) if left else (other, self)
            one = lambda x: isinstance(x, int) and x == 1
            side = []
            for x, y in ((a.n, b.n), (a.m, b.m)):
                if not (one(x) or one(y) or E.ops.same_term(x, y)):
                    raise Unsupported("matrices of different shapes")
                side.append(y if one(x) else x)
            z = z3.IntVal(0)
            get = lambda q: lambda i, j: q.at(z if one(q.n) else i, z if one(q.m) else j)
            x, y = get(a), get(b)
            f = {"Add": lambda p, q: p + q, "Sub": lambda p, q: p - q, "Mult": E.ops.product, "Div": lambda p, q: p / q}[op]
            return Mat(side[0], side[1], lambda i, j: f(x(i, j), y(i, j)))
        raise Unsupported("matrix operator " + op)


def real(E, x):
    x = E.num(x)
    if isinstance(x, int):
        return z3.RealVal(x)
    return z3.ToReal(x) if x.sort() == INT else x


def generic(E, n, m=None):
    i = E.const("gi", INT)
    j = E.const("gj", INT)
    c = [i >= 0, i < zi(n)] + ([] if m is None else [j >= 0, j < zi(m)])
    return i, j, c


def choices(t, seen=None, out=None):
    """the unknown truth values a term chooses by"""
    seen, out = (set(), {}) if seen is None else (seen, out)
    if t.get_id() not in seen:
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and t.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[t.arg(0).get_id()] = t.arg(0)
        for c in t.children():
            choices(c, seen, out)
    return list(out.values())


def under(E, conds, goal):
    """is the goal known under these conditions"""
    k = len(E.pc)
    E.pc += conds
    try:
        goal = z3.simplify(goal)
        cs = choices(goal)
        if not 0 < len(cs) <= 2:
            return E.valid(goal)
        c = cs[0]
        for v in (True, False):
            g = z3.simplify(z3.substitute(goal, (c, z3.BoolVal(v))))
            if not under(E, [c if v else z3.Not(c)], g):
                return False
        return True
    finally:
        del E.pc[k:]


def same_vec(E, a, b):
    if a is b:
        return True
    if not E.ops.same_term(a.n, b.n):
        return False
    i, _, c = generic(E, a.n)
    return under(E, c, a.at(i) == b.at(i))


def same_mat(E, a, b):
    if a is b:
        return True
    if not (E.ops.same_term(a.n, b.n) and E.ops.same_term(a.m, b.m)):
        return False
    i, j, c = generic(E, a.n, a.m)
    return under(E, c, a.at(i, j) == b.at(i, j))


def inverse_of(E, a, b):
    return (a.inv_of is not None and same_mat(E, a.inv_of, b)) or (b.inv_of is not None and same_mat(E, b.inv_of, a))


def terms(v):
    return v.lin if v.lin is not None else [(z3.RealVal(1), v, ())]


def is_zero_num(c):
    return z3.is_rational_value(c) and c.as_fraction() == 0


def scaled(v, c):
    if z3.is_rational_value(c) and c.as_fraction() in (1, -1):
        return v if c.as_fraction() == 1 else Vec(v.n, lambda i: -v.at(i))
    return Vec(v.n, lambda i: v.at(i) * c)


def combine(E, ts):
    """equal vectors collected"""
    out = []
    for c, a, ch in ts:
        for k, (c2, a2, ch2) in enumerate(out):
            if same_chain(E, ch, ch2) and same_vec(E, a, a2):
                out[k] = (z3.simplify(c + c2), a2, ch2)
                break
        else:
            out.append((c, a, ch))
    return [t for t in out if not is_zero_num(t[0])]


def same_chain(E, ch, ch2):
    return len(ch) == len(ch2) and all(same_mat(E, x, y) for x, y in zip(ch, ch2))


def vanishes(E, ts):
    """is the combination zero: for each list of matrices, the sum of the vectors is"""
    groups = []
    for c, a, ch in ts:
        for g in groups:
            if same_chain(E, ch, g[0]):
                g[1].append(scaled(a, c))
                break
        else:
            groups.append((ch, [scaled(a, c)]))
    for ch, vs in groups:
        i, _, cond = generic(E, vs[0].n)
        t = vs[0].at(i)
        for v in vs[1:]:
            t = t + v.at(i)
        if not under(E, cond, t == 0):
            return False
    return True


def negative(ts):
    return [(z3.simplify(-c), a, ch) for c, a, ch in ts]


def component(E, a, ch, j):
    if not ch:
        return a.at(j)
    M = ch[-1]
    return models_mod.toreal(E.loops.SUM(M.n, lambda i: component(E, a, ch[:-1], zi(i)) * M.at(zi(i), zi(j))))


def value(E, n, ts):
    """the vector a formal combination stands for"""
    def at(j):
        t = None
        for c, a, ch in ts:
            x = component(E, a, ch, zi(j))
            if z3.is_rational_value(c) and c.as_fraction() == -1 and t is not None:
                t = t - x
                continue
            x = x if z3.is_rational_value(c) and c.as_fraction() == 1 else c * x
            t = x if t is None else t + x
        return z3.RealVal(0) if t is None else t
    return Vec(n, at, ts)


def dot(E, a, b):
    """numpy.dot"""
    M = E.ops.models
    if not isinstance(a, Mat):
        a = M.array(a)
    if not isinstance(b, Mat):
        b = M.array(b)
    E.assumed.add("numpy.dot: the linear product of reals")
    if isinstance(a, Vec) and isinstance(b, Vec):
        if not E.ops.same_term(a.n, b.n):
            raise Raise("ValueError", "shapes not aligned")
        return E.loops.SUM(a.n, lambda i: a.at(zi(i)) * b.at(zi(i)))
    if isinstance(a, Vec) and isinstance(b, Mat):
        if not E.ops.same_term(a.n, b.n):
            if E.valid(zi(a.n) != zi(b.n)):
                raise Raise("ValueError", "shapes not aligned")
            raise Unsupported("product of a vector and a matrix of unknown sizes")
        ts = []
        for c, v, ch in terms(a):
            if ch and inverse_of(E, ch[-1], b):
                E.assumed.add("numpy.linalg.inv: the inverse of the matrix (lattice vectors are independent)")
                ts.append((c, v, ch[:-1]))
            else:
                ts.append((c, v, ch + (b,)))
        return value(E, b.m, combine(E, ts))
    if isinstance(a, Mat) and isinstance(b, Vec):
        t = Mat(a.m, a.n, lambda i, j: a.at(j, i))
        if a.inv_of is not None:
            o = a.inv_of
            t.inv_of = Mat(o.m, o.n, lambda i, j: o.at(j, i))
        return dot(E, b, t)
    raise Unsupported("product of matrices")


def inv(E, m):
    m = m if isinstance(m, Mat) else E.ops.models.array(m)
    if not isinstance(m, Mat) or not E.ops.same_term(m.n, m.m):
        raise Unsupported("inverse")
    if m.inv_of is not None:
        return m.inv_of
    # one inverse per matrix
    for o, r in E.inverses:
        if same_mat(E, o, m):
            return r
    nm = E.name("INV")
    f = z3.Function(nm, INT, INT, REAL)
    E.incomplete.add(nm)
    r = Mat(m.n, m.m, lambda i, j: f(zi(i), zi(j)), m)
    E.inverses.append((m, r))
    return r


def norm(E, v):
    """numpy.linalg.norm; vectors known to be equal, or opposite, have one length"""
    v = E.ops.models.vec(v)
    if v.lin is not None and vanishes(E, v.lin):
        E.norms.append((v, z3.RealVal(0)))
        return z3.RealVal(0)
    for w, r in E.norms:
        if E.ops.same_term(w.n, v.n) and (vanishes(E, terms(v) + negative(terms(w))) or vanishes(E, terms(v) + terms(w))):
            E.norms.append((v, r))
            return r
    n2 = models_mod.toreal(E.loops.SUM(v.n, lambda i: v.at(zi(i)) * v.at(zi(i))))
    r = models_mod.sqrt_(n2)
    if not E.ctx:
        E.norms.append((v, r))
    return r


def install(E, X):
    E.inverses, E.norms = [], []

    def fdot(E, a, k):
        return dot(E, a[0], a[1])
    X["numpy.dot"] = X["numpy.matmul"] = fdot
    X["numpy.linalg.inv"] = lambda E, a, k: inv(E, a[0])
    X["numpy.linalg.norm"] = lambda E, a, k: norm(E, a[0])
