"""C09: the periodic distance."""
from speclib import *
from specs.c08 import Cell, LA, LL, FORMS

FNS = [LA + ".pbc_diff_cart", LA + ".pbc_diff_frac_vec", LL + ".cartesian_periodic_distance", LL + ".get_fractional_coords", LL + ".get_cartesian_coords"]


def measured(u, c, x, y):
    """the distance, and the vector whose length it is"""
    k = len(u.E.norms)
    r = u.do(c.lat, "cartesian_periodic_distance", x, y)
    if not u.shape(len(u.E.norms) == k + 1, "the distance is the length of one vector"):
        raise Unsupported("distance that is no length of a vector")
    v, ln = u.E.norms[-1]
    from models import roundto
    if z3.is_rational_value(ln) and ln.as_fraction() == 0:
        u.prove(u.ops.eq(r, z3.RealVal(0)), "a length of nothing is a distance of nothing")
    else:
        u.prove(u.ops.eq(r, roundto(ln, z3.IntVal(3))), "the distance is that length to three decimals")
    return r, v, ln


for form, what in FORMS.items():
    @unit("C09", f"the separation measured, periodicity {what}", FNS)
    def _(u, form=form):
        c = Cell(u, form)
        x, y = c.point("x"), c.point("y")
        r, v, ln = measured(u, c, x, y)
        fx, fy, fv = (u.do(c.lat, "get_fractional_coords", p) for p in (x, y, v))
        t = lambda i: fx.at(i) - fy.at(i)
        c.each(lambda i: u.under(c.per(i), lambda: u.prove(z3.IsInt(t(i) - fv.at(i)), "to an image of the second point, by whole translations along periodic directions")))
        c.each(lambda i: u.under(z3.Not(c.per(i)), lambda: u.prove(fv.at(i) == t(i), "no wrapping along the others")))
        c.each(lambda i: u.under(c.per(i), lambda: u.prove(z3.And(2 * fv.at(i) <= 1, 2 * fv.at(i) >= -1), "at most half a vector along each periodic direction")))

    @unit("C09", f"symmetry, periodicity {what}", FNS)
    def _(u, form=form):
        c = Cell(u, form)
        x, y = c.point("x"), c.point("y")
        a = u.do(c.lat, "cartesian_periodic_distance", x, y)
        b = u.do(c.lat, "cartesian_periodic_distance", y, x)
        u.prove(u.ops.eq(a, b), "the distance is the same both ways")

    for first in (True, False):
        @unit("C09", f"a whole translation of the {'first' if first else 'second'} point, periodicity {what}", FNS)
        def _(u, form=form, first=first):
            c = Cell(u, form)
            x, y = c.point("x"), c.point("y")
            k = z3.Function("k", INT, INT)
            kv = Vec(c.d, lambda i: z3.If(c.per(zi(i)), z3.ToReal(k(zi(i))), z3.RealVal(0)))
            moved = u.ops.vec_binop("Add", x if first else y, u.do(c.lat, "get_cartesian_coords", kv))
            # a tie, exactly half a vector along some direction, is broken either way: see the units below
            from models import roundint
            u.E.defs["roundint"] = lambda t: [z3.And(z3.ToReal(roundint(t)) - t < z3.Q(1, 2), t - z3.ToReal(roundint(t)) < z3.Q(1, 2))]
            u.E.assumed.add("no component of the fractional separation is exactly half a vector (in the units about translations; the exact case is in the units about rectangular cells)")
            a = u.do(c.lat, "cartesian_periodic_distance", x, y)
            b = u.do(c.lat, "cartesian_periodic_distance", *((moved, y) if first else (x, moved)))
            u.prove(u.ops.eq(a, b), "does not change the distance")

    @unit("C09", f"images of one point, periodicity {what}", FNS)
    def _(u, form=form):
        c = Cell(u, form)
        x = c.point("x")
        k = z3.Function("k", INT, INT)
        kv = Vec(c.d, lambda i: z3.If(c.per(zi(i)), z3.ToReal(k(zi(i))), z3.RealVal(0)))
        y = u.ops.vec_binop("Add", x, u.do(c.lat, "get_cartesian_coords", kv))
        u.prove(u.ops.eq(u.do(c.lat, "cartesian_periodic_distance", x, y), z3.RealVal(0)), "have no distance")


def dots(c, d):
    v = lambda i, j: c.vec(z3.IntVal(i), z3.IntVal(j))
    return lambda a, b: sum((v(a, j) * v(b, j) for j in range(1, d)), v(a, 0) * v(b, 0))


for d in (1, 2, 3):
    @unit("C09", f"rectangular cells of dimension {d}: the shortest separation", FNS)
    def _(u, d=d):
        c = Cell(u, d=d)
        dd = dots(c, d)
        for a in range(d):
            for b in range(a):
                u.assume(dd(a, b) == 0)
        x, y = c.point("x"), c.point("y")
        r, v, ln = measured(u, c, x, y)
        fx, fy, fv = (u.do(c.lat, "get_fractional_coords", p) for p in (x, y, v))
        k = [u.int(f"k{i}") for i in range(d)]
        I = z3.IntVal
        g = [fv.at(I(i)) for i in range(d)]
        h = [fx.at(I(i)) - fy.at(I(i)) - z3.If(c.per(I(i)), z3.ToReal(k[i]), z3.RealVal(0)) for i in range(d)]
        for i in range(d):
            q = z3.simplify(g[i] - h[i])
            u.under(c.per(I(i)), lambda: u.fact(z3.IsInt(q), "an image"))
            u.under(z3.Not(c.per(I(i))), lambda: u.fact(q == 0, "an image"))
            near = z3.And(g[i] <= z3.If(h[i] >= 0, h[i], -h[i]), -g[i] <= z3.If(h[i] >= 0, h[i], -h[i]))
            u.under(c.per(I(i)), lambda: u.fact(z3.And(2 * g[i] <= 1, 2 * g[i] >= -1), "no more than half a vector"))
            for case in (q == 0, q >= 1, q <= -1):
                u.under(z3.And(z3.If(c.per(I(i)), z3.And(2 * g[i] <= 1, 2 * g[i] >= -1), q == 0), case), lambda: u.prove(near, "no image is nearer along any one direction"))
        # the lengths (of the vectors weighted by any coefficients a, which is what conversion
        # gives, C08): with orthogonal vectors, the sum of the squares along the directions
        a, b = [z3.Real(f"a{i}") for i in range(d)], [z3.Real(f"b{i}") for i in range(d)]
        comb = lambda j: sum((a[i] * c.vec(i, j) for i in range(1, d)), a[0] * c.vec(0, j))
        n2 = sum((comb(j) * comb(j) for j in range(1, d)), comb(0) * comb(0))
        L = [dd(i, i) for i in range(d)]
        rest = [2 * a[i] * a[j] * dd(i, j) for i in range(d) for j in range(i)]
        u.identity(n2, sum([a[i] * a[i] * L[i] for i in range(d)] + rest, z3.RealVal(0)), "the squared length of a sum of vectors")
        for i in range(d):
            for j in range(i):
                u.prove(dd(i, j) == 0, "what is left besides the squares is nothing")
        p, q, l = z3.Reals("p q l")
        u.prove(z3.Implies(z3.And(p <= q, -p <= q, l >= 0), p * p * l <= q * q * l), "no square is larger along any one direction")
