"""C08: coordinate conversions and wrapping into the cell."""
from speclib import *

LA = "core.lattice"
LL = LA + ".Lattice"


class Cell:
    """A lattice of any dimension with any (independent) vectors and any periodic directions,
    made with the real constructor."""

    def __init__(self, u, form="tuple", vecs="tuples", d=None):
        self.u = u
        E = u.E
        self.d = d = u.int("d", lo=1) if d is None else d
        vec = z3.Function("vec", INT, INT, REAL)
        per = z3.Function("per", INT, BOOL)
        self.vec = lambda i, j: vec(zi(i), zi(j))
        row = lambda i: Seq([Part(d, true, lambda j: vec(zi(i), zi(j)))])
        if vecs == "array":
            import geometry
            vs = geometry.Mat(d, d, self.vec)
        else:
            make = {"tuples": lambda i: TupleVal(row(i)), "lists": lambda i: ListObj(None, row(i)), "arrays": lambda i: Vec(d, lambda j: vec(zi(i), zi(j)))}[vecs]
            vs = ListObj(E, Seq([Part(d, true, make)]))
        one = z3.Bool("periodic")
        ps = Seq([Part(d, true, lambda i: per(zi(i)))])
        self.per = (lambda i: per(zi(i))) if form in ("tuple", "list") else (lambda i: z3.BoolVal(True)) if form == "none" else (lambda i: one)
        p = {"tuple": [TupleVal(ps)], "list": [ListObj(E, ps)], "one": [one], "none": []}[form]
        self.lat = u.new(LA, "Lattice", vs, *p)

    def point(self, nm):
        x = z3.Function(nm, INT, REAL)
        return Vec(self.d, lambda i: x(zi(i)))

    def product(self, v, j):
        """component j of the sum of the lattice vectors weighted by v"""
        return self.u.E.loops.SUM(self.d, lambda i: v(i) * self.vec(i, j))

    def each(self, fn):
        u = self.u
        u.count += 1
        i = z3.Int(f"i!{u.count}")
        u.under(z3.And(i >= 0, i < zi(self.d)), lambda: fn(i))


FORMS = {"tuple": "given per direction", "one": "given for all directions", "none": "not given", "list": "given per direction as a list"}
for vecs in ("tuples", "lists", "arrays", "array"):
    for form, what in FORMS.items():
        @unit("C08", f"a lattice holds its vectors ({vecs}) and periodic directions ({what})", [LL + ".__init__"])
        def _(u, form=form, vecs=vecs):
            c = Cell(u, form, vecs)
            vs = u.ops.models.array(u.attr(c.lat, "vecs"))
            u.prove(zi(u.attr(c.lat, "dim")) == c.d, "the dimension")
            u.prove(z3.And(zi(vs.n) == c.d, zi(vs.m) == c.d), "the number of vectors")
            c.each(lambda i: c.each(lambda j: u.prove(vs.at(i, j) == c.vec(i, j), "the vectors")))
            ps = u.ops.seq_of(u.attr(c.lat, "periodic"))
            u.same_seq(ps, Seq([Part(c.d, true, lambda i: c.per(i))]), "the periodic directions")


GIVEN = {"array": lambda E, v: v, "tuple": lambda E, v: TupleVal(Seq([Part(v.n, true, lambda i: v.at(zi(i)))])), "list": lambda E, v: ListObj(E, Seq([Part(v.n, true, lambda i: v.at(zi(i)))]))}
for given, form_ in GIVEN.items():
    @unit("C08", f"fractional coordinates to Cartesian and back, given as {given}", [LL + ".get_cartesian_coords", LL + ".get_fractional_coords", LL + ".inv_matrix", LL + ".matrix"])
    def _(u, form_=form_):
        c = Cell(u)
        f = c.point("f")
        x = u.do(c.lat, "get_cartesian_coords", form_(u.E, f))
        u.prove(zi(x.n) == c.d, "one coordinate per direction")
        c.each(lambda j: u.prove(x.at(j) == c.product(f.at, j), "the sum of the lattice vectors weighted by the fractional coordinates"))
        b = u.do(c.lat, "get_fractional_coords", x)
        c.each(lambda i: u.prove(b.at(i) == f.at(i), "converting back gives the fractional coordinates"))
        y = c.point("y")
        g = u.do(c.lat, "get_fractional_coords", form_(u.E, y))
        z = u.do(c.lat, "get_cartesian_coords", g)
        c.each(lambda i: u.prove(z.at(i) == y.at(i), "and the other way around"))


for form, what in FORMS.items():
    @unit("C08", f"wrapping a point into the cell, periodicity {what}", [LL + ".get_periodized_cartesian_coords", LA + ".periodize", LL + ".get_fractional_coords", LL + ".get_cartesian_coords"])
    def _(u, form=form):
        c = Cell(u, form)
        x = c.point("x")
        f = u.do(c.lat, "get_fractional_coords", x)
        w = u.do(c.lat, "get_periodized_cartesian_coords", x)
        g = u.do(c.lat, "get_fractional_coords", w)
        c.each(lambda i: u.under(c.per(i), lambda: u.prove(z3.IsInt(f.at(i) - g.at(i)), "moves the point by a whole number of lattice vectors along every periodic direction")))
        c.each(lambda i: u.under(c.per(i), lambda: u.prove(z3.And(g.at(i) >= 0, g.at(i) < 1), "ends inside the cell along every periodic direction")))
        c.each(lambda i: u.under(z3.Not(c.per(i)), lambda: u.prove(g.at(i) == f.at(i), "by nothing along the others")))
        v = u.do(c.lat, "get_periodized_cartesian_coords", w)
        h = u.do(c.lat, "get_fractional_coords", v)
        c.each(lambda i: u.prove(h.at(i) == g.at(i), "changes nothing when applied again"))

        # images
        k = z3.Function("shift", INT, INT)
        image = u.do(c.lat, "get_cartesian_coords", Vec(c.d, lambda i: f.at(i) + z3.If(c.per(i), z3.ToReal(k(zi(i))), z3.RealVal(0))))
        m = u.do(c.lat, "get_fractional_coords", u.do(c.lat, "get_periodized_cartesian_coords", image))
        c.each(lambda i: u.prove(m.at(i) == g.at(i), "every periodic image of a point ends in the same place"))


for form in ("tuple", "one"):
    for num in ("list", "tuple", "array"):
        @unit("C08", f"a scaled lattice, periodicity {FORMS[form]}, counts as {num}", [LL + ".get_scaled_lattice", LL + ".__init__"])
        def _(u, form=form, num=num):
            c = Cell(u, form)
            k = z3.Function("counts", INT, INT)
            s = Seq([Part(c.d, true, lambda i: k(zi(i)))])
            n = {"list": lambda: ListObj(u.E, s), "tuple": lambda: TupleVal(s), "array": lambda: Vec(c.d, lambda i: z3.ToReal(k(zi(i))))}[num]()
            r = u.do(c.lat, "get_scaled_lattice", n)
            vs = u.ops.models.array(u.attr(r, "vecs"))
            u.prove(z3.And(zi(vs.n) == c.d, zi(vs.m) == c.d), "the number of vectors")
            c.each(lambda i: c.each(lambda j: u.prove(vs.at(i, j) == c.vec(i, j) * z3.ToReal(k(i)), "the vectors multiplied by the counts")))
            u.same_seq(u.ops.seq_of(u.attr(r, "periodic")), Seq([Part(c.d, true, lambda i: c.per(i))]), "the same periodic directions")
            f = c.point("f")
            x = u.do(r, "get_cartesian_coords", f)
            c.each(lambda j: u.prove(x.at(j) == u.E.loops.SUM(c.d, lambda i: f.at(i) * (c.vec(i, j) * z3.ToReal(k(zi(i))))), "conversions use the scaled vectors"))


@unit("C08", "wrapping fractional coordinates", [LA + ".periodize"])
def _(u):
    for form in ("tuple", "one", "none"):
        d = u.int("d", lo=1)
        x, p, one = z3.Function("x", INT, REAL), z3.Function("p", INT, BOOL), z3.Bool("one")
        per = {"tuple": [TupleVal(Seq([Part(d, true, lambda i: p(zi(i)))]))], "one": [one], "none": []}[form]
        pf = {"tuple": lambda i: p(i), "one": lambda i: one, "none": lambda i: z3.BoolVal(True)}[form]
        r = u.call(u.get(LA, "periodize"), Vec(d, lambda i: x(zi(i))), *per)
        i = u.int("i", lo=0)
        u.assume(i < d)
        u.under(pf(i), lambda: u.prove(z3.And(r.at(i) >= 0, r.at(i) < 1, z3.IsInt(x(i) - r.at(i))), "inside the cell, by a whole number"))
        u.under(z3.Not(pf(i)), lambda: u.prove(r.at(i) == x(i), "unchanged where not periodic"))
