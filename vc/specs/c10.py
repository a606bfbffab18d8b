"""C10: site ids and locations."""
from speclib import *
from models import roundto

PS = "core.periodic_structure"
PC = PS + ".PeriodicStructure"
FIELDS = ("_sites", "_location_lookup", "site_ids", "lattice", "dim")


class Reg:
    """A structure in some lattice (by the contract of wrapping, C08), holding any number n of
    sites: the representation after n additions at the places x(0), ..., x(n-1), no two of which
    are the same place.  Wrapped places are those of the contract; two places are the same when
    their wrapped coordinates agree to three decimals in the sense of the key below."""

    def __init__(self, u, d, empty=False, more={}):
        self.u, self.d = u, d
        E = u.E
        W = [z3.Function(f"WRAP{j}", *[REAL] * d, REAL) for j in range(d)]
        self.W = W
        self.X = [z3.Function(f"x{j}", INT, REAL) for j in range(d)]
        self.off = z3.Q(1, 1000)

        def wrap(loc):
            v = u.ops.models.vec(loc)
            if not E.ops.same_term(v.n, d):
                raise Unsupported("location of another dimension")
            c = [v.at(z3.IntVal(j)) for j in range(d)]
            return self.vec(self.wrap(c))
        self.lat = u.stub("Lattice", {"get_periodized_cartesian_coords": u.native(wrap), "dim": d, **more})
        self.s = u.new(PS, "PeriodicStructure", self.lat)
        for f in FIELDS:
            if f not in self.s.fields:
                raise Skip(f"the structure has no {f}")
        if not empty:
            u.known(self.s, FIELDS + ("_offset_vector",))
        # (to three decimals: nothing else is used of it)
        E.defs["roundto"] = lambda x, k: [z3.Implies(k == 3, z3.And(roundto(x, k) - x <= z3.Q(1, 2000), x - roundto(x, k) <= z3.Q(1, 2000)))]
        if empty:
            self.n = 0
            return
        n = self.n = u.int("n", lo=0)
        cls = z3.Function("class", INT, V)
        self.cls = lambda i: cls(zi(i))
        E.defs["class"] = lambda i: [cls(i) != V.VNone]
        pos = z3.Function("pos", V, INT)
        has = z3.Function("used", V, BOOL)
        key = lambda i: E.toV(self.key(self.x(i)))
        E.defs["used"] = lambda q: [has(q) == z3.And(pos(q) >= 0, pos(q) < n, key(pos(q)) == q)]
        E.defs["x0"] = lambda i: [z3.Implies(z3.And(i >= 0, i < n), pos(key(i)) == i)]
        self.pos = pos
        ids = self.s.fields["site_ids"] = ListObj(E, Seq([self.idpart()]))
        p = Part(n, true, lambda i: V.VInt(zi(i)), None, "distinct")
        p.keyinv = (lambda i: V.VInt(zi(i)), lambda q: z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < n), lambda q: V.vi(q))
        p.keyinv += ((key, has, pos),)
        self.s.fields["_sites"] = DictObj(E, Base(lambda q: u.ops.simp(z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < n)), lambda q: self.site(z3.simplify(V.vi(q))), Seq([p]), "sites", True))
        k = Part(n, true, key, None, "distinct")
        k.keyinv = (key, has, pos)
        self.s.fields["_location_lookup"] = DictObj(E, Base(has, lambda q: pos(q), Seq([k]), "places", False))

    def idpart(self):
        p = Part(self.n, true, lambda i: zi(i), None, "distinct")
        p.keyinv = (lambda i: V.VInt(zi(i)), lambda q: z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < self.n), lambda q: V.vi(q))
        return p

    def vec(self, c):
        return Vec(self.d, lambda i: self.u.ops.models.pick(c, i))

    def wrap(self, c):
        return [w(*c) for w in self.W]

    def x(self, i):
        return [x(zi(i)) for x in self.X]

    def key(self, c):
        """what tells places apart: the wrapped coordinates, shifted by a thousandth, to three decimals"""
        return TupleVal([roundto(z3.simplify(w + self.off), z3.IntVal(3)) for w in self.wrap(c)])

    def same(self, a, b):
        return conj([p == q for p, q in zip(self.key(a).items, self.key(b).items)])

    def place(self, c):
        """the recorded location"""
        return [roundto(w, z3.IntVal(3)) for w in self.wrap(c)]

    def site(self, i, cls=None, c=None):
        u = self.u
        E = u.E
        C, LOC, ID = (E.toV(u.const(x)) for x in ("SITE_CLASS", "LOCATION", "SITE_ID"))
        return DictObj(None, None, [(C, self.cls(i) if cls is None else cls), (LOC, self.vec(self.place(self.x(i) if c is None else c))), (ID, zi(i))])

    def point(self, nm):
        return [z3.Real(f"{nm}{j}") for j in range(self.d)]

    def given(self, c, how):
        return {"tuple": lambda: TupleVal(list(c)), "list": lambda: ListObj(self.u.E, Seq.of(list(c))), "array": lambda: self.vec(c)}[how]()

    def saved(self):
        return [(f, self.u.frozen(self.s.fields[f]) if isinstance(self.s.fields[f], Obj) and not isinstance(self.s.fields[f], Inst) else self.s.fields[f]) for f in self.s.fields]

    def unchanged(self, before, what):
        u = self.u
        now = dict(self.saved())
        if not u.shape(set(now) == {f for f, _ in before}, what + ": same parts"):
            return          # (something is remembered: what is read afterwards is asked below)
        for f, v in before:
            if v is not now[f] and f not in FIELDS:
                u.shape(False, f"{what}: {f}")
            elif v is not now[f]:
                u.same(now[f], v, f"{what}: {f}")

    def someone(self, c):
        """the id of the site at a place, and whether there is one"""
        E = self.u.E
        q = E.toV(self.key(c))
        return self.pos(q), z3.And(self.pos(q) >= 0, self.pos(q) < self.n, E.toV(self.key(self.x(self.pos(q)))) == q)


for d in (1, 2, 3):
    @unit("C10", f"a new structure of dimension {d}", [PC + ".__init__", PC + ".add_site", PC + ".site_at"])
    def _(u, d=d):
        r = Reg(u, d, empty=True)
        u.same(u.ops.seq_of(u.attr(r.s, "site_ids")).concrete(), [], "no ids") if False else u.ok(u.ops.seq_of(u.attr(r.s, "site_ids")).concrete() == [], "no ids")
        u.ok(u.ops.seq_of(u.do(r.s, "sites")).concrete() == [], "no sites")
        u.ok(u.do(r.s, "id_at", r.given(r.point("y"), "tuple")) is None, "nothing anywhere")
        u.same(u.attr(r.s, "dim"), d, "the dimension of the lattice")
        c, p = u.opq("cls"), r.point("p")
        u.same(u.do(r.s, "add_site", c, r.given(p, "tuple")), 0, "the first site gets the id 0")
        u.same(u.do(r.s, "get_site", 0), r.site(0, c, p), "its class, wrapped and rounded location, and id")
        y = r.point("y")
        got = u.do(r.s, "id_at", r.given(y, "list"))
        there = zb(r.same(y, p))
        u.prove(there, "found only where it is") if got is not None else u.prove(z3.Not(there), "not found only elsewhere")
        if got is not None:
            u.same(got, 0, "the site that is there")

    for how in ("tuple", "list", "array"):
        @unit("C10", f"adding a site at a free place, dimension {d}, given as {how}", [PC + ".add_site", PC + "._transformed_coords", PC + "._coords_with_offset", PC + "._get_rounded_coords", PC + ".site_at", PC + ".id_at", PC + ".get_site", PC + ".sites"])
        def _(u, d=d, how=how):
            r = Reg(u, d)
            p, c = r.point("p"), u.opq("cls")
            u.assume(c != V.VNone)
            who, there = r.someone(p)
            u.assume(z3.Not(there))
            old = r.saved()
            u.same(u.do(r.s, "add_site", c, r.given(p, how)), r.n, "the new site gets the next id")
            u.same_seq(u.ops.seq_of(u.attr(r.s, "site_ids")), Seq([Part(r.n + 1, true, lambda i: zi(i))]), "the ids are 0, 1, 2, ... in order")
            u.same(u.do(r.s, "get_site", r.n), r.site(r.n, c, p), "its class, wrapped and rounded location, and id")
            i = u.int("i", lo=0)
            u.assume(i < r.n)
            u.same(u.do(r.s, "get_site", i), r.site(i), "the other sites are as they were")
            u.same_seq(u.ops.seq_of(u.do(r.s, "sites")), Seq([Part(r.n, true, lambda i: r.site(i)), Item(r.site(r.n, c, p))]), "the sites in order")
            y = r.point("y")
            got = u.do(r.s, "id_at", r.given(y, "tuple"))
            k, known = r.someone(y)
            here = zb(r.same(y, p))
            if got is None:
                u.prove(z3.Not(z3.Or(here, known)), "nothing is found only where there is no site")
            else:
                u.prove(z3.If(here, zi(u.plain(got)) == r.n, z3.And(known, zi(u.plain(got)) == k)), "looking up a location gives the site there")

        @unit("C10", f"adding a site where one is, dimension {d}, given as {how}", [PC + ".add_site", PC + "._transformed_coords"])
        def _(u, d=d, how=how):
            r = Reg(u, d)
            p, c = r.point("p"), u.opq("cls")
            k = u.int("k", lo=0)
            u.assume(k < r.n)
            u.assume(r.same(p, r.x(k)))
            old = r.saved()
            try:
                u.do(r.s, "add_site", c, r.given(p, how))
            except Raise as e:
                r.unchanged(old, "a rejected addition leaves the structure as it was")
                return
            u.unreachable("a site where one already is, is rejected")

        @unit("C10", f"looking up a location, dimension {d}, given as {how}", [PC + ".site_at", PC + ".id_at", PC + ".class_at", PC + ".get_site", PC + "._transformed_coords"])
        def _(u, d=d, how=how):
            r = Reg(u, d)
            y = r.point("y")
            k, known = r.someone(y)
            old = r.saved()
            a = r.given(y, how)
            i, s, c = u.do(r.s, "id_at", a), u.do(r.s, "site_at", a), u.do(r.s, "class_at", a)
            r.unchanged(old, "looking things up never changes the structure")
            if i is None:
                u.prove(z3.Not(known), "nothing is found only where there is no site")
                u.ok(s is None and c is None, "no site and no class there either")
                return
            u.fact(known, "a site is found only where one is")
            i = u.plain(i)
            u.prove(zi(i) == k, "the site that is there")
            u.same(s, r.site(i), "with its class, location and id")
            u.same(c, r.cls(i), "its class")
            near = conj([z3.And(a - b <= z3.Q(1, 1000), b - a <= z3.Q(1, 1000)) for a, b in zip(r.wrap(y), r.wrap(r.x(k)))])
            u.prove(near, "the place is that of the site to three decimals, in the cell")
            # the location itself and its images
            z = u.int("z", lo=0)
            u.assume(z < r.n)
            img = conj([a == b for a, b in zip(r.wrap(y), r.wrap(r.x(z)))])
            u.under(img, lambda: u.prove(zi(i) == z, "every image of a site's location leads to the site"))

    @unit("C10", f"a location is found, and so is every image of it, dimension {d}", [PC + ".id_at", PC + ".site_at"])
    def _(u, d=d):
        r = Reg(u, d)
        y = r.point("y")
        z = u.int("z", lo=0)
        u.assume(z < r.n)
        u.assume(conj([a == b for a, b in zip(r.wrap(y), r.wrap(r.x(z)))]))
        got = u.do(r.s, "id_at", r.given(y, "tuple"))
        if u.ok(got is not None, "the site is found"):
            u.prove(zi(u.plain(got)) == z, "the site added there")


for d in (1, 2, 3):
    @unit("C10", f"the state at a location, dimension {d}", ["core.simulation.Simulation.state_at"])
    def _(u, d=d):
        """the state of the site that is found there, in any state"""
        r = Reg(u, d)
        y = r.point("y")
        k, known = r.someone(y)
        st = u.stub("SimulationState", {"get_site_state": u.native(lambda i: z3.Function("STATE", INT, V)(zi(u.plain(i))))})
        old = r.saved()
        a = r.given(y, "tuple")
        got = u.do(u.new("core.simulation", "Simulation", st, r.s), "state_at", a)
        r.unchanged(old, "looking things up never changes the structure")
        if got is None:
            u.prove(z3.Not(known), "nothing is found only where there is no site")
        else:
            u.fact(known, "a state is found only where a site is")
            u.prove(u.E.toV(got) == z3.Function("STATE", INT, V)(k), "the state of the site that is there")


@unit("C10", "looking sites up by id and class", [PC + ".get_site", PC + ".site_class", PC + ".site_location", PC + ".sites", PC + ".all_site_classes"])
def _(u):
    r = Reg(u, 2)
    old = r.saved()
    i = u.int("i")
    got = u.do(r.s, "get_site", i)
    inside = z3.And(i >= 0, i < r.n)
    if got is None:
        u.prove(z3.Not(inside), "nothing is found only for an unknown id")
        return
    u.fact(inside, "a site is found only for a known id")
    u.same(got, r.site(i), "the class it was added with, its location and its id")
    u.same(u.do(r.s, "site_class", i), r.cls(i), "its class")
    u.same(u.do(r.s, "site_location", i), r.vec(r.place(r.x(i))), "its location")
    c = u.opq("cls")
    u.assume(c != V.VNone)
    u.same_seq(u.ops.seq_of(u.do(r.s, "sites")), Seq([Part(r.n, true, lambda i: r.site(i))]), "all sites in order")
    u.same_seq(u.ops.seq_of(u.do(r.s, "sites", c)), Seq([Part(r.n, lambda i: r.cls(i) == c, lambda i: r.site(i))]), "the sites of a class in order")
    u.same_seq(u.ops.seq_of(u.attr(r.s, "site_ids")), Seq([Part(r.n, true, lambda i: zi(i))]), "the ids in order")
    cs = u.do(r.s, "all_site_classes")
    x = u.opq("x")
    u.prove(zb(u.contains(cs, x)) == zb(u.E.loops.EX(r.n, lambda i: r.cls(i) == x)), "exactly the classes of the sites")
    u.each_once(cs, "each class once")
    r.unchanged(old, "looking things up never changes the structure")


@unit("C10", "looking things up, adding a site, and looking them up again", [PC + ".add_site", PC + ".get_site", PC + ".sites", PC + ".all_site_classes", PC + ".id_at", PC + ".site_at"])
def _(u):
    """What was asked before the addition has no influence on what is read after it."""
    r = Reg(u, 2)
    c, p = u.opq("cls"), r.point("p")
    u.assume(c != V.VNone)
    k, there = r.someone(p)
    u.assume(z3.Not(there))
    u.ok(u.do(r.s, "get_site", r.n) is None, "no site with the next id yet")
    u.ok(u.do(r.s, "id_at", r.given(p, "tuple")) is None, "nothing there yet")
    u.do(r.s, "sites")
    u.do(r.s, "sites", c)
    u.do(r.s, "all_site_classes")
    u.same(u.do(r.s, "add_site", c, r.given(p, "tuple")), r.n, "the new site gets the next id")
    new = r.site(r.n, c, p)
    u.same(u.do(r.s, "get_site", r.n), new, "the new site under its id")
    u.same(u.do(r.s, "id_at", r.given(p, "tuple")), r.n, "the new site at its place")
    u.same(u.do(r.s, "site_at", r.given(p, "list")), new, "the new site at its place, as a site")
    u.same_seq(u.ops.seq_of(u.do(r.s, "sites")), Seq([Part(r.n, true, lambda i: r.site(i)), Item(new)]), "all sites, the new one last")
    u.same_seq(u.ops.seq_of(u.do(r.s, "sites", c)), Seq([Part(r.n, lambda i: r.cls(i) == c, lambda i: r.site(i)), Item(new)]), "the sites of its class, the new one last")
    cs = u.do(r.s, "all_site_classes")
    x = u.opq("x")
    u.prove(zb(u.contains(cs, x)) == z3.Or(x == c, zb(u.E.loops.EX(r.n, lambda i: r.cls(i) == x))), "the classes, that of the new site among them")
