"""C18: generated starting states."""
from speclib import *
from models import roundint

MOD = "structures.square_grid.grid_setup"
GS = MOD + ".DiscreteGridSetup"
BUILDERS = {2: "SimpleSquare2DStructureBuilder", 3: "SimpleSquare3DStructureBuilder"}


class Grid:
    """What the square grid builders build, by contract (C11): a structure with one site at every
    whole-numbered place of a cube of the given side; sites are found by their place (C10)."""

    def __init__(self, u, dim, size=None, exact=False, pre=""):
        self.u, self.dim, self.exact, self.pre = u, dim, exact, pre
        E = u.E
        self.size = u.int(pre + "size", lo=1) if size is None else size
        self.made = []
        AT = z3.Function(pre + "SITEAT", *[REAL] * dim, INT)
        self.at = lambda v: AT(*[v.at(z3.IntVal(j)) for j in range(dim)])

        def build(E, a, k):
            b = a[0]
            size = a[1] if len(a) > 1 else k["size"]
            u.ok(isinstance(b, Inst) and b.cls.name == BUILDERS[dim], "the grid has the dimension of the setup")
            u.prove(zi(size) == self.size, "the grid has the given side")
            u.shape(not self.made, "one structure is built")
            return self.structure()
        E.contracts["StructureBuilder.build"] = build

    def structure(self):
        u, dim = self.u, self.dim
        E = u.E
        site_at = u.native(lambda v: u.call(s.table["get_site"], self.at(u.ops.models.vec(v))))
        lat = u.stub("Lattice", {"vec_lengths": ListObj(E, Seq.of([z3.ToReal(self.size)] * dim)), "dim": dim})
        pre = self.pre
        whole = z3.Function(pre + "place", INT, INT, INT)
        if self.exact:
            s = u.structure(pre + "st", dim=dim, coords=lambda i, j: z3.ToReal(whole(zi(i), zi(j))), site_at=site_at, lattice=lat)
            E.defs[pre + "place"] = lambda i, j: [z3.Implies(z3.And(i >= 0, i < s.n), z3.And(whole(i, j) >= 0, whole(i, j) < self.size))]
            self.made.append(s)
            return s
        s = u.structure(pre + "st", dim=dim, site_at=site_at, lattice=lat)
        E.defs[pre + "st.loc"] = lambda i, j: [z3.Implies(z3.And(i >= 0, i < s.n), z3.And(s.co(i, j) == z3.ToReal(whole(i, j)), whole(i, j) >= 0, whole(i, j) < self.size))]
        self.made.append(s)
        return s

    def setup(self):
        u = self.u
        return u.new(MOD, "DiscreteGridSetup", u.opq("phases"), self.dim)

    def simulation(self, sim):
        """the simulation is of the built structure"""
        u = self.u
        u.shape(len(self.made) == 1 and u.attr(sim, "structure") is self.made[0], "the simulation has the built structure")
        return u.attr(sim, "state")

    def holds(self, state, phase, what):
        """the state holds phase(i) at site i for every site, and nothing else"""
        u = self.u
        u.same(u.frozen(u.attr(state, "_state")), self.content(phase), what)

    def content(self, phase):
        u = self.u
        E, s = u.E, self.made[0]
        SITES, GENERAL, SID = (E.toV(u.const(c)) for c in ("SITES", "GENERAL", "SITE_ID"))
        occ = E.toV(u.get("discrete.state_constants", "DISCRETE_OCCUPANCY"))
        p = Part(s.n, true, lambda i: zi(i), None, "distinct")
        p.keyinv = (lambda i: V.VInt(zi(i)), lambda q: z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < s.n), lambda q: V.vi(q))
        sites = DictObj(None, Base(p.keyinv[1], lambda q: DictObj(None, None, [(SID, V.vi(q)), (occ, phase(V.vi(q)))]), Seq([p])))
        return DictObj(None, None, [(SITES, sites), (GENERAL, DictObj(None, None, []))])

    def state(self, phase):
        """a state holding phase(i) at site i"""
        return self.u.new("core.simulation_state", "SimulationState", self.content(phase))


for d in (2, 3):
    @unit("C18", f"a solid start, dimension {d}", [GS + ".setup_solid_phase", GS + "._build_blank_state"])
    def _(u, d=d):
        g = Grid(u, d)
        s = g.structure()
        p = u.opq("phase")
        st = u.do(g.setup(), "setup_solid_phase", s, p)
        g.holds(st, lambda i: p, "the phase at every site, and nothing else")

    @unit("C18", f"a bare structure, dimension {d}", [GS + ".build_structure"])
    def _(u, d=d):
        g = Grid(u, d)
        st = u.do(g.setup(), "build_structure", g.size)
        u.shape(len(g.made) == 1 and st is g.made[0], "the grid of the given side")

    @unit("C18", f"an interface, dimension {d}", [GS + ".setup_interface", GS + "._build_blank_state"])
    def _(u, d=d):
        g = Grid(u, d)
        p, q = u.opq("p1"), u.opq("p2")
        u.fact(z3.ToInt(z3.ToReal(g.size) / 2) == g.size / 2, "half the side, rounded down")
        st = g.simulation(u.do(g.setup(), "setup_interface", g.size, p, q))
        s = g.made[0]
        g.holds(st, lambda i: z3.If(s.co(i, z3.IntVal(0)) < z3.ToReal(g.size / 2), p, q), "the first phase below half the side, rounded down, the second elsewhere")

    @unit("C18", f"a particle added to any state, dimension {d}", [GS + ".add_particle_to_state", "core.distance_map.distance"])
    def _(u, d=d):
        g = Grid(u, d)
        s = g.structure()
        before = z3.Function("before", INT, V)
        st = g.state(lambda i: before(zi(i)))
        c = [u.real(f"c{j}") for j in range(d)]
        r, p = u.real("radius"), u.opq("particle")
        got = u.do(g.setup(), "add_particle_to_state", s, st, TupleVal(c), r, p)
        g.holds(got, lambda i: z3.If(closer(s, i, c, r, d), p, before(zi(i))), "the particle's phase exactly at the sites closer to the center than the radius")

    @unit("C18", f"a particle, dimension {d}", [GS + ".setup_particle", GS + ".add_particle_to_state", "core.distance_map.distance"])
    def _(u, d=d):
        g = Grid(u, d)
        r, p, b = u.real("radius"), u.opq("particle"), u.opq("bulk")
        st = g.simulation(u.do(g.setup(), "setup_particle", g.size, r, b, p))
        s = g.made[0]
        half = z3.ToReal(g.size) / 2
        g.holds(st, lambda i: z3.If(closer(s, i, [half] * d, r, d), p, b), "the particle's phase exactly at the sites closer to the middle than the radius")

    @unit("C18", f"starts of a setup that was used before, dimension {d}", [GS + ".setup_solid_phase", GS + ".setup_interface", GS + ".setup_particle", GS + "._build_blank_state"])
    def _(u, d=d):
        """for a grid of another size, with other phases"""
        g0 = Grid(u, d, pre="old.")
        setup = g0.setup()
        p0, q0, p, q = u.opq("old.p"), u.opq("old.q"), u.opq("p"), u.opq("q")
        r0, r = u.real("old.radius"), u.real("radius")
        u.do(setup, "setup_solid_phase", g0.structure(), p0)
        g0.made.clear()
        u.do(setup, "setup_interface", g0.size, p0, q0)
        g0.made.clear()
        u.do(setup, "setup_particle", g0.size, r0, q0, p0)
        g = Grid(u, d)
        st = u.do(setup, "setup_solid_phase", g.structure(), p)
        g.holds(st, lambda i: p, "the phase at every site, and nothing else")
        g.made.clear()
        u.fact(z3.ToInt(z3.ToReal(g.size) / 2) == g.size / 2, "half the side, rounded down")
        st = g.simulation(u.do(setup, "setup_interface", g.size, p, q))
        s = g.made[0]
        g.holds(st, lambda i: z3.If(s.co(i, z3.IntVal(0)) < z3.ToReal(g.size / 2), p, q), "the first phase below half the side of this grid, rounded down, the second elsewhere")
        g.made.clear()
        st = g.simulation(u.do(setup, "setup_particle", g.size, r, q, p))
        s, half = g.made[0], z3.ToReal(g.size) / 2
        g.holds(st, lambda i: z3.If(closer(s, i, [half] * d, r, d), p, q), "the particle's phase exactly at the sites closer to the middle of this grid than the radius")

    @unit("C18", f"noise, dimension {d}", [GS + ".setup_noise", GS + "._build_blank_state"])
    def _(u, d=d):
        g = Grid(u, d)
        ph = u.list("phases")
        u.assume(ph.n > 0)
        st = g.simulation(u.do(g.setup(), "setup_noise", g.size, ph))
        got = u.frozen(u.attr(st, "_state"))
        i = u.int("i", lo=0)
        u.assume(i < g.made[0].n)
        SITES = u.const("SITES")
        occ = u.get("discrete.state_constants", "DISCRETE_OCCUPANCY")
        at = lambda i: u.at(u.at(u.at(got, SITES), V.VInt(i)), occ)
        v = u.E.toV(at(i))
        u.prove(u.E.loops.EX(ph.n, lambda k: ph.at(k) == v), "one of the given phases")
        g.holds(st, lambda i: u.E.toV(at(i)), "at every site, and nothing else")


def closer(s, i, c, r, d):
    """the distance of site i from c is less than r"""
    q = z3.Sum([(s.co(zi(i), z3.IntVal(j)) - c[j]) * (s.co(zi(i), z3.IntVal(j)) - c[j]) for j in range(d)])
    return z3.And(r > 0, q < r * r)


for d in (2, 3):
    @unit("C18", f"given coordinates, dimension {d}", [GS + ".setup_coords", GS + ".setup_solid_phase", GS + "._build_blank_state"])
    def _(u, d=d):
        """The coordinates are at different places."""
        g = Grid(u, d)
        E = u.E
        count = z3.Function("coords", V, INT)
        E.defs["coords"] = lambda k: [count(k) >= 0]
        pt = z3.Function("coord", V, INT, INT, REAL)
        at = lambda k, m: g.at(Vec(d, lambda j: pt(k, zi(m), j)))
        KEY, IX = z3.Function("PHASEOF", INT, V), z3.Function("INDEXOF", INT, INT)
        N = z3.Int("st.n")
        E.defs["coord"] = lambda k, m, j: [z3.Implies(z3.And(m >= 0, m < count(k)), z3.And(at(k, m) >= 0, at(k, m) < N, KEY(at(k, m)) == k, IX(at(k, m)) == m))]
        given = u.symdict("given", lambda k: ListObj(None, Seq([Part(count(k), true, lambda m: TupleVal([pt(k, zi(m), z3.IntVal(j)) for j in range(d)]))])))
        saved = u.frozen(given)
        bg = u.opq("background")
        st = g.simulation(u.do(g.setup(), "setup_coords", g.size, bg, given))
        u.same(u.frozen(given), saved, "the coordinates are as they were")
        there = lambda i: z3.And(given.has(KEY(i)), IX(i) >= 0, IX(i) < count(KEY(i)), at(KEY(i), IX(i)) == i)
        g.holds(st, lambda i: z3.If(there(i), KEY(i), bg), "the phases at their coordinates, the background elsewhere")

    @unit("C18", f"the sides of a grid, dimension {d}", ["core.lattice.Lattice.__init__", "core.lattice.Lattice.get_scaled_lattice", GS + ".__init__"])
    def _(u, d=d):
        n = u.int("n", lo=1)
        b = u.attr(u.new(MOD, "DiscreteGridSetup", u.opq("phases"), d), "_builder")
        lat = u.do(u.attr(b, "lattice"), "get_scaled_lattice", ListObj(u.E, Seq.of([n] * d)))
        l = u.attr(lat, "vec_lengths")
        u.prove(zi(u.ops.length(l)) == d, "one side per direction")
        for j in range(d):
            u.prove(u.ops.getitem(l, j) == z3.ToReal(n), "of the given length")


for d in (2, 3):
    @unit("C18", f"particles at random places, dimension {d}", [GS + ".setup_random_particles"])
    def _(u, d=d):
        """Each particle by contract (add_particle_to_state), the background by that of setup_solid_phase."""
        E = u.E
        g = Grid(u, d)
        u.abstract_states()
        solid = z3.Function("SOLID", V, V)
        r, bulk, num = u.real("radius"), u.opq("bulk"), u.int("number", lo=0)
        ph = u.list("phases")
        u.assume(ph.n > 0)
        made, log = [], ListObj(E, Seq())
        log.ghost = True

        def blank(E, a, k):
            st, p = a[1] if len(a) > 1 else k["structure"], a[2] if len(a) > 2 else k["phase_name"]
            u.ok(len(g.made) == 1 and st is g.made[0], "the background fills the built structure")
            u.prove(E.toV(p) == bulk, "the background phase fills it")
            made.append(u.astate(solid(bulk)))
            return made[-1]
        E.contracts["DiscreteGridSetup.setup_solid_phase"] = blank

        def particle(E, a, k):
            st, state, c, rad, p = [a[i + 1] if len(a) > i + 1 else k[nm] for i, nm in enumerate(("structure", "state", "center", "radius", "particle_phase"))]
            u.ok(st is g.made[0], "a particle is added to the built structure")
            u.ok(state is made[0], "a particle is added to the state")
            co = [zi(x) for x in u.ops.unpack(c, d, False)]
            for x in co:
                u.prove(z3.And(x >= 0, x < g.size), "a particle is centered at a place of the grid")
            u.prove(E.num(rad) == r, "of the given radius")
            pv = E.toV(p)
            u.prove(E.loops.EX(ph.n, lambda i: ph.at(i) == pv), "a particle has one of the given phases")
            u.ops.list_append(log, pv)
            return state
        E.contracts["DiscreteGridSetup.add_particle_to_state"] = particle
        sim = u.do(g.setup(), "setup_random_particles", g.size, r, num, bulk, ph)
        st = g.simulation(sim)
        u.shape(len(made) == 1 and st is made[0], "the state made, with the particles added to it")
        u.prove(zi(u.ops.length(log)) == num, "as many particles as asked for")


# ---------------------------------------------------------------- randomly placed sites
# Invariants of the two loops of setup_random_sites.  What the loops may do in addition is found
# by the frame condition: a location they change that the invariant does not name is refused.

class Random:
    def __init__(self, u, d, buffer):
        self.u, self.buffer = u, buffer
        E = u.E
        g = self.g = Grid(u, d)
        self.ask = u.real("request")
        self.N = roundint(self.ask)
        u.assume(self.N >= 0)
        amt = z3.Function("amount", V, REAL)
        E.defs["amount"] = lambda k: [amt(k) >= 0]
        self.given = u.symdict("amounts", lambda k: amt(k))
        x = self.given
        self.total = E.loops.SUM(x.n, lambda i: amt(x.key(zi(i))))
        u.assume(self.total > 0)
        self.bg = u.opq("background")
        u.assume(z3.Not(x.has(self.bg)))
        self.share = lambda p: amt(p) / self.total * self.N
        self.near = z3.Function("near", INT, INT, BOOL)
        # the final assignment of phases (first loop) and the occupancy of sites (second loop)
        E.guess = True
        self.assign, self.place = Assign(self), Place(self)
        E.annotations[:] = [self.assign, self.place]


class Assign:
    """ids: phases of the request, one after the other; there are at most as many as requested;
    the counts are those of the phases in ids, and less than the share plus one"""

    def __init__(self, r):
        self.r = r

    def look(self, fr):
        try:
            return fr.vars["nuc_identities"], fr.vars["real_num_sites"]
        except KeyError as e:
            raise Unsupported(f"the invariant mentions {e}")

    def count(self, n, at, p):
        return self.r.u.E.loops.SUM(n, lambda j: z3.If(at(j) == p, 1, 0))

    def check(self, fr, when):
        u, r = self.r.u, self.r
        ids, real = self.look(fr)
        n = zi(u.ops.length(ids))
        at = u.ops.models.indexer(u.ops.freeze_seq(ids.seq))
        u.prove(n <= r.N, "no more phases than requested, " + when)
        j = u.int("j", lo=0)
        u.under(j < n, lambda: u.prove(r.given.has(u.E.toV(at(j))), "only given phases, " + when))
        return n, at, u.frozen(real)

    def entry(self, fr):
        u, r = self.r.u, self.r
        n, at, real = self.check(fr, "at the start")
        p = u.opq("p")
        u.prove(n == 0, "no phases at the start")
        u.prove(zb(u.has(real, p)) == r.given.has(p), "a count for every phase, at the start")
        u.under(r.given.has(p), lambda: u.prove(u.E.num(u.at(real, p)) == 0, "all counts are zero at the start"))
        ideal = u.frozen(fr.vars["ideal_num_sites"])
        u.under(r.given.has(p), lambda: u.prove(u.at(ideal, p) == r.share(p), "the share of a phase"))
        a, t, n = u.real("a"), u.real("t"), u.int("n")
        u.under(z3.And(a >= 0, t > 0, n >= 0), lambda: u.prove(a / t * n >= 0, "shares are not negative"))

    def havoc(self, fr):
        u, r = self.r.u, self.r
        E = u.E
        ids, real = self.look(fr)
        L = self.L = E.const("assigned", INT)
        f = E.fun("ids", INT, V)
        self.at = lambda j: f(zi(j))
        nm = f(zi(0)).decl().name()
        cnt = E.fun("counts", V, INT)
        self.cnt = cnt
        nc = cnt(r.bg).decl().name()
        E.defs[nm] = lambda j: [z3.Implies(z3.And(j >= 0, j < L), r.given.has(f(j)))]
        E.defs[nc] = lambda p: [z3.Implies(r.given.has(p), z3.And(cnt(p) == self.count(L, self.at, p), cnt(p) < r.share(p) + 1))]
        u.assume(z3.And(L >= 0, L <= r.N))
        ids.seq = Seq([Part(L, true, lambda j: f(zi(j)))])
        x = r.given
        p = Part(x.n, true, lambda i: x.key(zi(i)), None, "distinct")
        real.base, real.ents, real.mats = Base(lambda q: x.has(q), lambda q: cnt(q), Seq([p])), [], []
        return [("seq", ids, None), ("dict", real, None)]

    def again(self, fr):
        u, r = self.r.u, self.r
        n, at, real = self.check(fr, "after a round")
        p = u.opq("p")
        u.prove(zb(u.has(real, p)) == r.given.has(p), "a count for every phase, after a round")
        u.assume(r.given.has(p))
        u.note(self.cnt(p))
        c = u.E.num(u.at(real, p))
        more = z3.If(u.E.toV(at(self.L)) == p, 1, 0)
        u.prove(z3.Or(n == self.L, n == self.L + 1), "at most one more phase")
        u.prove(c == self.cnt(p) + z3.If(n > self.L, more, 0), "the count of the phases assigned, after a round")
        j = u.int("j", lo=0)
        u.under(j < self.L, lambda: u.prove(u.E.toV(at(j)) == self.at(j), "the phases before are kept"))
        u.prove(c < r.share(p) + 1, "less than one more than the share, after a round")


class Place:
    """occ: the sites that do not hold the background hold given phases, as many as placed so far,
    of each phase as many as among the first assigned, and no two of them within the buffer"""

    def __init__(self, r):
        self.r = r

    def look(self, fr):
        try:
            st = fr.vars["state"]
            d = self.r.u.attr(st, "_state")
            s = dict((k.get_id(), v) for k, v in d.ents)[self.r.u.E.toV(self.r.u.const("SITES")).get_id()]
            return s, fr.vars["num_sites_planted"], fr.vars["total_attempts"], fr.vars["nuc_identities"]
        except KeyError as e:
            raise Unsupported(f"the invariant mentions {e}")

    def occ_of(self, sites):
        u = self.r.u
        occ = u.get("discrete.state_constants", "DISCRETE_OCCUPANCY")
        fz = u.frozen(sites)
        return lambda i: u.E.toV(u.at(u.at(fz, V.VInt(zi(i))), occ))

    def entry(self, fr):
        u, r = self.r.u, self.r
        sites, k, t, ids = self.look(fr)
        s = r.g.made[0]
        r.g.holds(fr.vars["state"], lambda i: r.bg, "the background everywhere at the start")
        u.prove(zi(k) == 0, "nothing is placed at the start")
        o = self.occ_of(sites)
        i = u.int("i", lo=0)
        u.assume(i < s.n)
        u.prove(o(i) == r.bg, "the background at every site at the start")
        p = u.opq("p")
        u.assume(p != r.bg)
        S = u.E.loops.SUM
        u.induct(lambda m: S(m, lambda i: z3.If(r.bg != r.bg, 1, 0)) == 0, 0, s.n, "no site is placed")
        u.induct(lambda m: S(m, lambda i: z3.If(r.bg == p, 1, 0)) == 0, 0, s.n, "no site of any phase")

    def havoc(self, fr):
        u, r = self.r.u, self.r
        E, s = u.E, r.g.made[0]
        sites, _, _, ids = self.look(fr)
        f = E.fun("occ", INT, V)
        self.occ = lambda i: f(zi(i))
        nm = f(zi(0)).decl().name()
        K = self.K = E.const("placed", INT)
        T = E.const("attempts", INT)
        self.ids = u.ops.models.indexer(u.ops.freeze_seq(ids.seq))
        S = E.loops.SUM
        self.n_of = lambda occ, p, m: S(m, lambda i: z3.If(occ(i) == p, 1, 0))
        self.n_all = lambda occ, m: S(m, lambda i: z3.If(occ(i) != r.bg, 1, 0))
        self.n_ids = lambda p, m: S(m, lambda j: z3.If(E.toV(self.ids(j)) == p, 1, 0))
        CNT = self.CNT = z3.Function("balance", V, INT)
        E.defs["balance"] = lambda p: [z3.Implies(p != r.bg, self.n_of(self.occ, p, s.n) == self.n_ids(p, K))]
        E.defs[nm] = lambda i: [z3.Implies(z3.And(i >= 0, i < s.n), z3.Or(f(i) == r.bg, r.given.has(f(i))))]
        near = r.near
        self.apart = lambda occ, a, b: z3.Implies(z3.And(near(a, b), a != b, a >= 0, a < s.n, b >= 0, b < s.n), z3.Or(occ(a) == r.bg, occ(b) == r.bg))
        E.defs["near"] = lambda a, b: [near(a, b) == near(b, a), self.apart(self.occ, a, b), r.listed(a, b)]
        u.assume(z3.And(K >= 0, K <= r.N, T >= 0, self.n_all(self.occ, s.n) == K))
        c = r.g.content(self.occ).ents[0][1]
        sites.base, sites.ents, sites.mats = c.base, [], []
        fr.vars["num_sites_planted"], fr.vars["total_attempts"] = K, T
        return [("dict", sites, None), ("fld", fr, "num_sites_planted"), ("fld", fr, "total_attempts")]

    def again(self, fr):
        u, r = self.r.u, self.r
        E, s = u.E, r.g.made[0]
        sites, k, t, ids = self.look(fr)
        k = zi(k)
        new = self.occ_of(sites)
        r.g.holds(fr.vars["state"], new, "every site has an occupancy, and nothing else, after a round")
        u.prove(z3.And(k >= 0, k <= r.N, zi(t) >= 0), "not more than requested, after a round")
        if E.valid(k == self.K):
            i = u.int("i", lo=0)
            u.under(i < s.n, lambda: u.prove(new(i) == self.occ(i), "nothing is changed in a round that places nothing"))
            return
        u.prove(k == self.K + 1, "one more site")
        # the site placed in this round
        _, at = E.choices[-1]
        i = u.int("i", lo=0)
        ph = E.toV(self.ids(self.K))
        u.assume(i < s.n)
        u.fact(self.occ(at) == r.bg, "the site held the background")
        u.fact(z3.And(ph != r.bg, r.given.has(ph)), "a given phase is placed")
        now = lambda i: z3.If(zi(i) == at, ph, self.occ(i))
        u.prove(new(i) == now(i), "the phase at the site chosen, everything else as it was")
        p = u.opq("p")
        u.assume(p != r.bg)
        u.note(self.CNT(p))
        u.induct(lambda m: self.n_all(now, m) == self.n_all(self.occ, m) + z3.If(at < m, 1, 0), 0, s.n, "one more site is placed")(s.n)
        u.prove(self.n_all(now, s.n) == k, "as many sites as placed")
        u.induct(lambda m: self.n_of(now, p, m) == self.n_of(self.occ, p, m) + z3.If(z3.And(at < m, ph == p), 1, 0), 0, s.n, "one more site of its phase")(s.n)
        u.prove(self.n_of(now, p, s.n) == self.n_ids(p, k), "of each phase as many as assigned")
        if r.buffer is not None:
            a, b = u.int("a", lo=0), u.int("b", lo=0)
            u.prove(self.apart(now, a, b), "no two within the buffer")


for d in (2, 3):
    for buffer in ("given", None):
        @unit("C18", f"randomly placed sites, dimension {d}, {'a' if buffer else 'no'} buffer", [GS + ".setup_random_sites", GS + ".setup_solid_phase", GS + "._build_blank_state"], budget=240)
        def _(u, d=d, buffer=buffer):
            """The Moore neighborhood by contract (C13): the sites within the buffer."""
            E = u.E
            b = u.int("buffer", lo=0) if buffer else None
            r = Random(u, d, b)
            g = r.g
            near, m, nb = r.near, z3.Function("nb.n", INT, INT), z3.Function("nb.at", INT, INT, INT)
            ix = z3.Function("nb.ix", INT, INT, INT)
            E.defs["nb.n"] = lambda a: [m(a) >= 0]
            E.defs["nb.at"] = lambda a, i: [z3.Implies(z3.And(i >= 0, i < m(a)), z3.And(near(a, nb(a, i)), nb(a, i) >= 0, nb(a, i) < g.made[0].n))] if g.made else []
            listed = lambda a, b: z3.Implies(near(a, b), z3.And(ix(a, b) >= 0, ix(a, b) < m(a), nb(a, ix(a, b)) == b))
            r.listed = listed

            def builder(E, a, k):
                u.shape(buffer is not None, "no neighborhood without a buffer")
                u.prove(zi(a[0] if a else k.get("size", 1)) == b, "the neighborhood of the buffer")
                u.prove(zi(a[1] if len(a) > 1 else k.get("dim", 2)) == d, "in the dimension of the grid")

                def get(st):
                    u.ok(st is g.made[0], "of the built structure")
                    return u.stub("Neighborhood", {"neighbors_of": u.native(lambda s: ListObj(E, Seq([Part(m(zi(s)), true, lambda i: nb(zi(s), zi(i)))])))})
                return u.stub("MooreNbHoodBuilder", {"get": u.native(get)})
            E.contracts["MooreNbHoodBuilder"] = builder
            try:
                sim = u.do(g.setup(), "setup_random_sites", g.size, r.ask, r.bg, r.given, b)
            except Raise as e:
                u.ok(e.kind == "RuntimeError", "the error of too many attempts", e.kind)
                return
            st = g.simulation(sim)
            pl, n = r.place, g.made[0].n
            # (nothing said from here on depends on what was guessed)
            E.guess = False
            g.holds(st, pl.occ, "every site has an occupancy, and nothing else")
            u.prove(pl.n_all(pl.occ, n) == r.N, "as many sites as requested do not hold the background")
            p, i = u.opq("p"), u.int("i", lo=0)
            u.under(z3.And(i < n, pl.occ(i) != r.bg), lambda: u.prove(r.given.has(pl.occ(i)), "they hold given phases"))
            if buffer:
                x, y = u.int("x", lo=0), u.int("y", lo=0)
                u.under(z3.And(x < n, y < n, x != y, pl.occ(x) != r.bg, pl.occ(y) != r.bg), lambda: u.prove(z3.Not(near(x, y)), "no two of them are within the buffer"))
            u.assume(r.given.has(p))
            u.note(pl.CNT(p))
            u.note(r.assign.cnt(p))
            u.prove(z3.ToReal(pl.n_of(pl.occ, p, n)) < r.share(p) + 1, "of each phase fewer than one more than its share")
