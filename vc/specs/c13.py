"""C13: neighborhoods by offset vectors, by class, and stochastic ones."""
from speclib import *

NB = "core.neighborhood_builders"
NH = "core.neighborhoods"
DM = "core.distance_map"
SG = "structures.square_grid.neighborhoods"
CU = "core.coordinate_utils"


class Place:
    """A structure of any number of sites, of any dimension, that finds the site at a location
    by its contract (C10), and any number of offset vectors."""

    def __init__(self, u, pre="", like=None):
        self.u, self.pre = u, pre
        E = u.E
        self.m = u.int("m", lo=0)
        off = z3.Function("off", INT, INT, REAL)
        self.W = z3.Function("LENGTH", INT, REAL)
        self.AT = z3.Function(pre + "AT", V, V)
        self.vid = z3.Function("VEC", INT, V)
        num = z3.Function("VECNUM", V, INT)
        E.defs["VEC"] = lambda j: [num(self.vid(j)) == j]
        self.st = u.structure(pre + "st", dim=like.d if like else None, id_at=u.native(self.id_at))
        self.n = self.st.n
        d = self.st.table["dim"]
        # (a site or nothing)
        E.defs[pre + "AT"] = lambda x: [z3.Or(self.AT(x) == V.VNone, z3.And(V.is_VInt(self.AT(x)), V.vi(self.AT(x)) >= 0, V.vi(self.AT(x)) < self.n))]
        self.off = lambda j, k: off(zi(j), zi(k))
        self.d = d
        self.vec = lambda j: TupleVal(Seq([Part(d, true, lambda k: off(zi(j), zi(k)))]), self.vid(zi(j)))
        self.motif = ListObj(E, Seq([Part(self.m, true, self.vec)]))
        E.contracts["EuclideanDistanceMap"] = lambda E, a, k: u.stub("EuclideanDistanceMap", {"get_dist": u.native(self.length)})

    def where(self, fn):
        """a location, by its coordinates"""
        E = self.u.E
        j, t = E.loops._pred(fn)
        r, nm = E.loops.symbol("PLACE", [t], [j], V, (zi(self.d),))
        E.incomplete.add(nm)
        return r

    def id_at(self, loc):
        v = self.u.ops.models.vec(loc)
        if not self.u.E.valid(zi(v.n) == zi(self.d)):
            raise Unsupported("location of another dimension")
        r = self.AT(self.where(v.at))
        return None if self.u.E.branch(r == V.VNone) else z3.simplify(V.vi(r))

    def length(self, v):
        i = getattr(v, "ident", None)
        if i is None or not i.decl().eq(self.vid(0).decl()):
            raise Unsupported("length of something that is no offset vector")
        return self.W(i.arg(0))

    def lead(self, s, j):
        """what vector j leads to from site s"""
        return self.AT(self.where(lambda k: self.st.co(zi(s), zi(k)) + self.off(j, k)))

    def hit(self, s, j):
        r = self.lead(s, j)
        return z3.And(r != V.VNone, r != V.VInt(zi(s)))


@unit("C13", "the sites found by offset vectors", [NB + ".MotifNeighborhoodBuilder.get_neighbors", NB + ".MotifNeighborhoodBuilder.__init__"])
def _(u):
    p = Place(u)
    b = u.new(NB, "MotifNeighborhoodBuilder", p.motif)
    s = u.int("s", lo=0)
    u.assume(s < p.n)
    got = u.do(b, "get_neighbors", p.st.site(s), p.st)
    x, w = u.int("x"), u.real("w")
    some = lambda f: zb(u.ops.exists(u.ops.seq_of(got), lambda t: conj([u.ops.eq(t.items[0], x), f(t.items[1])])))
    by = lambda f: zb(u.E.loops.EX(p.m, lambda j: z3.And(p.lead(s, j) == V.VInt(x), x != s, f(p.W(zi(j))))))
    u.prove(some(lambda t: True) == by(lambda t: True), "exactly the other sites some vector leads to")
    u.prove(some(lambda t: zb(u.ops.eq(t, w))) == by(lambda t: t == w), "each with the length of a vector that leads there")


for restricted in (False, True):
    @unit("C13", f"the neighborhood {'of one class' if restricted else 'of all sites'} from offset vectors",
          [NB + ".NeighborhoodBuilder.get", NB + ".MotifNeighborhoodBuilder.get_neighbors", NH + ".Neighborhood.neighbors_of"])
    def _(u, restricted=restricted):
        p = Place(u)
        u.graphs()
        b = u.new(NB, "MotifNeighborhoodBuilder", p.motif)
        c = u.opq("cls")
        u.assume(c != V.VNone)
        nb = u.do(b, "get", p.st, **({"site_class": c} if restricted else {}))
        if not u.shape(len(u.made_graphs) == 1, "one graph is made"):
            return
        u.same_seq(u.made_graphs[0].nodes.seq, Seq([Part(p.n, true, lambda i: zi(i))]), "the nodes are the sites, numbered by their ids")
        s, x = u.int("s", lo=0), u.int("x")
        u.assume(s < p.n)
        mine = (p.st.cls_at(s) == c) if restricted else True
        near = lambda f=(lambda j: True): conj([mine, x != s, zb(u.E.loops.EX(p.m, lambda j: conj([p.lead(s, j) == V.VInt(x), f(j)])))])
        got = u.do(nb, "neighbors_of", s)
        u.prove(zb(u.contains(got, x)) == zb(near()), "the neighbors of a site are exactly the other sites some vector leads to")
        u.each_once(got, "each once")
        w = u.ops.seq_of(u.do(nb, "neighbors_of", s, include_weights=True))
        u.placed(x)
        is_ = lambda t: zi(u.plain(t.items[0])) == x
        first = u.ops.exists(w, is_)
        u.under(near(), lambda: u.prove(zb(first), "with weights: no neighbor is missing"))
        u.under(zb(first), lambda: u.prove(zb(near()), "with weights: no other neighbor"))
        at = u.ops.models.indexer(w)
        i = u.int("i", lo=0)
        u.assume(i < zi(u.ops.seq_len(w)))
        t = at(i)
        u.assume(is_(t))
        u.prove(u.E.loops.EX(p.m, lambda j: z3.And(p.lead(s, j) == V.VInt(x), p.W(zi(j)) == t.items[1])), "the weight of a neighbor is the length of a vector that leads there")


@unit("C13", "neighborhoods from offset vectors with a builder that was used before", [NB + ".NeighborhoodBuilder.get", NB + ".MotifNeighborhoodBuilder.get_neighbors", NH + ".Neighborhood.neighbors_of"])
def _(u):
    """The builder has made one for another structure."""
    p = Place(u)
    p0 = Place(u, "old.", like=p)
    u.graphs()
    b = u.new(NB, "MotifNeighborhoodBuilder", p.motif)
    u.do(b, "get", p0.st)
    nb = u.do(b, "get", p.st)
    s, x = u.int("s", lo=0), u.int("x")
    u.assume(s < p.n)
    near = conj([x != s, zb(u.E.loops.EX(p.m, lambda j: p.lead(s, j) == V.VInt(x)))])
    u.prove(zb(u.contains(u.do(nb, "neighbors_of", s), x)) == zb(near), "the neighbors of a site are those of the structure asked about")


for d in (1, 2, 3):
    @unit("C13", f"the length of an offset vector of dimension {d}", [DM + ".DistanceMap.__init__", DM + ".DistanceMap._find_distances", DM + ".DistanceMap.get_dist", DM + ".EuclideanDistanceMap._distance", DM + ".distance"])
    def _(u, d=d):
        m = u.int("m", lo=0)
        off = z3.Function("off", INT, INT, REAL)
        motif = ListObj(u.E, Seq([Part(m, true, lambda j: TupleVal([off(zi(j), z3.IntVal(k)) for k in range(d)]))]))
        dm = u.new(DM, "EuclideanDistanceMap", motif)
        i = u.int("i", lo=0)
        u.assume(i < m)
        got = u.do(dm, "get_dist", TupleVal([off(i, z3.IntVal(k)) for k in range(d)]))
        from models import sqrt_, roundto
        sq = sum((off(i, z3.IntVal(k)) * off(i, z3.IntVal(k)) for k in range(1, d)), off(i, z3.IntVal(0)) * off(i, z3.IntVal(0)))
        u.prove(u.ops.eq(got, roundto(sqrt_(sq), z3.IntVal(2))), "the length of the vector to two decimals")


def offsets(u, cls, args, d, inside, what):
    made = []
    u.E.contracts["EuclideanDistanceMap"] = lambda E, a, k: (made.append(a[0]), u.stub("EuclideanDistanceMap", {}))[1]
    b = u.new(SG, cls, *args)
    x = [u.int(f"x{k}") for k in range(d)]
    motif = b.fields["_motif"]
    is_ = lambda t: conj([u.ops.eq(a, c) for a, c in zip(u.ops.unpack(t, d, False), x)])
    u.under(z3.Or(*[t != 0 for t in x]), lambda: u.prove(zb(u.ops.exists(u.ops.seq_of(motif), is_)) == zb(inside(x)), what))
    u.shape(len(made) == 1, "the lengths of the vectors are known")
    if len(made) == 1:
        u.prove(zb(u.ops.exists(u.ops.seq_of(made[0]), is_)) == zb(u.ops.exists(u.ops.seq_of(motif), is_)), "of exactly these vectors")


ab = lambda t: z3.If(t >= 0, t, -t)
for cls, d in (("VonNeumannNbHood2DBuilder", 2), ("VonNeumannNbHood3DBuilder", 3)):
    @unit("C13", f"von Neumann offsets in {d} dimensions", [f"{SG}.{cls}.__init__", CU + ".get_points_in_cube", CU + ".get_points_in_box"])
    def _(u, cls=cls, d=d):
        n = u.int("size", lo=0)
        offsets(u, cls, [n], d, lambda x: sum((ab(t) for t in x[1:]), ab(x[0])) <= n, "exactly the vectors with coordinate sum of absolute values at most the size")

for d in (1, 2, 3, 4):
    @unit("C13", f"Moore offsets in {d} dimensions", [SG + ".MooreNbHoodBuilder.__init__", CU + ".get_points_in_cube", CU + ".get_points_in_box"])
    def _(u, d=d):
        n = u.int("size", lo=0)
        offsets(u, "MooreNbHoodBuilder", [n, d], d, lambda x: z3.And(*[ab(t) <= n for t in x]), "exactly the vectors with coordinates of absolute value at most the size")


def nbhoods(u, nm, sort):
    """neighborhoods by their contract: the neighbors of a site, with or without weights"""
    n = z3.Function(nm + ".n", sort, V, BOOL, INT)
    at = z3.Function(nm + ".at", sort, V, BOOL, INT, V)
    u.E.defs[nm + ".n"] = lambda *a: [n(*a) >= 0]

    def of(k, s, w):
        w = zb(u.ops.truth(w))
        return ListObj(u.E, Seq([Part(n(k, u.E.toV(s), w), true, lambda i: at(k, u.E.toV(s), w, zi(i)))]))

    def table(key):
        return {"neighbors_of": u.native(lambda s, include_weights=False: of(key, s, include_weights))}
    return (lambda k: u.stub("Neighborhood", table, key=k)), of


@unit("C13", "neighborhoods by site class", [NB + ".SiteClassNeighborhoodBuilder.get", NB + ".SiteClassNeighborhoodBuilder.__init__", NH + ".SiteClassNeighborhood.__init__", NH + ".SiteClassNeighborhood._get_nbhood", NH + ".MultiNeighborhood.neighbors_of"])
def _(u):
    for only in (False, True):
        st = u.structure("st%d" % only)

        nbhood, of = nbhoods(u, "nb", V)

        def table(key):
            def get(s, site_class=None):
                u.ok(s is st, "a builder is given the structure")
                u.prove(u.E.toV(site_class) == key, "the builder of a class builds for this class")
                return nbhood(key)
            return {"get": u.native(get)}
        builder = lambda c: u.stub("NeighborhoodBuilder", table, key=c)
        rules = u.symdict("rules%d" % only, builder)
        b = u.new(NB, "SiteClassNeighborhoodBuilder", rules)
        c = u.opq("cls")
        u.assume(c != V.VNone)
        nb = u.do(b, "get", st, **({"site_class": c} if only else {}))
        s = u.int("s", lo=0)
        u.assume(s < st.n)
        for w in (False, True):
            got = u.do(nb, "neighbors_of", s, include_weights=w)
            k = st.cls_at(s)
            there = conj([rules.has(k), k == c if only else True])
            want = of(k, s, w)
            u.under(there, lambda: u.same_seq(u.ops.seq_of(got), u.ops.seq_of(want), "a site has the neighbors the rule of its class gives it"))
            u.under(z3.Not(zb(there)), lambda: u.prove(u.ops.seq_len(u.ops.seq_of(got)) == 0, "a site of a class without a rule has none"))


@unit("C13", "stochastic neighborhoods", [NB + ".StochasticNeighborhoodBuilder.get", NB + ".StochasticNeighborhoodBuilder.__init__", NH + ".StochasticNeighborhood.__init__", NH + ".StochasticNeighborhood._get_nbhood", NH + ".MultiNeighborhood.neighbors_of"])
def _(u):
    for only in (False, True):
        st = u.structure("st%d" % only)
        c = u.opq("cls")
        m = u.int("m", lo=1)

        nbhood, of = nbhoods(u, "alt", INT)

        def table(key):
            def get(s, site_class=None):
                u.ok(s is st, "a builder is given the structure")
                u.prove(u.E.toV(site_class) == (c if only else V.VNone), "the alternatives are built for the class asked for")
                return nbhood(key)
            return {"get": u.native(get)}
        builder = lambda i: u.stub("NeighborhoodBuilder", table, key=zi(i))
        b = u.new(NB, "StochasticNeighborhoodBuilder", ListObj(u.E, Seq([Part(m, true, builder)])))
        nb = u.do(b, "get", st, **({"site_class": c} if only else {}))
        s = u.int("s", lo=0)
        u.assume(s < st.n)
        for w in (False, True):
            k = len(u.E.choices)
            got = u.do(nb, "neighbors_of", s, include_weights=w)
            if not u.shape(len(u.E.choices) == k + 1, "one alternative is chosen for a request"):
                return
            pool, r = u.E.choices[-1]
            u.same_seq(u.ops.seq_of(got), u.ops.seq_of(of(r, s, w)), "the answer is the complete neighbor set of the chosen alternative")
            u.prove(zi(u.ops.seq_len(u.ops.seq_of(pool))) == m, "every alternative can be chosen")


HEX2 = [[(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, -1)], [(1, 0), (0, 1), (-1, 0), (0, -1), (-1, 1), (1, -1)]]
AX3 = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
HEX3 = [AX3 + [v, tuple(-x for x in v)] for v in [(-1, -1, 1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)]]
PENT = [[(-1, 0), (1, 0), (-1, -1), (0, -1), (1, -1)], [(-1, 1), (0, 1), (1, 1), (-1, 0), (1, 0)],
        [(0, 1), (1, 1), (1, 0), (0, -1), (1, -1)], [(-1, 1), (0, 1), (-1, 0), (-1, -1), (0, -1)]]
for cls, alts in (("PseudoHexagonalNeighborhoodBuilder2D", HEX2), ("PseudoHexagonalNeighborhoodBuilder3D", HEX3), ("PseudoPentagonalNeighborhoodBuilder", PENT)):
    @unit("C13", f"the alternatives of {cls}", [f"{SG}.{cls}.__init__", NB + ".StochasticNeighborhoodBuilder.get", NB + ".MotifNeighborhoodBuilder.__init__"])
    def _(u, cls=cls, alts=alts):
        """Each alternative is a complete set of offset vectors; which set is what the name says."""
        E = u.E

        def builder(E, a, k):
            vs = frozenset(tuple(u.plain(x) for x in u.ops.unpack(t, len(alts[0][0]), False)) for t in u.ops.seq_of(a[0] if a else k["motif"]).concrete())
            nb = u.stub("Neighborhood", {"neighbors_of": u.native(lambda s, include_weights=False: ListObj(E, Seq()))})
            nb.vectors = vs

            def get(st, site_class=None):
                return nb
            return u.stub("MotifNeighborhoodBuilder", {"get": u.native(get)})
        E.contracts["MotifNeighborhoodBuilder"] = builder
        got = []

        def multi(E, a, k):
            got.extend(x.vectors for x in u.ops.seq_of(a[0] if a else k["neighborhoods"]).concrete())
            return u.stub("StochasticNeighborhood", {})
        E.contracts["StochasticNeighborhood"] = multi
        u.do(u.new(SG, cls), "get", u.structure("st"))
        u.ok(sorted(sorted(x) for x in got) == sorted(sorted(x) for x in alts), "the alternatives are the sets of vectors the neighborhood is named for", str(got))
