"""C12: neighborhoods by distance."""
from speclib import *

NB = "core.neighborhood_builders"
NH = "core.neighborhoods"


class Place:
    """A structure of any number of sites in some lattice, whose periodic distance is known by
    its contract (C09): symmetric, not negative."""

    def __init__(self, u, pre=""):
        self.u = u
        E = u.E
        DIST = z3.Function(pre + "DIST", V, V, REAL)
        E.defs[pre + "DIST"] = lambda a, b: [DIST(a, b) == DIST(b, a), DIST(a, b) >= 0]

        def dist(a, b):
            ia, ib = getattr(a, "ident", None), getattr(b, "ident", None)
            if ia is None or ib is None:
                raise Unsupported("distance of something that is no site location")
            return DIST(ia, ib)
        self.DIST = DIST
        lat = u.stub("Lattice", {"cartesian_periodic_distance": u.native(dist)})

        other = E.contracts.get("pbc_diff_cart")

        def cart(E, a, k):
            if len(a) != 3 or a[2] is not lat:
                if other and len(a) == 3:
                    return other(E, a, k)
                raise Unsupported("distance in another lattice")
            return dist(a[0], a[1])
        E.contracts["pbc_diff_cart"] = cart
        self.st = u.structure(pre + "st", lattice=lat)
        self.n = self.st.n

    def dist(self, i, j):
        return self.DIST(self.st.loc(i).ident, self.st.loc(j).ident)


def cut(u, p):
    r = u.real("cutoff")
    return u.new(NB, "DistanceNeighborhoodBuilder", r), lambda d: d < r


def ring(u, p):
    a, b = u.real("inner"), u.real("outer")
    return u.new(NB, "AnnularNeighborhoodBuilder", a, b), lambda d: z3.And(a < d, d < b)


def circle(u, p):
    r = u.real("cutoff")
    return u.new("structures.square_grid.neighborhoods", "CircularNeighborhoodBuilder", r), lambda d: d < r


def honeycomb(u, p):
    """in a honeycomb tiling, sites are one side length apart or more than one and a half"""
    old = u.E.defs["DIST"]
    side = u.get("structures.honeycomb.lattice", "HONEYCOMB_SIDE_LENGTH")
    u.E.defs["DIST"] = lambda a, b: old(a, b) + [z3.Or(p.DIST(a, b) < side * z3.Q(1001, 1000), p.DIST(a, b) > side * z3.Q(3, 2))]
    return u.new("structures.honeycomb.neighborhoods", "HoneycombNeighborhoodBuilder"), lambda d: d < side * z3.Q(3, 2)


for nm, make, cls in (("cutoff", cut, "DistanceNeighborhoodBuilder"), ("inner and outer radius", ring, "AnnularNeighborhoodBuilder"),
                      ("circle", circle, "DistanceNeighborhoodBuilder"), ("honeycomb", honeycomb, "DistanceNeighborhoodBuilder")):
    @unit("C12", f"the sites found for a site: {nm}", [f"{NB}.{cls}.get_neighbors", f"{NB}.{cls}.__init__"])
    def _(u, make=make):
        p = Place(u)
        b, inside = make(u, p)
        s = u.int("s", lo=0)
        u.assume(s < p.n)
        got = u.do(b, "get_neighbors", p.st.site(s), p.st)
        want = Seq([Part(p.n, lambda i: z3.And(zi(i) != s, inside(p.dist(i, s))), lambda i: TupleVal([zi(i), p.dist(i, s)]))])
        with u.soft():      # in this order
            u.same_seq(u.ops.seq_of(got), want, "exactly the other sites in range, each once, with their distance")

    if nm in ("cutoff", "inner and outer radius"):
        @unit("C12", f"neighborhoods with a builder that was used before: {nm}", [NB + ".NeighborhoodBuilder.get", f"{NB}.{cls}.get_neighbors", NH + ".Neighborhood.neighbors_of"])
        def _(u, make=make):
            """The builder has made one for another structure and one for this structure before
            more sites were added to it."""
            p0, p = Place(u, "old."), Place(u)
            u.graphs()
            b, inside = make(u, p)
            u.do(b, "get", p0.st)
            was = u.do(b, "get", p.st)
            n0 = p.n
            p.st.grow()
            nb = u.do(b, "get", p.st)
            s, x = u.int("s", lo=0), u.int("x")
            near = lambda n: conj([s < n, x >= 0, x < n, x != s, inside(p.dist(x, s))])
            u.under(s < p.st.n, lambda: u.prove(zb(u.contains(u.do(nb, "neighbors_of", s), x)) == zb(near(p.st.n)), "the neighbors of a site are the other sites in range in the structure as it is now"))
            u.under(s < n0, lambda: u.prove(zb(u.contains(u.do(was, "neighbors_of", s), x)) == zb(near(n0)), "the neighborhood made before still is that of the structure as it was"))

    for restricted in (False, True):
        @unit("C12", f"the neighborhood {'of one class' if restricted else 'of all sites'}: {nm}",
              [NB + ".NeighborhoodBuilder.get", f"{NB}.{cls}.get_neighbors", NH + ".Neighborhood.neighbors_of", NH + ".Neighborhood.__init__"])
        def _(u, make=make, restricted=restricted):
            p = Place(u)
            u.graphs()
            b, inside = make(u, p)
            c = u.opq("cls")
            u.assume(c != V.VNone)
            nb = u.do(b, "get", p.st, **({"site_class": c} if restricted else {}))
            if not u.shape(len(u.made_graphs) == 1, "one graph is made"):
                return
            g = u.made_graphs[0]
            u.same_seq(g.nodes.seq, Seq([Part(p.n, true, lambda i: zi(i))]), "the nodes are the sites, numbered by their ids")
            s, x = u.int("s", lo=0, hi=None), u.int("x")
            u.assume(s < p.n)
            mine = (p.st.cls_at(s) == c) if restricted else True
            near = conj([x >= 0, x < p.n, x != s, inside(p.dist(x, s)), mine])
            got = u.do(nb, "neighbors_of", s)
            u.prove(zb(u.contains(got, x)) == zb(near), "the neighbors of a site are exactly the other sites in range")
            u.each_once(got, "each once")
            w = u.do(nb, "neighbors_of", s, include_weights=True)
            u.placed(x)
            first = u.ops.exists(u.ops.seq_of(w), lambda t: zi(u.plain(t.items[0])) == x)
            u.under(near, lambda: u.prove(zb(first), "with weights: no neighbor is missing"))
            u.under(zb(first), lambda: u.prove(zb(near), "with weights: no other neighbor"))
            wrong = u.ops.exists(u.ops.seq_of(w), lambda t: z3.And(zi(u.plain(t.items[0])) == x, z3.Not(u.ops.eq(t.items[1], p.dist(x, s)))))
            u.prove(z3.Not(zb(wrong)), "the weight of a neighbor is its distance")
            if not restricted:
                back = u.do(nb, "neighbors_of", x)
                u.under(near, lambda: u.prove(zb(u.contains(back, s)), "being a neighbor is mutual"))
            self_ = u.contains(got, s)
            u.prove(z3.Not(zb(self_)), "no site is its own neighbor")
