"""C20: conversion to and from pymatgen."""
from speclib import *
from geometry import Mat
from specs.c08 import Cell, FORMS

MOD = "atomic.pymatgen_struct_converter"
CV = MOD + ".PymatgenStructureConverter"
D = 3


class Theirs:
    """pymatgen's lattice and structure, known by their contract: a lattice holds the vectors as a
    matrix of rows and three periodic directions; a structure holds its lattice and, in order,
    sites with a species, fractional coordinates and the Cartesian coordinates they stand for."""

    def __init__(self, u):
        self.u, E = u, u.E
        self.lattices, self.structures = [], []

        def lattice(E, a, k):
            m = a[0] if a else k["matrix"]
            pbc = a[1] if len(a) > 1 else k.get("pbc", TupleVal([True] * D))
            l = u.stub("pymatgen.Lattice", {"matrix": u.ops.models.array(m), "pbc": pbc})
            self.lattices.append((l, u.ops.models.array(m), pbc))
            return l

        def structure(E, a, k):
            names = ("lattice", "species", "coords")
            a = list(a) + [k[n] for n in names[len(a):]]
            if k.get("coords_are_cartesian", False) is not False:
                a.append("Cartesian")
            s = u.stub("pymatgen.Structure", {})
            self.structures.append((s, *a))
            return s
        E.ops.ext["pymatgen.core.lattice.Lattice"] = lattice
        E.ops.ext["pymatgen.core.structure.Structure"] = structure

    def cell(self, nm="pm"):
        u = self.u
        vec, per = z3.Function(nm + ".vec", INT, INT, REAL), z3.Function(nm + ".per", INT, BOOL)
        self.vec, self.per = (lambda i, j: vec(zi(i), zi(j))), (lambda i: per(zi(i)))
        return u.stub("pymatgen.Lattice", {"matrix": Mat(D, D, self.vec), "pbc": TupleVal([per(i) for i in range(D)])})


def same_cell(u, lat, vec, per):
    vs = u.ops.models.array(u.attr(lat, "vecs"))
    u.prove(zi(u.attr(lat, "dim")) == D, "three dimensions")
    u.prove(z3.And(zi(vs.n) == D, zi(vs.m) == D), "three vectors")
    for i in range(D):
        for j in range(D):
            u.prove(vs.at(z3.IntVal(i), z3.IntVal(j)) == vec(i, j), "the same vectors")
    u.same_seq(u.ops.seq_of(u.attr(lat, "periodic")), Seq.of([per(i) for i in range(D)]), "the same periodic directions")


def converter(u):
    return u.new(MOD, "PymatgenStructureConverter")


@unit("C20", "a lattice from pymatgen", [CV + ".to_pylattica_lattice", "core.lattice.Lattice.__init__"])
def _(u):
    t = Theirs(u)
    same_cell(u, u.do(converter(u), "to_pylattica_lattice", t.cell()), t.vec, t.per)


def theirs_is(u, t, lat, c):
    """a lattice of theirs holds the cell"""
    if not u.shape(len(t.lattices) == 1 and t.lattices[0][0] is lat, "one lattice is made"):
        return
    _, m, pbc = t.lattices[0]
    for i in range(D):
        for j in range(D):
            u.prove(m.at(z3.IntVal(i), z3.IntVal(j)) == c.vec(i, j), "the same vectors")
    u.same_seq(u.ops.seq_of(pbc), Seq.of([c.per(i) for i in range(D)]), "the same periodic directions")


for form, what in FORMS.items():
    for vecs in ("tuples", "lists", "array"):
        @unit("C20", f"a lattice ({vecs}; periodic directions {what}) to pymatgen", [CV + ".to_pymatgen_lattice", "core.lattice.Lattice.__init__"])
        def _(u, form=form, vecs=vecs):
            t = Theirs(u)
            c = Cell(u, form, vecs, d=D)
            theirs_is(u, t, u.do(converter(u), "to_pymatgen_lattice", c.lat), c)


class Crystal:
    """a pymatgen structure with any number of sites"""

    def __init__(self, u, t):
        self.u = u
        self.lat = t.cell()
        self.n = n = u.int("sites", lo=0)
        sp, fr = z3.Function("species", INT, V), z3.Function("frac", INT, INT, REAL)
        self.species, self.frac = (lambda i: sp(zi(i))), (lambda i, j: fr(zi(i), zi(j)))
        # (what the Cartesian coordinates are is pymatgen's; here they only say where a site is)
        cart = z3.Function("cart", INT, INT, REAL)
        self.place = lambda i, j: cart(zi(i), zi(j))
        site = lambda i: u.stub("pymatgen.Site", self.table, i=zi(i))
        self.table = lambda i: {"species_string": self.species(i), "frac_coords": Vec(D, lambda j: self.frac(i, j)),
                                "coords": Vec(D, lambda j: self.place(i, j))}
        sites = lambda: ListObj(u.E, Seq([Part(n, true, site)]))
        self.value = u.stub("pymatgen.Structure", {"lattice": self.lat, "sites": sites, "__iter__": lambda: sites(), "num_sites": n})


@unit("C20", "a structure builder from pymatgen", [CV + ".to_pylattica_structure_builder", CV + ".to_pylattica_lattice", "core.structure_builder.StructureBuilder.__init__"])
def _(u):
    t = Theirs(u)
    x = Crystal(u, t)
    b = u.do(converter(u), "to_pylattica_structure_builder", x.value)
    same_cell(u, u.attr(b, "lattice"), t.vec, t.per)
    u.shape(u.attr(b, "frac_coords") is True, "the positions are fractional")
    holds(u, x, u.attr(b, "motif"))


def holds(u, x, motif):
    """every site is there, and nothing else: for any species its positions are those of its sites"""
    m = u.frozen(motif)
    q = u.opq("q")
    i = u.int("i", lo=0)
    u.under(z3.And(i < x.n, x.species(i) == q), lambda: u.prove(u.has(m, q), "every species is there"))
    u.under(zb(u.has(m, q)), lambda: u.prove(u.E.loops.EX(x.n, lambda j: x.species(j) == q), "and no other"))
    u.under(zb(u.has(m, q)), lambda: u.same_seq(u.ops.seq_of(u.at(m, q)), Seq([Part(x.n, lambda j: x.species(j) == q, lambda j: Vec(D, lambda k: x.frac(j, k)))]), "the positions of its sites"))


@unit("C20", "a structure with state from pymatgen", [CV + ".to_pylattica_structure_and_state", CV + ".to_pylattica_structure_builder", CV + ".to_pylattica_lattice", "core.structure_builder.StructureBuilder.build", "core.simulation_state.SimulationState.from_struct"])
def _(u):
    """Built structures by their contract (C11: one site for every entry, of its class, at its
    place) and looking up sites by theirs (C10: the site at a place).  The sites of the pymatgen
    structure are at different places."""
    E = u.E
    t = Theirs(u)
    x = Crystal(u, t)
    ID, MINE = z3.Function("SITEOF", INT, INT), z3.Function("ENTRYOF", INT, INT)
    AT = z3.Function("SITEAT", REAL, REAL, REAL, INT)
    at = lambda v: AT(*[v.at(z3.IntVal(j)) for j in range(D)])
    E.defs["species"] = E.defs["cart"] = lambda i, *_: [z3.Implies(z3.And(i >= 0, i < x.n), z3.And(ID(i) >= 0, ID(i) < x.n, MINE(ID(i)) == i, AT(*[x.place(i, j) for j in range(D)]) == ID(i)))]
    E.defs["ENTRYOF"] = lambda s: [z3.Implies(z3.And(s >= 0, s < x.n), z3.And(MINE(s) >= 0, MINE(s) < x.n, ID(MINE(s)) == s, AT(*[x.place(MINE(s), j) for j in range(D)]) == s))]
    E.defs["st.class"] = lambda s: [z3.Implies(z3.And(s >= 0, s < x.n), z3.Function("st.class", INT, V)(s) == x.species(MINE(s)))]
    made = []

    def site_at(v):
        i = at(u.ops.models.vec(v))
        return u.call(made[0].table["get_site"], i)

    def build(E, a, k):
        names = ("cls", "lattice", "num_cells", "site_motif", "frac_coords", "periodic")
        g = dict(zip(names, a), **k)
        same_cell(u, g["lattice"], t.vec, t.per)
        u.same_seq(u.ops.seq_of(g["num_cells"]), Seq.of([1] * D), "one cell is built")
        u.shape(g.get("frac_coords") is True, "from fractional positions")
        holds(u, x, g["site_motif"])
        u.shape(not made, "one structure is built")
        s = u.structure(dim=D, site_at=u.native(site_at), lattice=g["lattice"])
        u.assume(s.n == x.n)
        made.append(s)
        return s
    E.contracts["PeriodicStructure.build_from"] = build
    st, state = u.ops.unpack(u.do(converter(u), "to_pylattica_structure_and_state", x.value), 2, False)
    if not u.shape(len(made) == 1 and st is made[0], "the built structure is given back"):
        return
    SITES, GENERAL = (E.toV(u.const(c)) for c in ("SITES", "GENERAL"))
    SID = E.toV(u.const("SITE_ID"))
    OCC = u.E.toV(u.get("discrete.state_constants", "DISCRETE_OCCUPANCY"))
    p = Part(x.n, true, lambda i: zi(i), None, "distinct")
    p.keyinv = (lambda i: V.VInt(zi(i)), lambda q: z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < x.n, MINE(V.vi(q)) >= 0), lambda q: V.vi(q))
    sites = DictObj(None, Base(p.keyinv[1], lambda q: DictObj(None, None, [(OCC, x.species(MINE(V.vi(q)))), (SID, V.vi(q))]), Seq([p])))
    u.same(u.frozen(u.attr(state, "_state")), DictObj(None, None, [(SITES, sites), (GENERAL, DictObj(None, None, []))]), "the state holds the species of every site, and nothing else")
    i = u.int("i", lo=0)
    u.assume(i < x.n)
    u.prove(st.cls_at(ID(i)) == x.species(i), "the site of every original site has its species as class")


for form, what in FORMS.items():
    @unit("C20", f"a structure (periodic directions {what}) to pymatgen", [CV + ".to_pymatgen_structure", CV + ".to_pymatgen_lattice", "core.lattice.Lattice.get_fractional_coords"])
    def _(u, form=form):
        t = Theirs(u)
        c = Cell(u, form, d=D)
        s = u.structure(dim=D, lattice=c.lat)
        r = u.do(converter(u), "to_pymatgen_structure", s)
        if not u.shape(len(t.structures) == 1 and t.structures[0][0] is r, "one structure is made"):
            return
        _, lat, species, coords, *rest = t.structures[0]
        theirs_is(u, t, lat, c)
        u.same_seq(u.ops.seq_of(species), Seq([Part(s.n, true, lambda i: s.cls_at(zi(i)))]), "the class of every site, in order")
        xs = u.ops.freeze_seq(u.ops.seq_of(coords))
        u.prove(zi(u.ops.length(ListObj(None, xs))) == s.n, "as many positions as sites")
        at = u.ops.models.indexer(xs)
        i = u.int("i", lo=0)
        u.assume(i < s.n)
        f = u.ops.models.vec(at(i))
        # (what fractional coordinates are: C08)
        want = s.loc(i) if rest else u.do(c.lat, "get_fractional_coords", s.loc(i))
        for j in range(D):
            u.prove(f.at(z3.IntVal(j)) == want.at(z3.IntVal(j)), "the positions of the sites")
