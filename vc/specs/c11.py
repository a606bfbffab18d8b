"""C11: built structures."""
from speclib import *
from specs.c08 import Cell

PS = "core.periodic_structure"
PC = PS + ".PeriodicStructure"
SB = "core.structure_builder"
CU = "core.coordinate_utils"


class Motif:
    """Any number of classes with any number of positions each."""

    def __init__(self, u, d, given, plain=False):
        self.u, self.d = u, d
        E = u.E
        self.count = z3.Function("positions", V, INT)
        E.defs["positions"] = lambda k: [self.count(k) >= 0]
        pt = z3.Function("position", V, INT, INT, REAL)
        self.at = lambda k, m, j: pt(k, zi(m), zi(j))
        one = {"tuple": lambda k, m: TupleVal([self.at(k, m, j) for j in range(d)]),
               "list": lambda k, m: ListObj(None, Seq.of([self.at(k, m, j) for j in range(d)])),
               "array": lambda k, m: Vec(d, lambda j: self.at(k, m, j))}[given]
        entries = lambda k: ListObj(None, Seq([Part(self.count(k), true, lambda m: one(k, m))]))
        if plain:
            self.cls = E.toV(u.get(PS, "DEFAULT_SITE_CLASS"))
            self.value = ListObj(E, entries(self.cls).seq)
            self.has = lambda k: k == self.cls
            self.pos = lambda k: z3.IntVal(0)
            self.total = lambda: self.count(self.cls)
        else:
            self.value = u.symdict("motif", entries)
            self.has, self.pos, key, n = self.value.has, self.value.pos, self.value.key, self.value.n
            self.total = lambda: E.loops.SUM(n, lambda i: self.count(key(zi(i))))
        self.saved = u.frozen(self.value)


def build_contract(u):
    """structures by their contract (C10): sites are added where none is"""
    E = u.E
    u.built = []

    def make(E, a, k):
        lat = a[0] if a else k["lattice"]
        added = ListObj(E, Seq())

        def add(cls, loc):
            v = u.ops.models.vec(loc)
            u.ops.list_append(added, TupleVal([E.toV(cls), TupleVal([v.at(z3.IntVal(j)) for j in range(u.dim)])]))
            return u.E.fresh('newid', INT)
        s = u.stub("PeriodicStructure", {"add_site": Native("add_site", lambda E, a, k: add(k.get("site_class", a[0] if a else None), k["location"] if "location" in k else a[-1])), "lattice": lat})
        s.added = added
        u.built.append((s, lat, added))
        return s
    E.contracts["PeriodicStructure"] = make


def holds_exactly(u, c, mo, counts, s, frac):
    """the structure holds every motif site in every cell, and no other"""
    if not u.shape(len(u.built) == 1 and u.built[0][0] is s, "one structure is made"):
        return
    _, lat, added = u.built[0]
    d = c.d
    vs = u.ops.models.array(u.attr(lat, "vecs"))
    c.each(lambda i: c.each(lambda j: u.prove(vs.at(i, j) == c.vec(i, j) * z3.ToReal(counts(i)), "each lattice vector multiplied by its count")))
    u.same_seq(u.ops.seq_of(u.attr(lat, "periodic")), Seq([Part(d, true, lambda i: c.per(i))]), "the same periodic directions")
    log = u.ops.seq_of(added)
    u.same(u.frozen(mo.value), mo.saved, "the motif is as it was")
    c.each(lambda i: c.each(lambda j: u.prove(u.ops.models.array(u.attr(c.lat, "vecs")).at(i, j) == c.vec(i, j), "and so is the lattice of the unit cell")))

    def place(cell, k, m, j):
        p = (lambda i: z3.ToReal(cell(i)) + mo.at(k, m, i)) if frac else (lambda i: z3.ToReal(cell(i)))
        at = c.product(p, j) if not isinstance(d, int) else z3.Sum([p(i) * c.vec(i, j) for i in range(d)])
        return at if frac else at + mo.at(k, m, j)
    inside = lambda cell: z3.And(*[z3.And(cell(i) >= 0, cell(i) < counts(i)) for i in range(d)])
    # every one
    cell = [z3.Int(f"cell{i}") for i in range(d)]
    k, m = z3.Const("cls", V), z3.Int("m")
    u.assume(inside(lambda i: cell[i]))
    u.assume(mo.has(k))
    u.assume(z3.And(m >= 0, m < mo.count(k)))
    u.occurs(log, [cell[i] for i in range(d)] + [mo.pos(k), m], lambda t: conj([u.ops.eq(t.items[0], k)]), lambda t: [(t.items[1].items[j], place(lambda i: cell[i], k, m, j)) for j in range(d)],
             "a site of the class at the position of every motif entry in every cell")
    n = mo.total()
    for i in range(d):
        n = n * counts(i)
    u.identity(u.amount(log), n, "as many sites as cells and motif entries")


for d in (1, 2, 3):
    for frac in (False, True):
        for given in ("tuple", "list", "array"):
            @unit("C11", f"building a structure of dimension {d}, {'fractional' if frac else 'Cartesian'} motif given as {given}", [PC + ".build_from", CU + ".get_points_in_box"])
            def _(u, d=d, frac=frac, given=given):
                c = Cell(u, "tuple", d=d)
                u.dim = d
                build_contract(u)
                mo = Motif(u, d, given)
                n = [u.int(f"n{i}", lo=1) for i in range(d)]
                counts = lambda i: u.ops.models.pick(n, i) if is_z(i) else n[i]
                s = u.call(u.attr(u.get(PS, "PeriodicStructure"), "build_from"), c.lat, ListObj(u.E, Seq.of(list(n))), mo.value, frac_coords=frac)
                holds_exactly(u, c, mo, counts, s, frac)


for d in (1, 2):
    for frac in (False, True):
        @unit("C11", f"a plain list of positions as motif, dimension {d}, {'fractional' if frac else 'Cartesian'}", [PC + ".build_from"])
        def _(u, d=d, frac=frac):
            c = Cell(u, "tuple", d=d)
            u.dim = d
            build_contract(u)
            mo = Motif(u, d, "tuple", plain=True)
            n = [u.int(f"n{i}", lo=1) for i in range(d)]
            counts = lambda i: u.ops.models.pick(n, i) if is_z(i) else n[i]
            s = u.call(u.attr(u.get(PS, "PeriodicStructure"), "build_from"), c.lat, TupleVal(list(n)), mo.value, frac_coords=frac)
            holds_exactly(u, c, mo, counts, s, frac)


for d in (1, 2, 3):
    for frac in (False, True):
        for size in ("one number", "a number per direction"):
            @unit("C11", f"a builder given {size}, dimension {d}, {'fractional' if frac else 'Cartesian'}", [SB + ".StructureBuilder.__init__", SB + ".StructureBuilder.build", PC + ".build_from"])
            def _(u, d=d, frac=frac, size=size):
                c = Cell(u, "tuple", d=d)
                u.dim = d
                build_contract(u)
                mo = Motif(u, d, "tuple")
                b = u.new(SB, "StructureBuilder", c.lat, mo.value)
                if frac:
                    b.fields["frac_coords"] = True
                if size == "one number":
                    n = [u.int("n", lo=1)] * d
                    s = u.do(b, "build", n[0])
                else:
                    n = [u.int(f"n{i}", lo=1) for i in range(d)]
                    s = u.do(b, "build", TupleVal(list(n)))
                counts = lambda i: u.ops.models.pick(n, i) if is_z(i) else n[i]
                holds_exactly(u, c, mo, counts, s, frac)

    @unit("C11", f"a builder given a size of another dimension than {d}", [SB + ".StructureBuilder.build"])
    def _(u, d=d):
        c = Cell(u, "tuple", d=d)
        u.dim = d
        build_contract(u)
        for e in range(5):
            if e == d:
                continue
            b = u.new(SB, "StructureBuilder", c.lat, Motif(u, d, "tuple").value)
            try:
                u.do(b, "build", TupleVal([u.int(f"n{i}", lo=1) for i in range(e)]))
            except Raise:
                u.ok(not u.built, "nothing is built")
                continue
            u.unreachable(f"{e} numbers are rejected in dimension {d}")


@unit("C11", "no two motif sites of different cells are at the same place", [])
def _(u):
    """Lemma (per direction): with f, g the fractional coordinates of two motif entries and a, b
    the cells, equal places in the scaled cell are equal places in the unit cell and, for the same
    entry, the same cell; so the sites a build adds are at different places when the entries are."""
    f, g = u.real("f"), u.real("g")
    a, b, n, z = u.int("a", lo=0), u.int("b", lo=0), u.int("n", lo=1), u.int("z")
    u.assume(a < n)
    u.assume(b < n)
    u.assume((a + f) / n - (b + g) / n == z3.ToReal(z))
    u.fact(f - g == z3.ToReal(z * n - a + b), "the entries are a whole number apart")
    u.assume(f == g)
    u.fact(z * n == a - b, "the cells are a multiple of the count apart")
    u.fact(z < 1, "less than one")
    u.fact(z > -1, "more than minus one")
    u.prove(a == b, "the same cell")


GRIDS = {"SimpleSquare2DStructureBuilder": ("structures.square_grid.structure_builders", 2), "SimpleSquare3DStructureBuilder": ("structures.square_grid.structure_builders", 3)}
for name, (mod, d) in GRIDS.items():
    for size in ("one number", "a number per direction"):
        @unit("C11", f"{name} given {size}", [mod + "." + name + ".__init__", SB + ".StructureBuilder.build", PC + ".build_from"])
        def _(u, name=name, mod=mod, d=d, size=size):
            u.dim = d
            build_contract(u)
            b = u.new(mod, name)
            if size == "one number":
                n = [u.int("n", lo=1)] * d
                u.do(b, "build", n[0])
            else:
                n = [u.int(f"n{i}", lo=1) for i in range(d)]
                u.do(b, "build", TupleVal(list(n)))
            log = u.ops.seq_of(u.built[0][2])
            vs = u.ops.models.array(u.attr(u.attr(b, "lattice"), "vecs"))
            # which direction each lattice vector goes along
            along = [[j for j in range(d) if u.E.valid(vs.at(z3.IntVal(i), z3.IntVal(j)) != 0)] for i in range(d)]
            if not u.shape(sorted(along) == [[j] for j in range(d)], "one lattice vector along each direction"):
                return
            p = [z3.Int(f"p{j}") for j in range(d)]
            for i in range(d):
                u.assume(z3.And(p[along[i][0]] >= 0, p[along[i][0]] < n[i]))
            u.occurs(log, p, lambda t: True, lambda t: [(t.items[1].items[j], p[j]) for j in range(d)], "a site at every whole-numbered position in the cell")
            total = z3.IntVal(1)
            for x in n:
                total = total * x
            u.identity(u.amount(log), total, "and no other")


@unit("C11", "HoneycombTilingBuilder", ["structures.honeycomb.structure_builders.HoneycombTilingBuilder.__init__", "structures.honeycomb.lattice.RhombohedralLattice.__init__", SB + ".StructureBuilder.build"])
def _(u):
    u.dim = 2
    build_contract(u)
    b = u.new("structures.honeycomb.structure_builders", "HoneycombTilingBuilder")
    n = u.int("n", lo=1)
    u.do(b, "build", n)
    log = u.ops.seq_of(u.built[0][2])
    vs = u.ops.models.array(u.attr(u.attr(b, "lattice"), "vecs"))
    v = [[vs.at(z3.IntVal(i), z3.IntVal(j)) for j in range(2)] for i in range(2)]
    sq = lambda a: a[0] * a[0] + a[1] * a[1]
    u.prove(z3.And(sq(v[0]) == sq(v[1]), sq([v[0][0] - v[1][0], v[0][1] - v[1][1]]) == sq(v[0])), "the lattice vectors and their difference have the same length")
    i, j = u.int("i", lo=0), u.int("j", lo=0)
    u.assume(i < n)
    u.assume(j < n)
    half = z3.Q(1, 2)
    u.occurs(log, [i, j], lambda t: True, lambda t: [(t.items[1].items[k], (i + half) * v[0][k] + (j + half) * v[1][k]) for k in range(2)], "a site in the middle of every cell")
    u.identity(u.amount(log), n * n, "and no other")


for d in (1, 2, 3):
    @unit("C11", f"whole-numbered points in a box of dimension {d}", [CU + ".get_points_in_box", CU + ".get_points_in_cube"])
    def _(u, d=d):
        for cube in (False, True):
            lo = [u.int(f"lo{i}") for i in range(d)]
            hi = [u.int(f"hi{i}") for i in range(d)]
            if cube:
                lo, hi = [lo[0]] * d, [hi[0]] * d
                got = u.call(u.get(CU, "get_points_in_cube"), lo[0], hi[0], d)
            else:
                got = u.call(u.get(CU, "get_points_in_box"), ListObj(u.E, Seq.of(list(lo))), ListObj(u.E, Seq.of(list(hi))))
            p = [z3.Int(f"p{j}") for j in range(d)]
            seq = u.ops.seq_of(got)
            total = z3.IntVal(1)
            for a, b in zip(lo, hi):
                total = total * z3.If(b > a, b - a, 0)

            def inside():
                u.occurs(seq, [x - a for x, a in zip(p, lo)] + p, lambda t: True, lambda t: list(zip([zi(x) for x in (t.items if isinstance(t, TupleVal) else u.ops.seq_of(t).concrete())], p)), "every point")
                u.identity(u.amount(seq), total, "and no other")
            u.under(z3.And(*[z3.And(x >= a, x < b) for x, a, b in zip(p, lo, hi)]), inside)
