"""C17: saving and loading."""
from speclib import *
from models import roundto

SS = "core.simulation_state"
SR = "core.simulation_result"
LL = "core.lattice"
PS = "core.periodic_structure"
SM = "core.simulation"

HOW = ("dictionary", "JSON text")


def through(u, d, how):
    if how == "dictionary":
        return d
    t = u.ops.call_ext("json.dumps", [d], {})
    return u.ops.call_ext("json.loads", [t], {})


def content(u, s):
    return u.frozen(u.attr(s, "_state"))


for how in HOW:
    @unit("C17", f"a state through a {how}", [SS + ".SimulationState.as_dict", SS + ".SimulationState.from_dict"])
    def _(u, how=how):
        s = u.state("s")
        before = content(u, s)
        d = u.do(s, "as_dict")
        u.same(content(u, s), before, "saving leaves the state as it was")
        r = u.call(u.attr(u.get(SS, "SimulationState"), "from_dict"), through(u, d, how))
        u.same(content(u, r), before, "the same state comes back")
        u.same(content(u, s), before, "loading leaves the saved state as it was")


for how in HOW:
    @unit("C17", f"a state that was saved, changed and saved again through a {how}", [SS + ".SimulationState.as_dict", SS + ".SimulationState.from_dict"])
    def _(u, how=how):
        s = u.state("s")
        u.do(s, "as_dict")
        u.do(s, "set_site_state", u.int("sid"), u.symdict("up"))
        u.do(s, "set_general_state", u.symdict("gup"))
        before = content(u, s)
        r = u.call(u.attr(u.get(SS, "SimulationState"), "from_dict"), through(u, u.do(s, "as_dict"), how))
        u.same(content(u, r), before, "the state as it was when it was saved last comes back")


from specs.c08 import Cell, FORMS

for how in HOW:
    for form, what in FORMS.items():
        for vecs in ("tuples", "array"):
            @unit("C17", f"a lattice ({vecs}; periodic directions {what}) through a {how}", [LL + ".Lattice.as_dict", LL + ".Lattice.from_dict", LL + ".Lattice.__init__"])
            def _(u, how=how, form=form, vecs=vecs):
                c = Cell(u, form, vecs)
                r = u.call(u.attr(u.get(LL, "Lattice"), "from_dict"), through(u, u.do(c.lat, "as_dict"), how))
                for x, which in ((r, "the same"), (c.lat, "the saved lattice keeps its")):
                    same_cell(u, c, x, which)


def same_cell(u, c, lat, which):
    vs = u.ops.models.array(u.attr(lat, "vecs"))
    u.prove(zi(u.attr(lat, "dim")) == c.d, which + " dimension")
    u.prove(z3.And(zi(vs.n) == c.d, zi(vs.m) == c.d), which + " number of vectors")
    c.each(lambda i: c.each(lambda j: u.prove(vs.at(i, j) == c.vec(i, j), which + " vectors")))
    u.same_seq(u.ops.seq_of(u.attr(lat, "periodic")), Seq([Part(c.d, true, lambda i: c.per(i))]), which + " periodic directions")


def updates(u, layout, i):
    """the i-th recorded step: opaque updates of any number of sites"""
    E = u.E
    n = z3.Function("upd.n", INT, INT)
    key = z3.Function("upd.key", INT, INT, INT)
    pos = z3.Function("upd.pos", INT, INT, INT)
    has = z3.Function("upd.has", INT, INT, BOOL)
    isapp = lambda t, f: z3.is_app(t) and t.decl().eq(f)
    E.defs["upd.n"] = lambda s: [n(s) >= 0]
    E.defs["upd.key"] = lambda s, i: [] if isapp(i, pos) else [z3.Implies(z3.And(i >= 0, i < n(s)), z3.And(has(s, key(s, i)), pos(s, key(s, i)) == i))]
    E.defs["upd.has"] = lambda s, q: [] if isapp(q, key) else [has(s, q) == z3.And(pos(s, q) >= 0, pos(s, q) < n(s), key(s, pos(s, q)) == q)]
    hasV = lambda q: u.ops.simp(z3.And(V.is_VInt(q), has(i, V.vi(q))))
    p = Part(n(i), true, lambda k: V.VInt(key(i, zi(k))), None, "distinct")
    p.keyinv = (lambda k: V.VInt(key(i, zi(k))), hasV, lambda q: pos(i, V.vi(z3.simplify(q))))
    sites = DictObj(None, Base(hasV, lambda q: u.attrs("upd.s", i, q), Seq([p]), "upd", True), (), "upd", True)
    if layout == "sites by themselves":
        return sites
    SITES, GENERAL = (E.toV(u.const(x)) for x in ("SITES", "GENERAL"))
    out = []
    if "sites" in layout:
        out.append((SITES, sites))
    if "general" in layout:
        out.append((GENERAL, u.attrs("upd.g", i)))
    return DictObj(None, None, out)


LAYOUTS = ("sites by themselves", "sites and general", "sites section only", "general section only", "nothing")
for layout in LAYOUTS:
    for how in HOW:
        @unit("C17", f"a result whose steps hold {layout} through a {how}", [SR + ".SimulationResult.as_dict", SR + ".SimulationResult.from_dict", SR + ".SimulationResult.add_step"])
        def _(u, layout=layout, how=how):
            s0 = u.state("s")
            n = u.int("steps", lo=0)
            r = u.new(SR, "SimulationResult", s0)
            before = content(u, s0)
            steps = lambda i: updates(u, layout, zi(i))
            u.foreach(ListObj(u.E, Seq([Part(n, true, steps)])), lambda v: u.do(r, "add_step", v))
            d = u.do(r, "as_dict")
            b = u.call(u.attr(u.get(SR, "SimulationResult"), "from_dict"), through(u, d, how))
            u.same(content(u, u.attr(b, "initial_state")), before, "the same starting state")
            u.prove(zi(u.ops.length(b)) == n + 1, "the same number of steps")
            u.prove(zi(u.ops.length(r)) == n + 1, "the saved result has as many steps as before")
            # the state at a step is the starting state with the steps before it applied (C03):
            # each recorded step changes any state as it did before
            i = u.int("i", lo=0)
            u.assume(i < n)
            for x, what in ((b, "every step has the same effect"), (r, "and is as it was in the saved result")):
                one, two = u.state("t"), u.state("t")
                at = u.ops.models.indexer(u.ops.freeze_seq(u.attr(x, "_diffs").seq))
                u.do(one, "batch_update", at(i))
                u.do(two, "batch_update", steps(i))
                u.same(content(u, one), content(u, two), what)


for how in HOW:
    @unit("C17", f"a result that was saved, continued and saved again through a {how}", [SR + ".SimulationResult.as_dict", SR + ".SimulationResult.from_dict", SR + ".SimulationResult.add_step"])
    def _(u, how=how):
        s0 = u.state("s")
        n = u.int("steps", lo=0)
        r = u.new(SR, "SimulationResult", s0)
        before = content(u, s0)
        steps = lambda i: updates(u, LAYOUTS[1], zi(i))
        u.foreach(ListObj(u.E, Seq([Part(n, true, steps)])), lambda v: u.do(r, "add_step", v))
        u.do(r, "as_dict")
        u.do(r, "add_step", steps(n))
        b = u.call(u.attr(u.get(SR, "SimulationResult"), "from_dict"), through(u, u.do(r, "as_dict"), how))
        u.same(content(u, u.attr(b, "initial_state")), before, "the same starting state")
        u.prove(zi(u.ops.length(b)) == n + 2, "all steps, the last one too")
        i = u.int("i", lo=0)
        parts = u.ops.freeze_seq(u.attr(b, "_diffs").seq).parts

        def effect(i):
            one, two = u.state("t"), u.state("t")
            # (the recorded ones are a run of steps and one more)
            u.do(one, "batch_update", u.ops.models.indexer(Seq(parts))(i) if len(parts) != 2 else u.ops.models.indexer(Seq(parts[:1]))(i) if i is not n else u.ops.models.indexer(Seq(parts[1:]))(0))
            u.do(two, "batch_update", steps(i))
            u.same(content(u, one), content(u, two), "every step has the same effect")
        if len(parts) == 2:
            u.prove(z3.And(zi(u.ops.seq_len(Seq(parts[:1]))) == n, zi(u.ops.seq_len(Seq(parts[1:]))) == 1), "the steps before, and one more")
        u.under(i < n, lambda: effect(i))
        effect(n)


for layout in LAYOUTS[:2]:
    @unit("C17", f"a result whose steps hold {layout} through a file", [SR + ".SimulationResult.to_file", SR + ".SimulationResult.from_file", SR + ".SimulationResult.as_dict", SR + ".SimulationResult.from_dict"])
    def _(u, layout=layout):
        s0 = u.state("s")
        n = u.int("steps", lo=0)
        r = u.new(SR, "SimulationResult", s0)
        before = content(u, s0)
        steps = lambda i: updates(u, layout, zi(i))
        u.foreach(ListObj(u.E, Seq([Part(n, true, steps)])), lambda v: u.do(r, "add_step", v))
        path = u.opq("path")
        u.assume(path != V.VNone)
        u.same(u.do(r, "to_file", path), path, "the path is given back")
        b = u.call(u.attr(u.get(SR, "SimulationResult"), "from_file"), path)
        u.same(content(u, u.attr(b, "initial_state")), before, "the same starting state")
        u.prove(zi(u.ops.length(b)) == n + 1, "the same number of steps")
        i = u.int("i", lo=0)
        u.assume(i < n)
        one, two = u.state("t"), u.state("t")
        at = u.ops.models.indexer(u.ops.freeze_seq(u.attr(b, "_diffs").seq))
        u.do(one, "batch_update", at(i))
        u.do(two, "batch_update", steps(i))
        u.same(content(u, one), content(u, two), "every step has the same effect")


class Sites:
    """A structure as it is after any number of additions (C10), with its own lattice."""

    def __init__(self, u, d):
        self.u, self.d = u, d
        E = u.E
        self.c = Cell(u, "tuple", d=d)
        self.s = u.new(PS, "PeriodicStructure", self.c.lat)
        for f in ("_sites", "_location_lookup", "site_ids"):
            if f not in self.s.fields:
                raise Skip(f"the structure has no {f}")
        u.known(self.s, ("_sites", "_location_lookup", "site_ids", "lattice", "dim", "_offset_vector"))
        n = self.n = u.int("n", lo=0)
        self.loc = [z3.Function(f"at{j}", INT, REAL) for j in range(d)]
        cls = z3.Function("class", INT, V)
        self.cls = lambda i: cls(zi(i))
        inside = lambda q: u.ops.simp(z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < n))
        ids = Part(n, true, lambda i: zi(i), None, "distinct")
        ids.keyinv = (lambda i: V.VInt(zi(i)), inside, lambda q: V.vi(q))
        self.s.fields["site_ids"] = ListObj(E, Seq([ids]))
        p = Part(n, true, lambda i: V.VInt(zi(i)), None, "distinct")
        p.keyinv = (lambda i: V.VInt(zi(i)), inside, lambda q: V.vi(q))
        self.s.fields["_sites"] = DictObj(E, Base(inside, lambda q: self.site(z3.simplify(V.vi(q))), Seq([p]), "sites", True))

    def vec(self, i):
        return Vec(self.d, lambda j: self.u.ops.models.pick([f(zi(i)) for f in self.loc], j))

    def site(self, i):
        u = self.u
        C, LOC, ID = (u.E.toV(u.const(x)) for x in ("SITE_CLASS", "LOCATION", "SITE_ID"))
        return DictObj(None, None, [(C, self.cls(i)), (LOC, self.vec(i)), (ID, zi(i))])

    def holds(self, s, which):
        u = self.u
        same_cell(u, self.c, u.attr(s, "lattice"), which)
        u.prove(zi(u.attr(s, "dim")) == self.d, which + " dimension")
        u.same_seq(u.ops.seq_of(u.attr(s, "site_ids")), Seq([Part(self.n, true, lambda i: zi(i))]), which + " ids in order")
        u.same_seq(u.ops.seq_of(u.do(s, "sites")), Seq([Part(self.n, true, lambda i: self.site(i))]), which + " sites in order")
        i = u.int("i")
        u.count += 1
        u.under(z3.And(i >= 0, i < self.n), lambda: u.same(u.do(s, "get_site", i), self.site(i), which + " site under an id"))


for d in (1, 2, 3):
    for how in HOW:
        @unit("C17", f"a structure of dimension {d} through a {how}", [PS + ".PeriodicStructure.as_dict", PS + ".PeriodicStructure.from_dict"])
        def _(u, d=d, how=how):
            x = Sites(u, d)
            t = u.do(x.s, "as_dict")
            u.disjoint(t, x.s, "the dictionary form shares nothing with the structure")
            r = u.call(u.attr(u.get(PS, "PeriodicStructure"), "from_dict"), through(u, t, how))
            x.holds(r, "the same")
            x.holds(x.s, "the saved structure keeps its")


from specs.c10 import Reg


@unit("C17", "rounding a rounded location", [])
def _(u):
    """Lemma: with A, B, C the numbers of thousandths that a coordinate w, w and a thousandth,
    and A thousandths and a thousandth are rounded to, B = C unless w is exactly between two
    thousandths (known finding of C10)."""
    w = u.real("w") * 1000
    A, B, C = u.int("A"), u.int("B"), u.int("C")
    half = z3.Q(1, 2)
    near = lambda n, y: z3.And(n - y <= half, y - n <= half)
    u.assume(z3.And(near(A, w), A - w != half, w - A != half))
    u.assume(near(B, w + 1))
    u.assume(near(C, z3.ToReal(A) + 1))
    u.prove(B == C, "rounding twice tells places apart like rounding once")


def tells_apart(u, x):
    """away from rounding ties, by the lemma"""
    r = lambda y: roundto(y, z3.IntVal(3))
    for W in x.W:
        u.E.defs[W.name()] = lambda *c, W=W: [r(z3.simplify(r(W(*c)) + x.off)) == r(z3.simplify(W(*c) + x.off))]
    u.E.assumed.add("sites away from rounding ties (known findings of C10): the recorded location leads to the same look-up key as the location (lemma: rounding a rounded location)")


for d in (1, 2, 3):
    for how in HOW:
        @unit("C17", f"locations in a structure of dimension {d} through a {how}", [PS + ".PeriodicStructure.as_dict", PS + ".PeriodicStructure.from_dict", PS + ".PeriodicStructure.id_at"])
        def _(u, d=d, how=how):
            E = u.E
            token = DictObj(E, None, [(E.toV("lattice"), V.VInt(z3.IntVal(7)))])
            x = Reg(u, d, more={"as_dict": u.native(lambda: token)})
            E.contracts["Lattice.from_dict"] = lambda E, a, k: x.lat
            tells_apart(u, x)
            r = u.call(u.attr(u.get(PS, "PeriodicStructure"), "from_dict"), through(u, u.do(x.s, "as_dict"), how))
            y = x.point("y")
            a = u.do(x.s, "id_at", TupleVal(list(y)))
            b = u.do(r, "id_at", TupleVal(list(y)))
            if a is None or b is None:
                u.ok(a is None and b is None, "a location leads to a site in both or in neither") if (a is None) == (b is None) else u.unreachable("a location leads to a site in both or in neither")
                return
            u.prove(zi(u.plain(a)) == zi(u.plain(b)), "a location leads to the same site")


for d in (1, 2, 3):
    for how in HOW + ("file",):
        @unit("C17", f"a simulation of dimension {d} through a {how}", [SM + ".Simulation.as_dict", SM + ".Simulation.from_dict", SM + ".Simulation.to_file", SM + ".Simulation.from_file"])
        def _(u, d=d, how=how):
            s, x = u.state("s"), Sites(u, d)
            before = content(u, s)
            sim = u.new(SM, "Simulation", s, x.s)
            cls = u.get(SM, "Simulation")
            if how == "file":
                path = u.opq("path")
                u.do(sim, "to_file", path)
                r = u.call(u.attr(cls, "from_file"), path)
            else:
                r = u.call(u.attr(cls, "from_dict"), through(u, u.do(sim, "as_dict"), how))
            u.same(content(u, u.attr(r, "state")), before, "the same state")
            x.holds(u.attr(r, "structure"), "the same")
            u.same(content(u, u.attr(sim, "state")), before, "the saved simulation keeps its state")
            x.holds(u.attr(sim, "structure"), "the saved structure keeps its")
