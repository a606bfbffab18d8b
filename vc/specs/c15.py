"""C15: growth fills background cells only, with a most frequent neighboring phase."""
from speclib import *

GC = "models.growth.growth_controller"
GS = "structures.square_grid.growth_setup"


@unit("C15", "a background site gets a most frequent neighboring phase, others stay", [GC + ".GrowthController.get_state_update"])
def _(u):
    rule_unit(u)


@unit("C15", "the same, asked again in another state", [GC + ".GrowthController.get_state_update"], budget=200)
def _(u):
    """(All of it but that no phase outnumbers the new one, which is left to the first time.)"""
    rule_unit(u, True)


def rule_unit(u, again=False):
    OCC = u.get("discrete.state_constants", "DISCRETE_OCCUPANCY")
    occ = z3.Function("occ", INT, V)
    st = u.cells({OCC: occ})
    nb = u.neighbors()
    bg = u.opq("bg")
    builder = u.stub("NeighborhoodBuilder", {"get": u.native(lambda st: nb)})
    c = u.new(GC, "GrowthController", u.stub("PhaseSet", {}), u.stub("PeriodicStructure", {}), bg, builder)
    s = u.int("s")
    n = nb.n(s)
    ph = lambda i: occ(nb.at(s, i))
    count = lambda q: u.E.loops.SUM(n, lambda i: z3.If(ph(i) == q, 1, 0))
    other = u.E.loops.EX(n, lambda i: ph(i) != bg)
    if again:       # the rule was applied before, in another state and maybe to another site
        u.do(c, "get_state_update", u.int("other site"), u.cells({OCC: z3.Function("old.occ", INT, V)}))
    res = u.do(c, "get_state_update", s, st)
    if not u.shape(isinstance(res, DictObj), "the rule answers with attributes", repr(res)):
        return
    changes = z3.And(occ(s) == bg, zb(other))
    has, val = u.ops.dict_at(res, u.E.toV(OCC))
    u.prove(z3.Implies(changes, zb(has)), "a background site with a neighbor of another phase is changed")
    u.under(z3.And(zb(has), z3.Not(changes)), lambda: u.prove(u.E.toV(val) == occ(s), "any other site keeps its phase"))
    q = u.opq("q")
    u.same_set(u.ops.keys_seq(res), Seq([Item(u.E.toV(OCC), zb(has))]), "only the phase is changed")

    def grown():
        p = u.E.toV(val)
        u.prove(p != bg, "the new phase is not the background")
        u.prove(u.E.loops.EX(n, lambda i: ph(i) == p), "some neighbor holds the new phase")
        i1 = u.E.loops.FIRST(n, lambda i: z3.And(ph(i) == q, ph(i) != bg))

        def outnumbered():
            u.fact(z3.And(i1 >= 0, i1 < n, ph(i1) == q), "a phase that is counted has a first neighbor")
            x = u.int("x", lo=0)
            u.under(x < i1, lambda: u.prove(ph(x) != q, "the first neighbor is the first"))
            u.same_sums(n, lambda i, y: z3.If(ph(i) == y, 1, 0), lambda i, y: z3.If(z3.And(ph(i) == y, ph(i) != bg), 1, 0), "the background is not counted",
                        uses=(q, p), given=lambda y: y != bg)
            u.prove(count(q) <= count(p), "no other phase outnumbers it")
        if not again:
            u.under(z3.And(q != bg, count(q) > 0), outnumbered)
    if val is not u.ops.__class__ and has is not False:
        u.under(changes, grown)


@unit("C15", "during growth no filled site changes and no phase is made up (by induction over the steps, from the rule's contract)")
def _(u):
    # what one application of the rule gives (proved above) and what a step does with it (C05):
    # CELL(k, s) is the phase of site s before step k
    CELL = z3.Function("CELL", INT, INT, V)
    FROM = z3.Function("FROM", INT, INT, INT)     # the neighbor whose phase is taken
    bg, q, s, n = u.opq("bg"), u.opq("q"), z3.Int("s"), u.int("n", lo=0)

    def stepped(k, s):
        return z3.Or(CELL(k + 1, s) == CELL(k, s), z3.And(CELL(k, s) == bg, CELL(k + 1, s) != bg, CELL(k + 1, s) == CELL(k, FROM(k, s))))
    rel = lambda k, s: u.assume(stepped(k, s))
    m = u.int("m", lo=0)
    u.under(CELL(m, s) != bg, lambda: u.induct(lambda k: CELL(k, s) == CELL(m, s), m, n, "a site that left the background keeps its phase", hint=lambda k: rel(k, s)))
    absent = z3.Const("absent", V)
    # no site holds the phase at the start; then none ever does: by induction over the steps, for all sites at once
    HELD = z3.Function("HELD", INT, INT, BOOL)
    x = z3.Int("x")
    none = lambda k: z3.ForAll([x], CELL(k, x) != absent)
    k = u.int("k", lo=0)
    u.E.pc.append(none(k))
    rel(k, s)
    u.prove(CELL(k + 1, s) != absent, "a phase no site holds is held by no site after the step")


for again in (False, True):
    @unit("C15", "the growth setup returns the last state of a run of this rule on its structure" + (", used before" if again else ""), [GS + ".GrowthSetup.grow"])
    def _(u, again=again):
        """Placement (C18), rule and runner (C05, C06) by contract: who is asked for what."""
        dim, phases = u.int("dim", lo=1), u.stub("PhaseSet", {})
        g = u.new(GS, "GrowthSetup", phases, dim)
        if again:
            grown(u, g, phases, dim, "old.")
        grown(u, g, phases, dim, "")


def grown(u, g, phases, dim, pre):
    E = u.E
    made = {}

    def record(name, result):
        def f(E, a, k):
            made.setdefault(name, []).append((a, k))
            return result
        return f
    struct = u.stub("PeriodicStructure", {"dim": dim})
    start, last = u.stub("SimulationState", {}), u.stub("SimulationState", {})
    sim = u.stub("Simulation", {"state": start, "structure": struct})
    setup = u.stub("DiscreteGridSetup", {"setup_random_sites": Native("setup_random_sites", record("place", sim))})
    ctl = u.stub("GrowthController", {})
    res = u.stub("SimulationResult", {"last_step": last})
    runner = u.stub("SynchronousRunner", {"run": Native("run", record("run", res))})
    out = u.stub("Simulation", {})
    E.contracts["DiscreteGridSetup"] = record("setup", setup)
    E.contracts["GrowthController"] = record("controller", ctl)
    E.contracts["SynchronousRunner"] = record("runner", runner)
    E.contracts["AsynchronousRunner"] = record("other runner", runner)
    E.contracts["Simulation"] = record("simulation", out)
    nbb = u.stub("NeighborhoodBuilder", {})
    amts, bg = u.symdict(pre + "amts"), u.opq(pre + "bg")
    size, num, buf = u.int(pre + "size", lo=1), u.int(pre + "num", lo=0), u.int(pre + "buffer", lo=0)
    got = u.do(g, "grow", size, num, bg, amts, nbb, buf)
    if pre:
        return
    arg = lambda call, pos, name: call[0][pos] if len(call[0]) > pos else call[1].get(name)
    one = lambda name: len(made.get(name, ())) == 1
    u.shape(got is out and one("simulation"), "a simulation is returned", repr(made.keys()))
    # the maker of the starting state and the runner keep nothing of what they are asked (C18, C05)
    # and may be older; the rule knows its structure and has to be made for this one
    if not (u.shape(all(one(x) for x in ("place", "controller", "run")), "one placement and one run", repr({k: len(v) for k, v in made.items()}))):
        return
    simc, c, r, p = made["simulation"][0], made["controller"][0], made["run"][0], made["place"][0]
    u.shape(arg(simc, 0, "state") is last, "with the last state of the run")
    u.shape(arg(simc, 1, "structure") is struct, "on the structure it was started on")
    u.shape(arg(r, 0, "initial_state") is start, "the run starts from the placed sites")
    u.shape(arg(r, 1, "controller") is ctl, "the run applies the growth rule")
    u.prove(zi(arg(r, 2, "num_steps")) == size, "the run has as many steps as the side is long")
    u.shape(arg(c, 0, "phase_set") is phases, "the rule knows the phases")
    u.shape(arg(c, 1, "periodic_struct") is struct, "the rule works on the structure")
    u.shape(arg(c, 2, "background_phase") is bg, "the rule knows the background")
    u.shape(arg(c, 3, "nb_builder") is nbb, "the rule uses the given neighborhood")
    if u.shape(one("setup"), "one maker of the starting state"):
        su = made["setup"][0]
        u.shape(arg(su, 0, "phase_set") is phases, "the starting state has the phases")
        u.prove(zi(arg(su, 1, "dim") if arg(su, 1, "dim") is not None else 2) == dim, "the starting state has the dimension")
    u.shape(arg(p, 2, "background_spec") is bg and arg(p, 3, "nuc_amts") is amts, "the placement is the requested one")
    u.prove(zi(arg(p, 0, "size")) == size, "the size is the requested one")
    u.prove(zi(arg(p, 1, "num_sites_desired")) == num, "the number of sites is the requested one")
    u.prove(zi(arg(p, 4, "buffer") if arg(p, 4, "buffer") is not None else 2) == buf, "the buffer is the requested one")


@unit("C15", "the rule is made with the given or the default neighborhood of the structure", [GC + ".GrowthController.__init__"])
def _(u):
    nb = u.neighbors()
    asked, made = [], []
    b = lambda: u.stub("NeighborhoodBuilder", {"get": u.native(lambda st: (asked.append(st), nb)[1])})

    def moore(E, a, k):
        made.append((a[0] if a else k.get("size", 1), a[1] if len(a) > 1 else k.get("dim", 2)))
        return b()
    u.E.contracts["MooreNbHoodBuilder"] = moore
    d = u.int("dim", lo=1)
    st = u.stub("PeriodicStructure", {"dim": d})
    phases = u.stub("PhaseSet", {})
    given = b()
    bg = u.opq("bg")
    c = u.new(GC, "GrowthController", phases, st, bg, given)
    u.shape(asked == [st] and not made and c.fields.get("nb_graph") is nb, "the given neighborhood of the structure")
    u.shape(c.fields.get("background_phase") is bg, "the given background")
    asked.clear()
    c = u.new(GC, "GrowthController", phases, st)
    u.shape(asked == [st] and len(made) == 1 and c.fields.get("nb_graph") is nb, "by default one neighborhood of the structure")
    if made:
        u.prove(z3.And(zi(made[0][0]) == 1, zi(made[0][1]) == d), "the default is the Moore neighborhood of size 1 in the dimension of the structure")
    u.shape(c.fields.get("background_phase") == u.get("discrete.state_constants", "VACANT"), "the default background is VACANT")
