"""C16: analysis agrees with the site states."""
from speclib import *

AN = "core.analyzer"
DS = "discrete.discrete_step_analyzer"
DR = "discrete.discrete_state_result_analyzer"
SA = AN + ".StateAnalyzer"


class World:
    """A state of any number of sites, each with its id and any attributes, and (if asked for)
    a structure with the same sites, of any classes."""

    def __init__(self, u, structure, pre="", attr="attr"):
        self.u, self.attr = u, pre + attr
        E = u.E
        self.SID = u.const("SITE_ID")
        self.OCC = u.get("discrete.state_constants", "DISCRETE_OCCUPANCY")
        self.struct = structure if isinstance(structure, Inst) else u.structure() if structure else None
        structure = self.struct is not None
        n = z3.Int(pre + "size")
        E.defs[pre + "size"] = lambda: [n >= 0]
        sid = z3.Function(pre + "sid", INT, INT)
        pos = z3.Function(pre + "spos", INT, INT)
        E.defs[pre + "sid"] = lambda i: [z3.Implies(z3.And(i >= 0, i < n), pos(sid(i)) == i)]
        self.n, self.id = (self.struct.n, lambda i: zi(i)) if structure else (n, lambda i: sid(zi(i)))   # (of a structure: as it is now)
        self.state = u.stub("SimulationState", {"get_site_state": u.native(self.get), "all_site_states": u.native(self.all), "size": self.n, "site_ids": self.ids})
        self.asked = []

    def attrs(self, s):
        """the attributes of a site: any, and its id"""
        u = self.u
        a = u.attrs(self.attr, u.E.toV(s))
        return DictObj(None, a.base, [(u.E.toV(self.SID), s)])

    def get(self, s):
        return self.attrs(zi(self.u.plain(s)))

    def all(self):
        return ListObj(self.u.E, Seq([Part(self.n, true, lambda i: self.attrs(self.id(i)))]))

    def ids(self):
        return ListObj(self.u.E, Seq([Part(self.n, true, lambda i: self.id(i), None, "distinct")]))

    def value(self, s, k):
        return self.u.ops.dict_at(self.attrs(s), self.u.E.toV(k))

    def occ(self, i):
        return self.value(self.id(i), self.OCC)[1]

    def want(self, seq, cond, cls, what):
        """seq lists the ids, in order, of the sites (of the class) with cond"""
        c = (lambda i: conj([self.struct.cls_at(zi(i)) == self.u.E.toV(cls), cond(i)])) if cls is not None else cond
        self.u.same_seq(seq, Seq([Part(self.n, c, lambda i: self.id(i))]), what)


for withs, withc in ((False, False), (True, False), (True, True)):
    what = "without a structure" if not withs else "of one class" if withc else "of a structure"

    @unit("C16", "sites satisfying all conditions, " + what, [SA + ".get_sites", SA + ".get_site_count", SA + ".__init__"])
    def _(u, withs=withs, withc=withc):
        w = World(u, withs)
        HOLDS = z3.Function("HOLDS", INT, INT, BOOL)     # does condition k hold for the state of site s
        m = u.int("m", lo=0)

        def crit(k):
            def f(E, a, kw):
                d = a[0]
                if not isinstance(d, DictObj):
                    raise Unsupported("a condition is asked about something that is no site state")
                s = zi(u.plain(u.ops.dict_at(d, E.toV(w.SID))[1]))
                u.same(d, w.attrs(s), "a condition is asked about the state of a site")
                return HOLDS(zi(k), s)
            return Native("condition", f)
        crits = ListObj(u.E, Seq([Part(m, true, crit)]))
        a = u.new(AN, "StateAnalyzer", w.struct) if withs else u.new(AN, "StateAnalyzer")
        cls = u.opq("cls") if withc else None
        if withc:
            u.assume(cls != V.VNone)
        kw = {"site_class": cls} if withc else {}
        cond = lambda i: u.E.loops.ALL(m, lambda k: HOLDS(k, w.id(i)))
        got = u.do(a, "get_sites", w.state, state_criteria=crits, **kw)
        w.want(u.ops.seq_of(got), cond, cls, "the ids of the sites satisfying all conditions, in order")
        got = u.do(a, "get_sites", w.state, **kw)
        w.want(u.ops.seq_of(got), lambda i: True, cls, "without conditions, all sites")
        full = (lambda i: conj([w.struct.cls_at(zi(i)) == cls, cond(i)])) if withc else cond
        u.prove(u.ops.eq(u.do(a, "get_site_count", w.state, state_criteria=crits, **kw), u.E.loops.SUM(w.n, lambda i: u.ops.ite(full(i), 1, 0))), "the count is the number of those sites")

    @unit("C16", "sites holding all given values, " + what, [SA + ".get_sites_where_equal", SA + ".get_site_count_where_equal", SA + ".get_sites"])
    def _(u, withs=withs, withc=withc):
        w = World(u, withs)
        a = u.new(AN, "StateAnalyzer", w.struct) if withs else u.new(AN, "StateAnalyzer")
        cls = u.opq("cls") if withc else None
        if withc:
            u.assume(cls != V.VNone)
        kw = {"site_class": cls} if withc else {}
        pairs = u.symdict("pairs")
        val = z3.Function("pairs.val", V, V)
        u.E.defs["pairs.val"] = lambda q: [val(q) != V.VNone]      # (a value; a missing attribute holds none)
        before = u.frozen(pairs)

        def holds(i):
            def one(k):
                q = pairs.key(zi(k))
                h, v = w.value(w.id(i), q)
                return conj([h, u.ops.eq(v, val(q))])
            return u.E.loops.ALL(pairs.n, one)
        got = u.do(a, "get_sites_where_equal", w.state, pairs, **kw)
        w.want(u.ops.seq_of(got), holds, cls, "the ids of the sites holding all values, in order")
        full = (lambda i: conj([w.struct.cls_at(zi(i)) == cls, holds(i)])) if withc else holds
        got = u.do(a, "get_site_count_where_equal", w.state, pairs, **kw)
        u.prove(u.ops.eq(got, u.E.loops.SUM(w.n, lambda i: u.ops.ite(full(i), 1, 0))), "the count is the number of those sites")
        u.same(pairs, before, "the search pairs are not changed")

    @unit("C16", "sites again, in another state" + (", after more sites were added" if withs else "") + ", " + what, [SA + ".get_sites", SA + ".get_sites_where_equal", SA + ".get_site_count"])
    def _(u, withs=withs, withc=withc):
        """The analyzer has been asked before, about another state (and a smaller structure)."""
        w0 = World(u, withs, pre="old.")
        a = u.new(AN, "StateAnalyzer", w0.struct) if withs else u.new(AN, "StateAnalyzer")
        cls = u.opq("cls") if withc else None
        if withc:
            u.assume(cls != V.VNone)
        kw = {"site_class": cls} if withc else {}
        P, v = u.opq("key"), u.opq("value")
        u.assume(v != V.VNone)
        pair = lambda: DictObj(u.E, None, [(P, v)])

        def holds(w, i):
            h, x = w.value(w.id(i), P)
            return conj([h, u.ops.eq(x, v)])
        u.do(a, "get_sites", w0.state, **kw)
        u.do(a, "get_site_count_where_equal", w0.state, pair(), **kw)
        if withs:
            w0.struct.grow()
        w = World(u, w0.struct if withs else False)
        w.want(u.ops.seq_of(u.do(a, "get_sites", w.state, **kw)), lambda i: True, cls, "all sites, as they are now")
        w.want(u.ops.seq_of(u.do(a, "get_sites_where_equal", w.state, pair(), **kw)), lambda i: holds(w, i), cls, "the ids of the sites holding the value now, in order")
        if withs:
            w.want(u.ops.seq_of(u.do(a, "get_sites", w.state)), lambda i: True, None, "of any class, all sites")


@unit("C16", "count, fraction and ratio of phases", [DS + ".DiscreteStepAnalyzer.cell_count", DS + ".DiscreteStepAnalyzer.cell_fraction", DS + ".DiscreteStepAnalyzer.cell_ratio"])
def _(u):
    w = World(u, False)
    u.E.defs["attr.has"] = lambda s, q: []
    OCC = z3.Function("OCC", INT, V)
    base = w.attrs
    w.attrs = lambda s: DictObj(None, base(s).base, [(u.E.toV(w.SID), s), (u.E.toV(w.OCC), OCC(zi(s)))])
    a = u.new(DS, "DiscreteStepAnalyzer")
    p, q = u.opq("p"), u.opq("q")
    u.assume(z3.And(p != V.VNone, q != V.VNone))
    count = lambda p: u.E.loops.SUM(w.n, lambda i: z3.If(OCC(w.id(i)) == p, 1, 0))
    u.prove(u.ops.eq(u.do(a, "cell_count", w.state, p), count(p)), "the count of a phase is the number of sites holding it")
    try:
        f = u.do(a, "cell_fraction", w.state, p)
        u.prove(z3.And(w.n > 0, u.ops.eq(f, z3.ToReal(count(p)) / z3.ToReal(w.n))), "the fraction is the count divided by the number of sites")
    except Raise as e:
        u.prove(w.n == 0, "no fraction only of nothing")
        return
    try:
        f = u.do(a, "cell_ratio", w.state, p, q)
        u.prove(z3.And(count(q) > 0, u.ops.eq(f, z3.ToReal(count(p)) / z3.ToReal(count(q)))), "the ratio is the quotient of the counts")
    except Raise as e:
        u.prove(count(q) == 0, "no ratio only to nothing")


@unit("C16", "the phases present", [DS + ".DiscreteStepAnalyzer.phases_present", DS + ".DiscreteStepAnalyzer.phase_count"])
def _(u):
    w = World(u, False)
    OCC = z3.Function("OCC", INT, V)
    base = w.attrs
    w.attrs = lambda s: DictObj(None, base(s).base, [(u.E.toV(w.SID), s), (u.E.toV(w.OCC), OCC(zi(s)))])
    a = u.new(DS, "DiscreteStepAnalyzer")
    got = u.do(a, "phases_present", w.state)
    x = u.opq("x")
    u.prove(zb(u.contains(got, x)) == zb(u.E.loops.EX(w.n, lambda i: OCC(w.id(i)) == x)), "a phase is listed exactly when some site holds it")
    u.each_once(got, "each once")
    u.prove(u.ops.eq(u.do(a, "phase_count", w.state), u.ops.seq_len(u.ops.seq_of(got))), "the number of phases is the length of that list")


@unit("C16", "counts and phases again, in another state", [DS + ".DiscreteStepAnalyzer.cell_count", DS + ".DiscreteStepAnalyzer.cell_fraction", DS + ".DiscreteStepAnalyzer.phases_present"])
def _(u):
    """The analyzer has been asked before, about another state."""
    ws = []
    for pre in ("old.", ""):
        w = World(u, False, pre=pre)
        w.OCCS = z3.Function(pre + "OCC", INT, V)
        w.attrs = lambda s, w=w, base=w.attrs: DictObj(None, base(s).base, [(u.E.toV(w.SID), s), (u.E.toV(w.OCC), w.OCCS(zi(s)))])
        ws.append(w)
    w0, w = ws
    a = u.new(DS, "DiscreteStepAnalyzer")
    p = u.opq("p")
    u.assume(z3.And(p != V.VNone, w0.n > 0, w.n > 0))
    u.do(a, "cell_count", w0.state, p)
    u.do(a, "cell_fraction", w0.state, p)
    u.do(a, "phases_present", w0.state)
    count = u.E.loops.SUM(w.n, lambda i: z3.If(w.OCCS(w.id(i)) == p, 1, 0))
    u.prove(u.ops.eq(u.do(a, "cell_count", w.state, p), count), "the count in the state asked about")
    u.prove(u.ops.eq(u.do(a, "cell_fraction", w.state, p), z3.ToReal(count) / z3.ToReal(w.n)), "the fraction in the state asked about")
    x = u.opq("x")
    got = u.do(a, "phases_present", w.state)
    u.prove(zb(u.contains(got, x)) == zb(u.E.loops.EX(w.n, lambda i: w.OCCS(w.id(i)) == x)), "the phases of the state asked about")


def phases_and_fractions(u, r, n, NP, PH, FR, x, when):
    some = u.E.loops.EX(n + 1, lambda k: u.E.loops.EX(NP(zi(k)), lambda i: PH(zi(k), zi(i)) == x))
    got = u.do(r, "all_phases")
    u.prove(zb(u.contains(got, x)) == zb(some), "a phase is listed exactly when it is present in some step" + when)
    u.each_once(got, "each once" + when)
    fr = u.do(r, "final_phase_fractions")
    if u.ok(isinstance(fr, DictObj), "fractions by phase"):
        h, v = u.ops.dict_at(fr, x)
        u.prove(zb(h) == zb(some), "the final fractions are those of the phases of the result" + when)
        u.under(h, lambda: u.prove(u.ops.eq(v, FR(n, x)), "each the fraction in the last step" + when))
    k = u.int("k", lo=0)
    u.under(k <= n, lambda: u.prove(u.ops.eq(u.do(r, "phase_fraction_at", k, x), FR(k, x)), "the fraction at a step is that of the state after the step" + when))


@unit("C16", "phases of a result, final fractions, fractions at a step", [DR + ".DiscreteResultAnalyzer.all_phases", DR + ".DiscreteResultAnalyzer.final_phase_fractions", DR + ".DiscreteResultAnalyzer.phase_fraction_at"])
def _(u):
    E = u.E
    first, more = u.int("n", lo=0), u.int("more", lo=0)
    steps = [first]                                        # recorded steps
    NP = z3.Function("NPHASES", INT, INT)
    PH = z3.Function("PHASE", INT, INT, V)
    FR = z3.Function("FRACTION", INT, V, REAL)
    E.defs["NPHASES"] = lambda k: [NP(k) >= 0]

    def step(k):
        return u.stub("SimulationState", {"step": lambda: zi(k)})

    def number(st):
        return u.attr(st, "step")
    result = u.stub("SimulationResult", {"steps": u.native(lambda: ListObj(E, Seq([Part(steps[0] + 1, true, step)]))), "last_step": lambda: step(steps[0]),
                                         "first_step": lambda: step(0), "get_step": u.native(lambda k: step(zi(k))), "load_steps": u.native(lambda k: None)})

    def present(st):
        k = number(st)
        return ListObj(E, Seq([Part(NP(k), true, lambda i: PH(k, zi(i)), None, "distinct")]))
    analyzer = u.stub("DiscreteStepAnalyzer", {"phases_present": u.native(present), "cell_fraction": u.native(lambda st, p: FR(number(st), E.toV(p)))})
    E.contracts["DiscreteStepAnalyzer"] = lambda E, a, k: analyzer
    r = u.new(DR, "DiscreteResultAnalyzer", result)
    x = u.opq("x")
    for when in ("", ", when more steps were recorded"):
        n = steps[0]
        phases_and_fractions(u, r, n, NP, PH, FR, x, when)
        steps[0] = first + more


@unit("C16", "the steps that are plotted", [DR + ".DiscreteResultAnalyzer._get_steps_to_plot"])
def _(u):
    """The result by contract (C03): it has a number of steps, each can be had, and loading keeps them."""
    E = u.E
    n = u.int("steps", lo=1)
    STEP = z3.Function("STEP", INT, V)
    result = u.stub("SimulationResult", {"__len__": u.native(lambda: n), "get_step": u.native(lambda i: STEP(zi(i))), "load_steps": u.native(lambda *k: None)})
    r = u.new(DR, "DiscreteResultAnalyzer", result)
    idx, steps = u.ops.seq_of(u.do(r, "_get_steps_to_plot")).concrete()
    u.prove(z3.And(zi(u.ops.length(idx)) >= 1, zi(u.ops.length(idx)) == zi(u.ops.length(steps))), "one state for each number")
    k = u.int("k", lo=0)
    u.assume(k < zi(u.ops.length(idx)))
    i = zi(u.ops.getitem(idx, k))
    u.prove(z3.And(i >= 0, i < n), "a number of a step")
    u.prove(E.toV(u.ops.getitem(steps, k)) == STEP(i), "the state after that step")


@unit("C16", "a phase set holds each of the given phases once", ["discrete.phase_set.PhaseSet.__init__"])
def _(u):
    given = u.list("given")
    before = u.frozen(given)
    p = u.new("discrete.phase_set", "PhaseSet", given)
    got = p.fields["phases"]
    x = u.opq("x")
    u.prove(zb(u.contains(got, x)) == zb(u.E.loops.EX(given.n, lambda i: given.at(zi(i)) == x)), "exactly the given phases")
    u.each_once(got, "each once")
    u.same(given, before, "the given list is not changed")
