import random as _random
from common import *
from pylattica.core import SimulationState, SynchronousRunner, PeriodicStructure, Lattice, DistanceNeighborhoodBuilder, MotifNeighborhoodBuilder
from pylattica.discrete import PhaseSet
import pylattica.structures.square_grid  # noqa (growth alone is a circular import)
from pylattica.models.growth import GrowthController
from pylattica.structures.square_grid import (SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder, MooreNbHoodBuilder,
                                              VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder, GrowthSetup, DiscreteGridSetup)

RULE = ("random phase assignments (1-4 phases plus background, ties frequent) on 2D/3D grids, non-grid structures, several "
        "neighborhoods and background names; single applications, serial runs, and the growth setup against a replayed run")
COUNTS = {"apply": 250, "run": 100, "setup": 14}


def setup(r, log):
    k = r.randrange(4)
    if k == 0:
        s = SimpleSquare3DStructureBuilder().build(3)
        nb = r.choice([None, VonNeumannNbHood3DBuilder(1)])
    elif k == 1:
        s = PeriodicStructure(Lattice([(4.0, 0.0), (0.0, 3.0)], (True, False)))
        for i in range(r.randrange(2, 9)):
            p = (round(r.uniform(0.1, 3.8), 2), round(r.uniform(0.1, 2.8), 2))
            if s.id_at(p) is None:
                s.add_site("A", p)
        nb = DistanceNeighborhoodBuilder(r.choice([0.5, 1.0, 2.0]))
    else:
        s = SimpleSquare2DStructureBuilder().build((r.randrange(2, 6), r.randrange(2, 6)))
        nb = r.choice([None, VonNeumannNbHood2DBuilder(), MooreNbHoodBuilder(2), MotifNeighborhoodBuilder([(1, 0), (0, 2)])])
    bg = r.choice(["VACANT", "bg", ""])
    phases = ["p", "q", "s", "t"][:r.randrange(1, 5)]
    if bg != "VACANT" and r.random() < 0.4:
        phases[-1] = "VACANT"
    if bg and r.random() < 0.2:
        phases[0] = ""
    if r.random() < 0.15:
        phases[-1] = None       # sites that hold no phase at all
    occ = {i: bg if r.random() < r.choice([.3, .6, .9]) else r.choice(phases) for i in s.site_ids}
    log.update(kind=k, occupancy=occ, background=bg, nb=type(nb).__name__)
    kw = {} if bg == "VACANT" and r.random() < 0.5 else {"background_phase": bg}
    if nb is not None:
        kw["nb_builder"] = nb
    known = phases + [bg] if r.random() < .7 else r.sample(phases + [bg], r.randrange(0, len(phases) + 1))
    log["phase set"] = known
    c = GrowthController(PhaseSet(known), s, **kw)
    graph = (nb or MooreNbHoodBuilder(1, dim=s.dim)).get(s)
    return s, c, graph, bg, occ


def state_of(occ):
    return SimulationState({SITES: {i: {SITE_ID: i, OCC: p, "m": [i]} for i, p in occ.items()}, GENERAL: {"g": 2}})


def allowed(i, occ, graph, bg):
    """set of acceptable phases after the rule"""
    if occ[i] != bg:
        return {occ[i]}
    cnt = {}
    for j in graph.neighbors_of(i):
        if occ[j] != bg:
            cnt[occ[j]] = cnt.get(occ[j], 0) + 1
    if not cnt:
        return {bg}
    m = max(cnt.values())
    return {p for p, k in cnt.items() if k == m}


def sc_apply(r, log):
    s, c, graph, bg, occ = setup(r, log)
    st = state_of(occ)
    c.pre_run(st)
    before = dump(st)
    for i in occ:
        u = c.get_state_update(i, st)
        al = allowed(i, occ, graph, bg)
        new = effect(before, i, u)
        need(new[SITES][i][OCC] in al, f"phase given to site {i}", u, al, occ)
        need(new == apply(before, {i: {OCC: new[SITES][i][OCC]}}), "nothing else changes", u)
    eq(dump(st), before, "state the rule was applied to")
    if r.random() < .5:
        # another state, and the same rule
        vals = list(set(occ.values())) + [bg]
        occ = {i: r.choice(vals) for i in occ}
        log["second"] = occ
        st = state_of(occ)
        before = dump(st)
        for i in occ:
            u = c.get_state_update(i, st)
            new = effect(before, i, u)
            need(new[SITES][i][OCC] in allowed(i, occ, graph, bg), f"phase given to site {i} of the second state", u, occ)


def sc_run(r, log):
    s, c, graph, bg, occ = setup(r, log)
    res = SynchronousRunner().run(state_of(occ), c, 4)
    prev = dict(occ)
    known = set(occ.values())
    for k in range(1, 5):
        cur = {i: res.get_step(k).get_site_state(i)[OCC] for i in occ}
        for i in occ:
            need(cur[i] in allowed(i, prev, graph, bg), f"site {i} in step {k}", cur[i], prev[i])
            eq(res.get_step(k).get_site_state(i)["m"], [i], "another attribute")
        need(set(cur.values()) <= known, "a phase that was not there before", cur)
        prev = cur


def sc_setup(r, log):
    dim = r.choice([2, 2, 3])
    size = r.choice([2, 3, 4, 5, 6, 7, 9, 12, 14]) if dim == 2 else r.choice([2, 4, 5])
    n = r.randrange(1, 4 if size > 3 else 2)
    bg = r.choice(["VACANT", "matrix"])
    amts = {"p": 1, "q": r.choice([1, 2, 0.5])}
    buffer = r.choice([1, None])
    # the last ones reach further in one direction than in the other, or take every step there is
    nb = r.choice([MooreNbHoodBuilder(1, dim=2), VonNeumannNbHood2DBuilder(), MotifNeighborhoodBuilder([(1, 0), (-1, 0), (0, 2)]),
                   MotifNeighborhoodBuilder([(1, 0), (0, 1)])] if dim == 2 else
                  [MooreNbHoodBuilder(1, dim=3), VonNeumannNbHood3DBuilder(1), MotifNeighborhoodBuilder([(1, 0, 0), (0, 0, 1)])])
    seed = r.randrange(10 ** 6)
    log.update(dim=dim, size=size, n=n, background=bg, amounts=amts, buffer=buffer, seed=seed)
    ps = PhaseSet(["p", "q", bg])
    _random.seed(seed), np.random.seed(seed)
    gs = GrowthSetup(ps, dim=dim)
    if r.random() < .4:
        # a setup that was used before, with other phases in the background and another neighborhood
        log["grown before"] = True
        gs.grow(r.choice([size, 3]), 1, "p", {"q": 1}, MooreNbHoodBuilder(1, dim=dim), buffer=r.choice([0, None]))
        _random.seed(seed), np.random.seed(seed)
    sim = gs.grow(size, n, bg, amts, nb, buffer=buffer)
    _random.seed(seed), np.random.seed(seed)
    start = DiscreteGridSetup(ps, dim=dim).setup_random_sites(size, n, bg, amts, buffer=buffer)
    graph = nb.get(start.structure)
    seeds = {i: start.state.get_site_state(i)[OCC] for i in start.structure.site_ids}
    # the step in which a cell is filled does not depend on how ties are broken
    t = {i: 0 for i in seeds if seeds[i] != bg}
    for k in range(1, size + 1):
        t.update({i: k for i in seeds if i not in t and any(t.get(j, k) < k for j in graph.neighbors_of(i))})
    eq(len(sim.structure.site_ids), size ** dim, "sites of the structure")
    need(close([sim.structure.site_location(i) for i in sim.structure.site_ids],
               [start.structure.site_location(i) for i in start.structure.site_ids]), "structure of the result")
    eq(sorted(sim.state.site_ids()), sorted(sim.structure.site_ids), "sites of the state")
    occ = {i: sim.state.get_site_state(i)[OCC] for i in sim.structure.site_ids}
    for i in occ:
        if i not in t:
            eq(occ[i], bg, f"site {i}, which the growth does not reach in {size} steps")
        elif t[i] == 0:
            eq(occ[i], seeds[i], f"seed site {i} at the end of growth")
        else:
            before = {j: occ[j] if t.get(j, size + 1) < t[i] else bg for j in occ}
            need(occ[i] in allowed(i, before, graph, bg), f"phase of site {i}, filled in step {t[i]}", occ[i],
                 {j: before[j] for j in graph.neighbors_of(i)})
