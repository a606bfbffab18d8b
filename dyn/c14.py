from common import *
from pylattica.core import SimulationState, SynchronousRunner, PeriodicStructure, Lattice
from pylattica.models.game_of_life import GameOfLifeController, Life, Seeds, Anneal, Diamoeba, Maze
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

RULE = ("random variants over the digits 0-8 plus the named ones, periodic grids of 1-6 by 1-6 cells, random alive/dead "
        "configurations (all densities), single rule applications and runs of up to 4 steps; reference: toroidal count of distinct cells")
COUNTS = {"apply": 250, "run": 100, "table": 40, "named": 30, "regrown": 40}


def setup(r, log, lo=1, hi=6):
    size = (r.randrange(lo, hi + 1), r.randrange(lo, hi + 1))
    s = SimpleSquare2DStructureBuilder().build(size if r.random() < 0.7 else size[0])
    dims = (size[1], size[0])
    if len(s.sites()) != size[0] * size[1]:
        dims = (size[0], size[0])
    pos = {t[SITE_ID]: tuple(int(round(float(x))) for x in t[LOCATION]) for t in s.sites()}
    dens = r.choice([0.1, 0.3, 0.5, 0.8, 1.0])
    alive = {i: r.random() < dens for i in pos}
    log.update(dims=dims, alive=[pos[i] for i in pos if alive[i]])
    return s, dims, pos, alive


def neighbors(i, pos, dims):
    inv = {p: j for j, p in pos.items()}
    x, y = pos[i]
    return {inv[(x + a) % dims[0], (y + b) % dims[1]] for a in (-1, 0, 1) for b in (-1, 0, 1)} - {i}


def step(alive, pos, dims, born, surv):
    out = {}
    for i in pos:
        n = sum(alive[j] for j in neighbors(i, pos, dims))
        out[i] = n in (surv if alive[i] else born)
    return out


def variant(r):
    b = [k for k in range(9) if r.random() < 0.35]
    s = [k for k in range(9) if r.random() < 0.35]
    r.shuffle(b)
    return "B" + "".join(map(str, b)) + "/S" + "".join(map(str, s)), b, s


def state_of(alive):
    return SimulationState({SITES: {i: {SITE_ID: i, OCC: "alive" if a else "dead", "tag": i} for i, a in alive.items()}, GENERAL: {"g": 1}})


def read(st, pos):
    return {i: {"alive": True, "dead": False}[st.get_site_state(i)[OCC]] for i in pos}


def sc_apply(r, log):
    s, dims, pos, alive = setup(r, log)
    v, b, sv = variant(r)
    log["variant"] = v
    c = GameOfLifeController(s, v)
    st = state_of(alive)
    c.pre_run(st)
    exp = step(alive, pos, dims, b, sv)
    before = dump(st)
    order = list(pos)
    r.shuffle(order)
    for i in order:
        u = c.get_state_update(i, st)
        eq(effect(before, i, u), apply(before, {i: {OCC: "alive" if exp[i] else "dead"}}), f"effect of the response {u} at {pos[i]}")
    eq(dump(st), before, "state after applying the rule without updating")


def sc_run(r, log):
    s, dims, pos, alive = setup(r, log)
    v, b, sv = variant(r) if r.random() < 0.7 else ("B3/S23", [3], [2, 3])
    log["variant"] = v
    st = state_of(alive)
    c = GameOfLifeController(s, v) if v != "B3/S23" or r.random() < .5 else GameOfLifeController(s)
    res = SynchronousRunner().run(st, c, 4)
    for k in range(5):
        got = res.get_step(k)
        eq(read(got, pos), alive, f"cells after step {k}")
        for i in pos:
            eq(got.get_site_state(i).get("tag"), i, "another attribute of a cell")
        eq(got.get_general_state(), {"g": 1}, "general state")
        alive = step(alive, pos, dims, b, sv)


def sc_table(r, log):
    """every count 0-8 around a living and a dead cell"""
    v, b, sv = variant(r)
    log["variant"] = v
    s = SimpleSquare2DStructureBuilder().build(5)
    pos = {t[SITE_ID]: tuple(int(round(float(x))) for x in t[LOCATION]) for t in s.sites()}
    c = GameOfLifeController(s, v)
    mid = [i for i in pos if pos[i] == (r.randrange(5), r.randrange(5))] or [list(pos)[0]]
    mid = mid[0]
    nbs = sorted(neighbors(mid, pos, (5, 5)))
    c.pre_run(None)
    for cnt in range(9):
        for me in (True, False):
            ch = r.sample(nbs, cnt)
            alive = {i: (i in ch) if i in nbs else (me if i == mid else r.random() < .5) for i in pos}
            u = c.get_state_update(mid, state_of(alive))
            exp = cnt in (sv if me else b)
            new = effect(dump(state_of(alive)), mid, u)[SITES][mid][OCC]
            need(new == ("alive" if exp else "dead"), f"{v}: {'living' if me else 'dead'} cell with {cnt} neighbors", u)


def sc_named(r, log):
    name, (b, sv) = r.choice([(Life, ([3], [2, 3])), (Seeds, ([2], [])), (Anneal, ([4, 6, 7, 8], [3, 5, 6, 7, 8])),
                              (Diamoeba, ([3, 5, 6, 7, 8], [5, 6, 7, 8])), (Maze, ([3], [1, 2, 3, 4, 5]))])
    log["variant"] = name
    s, dims, pos, alive = setup(r, log, 3, 5)

    class Sub(GameOfLifeController):
        variant = name
    c = Sub(s) if r.random() < 0.5 else GameOfLifeController(s, name)
    res = SynchronousRunner().run(state_of(alive), c, 2)
    for k in range(3):
        eq(read(res.get_step(k), pos), alive, f"cells after step {k}")
        alive = step(alive, pos, dims, b, sv)


def sc_regrown(r, log):
    """one controller for run after run, while cells are added to its structure"""
    dims = (r.randrange(2, 6), r.randrange(2, 6))
    v, b, sv = variant(r)
    cells = list(itertools.product(range(dims[0]), range(dims[1])))
    r.shuffle(cells)
    s = PeriodicStructure(Lattice([(float(dims[0]), 0.0), (0.0, float(dims[1]))]))
    c = GameOfLifeController(s, v)
    log.update(variant=v, dims=dims, cells=cells)
    pos, log["runs"] = {}, []
    while cells:
        for _ in range(r.randrange(1, 1 + len(cells))):
            p = cells.pop()
            pos[s.add_site("A", tuple(map(float, p)))] = p
        alive = {i: r.random() < .5 for i in pos}
        log["runs"].append([pos[i] for i in pos if alive[i]])
        res = SynchronousRunner().run(state_of(alive), c, 2)
        inv = {p: i for i, p in pos.items()}
        nb = {i: {inv[q] for q in (((p[0] + x) % dims[0], (p[1] + y) % dims[1]) for x in (-1, 0, 1) for y in (-1, 0, 1)) if q in inv} - {i} for i, p in pos.items()}
        for k in range(3):
            eq(read(res.get_step(k), pos), alive, f"cells after step {k}, with {len(pos)} cells")
            alive = {i: sum(alive[j] for j in nb[i]) in (sv if alive[i] else b) for i in pos}
