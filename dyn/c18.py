from common import *
from pylattica.core import PeriodicStructure, Lattice, SimulationState
from pylattica.discrete import PhaseSet
from pylattica.structures.square_grid import DiscreteGridSetup, SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder

RULE = ("every setup on 2D grids of side 1-9 and 3D grids of side 1-4 (and non-square grids for the fills), radii from 0 to "
        "beyond the cell, 1-4 phases with uneven amounts, buffers none/0-3, requests that fit easily, barely or not at all")
COUNTS = {"solid": 80, "interface": 100, "particle": 150, "particles": 60, "coords": 100, "noise": 60, "random_sites": 120,
          "too_many": 12, "full": 24}


def base(r, log, lo=1, hi=9):
    dim = r.choice([2, 2, 3])
    size = r.randrange(lo, (hi if dim == 2 else 4) + 1)
    log.update(dim=dim, size=size)
    phases = r.sample(["p", "q", "s", "t", "", "VACANT"], 4)
    su = DiscreteGridSetup(PhaseSet(phases), dim=dim)
    HELD.clear()
    if r.random() < 0.4:
        # a setup that has made other starts before, which stay what they were
        log["made before"] = []
        for _ in range(r.randrange(1, 3)):
            z, k = r.choice([size, size, r.randrange(1, 5)]), r.randrange(6)
            log["made before"].append([k, z])
            sim = (su.setup_interface(z, phases[0], phases[1]) if k == 0 else su.setup_particle(z, 1.2, phases[0], phases[1]) if k == 1 else
                   su.setup_noise(z, phases) if k == 2 else su.setup_coords(z, phases[0], {phases[1]: [(0,) * dim]}) if k == 3 else
                   su.setup_random_sites(z, 1, phases[0], {phases[1]: 1}, buffer=r.choice([None, 0, 1])) if k == 4 else
                   su.setup_random_particles(z, 1, 1, phases[0], phases[1:3]))
            HELD.append((sim, dump(sim.state), len(sim.structure.sites())))
    return su, dim, size, phases


HELD = []


def held():
    for sim, was, n in HELD:
        same_state(sim.state, was, "a start made before")
        eq(len(sim.structure.sites()), n, "sites of a start made before")


def grid(sim, size, dim):
    """location -> phase, having checked that the grid is complete and the state covers it."""
    held()
    st = sim.structure
    eq(sorted(sim.state.site_ids()), sorted(st.site_ids), "sites of the state")
    out = {}
    for i in st.site_ids:
        loc = tuple(int(round(float(x))) for x in st.site_location(i))
        s = sim.state.get_site_state(i)
        eq(s[SITE_ID], i, "id in the state")
        eq(set(s), {SITE_ID, OCC}, "attributes of a site")
        need(loc not in out, "two sites at one place", loc)
        out[loc] = s[OCC]
    eq(set(out), set(itertools.product(range(size), repeat=dim)), "places of the sites")
    return out


def sc_solid(r, log):
    su, dim, size, ph = base(r, log)
    st = (su.build_structure(size) if r.random() < .5 else
          (SimpleSquare2DStructureBuilder().build((2, 5)) if dim == 2 else SimpleSquare3DStructureBuilder().build((1, 3, 2))))
    s = su.setup_solid_phase(st, ph[0])
    eq(sorted(s.site_ids()), sorted(st.site_ids), "sites")
    for i in st.site_ids:
        eq(s.get_site_state(i), {SITE_ID: i, OCC: ph[0]}, f"site {i}")
    eq(s.get_general_state(), {}, "general state")


def sc_interface(r, log):
    su, dim, size, ph = base(r, log)
    g = grid(su.setup_interface(size, ph[0], ph[1]), size, dim)
    for loc, p in g.items():
        eq(p, ph[0] if loc[0] < size // 2 else ph[1], f"phase at {loc}")


def sc_particle(r, log):
    su, dim, size, ph = base(r, log)
    rad = r.choice([0, 1, 1.0, 0.5, 1.5, 2, 3, 2.2, size, size * 2, math.sqrt(2), math.sqrt(2) / 2])
    log["radius"] = rad
    c = None
    if r.random() < .5:
        g = grid(su.setup_particle(size, rad, ph[0], ph[1]), size, dim)
        c = (size / 2,) * dim
        old = dict.fromkeys(g, ph[0])
    else:
        sim = su.setup_noise(size, ph)
        old = grid(sim, size, dim)
        c = tuple(r.choice([0, size, r.uniform(0, size), r.randrange(size), -1]) for _ in range(dim))
        log["center"] = c
        t = su.add_particle_to_state(sim.structure, sim.state, c, rad, ph[1])
        sim.state = t
        g = grid(sim, size, dim)
    for loc, p in g.items():
        d = math.sqrt(sum((a - b) ** 2 for a, b in zip(loc, c)))
        if abs(d - rad) > 1e-9 or all(float(2 * x).is_integer() for x in c) and float(2 * rad).is_integer():
            eq(p, ph[1] if d < rad else old[loc], f"phase at {loc}, {d} from the center {c}")


def sc_particles(r, log):
    su, dim, size, ph = base(r, log)
    if r.random() < .2:
        # as many particles as asked for: on a large grid hardly any two are at one place
        big, n, most = (31 if dim == 2 else 11), r.randrange(3, 8), 0
        log.update(size=big, particles=n)
        for _ in range(6):
            g = grid(su.setup_random_particles(big, 0.5, n, ph[0], ph[1:]), big, dim)
            k = sum(p != ph[0] for p in g.values())
            need(k <= n, "sites drawn by particles of one site", n, k)
            most = max(most, k)
        eq(most, n, "the most sites drawn by particles of one site, in six attempts")
        return
    if r.random() < .4:
        # one particle is a full ball around one of the sites, however large
        rad = r.choice([0.5, 1, 1.5, 2, 3.5, size, size + 0.5, 1.3 * size, 2 * size])
        log.update(radius=rad)
        g = grid(su.setup_random_particles(size, rad, 1, ph[0], ph[1:2]), size, dim)
        got = {l for l, p in g.items() if p != ph[0]}
        balls = ({l for l in g if sum((a - b) ** 2 for a, b in zip(l, c)) < rad * rad - 1e-9} for c in g)
        near = ({l for l in g if sum((a - b) ** 2 for a, b in zip(l, c)) < rad * rad + 1e-9} for c in g)
        need(any(b <= got <= n for b, n in zip(balls, near)), "one particle is the ball around a site", sorted(got), rad)
        return
    n = r.randrange(0, 4)
    g = grid(su.setup_random_particles(size, r.choice([0.5, 1, 1.5]), n, ph[0], ph[1:3]), size, dim)
    need(set(g.values()) <= set(ph[:3]), "phases", g)
    k = sum(p != ph[0] for p in g.values())
    need((k > 0) == (n > 0) if size > 0 else True, "particles drawn", n, k)


def sc_coords(r, log):
    su, dim, size, ph = base(r, log)
    locs = r.sample(list(itertools.product(range(size), repeat=dim)), min(size ** dim, r.randrange(0, 7)))
    cs, want = {}, {}
    for l in locs:
        p = r.choice(ph[1:])
        if r.random() < .25:
            given = tuple(x + size * r.choice([-1, 0, 1]) for x in l)
        else:
            given = l
        cs.setdefault(p, []).append(given)
        want[l] = p
    log["coordinates"] = cs
    keep = copy.deepcopy(cs)
    g = grid(su.setup_coords(size, ph[0], cs), size, dim)
    for loc, p in g.items():
        eq(p, want.get(loc, ph[0]), f"phase at {loc}")
    eq(cs, keep, "coordinates passed in")


def sc_noise(r, log):
    su, dim, size, ph = base(r, log)
    sel = ph[:r.randrange(1, 5)]
    g = grid(su.setup_noise(size, sel), size, dim)
    need(set(g.values()) <= set(sel), "phases", g, sel)
    if size ** dim >= 64:
        eq(set(g.values()), set(sel), "phases that occur")


def cheb(a, b, size):
    return max(min((x - y) % size, (y - x) % size) for x, y in zip(a, b))


def sc_random_sites(r, log):
    su, dim, size, ph = base(r, log, 2, 10)
    bg = ph[0]
    names = ph[1:1 + r.randrange(1, 4)]
    amts = {p: r.choice([1, 2, 0.5, 0.1, 3, 1 / 3, 10]) for p in names}
    exact = r.random() < .5
    if exact:
        # shares that are exact in floating point
        amts = dict(zip(names, r.choice({1: [(1,), (8,)], 2: [(1, 7), (1, 1), (1, 3), (7, 1), (0, 4)], 3: [(1, 1, 6), (2, 1, 1), (1, 6, 1), (0.5, 0.25, 0.25), (1, 0, 3)]}[len(names)])))
    buffer = r.choice([None, 0, 1, 1, 2, 3])
    per = (2 * (buffer or 0) + 1) ** dim
    fit = max(1, size ** dim // (2 * per))
    n = r.choice([0, 1, fit, r.randrange(0, fit + 1), min(fit, 3), min(fit, 8)])
    ask = n + r.choice([0, 0, 0.3, -0.3]) if n else n
    if r.random() < .2:
        ask = float(ask)
    kw = {"buffer": buffer}
    if buffer == 2 and r.random() < .5:
        kw = {}
    log.update(request=ask, amounts=amts, background=bg, **kw)
    keep = dict(amts)
    sim = su.setup_random_sites(size, ask, bg, amts, **kw)
    eq(amts, keep, "amounts passed in")
    g = grid(sim, size, dim)
    placed = {l: p for l, p in g.items() if p != bg}
    eq(len(placed), n, "number of placed sites")
    need(set(placed.values()) <= set(names), "phases of the placed sites", placed)
    tot = sum(amts.values())
    for p in names:
        k = sum(q == p for q in placed.values())
        need(k < amts[p] / tot * n + 1 + (0 if exact else 1e-9), f"number of sites of {p}", k, amts[p] / tot * n)
    if buffer:
        for a, b in itertools.combinations(placed, 2):
            need(cheb(a, b, size) > buffer, "sites within the buffer of each other", a, b, placed)


def sc_full(r, log):
    """requests that fit but need many attempts, and large grids"""
    dim, size = r.choice([(2, 13), (2, 33), (3, 6), (2, 15), (2, 6)])
    su = DiscreteGridSetup(PhaseSet(["bg", "p", "q"]), dim=dim)
    if size == 33:
        buffer, n = None, 1060
    elif size == 15:
        # two sites have to be three apart: cells with two or more placed sites around them are tried often
        buffer, n = 2, 12
    elif size == 6:
        buffer, n = 1, 4 if dim == 2 else 5
    else:
        buffer, n = r.choice([None, 0]), size ** dim
    log.update(dim=dim, size=size, request=n, buffer=buffer)
    g = grid(su.setup_random_sites(size, n, "bg", {"p": 1, "q": 3}, buffer=buffer), size, dim)
    placed = {l: p for l, p in g.items() if p != "bg"}
    eq(len(placed), n, "number of placed sites")
    if buffer:
        for a, b in itertools.combinations(placed, 2):
            need(cheb(a, b, size) > buffer, "sites within the buffer of each other", a, b, placed)


def sc_too_many(r, log):
    dim = r.choice([2, 3])
    size = r.randrange(2, 4) if dim == 2 else 2
    ph = ["bg", "p", "q"]
    su = DiscreteGridSetup(PhaseSet(ph), dim=dim)
    k = r.randrange(3)
    if k == 0:
        buffer, n = None, size ** dim + r.randrange(1, 4)
    elif k == 1:
        buffer, n = 0, size ** dim + 1
    else:
        buffer, n = size, r.randrange(2, 4)
    log.update(dim=dim, size=size, request=n, buffer=buffer)
    try:
        sim = su.setup_random_sites(size, n, "bg", {"p": 1, "q": 1}, buffer=buffer)
    except RuntimeError:
        return
    need(False, "a state was returned although the sites do not fit", dump(sim.state))
