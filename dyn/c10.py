from common import *
from pylattica.core import Lattice, PeriodicStructure, Simulation, SimulationState

RULE = ("random lattices and periodicity, 2-9 sites of up to three classes, interleaved with rejected additions (same "
        "place or an image) and lookups of images, free places and unknown ids; locations off rounding ties and boundary")
COUNTS = {"history": 400, "grid": 250, "reject": 250, "images": 300}


def positions(r, vecs, n, tries=400):
    """n well separated points inside the cell, off ties and boundary"""
    pts = []
    for _ in range(tries):
        if len(pts) == n:
            break
        f = [r.uniform(0.05, 0.95) for _ in vecs]
        c = cart(f, vecs)
        if not tie_free(c) or any(np.abs(c - q).max() < 0.02 for q in pts):
            continue
        pts.append(c)
    return pts


def image(r, c, vecs, meant, spread=2):
    return c + cart([r.randrange(-spread, spread + 1) if p else 0 for p in meant], vecs)


def snapshot(s, probes):
    return ([int(i) for i in s.site_ids], [(x[SITE_ID], x[SITE_CLASS], [round(float(v), 9) for v in x[LOCATION]]) for x in s.sites()],
            [s.id_at(p) for p in probes], sorted(s.all_site_classes()))


def verify(s, ref, vecs, meant, r, probes_free, log):
    """ref: list of (class, cart location inside the cell)"""
    eq([int(i) for i in s.site_ids], list(range(len(ref))), "site ids in order", log)
    allsites = s.sites()
    sim = Simulation(SimulationState({SITES: {i: {SITE_ID: i, "v": 3 * i} for i in range(len(ref))}, GENERAL: {}}), s)
    eq([x[SITE_ID] for x in allsites], list(range(len(ref))), "order of all sites", log)
    for i, (cls, c) in enumerate(ref):
        site = s.get_site(i)
        eq((site[SITE_ID], site[SITE_CLASS]), (i, cls), f"id and class of site {i}", log)
        need(np.abs(np.array(site[LOCATION]) - c).max() <= 0.0005 + 1e-9, f"location of site {i}", site[LOCATION], c, log)
        need(close(np.round(site[LOCATION], 3), site[LOCATION], 1e-9), "rounded to three decimals", site[LOCATION])
        eq(s.site_class(i), cls, "class by id")
        need(close(s.site_location(i), site[LOCATION]), "location by id")
        p = image(r, c, vecs, meant)
        for q in (c, p, tuple(float(v) for v in p)):
            got = s.id_at(q)
            need(got == i and got is not None, f"looking up site {i} at {list(q)} gives {got}", log)
            eq(s.class_at(q), cls, "class by location")
            need(s.site_at(q)[SITE_ID] == i, "site by location")
            eq(sim.state_at(q), {SITE_ID: i, "v": 3 * i}, f"state at the location of site {i}")
    for q in probes_free:
        need(s.id_at(q) is None and s.site_at(q) is None and s.class_at(q) is None and sim.state_at(q) is None, "lookup at a free place", list(q), s.site_at(q), log)
    for cls in {c for c, _ in ref} | {"nope", "", "A", "B"}:
        eq([x[SITE_ID] for x in s.sites(cls)], [i for i, (k, _) in enumerate(ref) if k == cls], f"sites of class {cls}", log)
    eq(sorted(s.all_site_classes()), sorted({c for c, _ in ref}), "list of classes", log)
    need(s.get_site(len(ref)) is None, "unknown id")


def sc_history(r, log):
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    pts = positions(r, vecs, r.randrange(3, 10))
    free, pts = pts[:2], pts[2:]
    s = PeriodicStructure(Lattice(vecs, per))
    ref = []
    log.update(vecs=vecs, periodic=per, ops=[])
    for c in pts:
        if ref and r.random() < 0.4:
            k = r.randrange(len(ref))
            q = image(r, ref[k][1], vecs, meant)
            before = snapshot(s, pts + free)
            log["ops"].append(["duplicate of", k, q.tolist()])
            try:
                s.add_site("dup", q)
            except Exception:
                pass
            else:
                need(False, "a second site at an occupied place was accepted", log)
            eq(snapshot(s, pts + free), before, "structure after a rejected addition", log)
        cls = r.choice(CLASSES)
        q = image(r, c, vecs, meant)
        if not tie_free(wrap(q, vecs, meant)):
            q = c
        log["ops"].append(["add", cls, q.tolist()])
        loc = r.choice([tuple, list, np.array])([float(x) for x in q])
        nid = s.add_site(cls, loc)
        eq(nid, len(ref), "id of the new site", log)
        ref.append((cls, c))
        if r.random() < 0.5:
            verify(s, ref, vecs, meant, r, free, log["ops"][-1])
    verify(s, ref, vecs, meant, r, free, "end")


def sc_grid(r, log):
    """integer grids with sites on the cell boundary: exact arithmetic"""
    d = r.choice([1, 2, 2, 3])
    n = [r.randrange(1, 5 if r.random() < .8 else 8) for _ in range(d)]
    p = list(range(d))
    r.shuffle(p)
    m = np.diag(n).astype(float)[p]
    meant = tuple(r.random() < 0.7 for _ in range(d))  # by lattice vector
    s = PeriodicStructure(Lattice([tuple(row) for row in m], meant))
    pts = list(itertools.product(*[range(k) for k in n]))
    r.shuffle(pts)
    used = pts[:max(1, len(pts) * 2 // 3)]
    log.update(vecs=m.tolist(), periodic=meant, points=used)
    for i, q in enumerate(used):
        eq(s.add_site("AB"[i % 2] if len(used) < 12 else "ABCDE"[i * i % 5], q), i, "id")
    if r.random() < .5:
        eq(sorted(s.all_site_classes()), sorted({s.site_class(i) for i in range(len(used))}), "list of classes")
    eq([int(i) for i in s.site_ids], list(range(len(used))), "site ids in order")
    for i, q in enumerate(used):
        k = cart([r.randrange(-2, 3) if b else 0 for b in meant], m)
        eq(s.id_at(np.array(q) + k), i, f"site at {q} plus {k}")
        try:
            s.add_site("A", tuple(np.array(q) + k))
        except Exception:
            pass
        else:
            need(False, "occupied place accepted", q)
    for q in pts[len(used):]:
        need(s.id_at(q) is None, "free grid point", q)
    eq(len(s.sites()), len(used), "number of sites")


def sc_reject(r, log):
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    pts = positions(r, vecs, 5)
    s = PeriodicStructure(Lattice(vecs, per))
    for i, c in enumerate(pts[:-1]):
        s.add_site("AB"[i % 2], c)
    before = snapshot(s, pts)
    log.update(vecs=vecs, periodic=per, points=[p.tolist() for p in pts])
    for i, c in enumerate(pts[:-1]):
        for q in (c, image(r, c, vecs, meant)):
            try:
                s.add_site("Z", q)
            except Exception:
                pass
            else:
                need(False, "second site at an occupied place accepted", list(q))
            eq(snapshot(s, pts), before, "structure after a rejected addition")
    eq(s.add_site("Z", pts[-1]), len(pts) - 1, "id after rejected additions")
    verify(s, [("AB"[i % 2], c) for i, c in enumerate(pts[:-1])] + [("Z", pts[-1])], vecs, meant, r, [], "end")


def sc_images(r, log):
    """lattice translations along non-periodic directions are different places"""
    vecs, kind = rlattice_vecs(r, r.choice([2, 3]))
    meant = tuple(r.random() < 0.5 for _ in vecs)
    pts = positions(r, vecs, 2)
    s = PeriodicStructure(Lattice(vecs, meant))
    log.update(vecs=vecs, periodic=meant, point=pts[0].tolist())
    s.add_site("A", pts[0])
    k = [r.randrange(-2, 3) for _ in vecs]
    q = pts[0] + cart(k, vecs)
    if not tie_free(wrap(q, vecs, meant)):
        return
    same = all(p or x == 0 for p, x in zip(meant, k))
    log["shift"] = k
    need((s.id_at(q) == 0 and s.id_at(q) is not None) if same else s.id_at(q) is None, "site found at a translation", k, s.id_at(q))
    if not same:
        eq(s.add_site("B", q), 1, "new site at a place that is no image")
        eq(s.id_at(pts[0]), 0, "first site")
        eq(s.id_at(q), 1, "second site")
        need(np.abs(np.array(s.site_location(1)) - wrap(q, vecs, meant)).max() < 0.0006, "location of the second", s.site_location(1))


def _lost(vecs, loc, cells=None):
    s = PeriodicStructure(Lattice(vecs))
    s.add_site("A", loc)
    return s.id_at(s.site_location(0)) is None


def known_upper_edge():
    v = [(3.0, 0.0), (0.0, 3.0)]
    return ("upper-edge", _lost(v, (2.9999, 1.0)), "cell of side 3, site added at (2.9999, 1): not found at its own recorded location")


def known_tie():
    v = [(3.0, 0.0), (0.0, 3.0)]
    return ("rounding-tie", _lost(v, (0.0005, 1.0)) or _lost(v, (0.0015, 1.0)), "cell of side 3, site added at (0.0005, 1) or (0.0015, 1): not found at its own recorded location")


def known_boundary():
    h = Lattice([(1.0, 0.0), (0.5, math.sqrt(3) / 2)])
    s = PeriodicStructure.build_from(h, (2, 2), [(0.0, 0.0)], frac_coords=True)
    bad = 0
    for site in s.sites():
        for n in itertools.product(range(-2, 3), repeat=2):
            if s.id_at(np.array(site[LOCATION]) + cart(n, s.lattice.vecs)) != site[SITE_ID]:
                bad += 1
    return ("cell-boundary", bad > 0, "hexagonal lattice of 2x2 cells with sites on the cell corners: some periodic images of a site are not found")


KNOWN = [known_upper_edge, known_tie, known_boundary]
