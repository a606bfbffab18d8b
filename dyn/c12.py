from common import *
from c10 import positions
from pylattica.core import Lattice, PeriodicStructure, DistanceNeighborhoodBuilder
from pylattica.core.neighborhood_builders import AnnularNeighborhoodBuilder
from pylattica.structures.square_grid.neighborhoods import CircularNeighborhoodBuilder
from pylattica.structures.honeycomb import HoneycombTilingBuilder, HoneycombNeighborhoodBuilder

RULE = ("structures with up to three classes in orthogonal lattices (any cutoff) and skewed ones (cutoff below half the cell "
        "height), all periodicity forms; cutoffs away from any occurring distance; reference: enumeration of images")
COUNTS = {"random": 350, "grid": 120, "honeycomb": 12, "class_restricted": 200, "seam": 100, "reuse": 100, "dense": 6}


def structure(r, log, orth=None):
    orth = r.random() < 0.6 if orth is None else orth
    vecs, kind = rlattice_vecs(r, None, ["square", "rect", "perm", "rot"] if orth else ["skew", "hex", "general"])
    per, meant = rperiodic(r, len(vecs))
    scale = r.choice([1, 2, 3])
    vecs = [tuple(scale * x for x in v) for v in vecs]
    pts = positions(r, vecs, r.randrange(1, 9))
    s = PeriodicStructure(Lattice(vecs, per))
    classes = []
    for p in pts:
        classes.append(r.choice(CLASSES))
        s.add_site(classes[-1], p)
    pts = [np.array(x[LOCATION], float) for x in s.sites()]
    log.update(vecs=vecs, periodic=per, points=[p.tolist() for p in pts], classes=classes)
    hmax = 1e9 if orthogonal(vecs) else 0.5 * heights(vecs).min() - 0.003
    # reference distances; reach covers far images of small cells
    n = len(pts)
    dist = {(i, j): min_image(pts[i], pts[j], vecs, meant) for i in range(n) for j in range(n) if i != j}
    return s, pts, classes, dist, hmax


def pick_radius(r, dist, hmax, lo=0.05):
    vals = sorted(set(dist.values()))
    for _ in range(100):
        c = r.uniform(lo, min(hmax, (vals[-1] if vals else 1) * 1.3 + 0.1))
        if all(abs(c - v) > 0.003 for v in vals):
            return c
    return min(hmax, lo)


def verify(nb, members, dist, n, what):
    for i in range(n):
        got = [int(x) for x in nb.neighbors_of(i)]
        need(len(got) == len(set(got)), f"{what}: a neighbor of site {i} listed twice", got)
        eq(sorted(got), sorted(members.get(i, ())), f"{what}: neighbors of site {i}")
        w = nb.neighbors_of(i, include_weights=True)
        eq(sorted(int(a) for a, _ in w), sorted(members.get(i, ())), f"{what}: weighted neighbors of site {i}")
        for j, d in w:
            need(abs(d - dist[i, j]) <= 0.0005 + 1e-6, f"{what}: weight from {i} to {j}", d, dist[i, j])


def sc_random(r, log):
    s, pts, classes, dist, hmax = structure(r, log)
    n = len(pts)
    if r.random() < 0.5:
        c = pick_radius(r, dist, hmax)
        log["cutoff"] = c
        nb = r.choice([DistanceNeighborhoodBuilder, CircularNeighborhoodBuilder])(c).get(s)
        ok = lambda d: d < c
    else:
        a, b = sorted([pick_radius(r, dist, hmax), pick_radius(r, dist, hmax)])
        a = r.choice([a, a, a, 0.0, 0, -0.5 * b, -2 * b, -a])
        log["radii"] = [a, b]
        nb = AnnularNeighborhoodBuilder(a, b).get(s)
        ok = lambda d: a < d < b
    members = {i: [j for j in range(n) if j != i and ok(dist[i, j])] for i in range(n)}
    verify(nb, members, dist, n, "neighborhood")
    for i in range(n):
        for j in nb.neighbors_of(i):
            need(i in nb.neighbors_of(j) and i != j, "mutual", i, j)


def sc_class_restricted(r, log):
    s, pts, classes, dist, hmax = structure(r, log)
    n = len(pts)
    cls = r.choice(CLASSES)
    c = pick_radius(r, dist, hmax)
    log.update(site_class=cls, cutoff=c)
    ann = r.random() < 0.4
    b = AnnularNeighborhoodBuilder(0.0, c) if ann else DistanceNeighborhoodBuilder(c)
    members = {i: [j for j in range(n) if j != i and 0 < dist[i, j] < c] if classes[i] == cls else [] for i in range(n)}
    verify(b.get(s, site_class=cls), members, dist, n, f"neighborhood of class {cls}")
    full = {i: [j for j in range(n) if j != i and dist[i, j] < c] for i in range(n)}
    verify(b.get(s), full, dist, n, "neighborhood of all classes after one class")


def sc_grid(r, log):
    d = r.choice([1, 2, 2, 3])
    size = [r.randrange(1, 6 if d < 3 else 4) for _ in range(d)]
    meant = tuple(r.random() < 0.7 for _ in range(d))
    s = PeriodicStructure.build_from(Lattice([tuple(float(i == j) for j in range(d)) for i in range(d)], meant), size, {"A": [tuple([0.0] * d)]})
    pts = [tuple(int(round(float(x))) for x in t[LOCATION]) for t in s.sites()]
    n = len(pts)
    dist = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                dist[i, j] = math.sqrt(sum((min(abs(x - y), k - abs(x - y)) if p else abs(x - y)) ** 2
                                           for x, y, k, p in zip(pts[i], pts[j], size, meant)))
    c = r.choice([0.5, 1.0, 1.1, 1.5, 2.0, 2.1, 3.3])
    log.update(size=size, periodic=meant, cutoff=c)
    # at an exact integer cutoff "below" excludes equality
    verify(DistanceNeighborhoodBuilder(c).get(s), {i: [j for j in range(n) if j != i and dist[i, j] < c] for i in range(n)}, dist, n, "grid")
    a, b = sorted(r.sample([-1.5, 0.0, 1.0, 1.2, 2.0, 2.5], 2))
    log["radii"] = [a, b]
    verify(AnnularNeighborhoodBuilder(a, b).get(s), {i: [j for j in range(n) if j != i and a < dist[i, j] < b] for i in range(n)}, dist, n, "grid ring")


def sc_dense(r, log):
    """many neighbors per site"""
    d = r.choice([2, 2, 3])
    size = [r.randrange(8, 13) if d == 2 else r.randrange(4, 7) for _ in range(d)]
    meant = tuple(r.random() < 0.7 for _ in range(d))
    s = PeriodicStructure.build_from(Lattice([tuple(float(i == j) for j in range(d)) for i in range(d)], meant), size, {"A": [tuple([0.0] * d)]})
    pts = np.array([[int(round(float(x))) for x in t[LOCATION]] for t in s.sites()])
    n = len(pts)
    df = np.abs(pts[:, None, :] - pts[None, :, :])
    df = np.where(np.array(meant), np.minimum(df, np.array(size) - df), df)
    dist = np.sqrt((df ** 2).sum(-1))
    c, a = r.choice([3.3, 4.5, 5.5]) if d == 2 else r.choice([2.3, 2.7]), r.choice([0.5, 1.2, -1.0])
    log.update(size=size, periodic=meant, cutoff=c, inner=a)
    for nb, ok in ((DistanceNeighborhoodBuilder(c).get(s), lambda x: x < c), (AnnularNeighborhoodBuilder(a, c).get(s), lambda x: a < x < c)):
        for i in r.sample(range(n), 5):
            want = [j for j in range(n) if j != i and ok(dist[i, j])]
            eq(sorted(int(x) for x in nb.neighbors_of(i)), want, f"dense: neighbors of site {i}")
            w = nb.neighbors_of(i, include_weights=True)
            eq(sorted(int(j) for j, _ in w), want, f"dense: weighted neighbors of site {i}")
            need(all(abs(x - dist[i, j]) <= 0.0005 + 1e-6 for j, x in w), f"dense: weights of site {i}", w)


def sc_honeycomb(r, log):
    size = r.randrange(3, 6)
    log["size"] = size
    s = HoneycombTilingBuilder().build(size)
    nb = HoneycombNeighborhoodBuilder().get(s)
    for t in s.sites():
        l = np.array(t[LOCATION])
        exp = set()
        for ang in range(6):
            exp.add(s.id_at(l + np.array([math.cos(ang * math.pi / 3), math.sin(ang * math.pi / 3)])))
        # rounding of recorded locations can move a lookup: compare by distance as well
        got = nb.neighbors_of(t[SITE_ID])
        need(len(got) == 6 and len(set(got)) == 6 and t[SITE_ID] not in got, "six neighbors", list(got))
        for o in got:
            d = min_image(s.site_location(o), l, s.lattice.vecs, (True, True))
            need(abs(d - 1) < 0.003, "distance of a honeycomb neighbor", d)


def sc_seam(r, log):
    """sites closer to an image of one another than a recorded location can tell"""
    L = r.choice([4.0004, 3.0003, 5.0002])
    per = r.choice([True, (True, False), (True, True)])
    s = PeriodicStructure(Lattice([(L, 0), (0, 4)], per))
    pts = [(0, 1), (math.floor(L), 1)] + [p for p in [(1.5, 1), (2, 3), (0, 2.5)] if r.random() < 0.6]
    for p in pts:
        s.add_site(r.choice(CLASSES), p)
    pts = [np.array(x[LOCATION], float) for x in s.sites()]
    n = len(pts)
    dist = {(i, j): min_image(pts[i], pts[j], [(L, 0), (0, 4)], s.lattice.periodic) for i in range(n) for j in range(n) if i != j}
    c = r.choice([0.3, 1.3, 1.77])
    log.update(side=L, periodic=per, points=[p.tolist() for p in pts], cutoff=c)
    verify(DistanceNeighborhoodBuilder(c).get(s), {i: [j for j in range(n) if j != i and dist[i, j] < c] for i in range(n)}, dist, n, "seam")
    verify(AnnularNeighborhoodBuilder(-1, c).get(s), {i: [j for j in range(n) if j != i and dist[i, j] < c] for i in range(n)}, dist, n, "ring at the seam")


def sc_reuse(r, log):
    """one builder for several structures, and for a structure that has grown in between"""
    ring = r.random() < 0.4
    c = r.choice([0.83, 1.37, 2.11])
    b = AnnularNeighborhoodBuilder(0.41, c) if ring else DistanceNeighborhoodBuilder(c)
    ok = (lambda d: 0.41 < d < c) if ring else (lambda d: d < c)
    log.update(ring=ring, cutoff=c, structures=[])
    kept = []
    for k in range(2):
        if k and pts and r.random() < 0.5:
            # the same positions again, in a lattice that wraps along other directions
            meant = tuple(r.random() < 0.5 for _ in pts[0])
            s = PeriodicStructure(Lattice(s.lattice.vecs, meant))
            for p in pts:
                s.add_site("A", p)
            pts = [np.array(x[LOCATION], float) for x in s.sites()]
            dist = {(i, j): min_image(pts[i], pts[j], s.lattice.vecs, meant)
                    for i in range(len(pts)) for j in range(len(pts)) if i != j}
            sub = {"same positions, periodic": meant}
        else:
            s, pts, classes, dist, hmax = structure(r, sub := {}, True)
        log["structures"].append(sub)
        for grow in range(2):
            n = len(pts)
            if any(abs(d - x) < 0.003 for d in dist.values() for x in (c, 0.41)):
                break
            nb = b.get(s)
            members = {i: [j for j in range(n) if j != i and ok(dist[i, j])] for i in range(n)}
            verify(nb, members, dist, n, f"structure {k}, after {grow} additions")
            kept.append((nb, members, dist, n))
            new = [p for p in positions(r, s.lattice.vecs, 1) if all(min_image(p, q, s.lattice.vecs, s.lattice.periodic) > 0.01 for q in pts)]
            if not new:
                break
            s.add_site("A", new[0])
            sub["added"] = list(map(float, new[0]))
            pts = [np.array(x[LOCATION], float) for x in s.sites()]
            dist = {(i, j): min_image(pts[i], pts[j], s.lattice.vecs, s.lattice.periodic)
                    for i in range(len(pts)) for j in range(len(pts)) if i != j}
    for nb, members, dist, n in kept:
        verify(nb, members, dist, n, "all neighborhoods at the end")
