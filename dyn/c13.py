import random as _random
from common import *
from c10 import positions
from c12 import structure, pick_radius
from pylattica.core import Lattice, PeriodicStructure, MotifNeighborhoodBuilder, DistanceNeighborhoodBuilder
from pylattica.core.neighborhood_builders import (StochasticNeighborhoodBuilder, SiteClassNeighborhoodBuilder,
                                                  AnnularNeighborhoodBuilder, NeighborhoodBuilder)
from pylattica.core.distance_map import EuclideanDistanceMap, ManhattanDistanceMap, distance
from pylattica.structures.square_grid.neighborhoods import (
    MooreNbHoodBuilder, VonNeumannNbHood2DBuilder, VonNeumannNbHood3DBuilder, PseudoHexagonalNeighborhoodBuilder2D,
    PseudoHexagonalNeighborhoodBuilder3D, PseudoPentagonalNeighborhoodBuilder)

RULE = ("integer and offset grids with mixed periodicity (1-3 dimensions, 1-5 cells per direction), random vector sets, "
        "von Neumann and Moore sizes 1-3, class rules over mixed builders, stochastic alternatives with repeated requests")
COUNTS = {"motif": 300, "named": 150, "site_class": 150, "stochastic": 120, "pseudo": 24, "nested": 80, "distance_map": 60, "decimals": 100, "reuse": 80, "wide": 8}


def grid(r, log, d=None, full=False, two=False, hi=5):
    d = d or r.choice([1, 2, 2, 2, 3, 3, 4])
    size = [r.randrange(1, hi + 1 if d < 3 else 4 if d < 4 else 3) for _ in range(d)]
    meant = (True,) * d if full else tuple(r.random() < 0.65 for _ in range(d))
    motif = {"A": [tuple([0.0] * d)]}
    if two:
        motif["B"] = [tuple([0.5] * d)]
    s = PeriodicStructure.build_from(Lattice([tuple(float(i == j) for j in range(d)) for i in range(d)], meant), size, motif)
    log.update(size=size, periodic=meant, two_classes=two)
    return s, size, meant


def target(s, size, meant, loc, vec):
    """id at loc + vec by plain arithmetic on the grid, or None"""
    q = []
    for x, v, k, p in zip(loc, vec, size, meant):
        y = float(x) + v
        q.append(y % k if p else y)
    for t in s.sites():
        if all(abs(float(a) - b) < 1e-6 for a, b in zip(t[LOCATION], q)):
            return t[SITE_ID]
    return None


def reference(s, size, meant, vecs, only=None):
    out = {}
    for t in s.sites():
        m = {}
        if only is None or t[SITE_CLASS] == only:
            for v in vecs:
                j = target(s, size, meant, t[LOCATION], v)
                if j is not None and j != t[SITE_ID]:
                    m.setdefault(j, set()).add(round(math.sqrt(sum(float(x) ** 2 for x in v)), 2))
        out[t[SITE_ID]] = m
    return out


def verify(nb, ref, what, tol=1e-9):
    for i, m in ref.items():
        got = [int(x) for x in nb.neighbors_of(i)]
        eq(sorted(set(got)), sorted(m), f"{what}: neighbors of site {i}")
        need(len(got) == len(set(got)), f"{what}: neighbor listed twice", got)
        for j, w in nb.neighbors_of(i, include_weights=True):
            need(any(abs(w - x) < tol for x in m[j]), f"{what}: weight {i} -> {j}", w, m[j])


def rvecs(r, d, frac=False):
    vs = set()
    for _ in range(r.randrange(1, 6)):
        vs.add(tuple(r.randrange(-2, 3) + (0.5 if frac else 0) for _ in range(d)))
    return sorted(vs)


def sc_motif(r, log):
    two = r.random() < 0.4
    s, size, meant = grid(r, log, two=two, hi=4)
    vs = rvecs(r, len(size), two and r.random() < 0.5)
    if r.random() < 0.3:
        vs = vs + [tuple([0] * len(size))]
    log["vectors"] = vs
    given = [list(v) for v in vs] if r.random() < 0.3 else list(vs)
    b = MotifNeighborhoodBuilder(given)
    verify(b.get(s), reference(s, size, meant, vs), "motif")
    if two:
        cls = r.choice("AB")
        verify(b.get(s, site_class=cls), reference(s, size, meant, vs, cls), f"motif for class {cls}")


def sc_named(r, log):
    k = r.randrange(3)
    n = r.randrange(1, 4)
    if k == 0:
        s, size, meant = grid(r, log, 2)
        b, d, ok = VonNeumannNbHood2DBuilder(n), 2, lambda v: sum(map(abs, v)) <= n
    elif k == 1:
        n = min(n, 2)
        s, size, meant = grid(r, log, 3)
        b, d, ok = VonNeumannNbHood3DBuilder(n), 3, lambda v: sum(map(abs, v)) <= n
    else:
        d = r.choice([1, 2, 2, 3])
        n = n if d < 3 else 1
        s, size, meant = grid(r, log, d)
        b, ok = MooreNbHoodBuilder(n, dim=d), lambda v: max(map(abs, v)) <= n
    log.update(which=k, n=n)
    vs = [v for v in itertools.product(range(-n, n + 1), repeat=d) if any(v) and ok(v)]
    verify(b.get(s), reference(s, size, meant, vs), "named neighborhood")
    if n == 1 and k != 1:
        b2 = VonNeumannNbHood2DBuilder() if k == 0 else MooreNbHoodBuilder(dim=d)
        verify(b2.get(s), reference(s, size, meant, vs), "default size")
    if k == 2 and d == 2:
        verify(MooreNbHoodBuilder(n).get(s), reference(s, size, meant, vs), "Moore neighborhood with the default dimension")
        if n == 1:
            verify(MooreNbHoodBuilder().get(s), reference(s, size, meant, vs), "Moore neighborhood with all defaults")


def sc_wide(r, log):
    """large neighborhoods, and four dimensions"""
    k = r.randrange(4)
    if k < 2:
        d, n = 2, r.randrange(4, 7)
        size = [r.randrange(6, 14) for _ in range(2)]
    elif k == 2:
        d, n = 3, r.choice([2, 3])
        size = [r.randrange(4, 7) for _ in range(3)]
    else:
        d, n, size = 4, 1, [r.randrange(1, 4) for _ in range(4)]
    b, ok = r.choice([(MooreNbHoodBuilder(n, d), lambda v: max(map(abs, v)) <= n)] +
                     ([((VonNeumannNbHood2DBuilder if d == 2 else VonNeumannNbHood3DBuilder)(n), lambda v: sum(map(abs, v)) <= n)] if d < 4 else []))
    meant = tuple(r.random() < 0.7 for _ in range(d))
    log.update(size=size, periodic=meant, n=n, builder=type(b).__name__)
    s = PeriodicStructure.build_from(Lattice([tuple(float(i == j) for j in range(d)) for i in range(d)], meant), size, {"A": [tuple([0.0] * d)]})
    nb = b.get(s)
    vs = [v for v in itertools.product(range(-n, n + 1), repeat=d) if any(v) and ok(v)]
    at = {tuple(int(round(float(x))) for x in t[LOCATION]): t[SITE_ID] for t in s.sites()}
    for i in r.sample(s.site_ids, min(4, len(s.site_ids))):
        loc = [int(round(float(x))) for x in s.site_location(i)]
        got = set()
        for v in vs:
            q = [x + y for x, y in zip(loc, v)]
            q = tuple(x % m if p else x for x, m, p in zip(q, size, meant))
            if q in at and at[q] != i:
                got.add(at[q])
        eq(sorted(int(x) for x in nb.neighbors_of(i)), sorted(got), f"wide: neighbors of site {i}")


def sc_site_class(r, log):
    s, size, meant = grid(r, log, two=True, hi=4)
    d = len(size)
    rules = {}
    for cls in r.sample(["A", "B", "C"], r.randrange(1, 4)):
        rules[cls] = rvecs(r, d, r.random() < 0.5)
    log["rules"] = rules
    nb = SiteClassNeighborhoodBuilder({c: MotifNeighborhoodBuilder(v) for c, v in rules.items()}).get(s)
    ref = {}
    for c in "AB":
        full = reference(s, size, meant, rules.get(c, []), c)
        for t in s.sites(c):
            ref[t[SITE_ID]] = full[t[SITE_ID]]
    verify(nb, ref, "class dependent")
    cls = r.choice(sorted(rules))
    nb = SiteClassNeighborhoodBuilder({c: MotifNeighborhoodBuilder(v) for c, v in rules.items()}).get(s, site_class=cls)
    verify(nb, {i: (m if s.site_class(i) == cls else {}) for i, m in ref.items()}, f"class dependent, for class {cls}")


def sc_stochastic(r, log):
    s, size, meant = grid(r, log, hi=4)
    d = len(size)
    alts = [rvecs(r, d) for _ in range(r.randrange(1, 5))]
    log["alternatives"] = alts
    nb = StochasticNeighborhoodBuilder([MotifNeighborhoodBuilder(a) for a in alts]).get(s)
    refs = [reference(s, size, meant, a) for a in alts]
    chosen(nb, refs, r.choice(s.site_ids))


def chosen(nb, refs, i, draws=None):
    allowed = [frozenset(x[i]) for x in refs]
    seen = set()
    for k in range(draws or 40 * len(refs)):
        if k % 3 == 2:
            got = nb.neighbors_of(i, include_weights=True)
            ids = frozenset(int(a) for a, _ in got)
            need(any(ids == a and all(any(abs(w - x) < 1e-9 for x in ref[i][j]) for j, w in got)
                     for a, ref in zip(allowed, refs)), "weighted answer is one alternative", got, allowed)
        else:
            ids = frozenset(int(x) for x in nb.neighbors_of(i))
        need(ids in allowed, "an answer that is no alternative's neighbor set", sorted(ids), [sorted(a) for a in allowed])
        seen.add(ids)
    need(seen == set(allowed), "an alternative is never chosen", [sorted(a) for a in seen], [sorted(a) for a in allowed])


HEX2 = [[(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, -1)], [(1, 0), (0, 1), (-1, 0), (0, -1), (-1, 1), (1, -1)]]
AX3 = [(1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1)]
HEX3 = [AX3 + [v, tuple(-x for x in v)] for v in [(-1, -1, 1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)]]
PENT = [[(-1, 0), (1, 0), (-1, -1), (0, -1), (1, -1)], [(-1, 1), (0, 1), (1, 1), (-1, 0), (1, 0)],
        [(0, 1), (1, 1), (1, 0), (0, -1), (1, -1)], [(-1, 1), (0, 1), (-1, 0), (-1, -1), (0, -1)]]


def sc_pseudo(r, log):
    k = r.randrange(3)
    b, alts, d = [(PseudoHexagonalNeighborhoodBuilder2D, HEX2, 2), (PseudoHexagonalNeighborhoodBuilder3D, HEX3, 3),
                  (PseudoPentagonalNeighborhoodBuilder, PENT, 2)][k]
    log["which"] = k
    size = [5] * d
    s = PeriodicStructure.build_from(Lattice([tuple(float(i == j) for j in range(d)) for i in range(d)]), size, {"A": [tuple([0.0] * d)]})
    chosen(b().get(s), [reference(s, size, (True,) * d, a) for a in alts], r.choice(s.site_ids))


def sc_nested(r, log):
    s, size, meant = grid(r, log, two=True, hi=3)
    d = len(size)
    a1, a2, bv = rvecs(r, d), rvecs(r, d), rvecs(r, d, True)
    log.update(a1=a1, a2=a2, b=bv)
    nb = SiteClassNeighborhoodBuilder({"A": StochasticNeighborhoodBuilder([MotifNeighborhoodBuilder(a1), MotifNeighborhoodBuilder(a2)]),
                                       "B": MotifNeighborhoodBuilder(bv)}).get(s)
    ra = [reference(s, size, meant, a, "A") for a in (a1, a2)]
    rb = reference(s, size, meant, bv, "B")
    for t in s.sites("B"):
        eq(sorted(int(x) for x in nb.neighbors_of(t[SITE_ID])), sorted(rb[t[SITE_ID]]), "class B in a nested rule")
    chosen(nb, ra, r.choice([t[SITE_ID] for t in s.sites("A")]))


def sc_distance_map(r, log):
    d = r.randrange(1, 4)
    vs = [tuple(r.choice([0, 1, -2, 1.5, 3]) for _ in range(d)) for _ in range(4)]
    log["vectors"] = vs
    m, n = EuclideanDistanceMap(vs), ManhattanDistanceMap(vs)
    for v in vs:
        need(abs(m.get_dist(v) - round(math.sqrt(sum(x * x for x in v)), 2)) < 1e-9, "length of a vector", v, m.get_dist(v))
        need(abs(n.get_dist(v) - sum(map(abs, v))) < 1e-9, "city-block length", v, n.get_dist(v))
    a, b = (np.array([r.uniform(-3, 3) for _ in range(d)]) for _ in range(2))
    need(abs(distance(a, b) - np.linalg.norm(a - b)) < 1e-9, "distance of two points")


def sc_decimals(r, log):
    """coordinates and vectors with up to three decimals, on a cell without symmetry"""
    d = r.choice([1, 2, 3])
    size = [r.choice([4.0, 5.0, 6.5]) for _ in range(d)]
    meant = tuple(r.random() < 0.65 for _ in range(d))
    s = PeriodicStructure(Lattice([tuple(size[i] if i == j else 0.0 for j in range(d)) for i in range(d)], meant))
    step = r.choice([8, 40, 125, 200])
    pts = set()
    for _ in range(r.randrange(3, 9)):
        pts.add(tuple(r.randrange(0, int(k * step)) / step for k in size))
    pts = sorted(pts)
    for p in pts:
        s.add_site(r.choice("AB"), p)
    vs = []
    for _ in range(6):
        a, b = r.choice(pts), r.choice(pts)
        v = tuple(round(y - x + (r.choice([0, 0, k, -k]) if p else 0), 3) for x, y, k, p in zip(a, b, size, meant))
        if v not in vs:
            vs.append(v)
    log.update(size=size, periodic=meant, points=pts, vectors=vs)
    verify(MotifNeighborhoodBuilder(vs).get(s), reference(s, size, meant, vs), "decimals", 0.0101)  # rounding ties of the length


def sc_reuse(r, log):
    """one builder for several structures, and for a structure that has grown in between"""
    d = r.choice([1, 2])
    vs = rvecs(r, d)
    b = MotifNeighborhoodBuilder(vs)
    kind = r.randrange(3)
    if kind == 1:
        b = SiteClassNeighborhoodBuilder({"A": MotifNeighborhoodBuilder(vs)})
    if kind == 2:
        b = StochasticNeighborhoodBuilder([MotifNeighborhoodBuilder(vs)])
    log.update(vectors=vs, kind=kind, structures=[])
    only = "A" if kind == 1 else None
    kept = []
    for k in range(2):
        sub = {}
        s, size, meant = grid(r, sub, d, hi=4)
        log["structures"].append(sub)
        nb, ref = b.get(s), reference(s, size, meant, vs, only)
        verify(nb, ref, f"structure {k}")
        kept.append((nb, ref))
        free = [0.5] * d
        if s.id_at(free) is None:
            s.add_site("B", free)
            ref = reference(s, size, meant, vs, only)
            nb = b.get(s)
            verify(nb, ref, f"structure {k} with one more site")
            kept.append((nb, ref))
    for nb, ref in kept:
        verify(nb, ref, "all neighborhoods at the end")
