from common import *
from c10 import positions
from pylattica.core import Lattice, PeriodicStructure, StructureBuilder
from pylattica.core.coordinate_utils import get_points_in_box, get_points_in_cube
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder
from pylattica.structures.honeycomb import HoneycombTilingBuilder

RULE = ("random lattices (skewed, permuted, rotated), 1-4 cells per direction (different per direction), motifs of 1-4 "
        "positions in up to three classes, Cartesian and fractional; reference: explicit tiling; non-trivial: more than one cell")
COUNTS = {"build": 400, "grids": 80, "sizes": 120, "box": 150, "default_class": 100, "rebuild": 120}


def rmotif(r, vecs, n):
    """positions whose tilings are off rounding ties"""
    for _ in range(300):
        k = r.randrange(1, 5)
        pts = positions(r, vecs, k)
        cells = itertools.product(*[range(x) for x in n])
        if all(tie_free(p + cart(c, vecs)) for c in cells for p in pts):
            return pts
    return []


def match(struct, expected, vecs_scaled, meant, log):
    sites = struct.sites()
    eq(len(sites), len(expected), "number of sites", log)
    left = list(expected)
    for s in sites:
        hit = [e for e in left if e[0] == s[SITE_CLASS]
               and np.abs(np.array(s[LOCATION]) - wrap(e[1], vecs_scaled, meant)).max() < 0.0011]
        need(len(hit) >= 1, "a site that no cell and motif entry accounts for", s, log)
        left = [e for e in left if e is not hit[0]]
    for cls, loc in expected:
        need(struct.class_at(loc) == cls, "lookup of a tiled position", cls, list(loc), struct.class_at(loc), log)
    eq([int(i) for i in struct.site_ids], list(range(len(expected))), "ids")


def sc_build(r, log):
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    n = [r.randrange(1, 5 if len(vecs) < 3 else 4) for _ in vecs]
    pts = rmotif(r, vecs, n)
    if not pts:
        log["trivial"] = True
        return
    frac = r.random() < 0.5
    motif = {}
    for p in pts:
        v = frac_of(p, vecs) if frac else p
        motif.setdefault(r.choice(CLASSES), []).append(r.choice([tuple, list, np.array])([float(x) for x in v]))
    log.update(vecs=vecs, kind=kind, periodic=per, cells=n, motif={k: [list(x) for x in v] for k, v in motif.items()}, frac=frac)
    keep = {k: [tuple(x) for x in v] for k, v in motif.items()}
    lat = Lattice(vecs, per)
    if r.random() < 0.5:
        s = PeriodicStructure.build_from(lat, n, motif, frac_coords=frac)
    else:
        b = StructureBuilder(lat, motif)
        b.frac_coords = frac
        s = b.build(tuple(n))
        if r.random() < 0.3:
            s = b.build(tuple(n))
    scaled = [np.array(v) * k for v, k in zip(vecs, n)]
    need(close(s.lattice.vecs, scaled), "lattice of the structure", s.lattice.vecs, scaled)
    need(tuple(bool(p) for p in s.lattice.periodic) == meant, "periodic directions", s.lattice.periodic)
    exp = [(cls, cart(c, vecs) + (cart(v, vecs) if frac else np.array(v)))
           for c in itertools.product(*[range(k) for k in n]) for cls, vs in keep.items() for v in vs]
    match(s, exp, scaled, meant, "tiling")
    eq({k: [tuple(x) for x in v] for k, v in motif.items()}, keep, "motif afterwards")
    need(close(lat.vecs, vecs), "unit lattice afterwards")


def sc_grids(r, log):
    k = r.randrange(3)
    size = r.randrange(1, 6 if k == 0 else 4)
    log.update(which=k, size=size)
    if k == 2:
        s = HoneycombTilingBuilder().build(size)
        vecs = [(1.0, 0.0), (0.5, math.sqrt(3) / 2)]
        exp = [("A", cart((i + .5, j + .5), vecs)) for i in range(size) for j in range(size)]
        eq(len(s.sites()), size * size, "honeycomb sites")
        for cls, loc in exp:
            need(s.id_at(loc) is not None, "honeycomb position", loc)
        return
    d = 2 + k
    b = [SimpleSquare2DStructureBuilder, SimpleSquare3DStructureBuilder][k]()
    sz = size if r.random() < 0.5 else tuple(r.randrange(1, 5) for _ in range(d))
    dims = (sz,) * d if isinstance(sz, int) else sz
    log["size"] = sz
    s = b.build(sz)
    # the first two lattice vectors of the square grids are the y and the x direction
    ext = [dims[1], dims[0]] + list(dims[2:])
    pts = sorted(tuple(int(round(float(x))) for x in t[LOCATION]) for t in s.sites())
    eq(pts, sorted(itertools.product(*[range(e) for e in ext])), "grid points")
    need(len({t[SITE_CLASS] for t in s.sites()}) == 1, "one class")


def sc_sizes(r, log):
    vecs, kind = rlattice_vecs(r)
    d = len(vecs)
    b = StructureBuilder(Lattice(vecs), {"A": [tuple([0.3] * d)]})
    b.frac_coords = True
    k = r.randrange(3)
    if k == 0:
        bad = tuple([2] * r.choice([x for x in (1, 2, 3, 4) if x != d]))
        log.update(dim=d, size=bad)
        try:
            b.build(bad)
        except Exception:
            return
        need(False, "size of the wrong length accepted", bad, d)
    n = r.randrange(1, 4)
    log.update(dim=d, size=n)
    s = b.build(n)
    eq(len(s.sites()), n ** d, "sites for one number as size")
    need(close(s.lattice.vecs, np.array(vecs) * n), "lattice for one number as size")


def sc_box(r, log):
    d = r.randrange(1, 4)
    lo = [r.randrange(-3, 3) for _ in range(d)]
    hi = [x + r.randrange(0, 4) for x in lo]
    log.update(lo=lo, hi=hi)
    got = [tuple(p) for p in get_points_in_box(lo, hi)]
    exp = list(itertools.product(*[range(a, b) for a, b in zip(lo, hi)]))
    eq(sorted(got), sorted(exp), "points in a box")
    got = [tuple(p) for p in get_points_in_cube(lo[0], hi[0], d)]
    eq(sorted(got), sorted(itertools.product(range(lo[0], hi[0]), repeat=d)), "points in a cube")


def sc_default_class(r, log):
    vecs, kind = rlattice_vecs(r)
    n = [r.randrange(1, 4) for _ in vecs]
    pts = rmotif(r, vecs, n)
    log.update(vecs=vecs, cells=n, motif=[p.tolist() for p in pts])
    if not pts:
        return
    s = PeriodicStructure.build_from(Lattice(vecs), n, [tuple(p) for p in pts])
    eq(len(s.all_site_classes()), 1, "one default class")
    cls = s.all_site_classes()[0]
    exp = [(cls, cart(c, vecs) + p) for c in itertools.product(*[range(k) for k in n]) for p in pts]
    match(s, exp, [np.array(v) * k for v, k in zip(vecs, n)], (True,) * len(vecs), "plain motif")


def sc_rebuild(r, log):
    """one builder used several times; what happens to one structure concerns no other"""
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    sizes = [[r.randrange(1, 4) for _ in vecs] for _ in range(2)]
    sizes.append(list(sizes[0]))
    pts = [p for p in rmotif(r, vecs, [3] * len(vecs))]
    if len(pts) < 2:
        log["trivial"] = True
        return
    motif = {"A": [tuple(float(x) for x in pts[0])]}
    b = StructureBuilder(Lattice(vecs, per), motif)
    log.update(vecs=vecs, periodic=per, sizes=sizes, points=[list(map(float, p)) for p in pts])
    built, cur = [], {"A": [pts[0]]}
    for k, n in enumerate(sizes):
        s = b.build(tuple(n))
        scaled = [np.array(v) * m for v, m in zip(vecs, n)]
        need(all(s is not o for o, *_ in built), "a structure handed out twice")
        exp = [(c, cart(i, vecs) + np.array(v)) for i in itertools.product(*[range(m) for m in n]) for c, vs in cur.items() for v in vs]
        match(s, exp, scaled, meant, f"build {k}")
        built.append((s, exp, scaled))
        if r.random() < 0.7:
            p = positions(r, scaled, 1)
            free = [x for x in p if all(min_image(x, e[1], scaled, meant) > 0.01 for e in exp)]
            if free:
                s.add_site("Z", free[0])
                exp.append(("Z", np.array(free[0])))
        if k == 1 and r.random() < 0.5:
            cur = {"B": [pts[1]]}
            b.motif = {"B": [tuple(float(x) for x in pts[1])]}
    for s, exp, scaled in built:
        match(s, exp, scaled, meant, "all built structures at the end")
