from common import *
from pylattica.core.lattice import Lattice, periodize

RULE = ("random invertible lattices (1-3 dimensions: square, permuted, skewed, hexagonal, rotated, general), every "
        "periodicity form, random points inside and outside the cell; non-trivial: every case; reference: explicit sums")
COUNTS = {"convert": 500, "wrap": 600, "wrap_frac": 500, "scaled": 300, "exact": 300, "own": 100}


def rpoint(r, vecs, spread=3):
    if r.random() < 0.25:
        # close to the boundary of a cell, on either side, each coordinate for itself
        f = [r.choice([0, 0, 1, -1, 2]) + r.choice([1, -1]) * 10 ** r.uniform(-5, -1.5) if r.random() < .7 else r.uniform(-0.9, 0.9) for _ in vecs]
        return f, cart(f, vecs)
    f = [r.randrange(-spread, spread + 1) + r.uniform(0.02, 0.98) for _ in vecs]
    return f, cart(f, vecs)


def form(r, x):
    return r.choice([tuple, list, np.array])(x)


def sc_convert(r, log):
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    lat = Lattice(vecs, per)
    f, c = rpoint(r, vecs)
    log.update(vecs=vecs, kind=kind, frac=f)
    need(close(lat.get_cartesian_coords(form(r, f)), c), "fractional to Cartesian", lat.get_cartesian_coords(f), c)
    need(close(lat.get_fractional_coords(form(r, [float(x) for x in c])), f), "Cartesian to fractional", lat.get_fractional_coords(c), f)
    need(close(lat.get_fractional_coords(lat.get_cartesian_coords(f)), f), "there and back")
    need(close(lat.get_cartesian_coords(lat.get_fractional_coords(c)), c), "back and there")
    need(close(lat.vecs, vecs) and lat.dim == len(vecs), "vectors kept")
    need(tuple(bool(p) for p in lat.periodic) == meant, "periodic directions kept", lat.periodic, meant)
    need(close(lat.vec_lengths, [np.linalg.norm(v) for v in vecs]), "vector lengths", lat.vec_lengths)


def sc_wrap(r, log):
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    lat = Lattice(vecs, per)
    f, c = rpoint(r, vecs)
    log.update(vecs=vecs, kind=kind, periodic=per, frac=f)
    w = lat.get_periodized_cartesian_coords(form(r, [float(x) for x in c]))
    exp = cart([x - math.floor(x) if p else x for x, p in zip(f, meant)], vecs)
    need(close(w, exp, 1e-6), "wrapped point", w, exp)
    need(close(lat.get_periodized_cartesian_coords(w), exp, 1e-6), "wrapped twice")
    shift = [r.randrange(-3, 4) if p else 0 for p in meant]
    w2 = lat.get_periodized_cartesian_coords(c + cart(shift, vecs))
    need(close(w2, exp, 1e-6), "wrapped image", w2, exp, shift)


def sc_wrap_frac(r, log):
    d = r.randrange(1, 5)
    f = np.array([r.randrange(-4, 5) + r.choice([0.0, 0.25, 0.5, r.uniform(0.01, 0.99)]) for _ in range(d)])
    per = r.choice([True, False, tuple(r.random() < 0.5 for _ in range(d))])
    meant = per if isinstance(per, tuple) else (per,) * d
    log.update(frac=list(f), periodic=per)
    keep = f.copy()
    w = periodize(f, per) if per is not True or r.random() < 0.5 else periodize(f)
    exp = [x - math.floor(x) if p else x for x, p in zip(f, meant)]
    need(close(w, exp, 1e-9), "wrapped fractional coordinates", w, exp)
    need(all(0 <= x < 1 for x, p in zip(w, meant) if p), "in the cell", w)
    need(close(periodize(w, per), w, 1e-12), "wrapping again")
    need(np.array_equal(f, keep), "argument changed", f, keep)


def sc_scaled(r, log):
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    n = [r.randrange(1, 6) for _ in vecs]
    log.update(vecs=vecs, cells=n, periodic=per)
    lat = Lattice(vecs, per)
    s = lat.get_scaled_lattice(form(r, n))
    exp = [np.array(v) * k for v, k in zip(vecs, n)]
    need(close(s.vecs, exp), "scaled vectors", s.vecs, exp)
    need(tuple(bool(p) for p in s.periodic) == meant, "periodic directions of the scaled lattice", s.periodic, meant)
    need(close(lat.vecs, vecs) and tuple(bool(p) for p in lat.periodic) == meant, "original lattice changed")
    f, c = rpoint(r, exp, 2)
    need(close(s.get_cartesian_coords(f), c), "conversion in the scaled lattice")
    need(close(s.get_fractional_coords(c), f), "conversion back in the scaled lattice")


def sc_exact(r, log):
    """integer lattices and points: exact arithmetic, boundary included"""
    d = r.randrange(1, 4)
    p = list(range(d))
    r.shuffle(p)
    n = [r.randrange(1, 6) for _ in range(d)]
    m = np.diag(n).astype(float)[p]
    lat = Lattice([tuple(row) for row in m])
    pt = [r.randrange(-12, 13) for _ in range(d)]
    log.update(vecs=m.tolist(), point=pt)
    w = lat.get_periodized_cartesian_coords(pt)
    exp = [x % k for x, k in zip(pt, n)]
    need(close([a % k if abs(a - k) > 1e-9 else 0 for a, k in zip(w, n)], exp, 1e-9), "wrapped integer point", w, exp)


def sc_own(r, log):
    """what the caller does later to what was handed in or given out leaves the lattice alone"""
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    given = np.array(vecs)
    gper = per
    lat = Lattice(given, gper)
    f, c = rpoint(r, vecs)
    n = [r.randrange(1, 5) for _ in vecs]
    log.update(vecs=vecs, periodic=per, point=list(map(float, c)), cells=n)
    if r.random() < 0.5:
        lat.get_fractional_coords(c)
    first = lat.get_scaled_lattice(n)
    given *= 3.7
    given[0, 0] -= 1.3
    if isinstance(gper, list):
        gper[:] = [not p for p in gper]
    x = np.array([float(v) for v in c])
    w = lat.get_periodized_cartesian_coords(x)
    exp = cart([a - math.floor(a) if p else a for a, p in zip(f, meant)], vecs)
    need(close(w, exp, 1e-6), "wrapped point", w, exp)
    need(close(x, c), "point handed in", x, c)
    for s, k in ((first, n), (lat.get_scaled_lattice(n), n), (lat, [1] * len(n))):
        m = [np.array(v) * a for v, a in zip(vecs, k)]
        need(close(s.vecs, m), "vectors", s.vecs, m)
        need(tuple(bool(p) for p in s.periodic) == meant, "periodic directions", s.periodic, meant)
        need(close(s.get_cartesian_coords(f), cart(f, m)), "fractional to Cartesian")
        need(close(s.get_fractional_coords(cart(f, m)), f), "Cartesian to fractional")
