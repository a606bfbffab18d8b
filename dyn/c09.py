from common import *
from pylattica.core.lattice import Lattice, pbc_diff_cart, pbc_diff_frac_vec

RULE = ("orthogonal lattices with any pair of points, skewed ones with pairs whose shortest separation is below half the "
        "smallest cell height; all periodicity forms; reference: enumeration of images; non-trivial: distinct points")
COUNTS = {"orthogonal": 700, "skewed": 600, "shift": 400, "aperiodic": 200, "halfcell": 150}


def point(r, vecs, spread=2):
    return cart([r.randrange(-spread, spread + 1) + r.random() for _ in vecs], vecs)


def ask(r, lat, a, b):
    f = r.choice([tuple, list, np.array])
    if r.random() < 0.5:
        return float(lat.cartesian_periodic_distance(f(a), f(b)))
    return float(pbc_diff_cart(f(a), f(b), lat))


def check(r, lat, a, b, vecs, meant, log, reach=2):
    d = ask(r, lat, a, b)
    ref = min_image(a, b, vecs, meant, reach)
    need(abs(d - ref) <= 0.0005 + 1e-6, "distance", f"got {d}, shortest separation {ref}")
    need(abs(d * 1000 - round(d * 1000)) < 1e-6, "rounded to three decimals", d)
    e = ask(r, lat, b, a)
    need(abs(e - ref) <= 0.0005 + 1e-6, "distance the other way round", f"got {e}, shortest separation {ref}")
    return d


def sc_orthogonal(r, log):
    vecs, kind = rlattice_vecs(r, None, ["square", "rect", "perm", "rot"])
    per, meant = rperiodic(r, len(vecs))
    a, b = point(r, vecs), point(r, vecs)
    log.update(vecs=vecs, periodic=per, a=a.tolist(), b=b.tolist())
    check(r, Lattice(vecs, per), a, b, vecs, meant, log)


def sc_skewed(r, log):
    vecs, kind = rlattice_vecs(r, None, ["skew", "hex", "general"])
    per, meant = rperiodic(r, len(vecs))
    h = heights(vecs).min()
    a = point(r, vecs)
    v = np.array([r.gauss(0, 1) for _ in vecs])
    v *= r.uniform(0.02, 0.49) * h / np.linalg.norm(v)
    n = [r.randrange(-2, 3) if p else 0 for p in meant]
    b = a + v + cart(n, vecs)
    log.update(vecs=vecs, periodic=per, a=a.tolist(), b=b.tolist())
    d = ask(r, Lattice(vecs, per), a, b)
    ref = float(np.linalg.norm(v))
    need(abs(d - ref) <= 0.0005 + 1e-6, "distance", f"got {d}, shortest separation {ref}")
    d = ask(r, Lattice(vecs, per), b, a)
    need(abs(d - ref) <= 0.0005 + 1e-6, "distance the other way round", f"got {d}, shortest separation {ref}")


def sc_shift(r, log):
    """any lattice: symmetric, zero for images, unchanged by whole translations"""
    vecs, kind = rlattice_vecs(r)
    per, meant = rperiodic(r, len(vecs))
    lat = Lattice(vecs, per)
    while True:
        f = [r.randrange(-2, 3) + r.random() for _ in vecs]
        if all(abs((x % 1) - 0.5) > 0.01 for x in f):
            break
    b = point(r, vecs)
    a = b + cart(f, vecs)
    n = [r.randrange(-3, 4) if p else 0 for p in meant]
    log.update(vecs=vecs, periodic=per, a=a.tolist(), b=b.tolist(), shift=n)
    d = ask(r, lat, a, b)
    for what, x in [("other way round", ask(r, lat, b, a)), ("first shifted", ask(r, lat, a + cart(n, vecs), b)),
                    ("second shifted", ask(r, lat, a, b + cart(n, vecs)))]:
        need(abs(x - d) <= 0.001 + 1e-9, what, f"{x} instead of {d}")
    z = ask(r, lat, a, a + cart(n, vecs))
    need(abs(z) <= 1e-9, "distance between images of one point", z)


def sc_aperiodic(r, log):
    vecs, kind = rlattice_vecs(r)
    a, b = point(r, vecs), point(r, vecs)
    log.update(vecs=vecs, a=a.tolist(), b=b.tolist())
    d = ask(r, Lattice(vecs, False), a, b)
    need(abs(d - np.linalg.norm(a - b)) <= 0.0005 + 1e-6, "no wrapping without periodic directions", d, np.linalg.norm(a - b))
    f = np.array([r.randrange(-3, 4) + r.uniform(-0.45, 0.45) for _ in vecs])
    g = np.array([r.randrange(-3, 4) + 0.0 for _ in vecs])
    per = tuple(r.random() < 0.5 for _ in vecs)
    v = pbc_diff_frac_vec(f, g, per)
    exp = [x - y - (round(x - y) if p else 0) for x, y, p in zip(f, g, per)]
    need(close(v, exp), "fractional difference", v, exp)


def sc_halfcell(r, log):
    """exact half-cell separations in integer grids"""
    d = r.randrange(1, 4)
    n = [r.randrange(1, 7) for _ in range(d)]
    lat = Lattice([tuple(float(n[i]) if i == j else 0.0 for j in range(d)) for i in range(d)])
    a = [r.randrange(0, k) for k in n]
    b = [r.randrange(0, k) for k in n]
    log.update(size=n, a=a, b=b)
    exp = math.sqrt(sum(min(abs(x - y), k - abs(x - y)) ** 2 for x, y, k in zip(a, b, n)))
    x = float(lat.cartesian_periodic_distance(a, b))
    need(abs(x - exp) <= 0.0005 + 1e-9, "distance in an integer grid", x, exp)


def known_oblique():
    vecs = [(1.0, 0.0), (0.5, math.sqrt(3) / 2)]
    lat = Lattice(vecs)
    a = cart((0.4, 0.4), vecs)
    d = float(lat.cartesian_periodic_distance(a, (0.0, 0.0)))
    ref = min_image(a, (0.0, 0.0), vecs, (True, True))
    return ("oblique-cell", abs(d - ref) > 0.001,
            f"hexagonal lattice, fractional (0.4, 0.4) to origin: {d} instead of {ref:.3f}")


KNOWN = [known_oblique]
