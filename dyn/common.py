"""Shared generators and helpers of the cross-check on the real code.

Runs under the project's interpreter (/opt/venv/bin/python) with /repo/src on the
path.  Only the public interface of pylattica is used.
"""
import copy
import itertools
import math

import numpy as np

SITE_ID, SITES, GENERAL, OCC = "_site_id", "SITES", "GENERAL", "DISCRETE_OCCUPANCY"
LOCATION, SITE_CLASS = "_location", "_site_class"


class Violation(Exception):
    """The real code broke the property on a concrete input."""


def need(cond, msg, *info):
    if not cond:
        raise Violation(msg + "".join("\n    " + str(i)[:1500] for i in info))


def eq(actual, expected, what, *info):
    if not strict_eq(actual, expected):
        raise Violation(f"{what}: expected {expected!r}"[:1500] + f", got {actual!r}"[:1500]
                        + "".join("\n    " + str(i)[:1500] for i in info))


def strict_eq(a, b):
    """Equality that tells True from 1 and list from tuple, recursively."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(strict_eq(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(map(strict_eq, a, b))
    if isinstance(a, bool) != isinstance(b, bool):
        return False
    return type(a) is type(b) and a == b if isinstance(a, (int, str)) and isinstance(b, (int, str)) else a == b


# ---------------------------------------------------------------- values, states
ATTRS = ["a", "b", "c", OCC, "", "mass", "x y", "3"]


def rvalue(r, depth=1):
    k = r.randrange(12 if depth else 9)
    if k == 0:
        return 0
    if k == 1:
        return r.randrange(-5, 50)
    if k == 2:
        return r.choice([0.0, 1.5, -2.25, 1e-9])
    if k == 3:
        return ""
    if k == 4:
        return r.choice(["x", "yy", "SITES", "GENERAL", "β-Sn", " é\n", "null"])
    if k == 5:
        return None
    if k == 6:
        return r.choice([True, False])
    if k == 7:
        return []
    if k == 8:
        return {}
    if k == 9:
        return [rvalue(r, depth - 1) for _ in range(r.randrange(1, 4))]
    if k == 10:
        return {f"k{i}": rvalue(r, depth - 1) for i in range(r.randrange(1, 3))}
    return [[r.randrange(9)], {"n": [r.randrange(9)]}]


def rattrs(r, lo=0, hi=3, names=ATTRS):
    return {r.choice(names): rvalue(r) for _ in range(r.randrange(lo, hi + 1))}


def rids(r, lo=0, hi=6):
    n = r.randrange(lo, hi + 1)
    style = r.randrange(4)
    if style == 0:
        return list(range(n))
    if style == 1:
        return [7 * i + 3 for i in range(n)]
    if style == 2:
        ids = list(range(n + 8))
        r.shuffle(ids)
        return ids[:n]
    return [i + 1 for i in range(n)][::-1]


def rstate_dict(r, lo=0, hi=6):
    # a site given in a mapping need not hold its id, and may hold nothing at all
    bare = r.random() < 0.3
    return {SITES: {i: {**({} if bare and r.random() < 0.5 else {SITE_ID: i}), **rattrs(r)} for i in rids(r, lo, hi)},
            GENERAL: rattrs(r)}


def rbatch(r, ids):
    """A batch of either layout touching known and unknown sites."""
    pool = list(ids) + [max(list(ids) + [0]) + 1 + r.randrange(3), 0]
    sites = {i: rattrs(r) for i in r.sample(sorted(set(pool)), r.randrange(0, min(4, len(set(pool))) + 1))}
    k = r.randrange(5)
    if k == 0:
        return sites
    if k == 1:
        return {SITES: sites}
    if k == 2:
        return {GENERAL: rattrs(r)}
    return {SITES: sites, GENERAL: rattrs(r)}


def split(batch):
    if SITES in batch or GENERAL in batch:
        return batch.get(SITES, {}), batch.get(GENERAL, {})
    return batch, {}


def apply(model, batch):
    """Reference: model is {SITES:..., GENERAL:...}; returns a new one."""
    sites, general = split(batch)
    out = {SITES: {k: dict(v) for k, v in model[SITES].items()}, GENERAL: dict(model[GENERAL])}
    for sid, upd in sites.items():
        cur = out[SITES].get(sid)
        if cur is None:
            cur = {SITE_ID: sid}
        cur.update(upd)
        out[SITES][sid] = cur
    out[GENERAL].update(general)
    return copy.deepcopy(out)


def dump(state):
    """Content of a state, through its public reading interface."""
    return {SITES: {i: copy.deepcopy(state.get_site_state(i)) for i in state.site_ids()},
            GENERAL: copy.deepcopy(state.get_general_state())}


def same_state(state, model, what, *info):
    eq(dump(state), model, what, *info)


# site classes: any text, among them one that is part of another and the empty one
CLASSES = ["A", "B", "AB", "", "b", "A "]


# ---------------------------------------------------------------- geometry
def rlattice_vecs(r, dim=None, kinds=None):
    dim = dim or r.choice([1, 2, 2, 2, 3, 3])
    kind = r.choice(kinds or ["square", "rect", "perm", "skew", "hex", "general", "rot"])
    lens = [r.choice([1, 2, 3, 1.5, 2.5, 4]) for _ in range(dim)]
    if kind == "square":
        m = np.eye(dim)
    elif kind == "rect":
        m = np.diag(lens)
    elif kind == "perm":
        p = list(range(dim))
        r.shuffle(p)
        m = np.diag(lens)[p]
    elif kind == "skew":
        m = np.diag(lens).astype(float)
        for i in range(dim):
            for j in range(i):
                m[i][j] = r.choice([0.5, -0.5, 0.25, 1.0]) * lens[i]
    elif kind == "hex":
        m = np.eye(dim)
        if dim >= 2:
            m[1][0], m[1][1] = 0.5, math.sqrt(3) / 2
    elif kind == "rot":
        m = np.diag(lens).astype(float)
        if dim >= 2:
            # exact rotation by a 3-4-5 angle in the first two coordinates
            rot = np.eye(dim)
            rot[0][0], rot[0][1], rot[1][0], rot[1][1] = 0.6, 0.8, -0.8, 0.6
            m = m @ rot
    else:
        while True:
            m = np.array([[r.uniform(-2, 2) for _ in range(dim)] for _ in range(dim)]) + 2.5 * np.eye(dim)
            if abs(np.linalg.det(m)) > 0.8 and heights(m).min() > 0.6:
                break
    return [tuple(float(x) for x in row) for row in m], kind


def heights(m):
    inv = np.linalg.inv(np.array(m, float))
    return 1 / np.linalg.norm(inv, axis=0)


def rperiodic(r, dim):
    """(argument to pass, tuple of bools meant)."""
    k = r.randrange(4)
    if k == 0:
        return True, (True,) * dim
    if k == 1:
        return False, (False,) * dim
    t = tuple(r.random() < 0.5 for _ in range(dim))
    return (t if k == 2 else list(t)), t


def orthogonal(m):
    g = np.array(m) @ np.array(m).T
    return np.abs(g - np.diag(np.diag(g))).max() < 1e-9


def cart(frac, vecs):
    return sum(np.float64(f) * np.array(v, float) for f, v in zip(frac, vecs))


def frac_of(loc, vecs):
    return np.linalg.solve(np.array(vecs, float).T, np.array(loc, float))


def wrap(loc, vecs, periodic):
    f = frac_of(loc, vecs)
    k = np.array([math.floor(x + 1e-9) if p else 0 for x, p in zip(f, periodic)])
    return np.array(loc, float) - cart(k, vecs)


def min_image(l1, l2, vecs, periodic, reach=2):
    """Reference minimum image distance by enumeration of images."""
    d = np.array(l1, float) - np.array(l2, float)
    f = frac_of(d, vecs)
    base = np.array([math.floor(x) if p else 0 for x, p in zip(f, periodic)])
    best = None
    for n in itertools.product(*[range(-reach, reach + 1) if p else (0,) for p in periodic]):
        v = np.linalg.norm(d - cart(base + np.array(n), vecs))
        best = v if best is None else min(best, v)
    return float(best)


def tie_free(loc, margin=0.03):
    """No coordinate near a rounding tie at three decimals (half-even, offset .001)."""
    for c in loc:
        t = (float(c) * 1000) % 1
        if abs(t - 0.5) < margin:
            return False
    return True


def close(a, b, tol=1e-7):
    return np.allclose(np.array(a, float), np.array(b, float), rtol=tol, atol=tol)


def effect(state, site_id, response):
    """what a rule's response for a site makes of a state (mappings only)"""
    if not response:
        return state
    if SITES in response or GENERAL in response:
        return apply(state, {SITES: {}, GENERAL: {}, **response})
    if all(type(k) is int for k in response):
        return apply(state, response)
    return apply(state, {site_id: response})
