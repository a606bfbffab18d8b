"""Scripted controllers shared by the runner properties."""
from common import *
from pylattica.core import BasicController


def content_key(model):
    def canon(x):
        if isinstance(x, dict):
            return "{" + ",".join(sorted(str(k) + ":" + canon(v) for k, v in x.items())) + "}"
        if isinstance(x, (list, tuple)):
            return "[" + ",".join(map(canon, x)) + "]"
        return repr(x)
    return canon(model)


def rule(salt, site, model, perm=None):
    """A deterministic update rule: response to `site` in state `model`.

    Without conflicts between sites: site s only writes perm(s), a new site of its
    own, or a general attribute of its own.  Returns (response, sites, general)."""
    import zlib
    h = zlib.crc32(f"{salt}/{site}/{content_key(model)}".encode())
    val = (h >> 8) % 7
    k = h % 9
    if len(model[SITES]) > 12 and k == 6:
        k = 0
    tgt = perm[site] if perm and site in perm else site
    attrs = {"a": val, "n": model[SITES][site].get("n", 0) + 1}
    if (h >> 5) % 4 == 0:
        attrs = {"b": [val, site]}
    if k in (0, 1):
        # attributes only: always for the site itself
        return dict(attrs), {site: attrs}, {}, True
    if k == 2:
        return None, {}, {}, False
    if k == 3:
        return {tgt: attrs}, {tgt: attrs}, {}, False
    if k == 4:
        return {SITES: {tgt: attrs}}, {tgt: attrs}, {}, False
    if k == 5:
        return {GENERAL: {f"g{site}": val}}, {}, {f"g{site}": val}, False
    if k == 6 and (1000 + site in model[SITES] or site >= 1000):
        k = 3
        return {site: attrs}, {site: attrs}, {}, False
    if k == 6:
        new = 1000 + site
        return {SITES: {new: attrs}, GENERAL: {}}, {new: attrs}, {}, False
    return {SITES: {tgt: attrs}, GENERAL: {f"g{site}": val}}, {tgt: attrs}, {f"g{site}": val}, False


class RuleController(BasicController):
    """perm is the identity when attribute-only responses are used (no conflicts)."""

    def __init__(self, salt, perm=None):
        self.salt, self.perm, self.calls = salt, perm, []

    def get_state_update(self, site_id, prev_state):
        m = dump(prev_state)
        self.calls.append((site_id, m))
        return copy.deepcopy(rule(self.salt, site_id, m, self.perm)[0])


def start_state(r, lo=1, hi=6):
    return {SITES: {i: {SITE_ID: i, "a": r.randrange(4), "n": 0, **rattrs(r, 0, 1, ["c", "x"])} for i in rids(r, lo, hi)},
            GENERAL: rattrs(r, 0, 2)}


def sync_step(salt, model, perm):
    sites, general = {}, {}
    for s in model[SITES]:
        _, si, ge, _ = rule(salt, s, model, perm)
        sites.update(copy.deepcopy(si))
        general.update(copy.deepcopy(ge))
    upd = {SITES: sites, GENERAL: general}
    return upd, apply(model, upd)
