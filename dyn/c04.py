from common import *
from pylattica.core.runner.common import merge_updates

RULE = ("responses of every layout (both sections, one section, integer ids, attributes of the site, nothing) merged in "
        "chains of 1-8 into none or existing updates; non-trivial: at least one non-empty response")
COUNTS = {"chain": 800, "reject": 100, "single": 500, "section_only": 150}


def response(r, site):
    k = r.randrange(6)
    if k == 0:
        return None, {}, {}
    if k == 1:
        a = rattrs(r, 1, 3, ["a", "b", OCC, "c", "3", ""])
        return a, {site: a}, {}
    ids = r.sample(range(0, 7), r.randrange(1, 4))
    s = {i: rattrs(r, 0, 2) for i in ids}
    g = rattrs(r, 0, 2)
    if k == 2:
        return s, s, {}
    if k == 3:
        return {SITES: s}, s, {}
    if k == 4:
        return {GENERAL: g}, {}, g
    return {SITES: s, GENERAL: g}, s, g


def norm(out, what):
    need(isinstance(out, dict), what + ": not a mapping", out)
    s, g = split(out)
    return {SITES: s, GENERAL: g}


def sc_single(r, log):
    site = r.choice([0, 0, 1, 5])
    cur = None if r.random() < 0.4 else {SITES: {i: rattrs(r, 0, 2) for i in r.sample(range(7), r.randrange(4))}, GENERAL: rattrs(r)}
    new, s, g = response(r, site)
    log.update(site=site, current=copy.deepcopy(cur), response=copy.deepcopy(new))
    keep, base = copy.deepcopy(new), copy.deepcopy(cur) or {SITES: {}, GENERAL: {}}
    out = merge_updates(new, cur, site)
    exp = {SITES: {**base[SITES], **(s if new is None or s is not new or True else s)}, GENERAL: {**base[GENERAL], **g}}
    eq(norm(out, "combination"), exp, "combination", log)
    eq(new, keep, "response after being combined", log)


def sc_chain(r, log):
    cur, exp, given = None, {SITES: {}, GENERAL: {}}, []
    log["chain"] = []
    for _ in range(r.randrange(1, 9)):
        site = r.randrange(0, 5)
        new, s, g = response(r, site)
        given.append((new, copy.deepcopy(new)))
        log["chain"].append([site, copy.deepcopy(new)])
        if r.random() < 0.15 and cur is not None:
            # batches are themselves merged into the total
            tot = merge_updates(cur, None)
            eq(norm(tot, "total"), exp, "total of collected updates", log)
        cur = merge_updates(new, cur, site)
        exp = {SITES: {**exp[SITES], **copy.deepcopy(s)}, GENERAL: {**exp[GENERAL], **copy.deepcopy(g)}}
        eq(norm(cur, "combination"), exp, "combination after each response", log)
        for n, k in given:
            eq(n, k, "an earlier response after more were combined", log)


def sc_section_only(r, log):
    cur = {SITES: {1: {"a": 1}, 2: {"b": 2}}, GENERAL: {"g": 0, "h": 1}}
    which = r.choice([SITES, GENERAL])
    new = {which: {r.randrange(4): rattrs(r)} if which == SITES else rattrs(r, 0, 2, ["g", "k"])}
    log.update(response=copy.deepcopy(new))
    exp = copy.deepcopy(cur)
    exp[which].update(copy.deepcopy(new[which]))
    eq(norm(merge_updates(new, cur, r.choice([None, 0, 3])), "combination"), exp, "response with one section")


def sc_reject(r, log):
    new = rattrs(r, 1, 3, ["a", "b", OCC])
    log["response"] = new
    try:
        out = merge_updates(new, r.choice([None, {SITES: {}, GENERAL: {}}]))
    except Exception:
        return
    need(False, "attributes without a site were accepted", new, out)
