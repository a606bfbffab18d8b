"""C04: merging the response of a rule into the collected updates."""
from speclib import *

CM = "core.runner.common"


def sections(u, d, nm):
    """frozen (site section, general section) of a batch, None where absent"""
    S, G = u.const("SITES"), u.const("GENERAL")
    f = u.frozen(d)
    return f


def look(u, f, sec, q=None, a=None):
    """(has, value) of attribute a in the given section of a frozen batch"""
    h, d = u.ops.dict_at(f, u.E.toV(u.const(sec)))
    if d is MISS:
        return False, MISS
    if q is None:
        h2, v = u.ops.dict_at(d, a)
        return z3.And(zb(h), zb(h2)), v
    h1, sd = u.ops.dict_at(d, u.E.toV(q))
    if sd is MISS:
        return False, MISS
    h2, v = u.ops.dict_at(sd, a)
    return z3.And(zb(h), zb(h1), zb(h2)), v


def overlay(u, got, new, old, what):
    gh, gv = got
    nh, nv = new
    oh, ov = old
    u.prove(zb(gh) == z3.Or(zb(nh), zb(oh)), what + ": present if in the response or collected so far")
    if gv is MISS:
        return
    if nv is not MISS:
        u.under(nh, lambda: u.same(gv, nv, what + ": the response wins"))
    if ov is not MISS:
        u.under(z3.And(z3.Not(zb(nh)), zb(oh)), lambda: u.same(gv, ov, what + ": what was collected stays"))


def current(u, kind):
    """collected updates with the given sections"""
    S, G = u.const("SITES"), u.const("GENERAL")
    items = []
    if "s" in kind:
        items.append((S, u.symdict("c", lambda k: u.attrs("c.s", k), ints=True)))
    if "g" in kind:
        items.append((G, u.symdict("cg")))
    return u.ops.new_dict(items)


def response(u, kind):
    S, G = u.const("SITES"), u.const("GENERAL")
    if kind == "ids":
        # site ids to attributes, at least one entry
        d = u.symdict("r", lambda k: u.attrs("r.s", k), ints=True)
        u.assume(d.n > 0)
        return d
    if kind == "attrs":
        # attribute names to values, at least one entry
        d = u.symdict("r")
        u.assume(d.n > 0)
        x = z3.Const("x", V)
        E = u.E
        old = E.defs["r.key"]
        E.defs["r.has"] = (lambda f: lambda q: f(q) + [z3.Implies(d.has(q), V.is_VStr(q)), z3.Implies(d.has(q), z3.And(q != E.toV(S), q != E.toV(G)))])(E.defs["r.has"])
        E.defs["r.key"] = (lambda f: lambda i: f(i) + [z3.Implies(z3.And(i >= 0, i < d.n), z3.And(V.is_VStr(d.key(i)), d.key(i) != E.toV(S), d.key(i) != E.toV(G)))])(old)
        return d
    items = []
    if "s" in kind:
        items.append((S, u.symdict("r", lambda k: u.attrs("r.s", k), ints=True)))
    if "g" in kind:
        items.append((G, u.symdict("rg")))
    return u.ops.new_dict(items)


def as_sections(u, r, kind, sid):
    """the response in the full form (site section and general section)"""
    S, G = u.const("SITES"), u.const("GENERAL")
    if kind == "ids":
        return u.frozen(u.ops.new_dict([(S, r)]))
    if kind == "attrs":
        return u.frozen(u.ops.new_dict([(S, u.ops.new_dict([(sid, r)]))]))
    return u.frozen(r)


def merge(rk, ck):
    def f(u):
        fn = u.get(CM, "merge_updates")
        r = response(u, rk)
        r0 = u.frozen(r)
        sid = u.int("sid")
        if ck is None:
            cur = None
            cur0 = u.frozen(u.ops.new_dict([]))
        else:
            cur = current(u, ck)
            cur0 = u.frozen(cur)
        full = as_sections(u, r0, rk, sid)
        out = u.call(fn, r, cur, sid) if cur is not None else u.call(fn, r, site_id=sid)
        res = u.frozen(out)
        q, a = u.int("q"), u.opq("a")
        # an entry is kept per site for sites (the later response wins), per attribute for the general state
        S = u.E.toV(u.const("SITES"))

        def entry(f):
            h, d = u.ops.dict_at(f, S)
            if d is MISS:
                return False, MISS
            h1, sd = u.ops.dict_at(d, u.E.toV(q))
            return z3.And(zb(h), zb(h1)), sd
        overlay(u, entry(res), entry(full), entry(cur0), "site entry")
        overlay(u, look(u, res, "GENERAL", None, a), look(u, full, "GENERAL", None, a), look(u, cur0, "GENERAL", None, a), "general attribute")
        u.same(r, r0, "the response is unchanged")
        mine = {id(out)} | {id(v) for _, v in out.ents}
        theirs = {id(r)} | ({id(v) for _, v in r.ents} if rk in ("sg", "s", "g") else set())
        u.ok(not mine & theirs, "later merges cannot reach the response")
        for k in u.ops.const_keys(res) or []:
            u.ok(k in (u.const("SITES"), u.const("GENERAL")), "only the two sections")
        u.ok(u.ops.const_keys(res) is not None, "only the two sections")
    return f


for rk in ("sg", "s", "g", "ids", "attrs"):
    for ck in (None, "sg"):
        unit("C04", f"response [{rk}] merged into [{'nothing' if ck is None else ck or 'empty'}]", [CM + ".merge_updates"])(merge(rk, ck))


@unit("C04", "no response keeps what was collected", [CM + ".merge_updates"])
def _(u):
    fn = u.get(CM, "merge_updates")
    cur = current(u, "sg")
    cur0 = u.frozen(cur)
    out = u.call(fn, None, cur, u.int("sid"))
    u.same(out, cur0, "collected updates as they are")


@unit("C04", "no response and nothing collected gives an empty update", [CM + ".merge_updates"])
def _(u):
    fn = u.get(CM, "merge_updates")
    a, q = u.opq("a"), u.int("q")
    for args in ([None], [None, None, u.int("sid")]):
        res = u.frozen(u.call(fn, *args))
        u.prove(z3.Not(zb(look(u, res, "SITES", q, a)[0])), "no site update")
        u.prove(z3.Not(zb(look(u, res, "GENERAL", None, a)[0])), "no general update")


@unit("C04", "attributes without a site are rejected", [CM + ".merge_updates"])
def _(u):
    fn = u.get(CM, "merge_updates")
    r = response(u, "attrs")
    try:
        u.call(fn, r)
    except Raise as e:
        u.ok(True, "an error is raised")
        return
    u.unreachable("an error is raised")
