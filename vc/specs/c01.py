"""C01: applying updates overlays exactly the named attributes."""
from speclib import *

SS = "core.simulation_state"


def expected(u, old_has, old_get, sid, up, a, SITE_ID):
    """(has, value) of attribute a after updates up to site sid, from frozen old contents"""


def reads(u, s, q):
    return u.do(s, "get_site_state", q)


def check_site(u, old, upd, hit, new, q, SITE_ID, what):
    """new: what get_site_state(q) returned; old: the old frozen site table;
    upd: the updates for q if hit"""
    a = u.opq("a")
    qV = u.E.toV(q)
    oh, od = u.ops.dict_at(old, qV)
    oh = zb(oh)
    if new is None:
        u.prove(z3.And(z3.Not(oh), z3.Not(zb(hit))), what + ": a site without state stays so")
        return
    new = u.frozen(new)
    u.prove(z3.Or(oh, zb(hit)), what + ": only updated sites appear")
    uh, uv = u.ops.dict_at(upd, a) if upd is not None else (False, MISS)
    uh = z3.And(zb(hit), zb(uh))
    bh, bv = u.ops.dict_at(od, a)
    isid = a == u.E.toV(SITE_ID)
    base_has = z3.If(oh, zb(bh), isid)
    u.prove(u.has(new, a) == z3.Or(uh, base_has), what + ": attributes are the old ones and the given ones")
    nv = u.at(new, a)
    if nv is MISS:
        return
    if uv is not MISS:
        u.under(uh, lambda: u.prove(u.eqv(nv, uv), what + ": given attributes hold the given values"))
    u.under(z3.And(z3.Not(uh), oh, zb(bh)), lambda: u.prove(u.eqv(nv, bv), what + ": other attributes keep their values"))
    u.under(z3.And(z3.Not(uh), z3.Not(oh), isid), lambda: u.prove(u.eqv(nv, qV), what + ": a new site holds its own id"))


def same_general(u, s, old, what):
    u.same(u.do(s, "get_general_state"), old, what)


@unit("C01", "set_site_state: overlay on one site", [SS + ".SimulationState.set_site_state", SS + ".SimulationState.get_site_state"])
def _(u):
    SITE_ID = u.const("SITE_ID")
    src = u.state_dict("s")
    s = u.new(SS, "SimulationState", src)
    old = u.frozen(u.ops.getitem(src, u.const("SITES")))
    gen = u.frozen(u.ops.getitem(src, u.const("GENERAL")))
    sid, q = u.int("sid"), u.int("q")
    up = u.symdict("up")
    up0 = u.frozen(up)
    u.do(s, "set_site_state", sid, up)
    check_site(u, old, up0, q == sid, reads(u, s, q), q, SITE_ID, "site")
    same_general(u, s, gen, "general state unchanged")
    u.same(up, up0, "the given mapping is unchanged")


@unit("C01", "site list and count after set_site_state", [SS + ".SimulationState.site_ids", SS + ".SimulationState.size"])
def _(u):
    src = u.state_dict("s")
    s = u.new(SS, "SimulationState", src)
    old = u.frozen(u.ops.getitem(src, u.const("SITES")))
    sid, q = u.int("sid"), u.int("q")
    n0 = u.attr(s, "size")
    u.do(s, "set_site_state", sid, u.symdict("up"))
    ids = u.do(s, "site_ids")
    here = u.ops.contains(ids.seq, q)
    u.prove(zb(here) == z3.Or(q == sid, u.has(old, q)), "site list has exactly the old sites and the updated one")
    n1 = u.attr(s, "size")
    u.prove(zi(n1) == zi(n0) + z3.If(u.has(old, sid), 0, 1), "site count grows by one exactly for a new site")
    u.prove(zi(u.ops.length(ids)) == zi(n1), "site count is the length of the site list")


@unit("C01", "set_general_state: overlay on the general state", [SS + ".SimulationState.set_general_state", SS + ".SimulationState.get_general_state"])
def _(u):
    src = u.state_dict("s")
    s = u.new(SS, "SimulationState", src)
    old = u.frozen(u.ops.getitem(src, u.const("SITES")))
    gen = u.frozen(u.ops.getitem(src, u.const("GENERAL")))
    up = u.symdict("up")
    up0 = u.frozen(up)
    u.do(s, "set_general_state", up)
    check_general(u, s, gen, up0)
    q = u.int("q")
    check_site(u, old, None, False, reads(u, s, q), q, u.const("SITE_ID"), "site")
    u.same(up, up0, "the given mapping is unchanged")


def check_general(u, s, gen, up):
    a = u.opq("ga")
    new = u.frozen(u.do(s, "get_general_state"))
    uh, uv = u.ops.dict_at(up, a) if up is not None else (False, MISS)
    gh, gv = u.ops.dict_at(gen, a)
    u.prove(u.has(new, a) == z3.Or(zb(uh), zb(gh)), "general attributes are the old ones and the given ones")
    nv = u.at(new, a)
    if uv is not MISS:
        u.under(uh, lambda: u.prove(u.eqv(nv, uv), "given general attributes hold the given values"))
    u.under(z3.And(z3.Not(zb(uh)), zb(gh)), lambda: u.prove(u.eqv(nv, gv), "other general attributes keep their values"))


def batch(kind):
    def f(u):
        src = u.state_dict("s")
        s = u.new(SS, "SimulationState", src)
        SITES, GENERAL = u.const("SITES"), u.const("GENERAL")
        old = u.frozen(u.ops.getitem(src, SITES))
        gen = u.frozen(u.ops.getitem(src, GENERAL))
        sites = u.symdict("b", lambda k: u.attrs("b.s", k), ints=True)
        gup = u.symdict("bg")
        if kind == "ids":
            b = sites
        else:
            b = u.ops.new_dict(([(SITES, sites)] if "sites" in kind else []) + ([(GENERAL, gup)] if "general" in kind else []))
        b0 = u.frozen(b)
        gup0, sites0 = u.frozen(gup), u.frozen(sites)
        u.do(s, "batch_update", b)
        q = u.int("q")
        if kind == "general":
            check_site(u, old, None, False, reads(u, s, q), q, u.const("SITE_ID"), "site")
        else:
            hit = u.has(sites0, q)
            check_site(u, old, u.at(sites0, q), hit, reads(u, s, q), q, u.const("SITE_ID"), "site")
            ids = u.do(s, "site_ids")
            u.prove(zb(u.ops.contains(ids.seq, q)) == z3.Or(hit, u.has(old, q)), "site list")
        check_general(u, s, gen, gup0 if "general" in kind else None)
        u.same(b, b0, "the given batch is unchanged")
    return f


for kind in ("ids", "sites", "general", "sites+general"):
    unit("C01", f"batch_update with {kind}: overlay on every named site", [SS + ".SimulationState.batch_update"])(batch(kind))


@unit("C01", "reading, applying updates and reading again", [SS + ".SimulationState." + m for m in ("set_site_state", "batch_update", "set_general_state", "get_site_state", "all_site_states", "site_ids", "size")])
def _(u):
    """What was read before has no influence on what is read after the updates."""
    SITE_ID = u.const("SITE_ID")
    src = u.state_dict("s")
    s = u.new(SS, "SimulationState", src)
    old = u.frozen(u.ops.getitem(src, u.const("SITES")))
    gen = u.frozen(u.ops.getitem(src, u.const("GENERAL")))
    sid, q = u.int("sid"), u.int("q")
    n0 = u.attr(s, "size")
    u.do(s, "site_ids")
    u.do(s, "all_site_states")
    u.do(s, "get_site_state", q)
    u.do(s, "get_general_state")
    up, gup = u.symdict("up"), u.symdict("gup")
    up0, gup0 = u.frozen(up), u.frozen(gup)
    u.do(s, "set_site_state", sid, up)
    u.do(s, "set_general_state", gup)
    check_site(u, old, up0, q == sid, reads(u, s, q), q, SITE_ID, "site")
    check_general(u, s, gen, gup0)
    ids = u.do(s, "site_ids")
    u.prove(zb(u.ops.contains(ids.seq, q)) == z3.Or(q == sid, u.has(old, q)), "site list has exactly the old sites and the updated one")
    u.prove(zi(u.attr(s, "size")) == zi(n0) + z3.If(u.has(old, sid), 0, 1), "site count grows by one exactly for a new site")
    u.prove(zi(u.ops.length(u.do(s, "all_site_states"))) == zi(u.attr(s, "size")), "as many site states as sites")


@unit("C01", "reading changes nothing", [SS + ".SimulationState." + m for m in ("get_site_state", "get_general_state", "site_ids", "all_site_states", "size")])
def _(u):
    s = u.state("s")
    q, p = u.int("q"), u.int("p")
    before = u.readings(s, q)
    u.do(s, "get_site_state", p)
    u.do(s, "get_general_state")
    ids = u.do(s, "site_ids")
    states = u.do(s, "all_site_states")
    u.attr(s, "size")
    u.same_readings(u.readings(s, q), before, "state unchanged by reading")
    u.prove(zi(u.ops.length(ids)) == zi(u.ops.length(states)), "one state per listed site")
