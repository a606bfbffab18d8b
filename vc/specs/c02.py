"""C02: copies are equal and independent."""
from speclib import *

SS = "core.simulation_state"
P = SS + ".SimulationState."


@unit("C02", "a copy has the same content and shares nothing", [P + "copy", P + "__init__"])
def _(u):
    src = u.state_dict("s")
    src0 = u.frozen(src)
    s = u.new(SS, "SimulationState", src)
    q = u.int("q")
    before = u.readings(s, q)
    c = u.do(s, "copy")
    u.ok(c is not s, "a new object")
    u.same_readings(u.readings(c, q), before, "copy equals the original")
    u.same_readings(u.readings(s, q), before, "the original is unchanged")
    u.disjoint(c, s, "copy and original")
    u.disjoint(s, src, "state and mapping")
    u.disjoint(c, src, "copy and mapping")
    u.fresh_leaves(c, "nested values of the copy are new objects")
    u.same(src, src0, "the mapping is unchanged")


@unit("C02", "a copy of a copied state shares no nested value with it", [P + "copy"])
def _(u):
    # nested values of the first state are arbitrary existing objects (not new)
    s = u.new(SS, "SimulationState")
    d = u.state_dict("s")
    maps = [f for f, v in s.fields.items() if isinstance(v, DictObj)]
    if len(maps) != 1:
        raise Skip("a state is not one mapping")
    u.known(s, maps)
    s.fields[maps[0]] = d
    c = u.do(s, "copy")
    u.fresh_leaves(c, "nested values of the copy are new objects")
    u.disjoint(c, s, "copy and original")
    q = u.int("q")
    u.same_readings(u.readings(c, q), u.readings(s, q), "copy equals the original")


@unit("C02", "later changes to a state or to its copy are not seen in the other", [P + "copy", SS + ".SimulationState.set_site_state", SS + ".SimulationState.set_general_state"])
def _(u):
    s = u.state("s")
    q = u.int("q")
    before = u.readings(s, q)
    c = u.do(s, "copy")
    u.do(s, "set_site_state", u.int("p"), u.symdict("up"))
    u.do(s, "set_general_state", u.symdict("gup"))
    u.same_readings(u.readings(c, q), before, "the copy after changes to the original")
    now = u.readings(s, q)
    u.do(c, "set_site_state", u.int("r"), u.symdict("cup"))
    u.do(c, "set_general_state", u.symdict("cgup"))
    u.same_readings(u.readings(s, q), now, "the original after changes to the copy")


@unit("C02", "a state made from a mapping reads like it and is independent", [P + "__init__"])
def _(u):
    src = u.state_dict("s")
    src0 = u.frozen(src)
    s = u.new(SS, "SimulationState", src)
    q, a = u.int("q"), u.opq("a")
    sites0 = u.frozen(u.ops.getitem(src, u.const("SITES")))
    got = u.do(s, "get_site_state", q)
    if got is None:
        u.prove(z3.Not(u.has(sites0, q)), "no state only where the mapping has none")
    else:
        u.prove(u.has(sites0, q), "a site is in the mapping")
        u.same(got, u.at(sites0, q), "site attributes as given")
    u.same(u.do(s, "get_general_state"), u.ops.getitem(src, u.const("GENERAL")), "general state as given")
    u.same(src, src0, "the mapping is unchanged")
    u.disjoint(s, src, "state and mapping")
    u.fresh_leaves(s, "nested values are new objects")


@unit("C02", "a state made from nothing is empty", [P + "__init__"])
def _(u):
    s = u.new(SS, "SimulationState")
    u.prove(zi(u.attr(s, "size")) == 0, "no sites")
    u.ok(u.do(s, "get_site_state", u.int("q")) is None, "no site state")
    g = u.do(s, "get_general_state")
    u.prove(z3.Not(u.has(u.frozen(g), u.opq("a"))), "no general state")
    t = u.new(SS, "SimulationState")
    u.disjoint(s, t, "two empty states")


@unit("C02", "equal exactly when all contents are equal", [P + "__eq__"])
def _(u):
    d1, d2 = u.state_dict("s"), u.state_dict("t")
    s1, s2 = u.new(SS, "SimulationState", d1), u.new(SS, "SimulationState", d2)
    r = u.ops.truth(u.ops.eq(s1, s2))
    S, G = u.const("SITES"), u.const("GENERAL")
    a1, a2 = u.frozen(u.ops.getitem(d1, S)), u.frozen(u.ops.getitem(d2, S))
    g1, g2 = u.frozen(u.ops.getitem(d1, G)), u.frozen(u.ops.getitem(d2, G))

    def site_eq(q, a):
        x, y = u.at(a1, q), u.at(a2, q)
        return z3.And(u.has(a1, q) == u.has(a2, q), z3.Implies(u.has(a1, q), z3.And(
            u.has(x, a) == u.has(y, a), z3.Implies(u.has(x, a), u.eqv(u.at(x, a), u.at(y, a))))))

    def gen_eq(a):
        return z3.And(u.has(g1, a) == u.has(g2, a), z3.Implies(u.has(g1, a), u.eqv(u.at(g1, a), u.at(g2, a))))
    q, a = u.opq("q"), u.opq("a")
    if u.E.branch(r):
        u.prove(site_eq(q, a), "equal states have equal site contents")
        u.prove(gen_eq(a), "equal states have equal general contents")
    else:
        qq, aa = z3.Const("qq", V), z3.Const("aa", V)
        u.E.pc.append(z3.ForAll([qq, aa], site_eq(qq, aa)))
        u.E.pc.append(z3.ForAll([aa], gen_eq(aa)))
        u.unreachable("different states differ in some content")


@unit("C02", "a state equals its copy", [P + "__eq__", P + "copy"])
def _(u):
    s = u.state("s")
    c = u.do(s, "copy")
    u.prove(zb(u.ops.truth(u.ops.eq(c, s))), "copy == original")


@unit("C02", "a state made from a structure has one entry per site", [P + "from_struct"])
def _(u):
    st = u.structure()
    n, has = st.n, lambda q: z3.And(q >= 0, q < st.n)
    C = u.get(SS, "SimulationState")
    s = u.call(u.attr(C, "from_struct"), st)
    q, a = u.int("q"), u.opq("a")
    got = u.do(s, "get_site_state", q)
    if got is None:
        u.prove(z3.Not(has(q)), "every site of the structure has an entry")
    else:
        got = u.frozen(got)
        u.prove(has(q), "only sites of the structure have an entry")
        u.prove(u.has(got, a) == (a == u.E.toV(u.const("SITE_ID"))), "an entry holds the site id only")
        u.prove(u.eqv(u.at(got, u.const("SITE_ID")), q), "and it is the id of the site")
    u.prove(z3.Not(u.has(u.frozen(u.do(s, "get_general_state")), a)), "empty general state")
    u.prove(zi(u.attr(s, "size")) == n, "as many entries as sites")
