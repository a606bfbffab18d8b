from common import *
from pylattica.core import SimulationState, PeriodicStructure, Lattice

RULE = ("random states with nested mutable values, copied or built from a mapping, then mutated in place and by 1-6 "
        "updates on either side; equality of states differing in one place; non-trivial: at least one site")
COUNTS = {"copy": 300, "ctor": 300, "equality": 400, "from_struct": 60, "chain": 150}


def poke(x, r):
    """Change something mutable inside x, in place; True if done."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list, tuple)) and x[k] and poke(x[k], r):
                return True
        x["poked"] = r.randrange(100)
        return True
    if isinstance(x, tuple):
        return any([poke(k, r) for k in x])
    if isinstance(x, list):
        for k in x:
            if isinstance(k, (dict, list, tuple)) and k and poke(k, r):
                return True
        x.append("poked")
        return True
    return False


def nested_state(r):
    m = rstate_dict(r, 1, 5)
    for s in m[SITES].values():
        if r.random() < 0.7:
            s["nest"] = r.choice([[1, [2, 3]], {"d": [1, {"e": 2}]}, [{"f": []}], (1, [2, 3]), [(4, {"g": 5})], {"t": ((), ([6],))}])
    m[GENERAL]["gnest"] = {"l": [1, 2], "m": {}}
    return m


def poke_state(st, r):
    for i in st.site_ids():
        poke(st.get_site_state(i), r)
    poke(st.get_general_state(), r)


def mutate(st, r):
    for _ in range(r.randrange(1, 5)):
        st.batch_update(rbatch(r, st.site_ids()))
    poke_state(st, r)


def sc_copy(r, log):
    m = nested_state(r)
    st = SimulationState(copy.deepcopy(m))
    c = st.copy()
    log["content"] = m
    same_state(c, m, "copy reads like the original")
    need(c == st and st == c, "copy is equal to the original", m)
    first, second = (st, c) if r.random() < 0.5 else (c, st)
    log["mutated"] = "original" if first is st else "copy"
    mutate(first, r)
    same_state(second, m, "the other one after changes of the " + log["mutated"])
    changed = dump(first)
    mutate(second, r)
    same_state(first, changed, "changed the other way round")


def sc_ctor(r, log):
    m = nested_state(r)
    src = copy.deepcopy(m)
    st = SimulationState(src)
    log["content"] = m
    same_state(st, m, "state created from a mapping")
    if r.random() < 0.5:
        mutate(st, r)
        eq(src, m, "mapping the state was created from, after changing the state")
    else:
        poke(src, r)
        for s in src[SITES].values():
            poke(s, r)
        src[SITES][4711] = {SITE_ID: 4711}
        poke(src[GENERAL], r)
        same_state(st, m, "state after changing the mapping it was created from")
    e1, e2 = SimulationState(), SimulationState()
    e1.set_site_state(1, {"a": 1})
    e1.set_general_state({"g": 1})
    same_state(e2, {SITES: {}, GENERAL: {}}, "a second empty state")


def sc_chain(r, log):
    m = nested_state(r)
    states, models = [SimulationState(copy.deepcopy(m))], [m]
    log["ops"] = []
    for _ in range(r.randrange(3, 9)):
        j = r.randrange(len(states))
        if r.random() < 0.4:
            states.append(states[j].copy())
            models.append(copy.deepcopy(models[j]))
            log["ops"].append(["copy", j])
        elif r.random() < 0.7:
            b = rbatch(r, list(models[j][SITES]))
            states[j].batch_update(b)
            models[j] = apply(models[j], b)
            log["ops"].append(["update", j, b])
        else:
            poke_state(states[j], r)
            models[j] = dump(states[j])
            log["ops"].append(["in place", j])
        for s, mm in zip(states, models):
            same_state(s, mm, "states of a family of copies", log["ops"])


def sc_equality(r, log):
    m = nested_state(r)
    o = copy.deepcopy(m)
    if r.random() < 0.5:
        o[SITES] = dict(reversed(list(o[SITES].items())))
    need(SimulationState(m) == SimulationState(o), "states with equal content compare equal", m, o)
    k = r.randrange(6)
    sid = r.choice(list(o[SITES]))
    if k == 0:
        o[SITES][sid]["extra"] = None
    elif k == 1:
        o[SITES][sid]["nest"] = "changed"
    elif k == 2:
        del o[SITES][sid]
    elif k == 3:
        o[SITES][999] = {SITE_ID: 999}
    elif k == 4:
        o[GENERAL]["gnest"]["l"].append(3)
    else:
        o[GENERAL]["another"] = 0
    log.update(left=m, right=o)
    a, b = SimulationState(m), SimulationState(o)
    need(not (a == b) and not (b == a), "states with different content compare different", m, o)


def sc_from_struct(r, log):
    vecs, kind = rlattice_vecs(r, 2, ["square", "rect"])
    motif = {c: [(0.1 + 0.2 * i, 0.1 + 0.3 * j) for i in range(r.randrange(1, 3))] for j, c in enumerate("AB")}
    n = (r.randrange(1, 4), r.randrange(1, 5))
    struct = PeriodicStructure.build_from(Lattice(vecs), n, motif, frac_coords=True)
    log.update(vecs=vecs, cells=n, motif=motif)
    st = SimulationState.from_struct(struct)
    same_state(st, {SITES: {i: {SITE_ID: i} for i in struct.site_ids}, GENERAL: {}}, "state made from a structure")
    need(len(struct.site_ids) == n[0] * n[1] * sum(map(len, motif.values())), "sites", struct.site_ids)
    st.set_site_state(0, {"a": [1]})
    same_state(SimulationState.from_struct(struct), {SITES: {i: {SITE_ID: i} for i in struct.site_ids}, GENERAL: {}},
               "a second state from the same structure")
