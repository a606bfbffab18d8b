from common import *
from pylattica.core import SimulationState

RULE = ("random starting states (0-6 sites, ids dense/sparse/shuffled, nested and falsy values) and histories of 1-12 "
        "updates in every layout; non-trivial: at least one update applied; reference: plain dictionaries")
COUNTS = {"history": 500, "single_site": 200, "new_site": 200, "args_unchanged": 200}


def reads(st):
    for l in (st.site_ids(), st.all_site_states()):
        if isinstance(l, list):     # the lists are the caller's
            l[:] = [-1] * len(l)
    st.site_ids(); st.size; st.all_site_states(); st.get_general_state(); st.get_site_state(10 ** 6)
    st.as_dict(); st == st.copy()


def check_views(st, model, info):
    same_state(st, model, "content after update", info)
    ids = st.site_ids()
    need(sorted(ids) == sorted(model[SITES]), "list of site ids", ids, list(model[SITES]), info)
    eq(st.size, len(model[SITES]), "number of sites", info)
    alls = st.all_site_states()
    need(len(alls) == len(model[SITES]) and all(any(strict_eq(a, m) for a in alls) for m in model[SITES].values()),
         "list of all site states", alls, model[SITES], info)
    need(st.get_site_state(987654) is None or 987654 in model[SITES], "state for an unknown site", info)


def sc_history(r, log):
    model = rstate_dict(r)
    st = SimulationState(copy.deepcopy(model)) if r.random() < 0.8 else SimulationState()
    if not st.site_ids() and not st.get_general_state():
        model = {SITES: {}, GENERAL: {}}
    log["start"] = copy.deepcopy(model)
    log["ops"] = []
    for _ in range(r.randrange(1, 13)):
        k = r.randrange(4)
        ids = list(model[SITES])
        if k == 0:
            sid = r.choice(ids + [0, 5, 77])
            u = rattrs(r)
            log["ops"].append(["site", sid, copy.deepcopy(u)])
            st.set_site_state(sid, u)
            model = apply(model, {SITES: {sid: u}})
        elif k == 1:
            u = rattrs(r)
            log["ops"].append(["general", copy.deepcopy(u)])
            st.set_general_state(u)
            model = apply(model, {GENERAL: u})
        else:
            b = rbatch(r, ids)
            log["ops"].append(["batch", copy.deepcopy(b)])
            st.batch_update(b)
            model = apply(model, b)
        if r.random() < 0.3:
            reads(st)
        check_views(st, model, log["ops"][-1])


def sc_single_site(r, log):
    model = rstate_dict(r, 1, 6)
    st = SimulationState(copy.deepcopy(model))
    sid = r.choice(list(model[SITES]))
    held = {i: st.get_site_state(i) for i in model[SITES] if i != sid}
    u = {r.choice(list(model[SITES][sid]) or ["a"]): rvalue(r), **rattrs(r)}
    u.pop(SITE_ID, None)
    log.update(start=model, site=sid, update=copy.deepcopy(u))
    st.set_site_state(sid, u)
    check_views(st, apply(model, {sid: u}), "single site")
    eq(held, {i: model[SITES][i] for i in held}, "states of other sites read before the update")


def sc_new_site(r, log):
    model = rstate_dict(r, 0, 4)
    st = SimulationState(copy.deepcopy(model))
    sid = r.choice([0, 1, 3, 50, 1000])
    while sid in model[SITES]:
        sid += 1
    u = rattrs(r, 0, 2)
    log.update(start=model, site=sid, update=copy.deepcopy(u))
    how = r.randrange(3)
    if how == 0:
        st.set_site_state(sid, u)
    elif how == 1:
        st.batch_update({sid: u})
    else:
        st.batch_update({SITES: {sid: u}, GENERAL: {}})
    exp = apply(model, {sid: u})
    check_views(st, exp, how)
    eq(st.get_site_state(sid).get(SITE_ID), sid, "own id of a new site")


def sc_args_unchanged(r, log):
    model = rstate_dict(r, 1, 5)
    st = SimulationState(copy.deepcopy(model))
    given = []
    for _ in range(r.randrange(1, 6)):
        b = rbatch(r, list(model[SITES]))
        keep = copy.deepcopy(b)
        given.append((b, keep))
        if r.random() < 0.3 and b and SITES not in b and GENERAL not in b:
            for sid, u in b.items():
                st.set_site_state(sid, u)
        elif r.random() < 0.2 and GENERAL in b:
            st.set_general_state(b[GENERAL])
            b = {GENERAL: b[GENERAL]}
        else:
            st.batch_update(b)
        model = apply(model, b)
    log["batches"] = [k for _, k in given]
    for b, keep in given:
        eq(b, keep, "update mapping handed in by the caller")
    check_views(st, model, "sequence of batches")
