from common import *
from gens import *
from pylattica.core import SimulationState, SynchronousRunner, BasicController

RULE = ("random starting states (1-6 sites, any ids) and deterministic hash-based rules using every response layout, "
        "including writes to other sites, new sites, general attributes and nothing; 0-6 steps; every call's state is recorded")
COUNTS = {"rule": 300, "swap": 100, "none": 60, "frame": 100, "attr_only": 150}


def check_run(r, log, model, salt, perm, steps, ctl=None):
    st = SimulationState(copy.deepcopy(model))
    ctl = ctl or RuleController(salt, perm)
    log.update(start=model, salt=salt, steps=steps)
    res = SynchronousRunner().run(st, ctl, steps)
    models, updates, calls = [model], [], []
    for _ in range(steps):
        calls.append({s: models[-1] for s in models[-1][SITES]})
        u, m = sync_step(salt, models[-1], perm)
        updates.append(u)
        models.append(m)
    # calls: grouped per step, each site once, pre-step state
    i = 0
    for k, expc in enumerate(calls):
        got = ctl.calls[i:i + len(expc)]
        i += len(expc)
        need(len(got) == len(expc) and sorted(s for s, _ in got) == sorted(expc),
             f"sites the rule was applied to in step {k + 1}", [s for s, _ in got], list(expc))
        for s, seen in got:
            eq(seen, expc[s], f"state seen by the rule at site {s} in step {k + 1}")
    need(i == len(ctl.calls), "number of rule applications", len(ctl.calls), i)
    eq(len(res), steps + 1, "length of the result")
    for k in range(steps + 1):
        same_state(res.get_step(k), models[k], f"state after step {k}")
    same_state(res.output, models[-1], "output of the run")
    same_state(st, model, "caller's starting state after the run")
    same_state(res.initial_state, model, "starting state of the result")
    return res


def sc_rule(r, log):
    model = start_state(r)
    check_run(r, log, model, r.randrange(10 ** 6), None, r.randrange(0, 6))


class Swap(BasicController):
    """each site takes over the value of the next one (visible in-step updates would show)"""
    def __init__(self, nxt):
        self.nxt = nxt

    def get_state_update(self, site_id, prev_state):
        return {"a": prev_state.get_site_state(self.nxt[site_id])["a"]}


def sc_swap(r, log):
    ids = rids(r, 2, 8) or [0]
    vals = {i: r.randrange(1000) for i in ids}
    nxt = {i: ids[(k + 1) % len(ids)] for k, i in enumerate(ids)}
    steps = r.randrange(1, 6)
    st = SimulationState()
    for i in ids:
        st.set_site_state(i, {"a": vals[i]})
    log.update(values=vals, next=nxt, steps=steps)
    res = SynchronousRunner().run(st, Swap(nxt), steps)
    for k in range(steps + 1):
        eq({i: res.get_step(k).get_site_state(i)["a"] for i in ids}, vals, f"values after step {k}")
        vals = {i: vals[nxt[i]] for i in ids}


class Nothing(BasicController):
    def __init__(self, which):
        self.which = which

    def get_state_update(self, site_id, prev_state):
        return {"a": 1} if site_id in self.which else None


def sc_none(r, log):
    model = start_state(r)
    which = [i for i in model[SITES] if r.random() < 0.3]
    log.update(start=model, responding=which)
    st = SimulationState(copy.deepcopy(model))
    res = SynchronousRunner().run(st, Nothing(which), 2)
    exp = apply(model, {i: {"a": 1} for i in which})
    eq(len(res), 3, "length")
    same_state(res.get_step(1), exp, "step 1")
    same_state(res.last_step, exp, "last step")
    same_state(res.output, exp, "output")


def sc_frame(r, log):
    model = start_state(r)
    salt = r.randrange(10 ** 6)
    st = SimulationState(copy.deepcopy(model))
    runner = SynchronousRunner()
    log.update(start=model, salt=salt)
    a = runner.run(st, RuleController(salt), 3)
    same_state(st, model, "starting state after the run")
    b = runner.run(st, RuleController(salt), 3)
    for k in range(4):
        eq(dump(a.get_step(k)), dump(b.get_step(k)), f"step {k} of two runs from the same start")
    a.output.batch_update({s: {"a": "zapped"} for s in model[SITES]})
    same_state(st, model, "starting state after changing the output")
    same_state(b.initial_state, model, "the other run's starting state")
    eq(dump(a.get_step(3)), dump(b.get_step(3)), "recorded step after changing the output")
    before = [dump(b.get_step(k)) for k in range(4)]
    st.batch_update({s: {"a": "changed later"} for s in model[SITES]})
    st.set_general_state({"g": "changed later"})
    same_state(b.initial_state, model, "starting state of the result after the caller changed its own")
    eq([dump(b.get_step(k)) for k in range(4)], before, "steps of the result after the caller changed its starting state")


def sc_attr_only(r, log):
    """permuted targets, integer-id layouts only"""
    ids = rids(r, 1, 6) or [0]
    tgt = list(ids)
    r.shuffle(tgt)
    perm = dict(zip(ids, tgt))

    class C(BasicController):
        calls = []

        def get_state_update(self, site_id, prev_state):
            m = prev_state.get_site_state(site_id)["a"]
            return {perm[site_id]: {"a": (m * 3 + site_id) % 101}}
    vals = {i: r.randrange(100) for i in ids}
    st = SimulationState({SITES: {i: {SITE_ID: i, "a": v} for i, v in vals.items()}, GENERAL: {}})
    steps = r.randrange(1, 5)
    log.update(values=dict(vals), perm=perm, steps=steps)
    res = SynchronousRunner().run(st, C(), steps)
    for k in range(steps + 1):
        eq({i: res.get_step(k).get_site_state(i)["a"] for i in ids}, vals, f"values after step {k}")
        vals = {perm[i]: (vals[i] * 3 + i) % 101 for i in ids}
