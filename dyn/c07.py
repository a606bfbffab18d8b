from common import *
from gens import *
import random as _random
from pylattica.core import SimulationState, AsynchronousRunner, BasicController

RULE = ("scripted controllers offering single ids, lists, empty lists or nothing, with and without follow-up sites and with "
        "every response layout; 0-12 steps; calls, the states they saw, recorded steps and end are compared with a reference queue")
COUNTS = {"queue": 600, "default_choice": 120, "no_site": 40, "fifo": 150, "newborn": 100, "many": 6}


class Scripted(BasicController):
    def __init__(self, salt, offers, follow):
        self.salt, self.offers, self.follow = salt, offers, follow
        self.log = []

    def get_random_site(self, state):
        k = sum(1 for e in self.log if e[0] == "ask")
        self.log.append(("ask", None, dump(state)))
        return copy.deepcopy(self.offers[k]) if k < len(self.offers) else self.offers[-1]

    def get_state_update(self, site_id, prev_state):
        m = dump(prev_state)
        k = sum(1 for e in self.log if e[0] == "call")
        self.log.append(("call", site_id, m))
        resp = copy.deepcopy(rule(self.salt, site_id, m)[0])
        f = self.follow[k] if k < len(self.follow) else None
        return resp if f is None else (resp, copy.deepcopy(f))


def offered(x):
    if isinstance(x, int):
        return [x]
    return list(x) if isinstance(x, list) else []


def reference(model, salt, offers, follow, steps):
    ev, models, updates, asked = [("ask", None, model)], [model], [], 1
    queue = offered(offers[0])
    if not queue:
        return None
    for k in range(steps):
        site, queue = queue[0], queue[1:]
        ev.append(("call", site, models[-1]))
        _, s, g, _ = rule(salt, site, models[-1])
        updates.append({SITES: s, GENERAL: g})
        models.append(apply(models[-1], updates[-1]))
        f = follow[k] if k < len(follow) else None
        queue = queue + list(f or [])
        if not queue:
            o = offers[asked] if asked < len(offers) else offers[-1]
            ev.append(("ask", None, models[-1]))
            asked += 1
            queue = offered(o)
        if not queue:
            break
    return ev, models, updates


def sc_queue(r, log):
    model = start_state(r, 1, 6)
    ids = list(model[SITES])
    if not ids:
        ids = [0]
        model[SITES][0] = {SITE_ID: 0, "a": 1, "n": 0}
    salt, steps = r.randrange(10 ** 6), r.randrange(0, 13)

    def offer(first=False):
        k = r.randrange(8)
        if k < 4:
            return r.choice(ids)
        if k < 7 or first:
            return [r.choice(ids) for _ in range(r.randrange(1, 5))]
        return r.choice([[], None])
    offers = [offer(True)] + [offer() for _ in range(14)]
    follow = [r.choice([None, None, [], [r.choice(ids) for _ in range(r.randrange(1, 4))]]) for _ in range(14)]
    if r.random() < 0.3:
        follow = [None] * 14
    log.update(start=model, salt=salt, steps=steps, offers=offers, follow=follow)
    ctl = Scripted(salt, offers, follow)
    st = SimulationState(copy.deepcopy(model))
    res = AsynchronousRunner().run(st, ctl, steps)
    ev, models, updates = reference(model, salt, offers, follow, steps)
    eq([(a, b) for a, b, _ in ctl.log], [(a, b) for a, b, _ in ev], "sequence of requests and rule applications")
    for got, exp in zip(ctl.log, ev):
        eq(got[2], exp[2], f"state seen by {exp[:2]}")
    eq(len(res), len(models), "recorded steps plus one")
    for k, m in enumerate(models):
        same_state(res.get_step(k), m, f"state after step {k}")
    same_state(res.output, models[-1], "output")
    same_state(st, model, "caller's starting state")
    same_state(res.initial_state, model, "starting state of the result")


def sc_no_site(r, log):
    model = start_state(r, 1, 3)
    off = r.choice([[], None])
    steps = r.randrange(0, 4)
    log.update(offer=off, steps=steps)
    try:
        AsynchronousRunner().run(SimulationState(model), Scripted(1, [off], []), steps)
    except Exception:
        return
    need(False, "a run without any site to start from did not fail", off)


class Ids(BasicController):
    def __init__(self):
        self.seen = []

    def get_state_update(self, site_id, prev_state):
        self.seen.append(site_id)
        return {"a": 1}


def sc_default_choice(r, log):
    ids = rids(r, 1, 6) or [4]
    st = SimulationState({SITES: {i: {SITE_ID: i} for i in ids}, GENERAL: {}})
    log.update(ids=ids)
    c = Ids()
    picks = {c.get_random_site(st) for _ in range(80)}
    need(picks <= set(ids), "default choice of a site is a site of the state", picks, ids)
    need(len(ids) == 1 or len(picks) > 1, "default choice is random over the sites", picks, ids)
    if len(ids) <= 3:
        need(picks == set(ids), "every site can be chosen", picks, ids)
    res = AsynchronousRunner().run(st, c, 10)
    need(set(c.seen) <= set(ids) and len(c.seen) == 10, "sites visited by default", c.seen, ids)
    need(sorted(res.output.site_ids()) == sorted(ids), "sites of the output", res.output.site_ids())


def sc_fifo(r, log):
    n = r.randrange(2, 8)
    fol = [[r.randrange(n) for _ in range(r.randrange(0, 3))] for _ in range(40)]
    start = [r.randrange(n) for _ in range(r.randrange(1, 5))]
    order = []

    class C(BasicController):
        def get_random_site(self, state):
            return list(start) if not order else None

        def get_state_update(self, site_id, prev_state):
            order.append(site_id)
            return {"v": len(order)}, list(fol[len(order) - 1])
    steps = r.randrange(1, 30)
    log.update(start=start, follow=fol, steps=steps)
    st = SimulationState({SITES: {i: {SITE_ID: i} for i in range(n)}, GENERAL: {}})
    res = AsynchronousRunner().run(st, C(), steps)
    q, exp = list(start), []
    while q and len(exp) < steps:
        exp.append(q.pop(0))
        q += fol[len(exp) - 1]
    eq(order, exp, "order of visited sites")
    eq(len(res) - 1, len(exp), "number of recorded steps")


def sc_many(r, log):
    """thousands of sites waiting"""
    n, extra = r.choice([1500, 3000, 7000]), r.choice([0, 50, 2500])
    start = list(range(n))
    r.shuffle(start)
    order = []

    class C(BasicController):
        def get_random_site(self, state):
            return list(start) if not order else None

        def get_state_update(self, site_id, prev_state):
            order.append(site_id)
            return {site_id: {"v": len(order)}}, (list(range(n, n + extra)) if len(order) == 3 else [])
    steps = r.choice([20, n + 3]) if n == 1500 else 20
    log.update(start=n, follow=extra, steps=steps)
    res = AsynchronousRunner().run(SimulationState({SITES: {0: {SITE_ID: 0}}, GENERAL: {}}), C(), steps)
    exp = (start + list(range(n, n + extra)))[:steps]
    eq(order, exp, "order of visited sites, many waiting")
    eq(len(res) - 1, len(exp), "number of recorded steps")


class Founder(BasicController):
    """names sites to visit before the state holds them; rules found sites as they go"""

    def __init__(self, plan, first):
        self.plan, self.first, self.seen = plan, first, []

    def get_random_site(self, state):
        return list(self.first)

    def get_state_update(self, site_id, prev_state):
        k = len(self.seen)
        self.seen.append(site_id)
        found, follow = self.plan[k]
        return {SITES: {i: {"age": k} for i in found}, GENERAL: {}}, list(follow)


def sc_newborn(r, log):
    plan = [([r.randrange(12) for _ in range(r.randrange(0, 3))], [r.randrange(12) for _ in range(r.randrange(0, 3))]) for _ in range(14)]
    first = [r.randrange(12) for _ in range(r.randrange(1, 4))]
    log.update(plan=plan, first=first)
    ctl = Founder(plan, first)
    res = AsynchronousRunner().run(SimulationState({SITES: {0: {SITE_ID: 0}}, GENERAL: {}}), ctl, 12)
    queue, seen, model = list(first), [], {SITES: {0: {SITE_ID: 0}}, GENERAL: {}}
    for k in range(12):
        seen.append(queue.pop(0))
        queue += plan[k][1]
        model = apply(model, {SITES: {i: {"age": k} for i in plan[k][0]}, GENERAL: {}})
        same_state(res.get_step(k + 1), model, f"step {k + 1}")
        queue = queue or list(first)
    eq(ctl.seen, seen, "sites visited")
