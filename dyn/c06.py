import os
import time
import zlib
from common import *
from gens import *
from pylattica.core import SimulationState, SynchronousRunner, BasicController
import pylattica.core.runner.synchronous_runner as _sr

RULE = ("random starting states (1-9 sites), rules that accumulate over all earlier steps and use every response layout, "
        "1-5 workers (often more than sites or not dividing them), 0-5 steps, with per-process delays that vary which "
        "worker takes which batch; the serial run and a reference are compared; non-trivial: at least one step")
COUNTS = {"schedules": 40, "starved": 16, "general": 14, "conflict": 24, "default_workers": 3, "once": 24}


class Acc(BasicController):
    """value depends on the whole history; processes are slowed unevenly"""

    def __init__(self, salt, delay):
        self.salt, self.delay, self.parent = salt, delay, os.getpid()

    def get_state_update(self, site_id, prev_state):
        if self.delay and os.getpid() != self.parent:
            h = zlib.crc32(f"{os.getpid()}/{site_id}/{self.salt}/{prev_state.get_site_state(site_id).get('n')}".encode())
            time.sleep((h % 5) * self.delay)
        return copy.deepcopy(rule(self.salt, site_id, dump(prev_state), None)[0])


def compare(r, log, model, salt, steps, workers, delay):
    log.update(start=model, salt=salt, steps=steps, workers=workers)
    ser = SynchronousRunner().run(SimulationState(copy.deepcopy(model)), Acc(salt, 0), steps)
    st = SimulationState(copy.deepcopy(model))
    kw = {} if workers is None else {"workers": workers}
    par = SynchronousRunner(parallel=True, **kw).run(st, Acc(salt, delay), steps)
    models = [model]
    for _ in range(steps):
        models.append(sync_step(salt, models[-1], None)[1])
    eq(len(par), steps + 1, "number of recorded steps of the parallel run")
    for k in range(steps + 1):
        same_state(ser.get_step(k), models[k], f"serial step {k}")
        same_state(par.get_step(k), models[k], f"parallel step {k} with {workers} workers")
    same_state(par.output, models[-1], "output of the parallel run")
    same_state(par.initial_state, model, "starting state of the parallel result")
    same_state(st, model, "caller's starting state after the parallel run")


def sc_schedules(r, log):
    model = start_state(r, 1, 9)
    compare(r, log, model, r.randrange(10 ** 6), r.randrange(0, 6), r.randrange(1, 6), r.choice([0, 0.002, 0.004]))


class Rot(BasicController):
    """step t writes attribute t mod 3; any missed step shows later"""

    def __init__(self, delay):
        self.delay = delay

    def get_state_update(self, site_id, prev_state):
        s = prev_state.get_site_state(site_id)
        if self.delay:
            time.sleep((zlib.crc32(f"{os.getpid()}/{s['t']}".encode()) % 4) * self.delay)
        t = s["t"]
        tot = sum(v for i in prev_state.site_ids() for k, v in prev_state.get_site_state(i).items() if k.startswith("v"))
        return {f"v{t % 3}": (tot + site_id + 1) % 1009, "t": t + 1}


def sc_starved(r, log):
    n = r.choice([1, 1, 2, 2, 3])
    workers = n + r.randrange(1, 4)
    steps = r.randrange(4, 9)
    model = {SITES: {i: {SITE_ID: i, "t": 0, "v0": 1} for i in range(n)}, GENERAL: {}}
    log.update(sites=n, workers=workers, steps=steps)
    ser = SynchronousRunner().run(SimulationState(copy.deepcopy(model)), Rot(0), steps)
    par = SynchronousRunner(parallel=True, workers=workers).run(SimulationState(copy.deepcopy(model)), Rot(0.003), steps)
    for k in range(steps + 1):
        eq(dump(par.get_step(k)), dump(ser.get_step(k)), f"step {k} of a run with idle workers")
    eq(dump(par.output), dump(ser.output), "output")


class Conflict(BasicController):
    """several sites write the same site and the same general attribute"""

    def __init__(self, salt, ids):
        self.salt, self.ids, self.n = salt, ids, len(ids)

    def get_state_update(self, site_id, prev_state):
        g = prev_state.get_general_state().get("sum", 0)
        h = zlib.crc32(f"{self.salt}/{site_id}/{g}".encode())
        tgt = self.ids[h % self.n]
        if h % 11 == 0:
            return None
        if h % 11 == 1:
            return {tgt: {"a": site_id}, self.ids[(h >> 9) % self.n]: {"b": h % 50}}
        return {SITES: {tgt: {"a": site_id, "b": h % 97}}, GENERAL: {"sum": (g * 7 + h) % 1009, f"w{h % 3}": site_id}}


def sc_conflict(r, log):
    n, workers, steps, salt = r.randrange(2, 12), r.randrange(1, 6), r.randrange(1, 5), r.randrange(10 ** 6)
    ids = list(range(n))
    if r.random() < 0.6:
        ids = r.sample(range(40), n)        # the order of the sites is the order they were given in
    model = {SITES: {i: {SITE_ID: i} for i in ids}, GENERAL: {"sum": 1}}
    log.update(sites=ids, workers=workers, steps=steps, salt=salt)
    ser = SynchronousRunner().run(SimulationState(copy.deepcopy(model)), Conflict(salt, ids), steps)
    par = SynchronousRunner(parallel=True, workers=workers).run(SimulationState(copy.deepcopy(model)), Conflict(salt, ids), steps)
    for k in range(steps + 1):
        eq(dump(par.get_step(k)), dump(ser.get_step(k)), f"step {k}, conflicting responses, {workers} workers")
    eq(dump(par.output), dump(ser.output), "output")


class Gen(BasicController):
    def get_state_update(self, site_id, prev_state):
        g = prev_state.get_general_state()
        return {SITES: {site_id: {"a": g["tick"] + site_id}}, GENERAL: {f"s{site_id}": g["tick"], "tick": g["tick"] + 1}}


def sc_general(r, log):
    n, workers, steps = r.randrange(1, 8), r.randrange(1, 5), r.randrange(1, 5)
    model = {SITES: {3 * i + 1: {SITE_ID: 3 * i + 1} for i in range(n)}, GENERAL: {"tick": 5}}
    log.update(sites=n, workers=workers, steps=steps)
    ser = SynchronousRunner().run(SimulationState(copy.deepcopy(model)), Gen(), steps)
    par = SynchronousRunner(parallel=True, workers=workers).run(SimulationState(copy.deepcopy(model)), Gen(), steps)
    for k in range(steps + 1):
        exp = {SITES: {3 * i + 1: {SITE_ID: 3 * i + 1, **({"a": 5 + k - 1 + 3 * i + 1} if k else {})} for i in range(n)},
               GENERAL: {"tick": 5 + k, **({f"s{3 * i + 1}": 5 + k - 1 for i in range(n)} if k else {})}}
        same_state(ser.get_step(k), exp, f"serial step {k}")
        same_state(par.get_step(k), exp, f"parallel step {k}")


def sc_default_workers(r, log):
    compare(r, log, start_state(r, 1, 20), r.randrange(10 ** 6), 3, None, 0.001)


class Once(BasicController):
    def __init__(self, path):
        self.path = path

    def get_state_update(self, site_id, prev_state):
        t = prev_state.get_site_state(site_id)["t"]
        with open(self.path, "a") as f:
            f.write(f"{t} {site_id}\n")
        return {"t": t + 1}


def sc_once(r, log):
    import tempfile
    n, workers, steps = r.randrange(1, 14), r.randrange(1, 7), r.randrange(1, 4)
    log.update(sites=n, workers=workers, steps=steps)
    model = {SITES: {2 * i: {SITE_ID: 2 * i, "t": 0} for i in range(n)}, GENERAL: {}}
    with tempfile.TemporaryDirectory() as d:
        SynchronousRunner(parallel=True, workers=workers).run(SimulationState(model), Once(d + "/log"), steps)
        got = sorted(tuple(map(int, l.split())) for l in open(d + "/log"))
    eq(got, sorted((t, 2 * i) for t in range(steps) for i in range(n)), f"(step, site) pairs the rule was applied to by {workers} workers")
