from common import *
from pylattica.core import SimulationState, SimulationResult

RULE = ("random starting states and histories of up to 20 operations mixing recording, preloading at intervals 1-7, "
        "reading single steps in any order and iterating; non-trivial: at least one recorded step")
COUNTS = {"interleaved": 500, "intervals": 150, "iterate": 200, "frame": 150, "recorded_run": 80}


def make(r, lo=0, hi=8):
    m = rstate_dict(r, 0, 4)
    st = SimulationState(copy.deepcopy(m))
    res = SimulationResult(st)
    models, diffs = [m], []
    for _ in range(r.randrange(lo, hi + 1)):
        d = rbatch(r, list(models[-1][SITES]))
        diffs.append((d, copy.deepcopy(d)))
        res.add_step(d)
        models.append(apply(models[-1], d))
    return st, res, models, diffs


def check_all(r, res, models, info):
    eq(len(res), len(models), "length of the result", info)
    order = list(range(len(models)))
    r.shuffle(order)
    for k in order:
        same_state(res.get_step(k), models[k], f"step {k} of {len(models) - 1}", info)
    same_state(res.first_step, models[0], "first step", info)
    same_state(res.last_step, models[-1], "last step", info)


def sc_interleaved(r, log):
    st, res, models, diffs = make(r, 0, 4)
    log["start"], log["diffs"], log["ops"] = models[0], [d for _, d in diffs], []
    held = []       # states handed out earlier stay what they were
    for _ in range(r.randrange(3, 20)):
        k = r.randrange(6)
        if r.random() < 0.1:
            log["ops"].append(["output"])
            res.set_output(SimulationState(copy.deepcopy(r.choice(models))))
        if k <= 1:
            # a change set is now and then recorded twice in a row, as the very same object
            d = diffs[-1][0] if diffs and r.random() < 0.15 else rbatch(r, list(models[-1][SITES]))
            log["ops"].append(["add", copy.deepcopy(d)])
            res.add_step(d)
            diffs.append((d, copy.deepcopy(d)))
            models.append(apply(models[-1], d))
        elif k == 2:
            iv = r.choice([1, 1, 2, 3, 5, 7])
            log["ops"].append(["load", iv])
            res.load_steps() if iv == 1 and r.random() < 0.5 else res.load_steps(iv)
        elif k == 3:
            n = r.randrange(len(models))
            log["ops"].append(["get", n])
            s = res.get_step(n)
            same_state(s, models[n], f"step {n}", log["ops"])
            held.append((n, s))
        elif k == 4:
            log["ops"].append(["iterate"])
            seen = [dump(s) for s in res.steps()]
            eq(seen, models, "states visited by iterating", log["ops"])
        else:
            log["ops"].append(["ends"])
            held += [(len(models) - 1, res.last_step), (0, res.first_step)]
            same_state(held[-2][1], models[-1], "last step", log["ops"])
            same_state(held[-1][1], models[0], "first step", log["ops"])
        for n, s in held:
            same_state(s, models[n], f"step {n} handed out earlier", log["ops"])
    check_all(r, res, models, log["ops"])
    same_state(st, models[0], "starting state afterwards", log["ops"])
    for d, keep in diffs:
        eq(d, keep, "recorded updates afterwards", log["ops"])


def sc_intervals(r, log):
    st, res, models, diffs = make(r, 1, 14)
    iv = r.randrange(1, 9)
    log.update(start=models[0], diffs=[d for _, d in diffs], interval=iv)
    res.load_steps(iv)
    check_all(r, res, models, iv)
    for _ in range(r.randrange(0, 4)):
        d = rbatch(r, list(models[-1][SITES]))
        res.add_step(d)
        models.append(apply(models[-1], d))
    if r.random() < 0.5:
        res.load_steps(r.randrange(1, 5))
    check_all(r, res, models, iv)


def sc_iterate(r, log):
    st, res, models, diffs = make(r, 0, 6)
    log.update(start=models[0], diffs=[d for _, d in diffs])
    if r.random() < 0.5:
        res.load_steps(r.randrange(1, 4))
    its = [iter(res.steps()) for _ in range(2)]
    pos = [0, 0]
    for _ in range(2 * len(models)):
        w = r.randrange(2)
        if pos[w] < len(models):
            s = next(its[w])
            same_state(s, models[pos[w]], f"state number {pos[w]} of an iteration")
            pos[w] += 1
            if r.random() < 0.2:
                k = r.randrange(len(models))
                same_state(res.get_step(k), models[k], "single step during an iteration")
    for w in range(2):
        rest = [dump(s) for s in its[w]]
        eq(rest, models[pos[w]:], "rest of an iteration")


def sc_frame(r, log):
    st, res, models, diffs = make(r, 1, 6)
    log.update(start=models[0], diffs=[d for _, d in diffs])
    for _ in range(r.randrange(1, 6)):
        k = r.randrange(4)
        if k == 0:
            res.load_steps(r.randrange(1, 4))
        elif k == 1:
            list(res.steps())
        elif k == 2:
            res.get_step(r.randrange(len(models)))
        else:
            res.last_step
        same_state(st, models[0], "starting state after reading")
        for d, keep in diffs:
            eq(d, keep, "recorded updates after reading")
    # values inside recorded updates are never written through either
    check_all(r, res, models, "frame")


def sc_recorded_run(r, log):
    """a result left by a run, recorded further"""
    from gens import RuleController, start_state
    from pylattica.core import SynchronousRunner
    model = start_state(r, 1, 4)
    st = SimulationState(copy.deepcopy(model))
    n = r.randrange(0, 4)
    res = SynchronousRunner().run(st, RuleController(r.randrange(10 ** 6)), n)
    models = [dump(s) for s in res.steps()]
    eq(models[0], model, "first step")
    log.update(start=model, steps=n)
    for _ in range(r.randrange(1, 4)):
        d = rbatch(r, list(models[-1][SITES]))
        res.add_step(d)
        models.append(apply(models[-1], d))
        if r.random() < 0.3:
            res.load_steps(r.randrange(1, 4))
    check_all(r, res, models, "a run recorded further")
