import json
import os
import tempfile
from common import *
from gens import RuleController, start_state, rule
from pylattica.core import (Lattice, PeriodicStructure, Simulation, SimulationResult, SimulationState,
                            SynchronousRunner, AsynchronousRunner, BasicController)
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder

RULE = ("states with JSON values at up to 30 sites, lattices with any periodicity in 1-3 dimensions, structures with sites "
        "anywhere in the cell, simulations, results recorded directly in every layout and by serial, parallel and "
        "asynchronous runs; through the dictionary, JSON text and files")
COUNTS = {"state": 300, "lattice": 200, "structure": 200, "simulation": 80, "result": 200, "runner": 60, "again": 120}


def via(r, d, log):
    how = r.randrange(3)
    log["via"] = ["dictionary", "JSON text", "pretty JSON text"][how]
    if how == 0:
        return d
    return json.loads(json.dumps(d, indent=None if how == 1 else 2))


def jstate(r):
    if r.random() < 0.2:
        n = r.randrange(11, 31)
        ids = list(range(n)) if r.random() < .5 else r.sample(range(200), n)
        return {SITES: {i: {SITE_ID: i, **rattrs(r)} for i in ids}, GENERAL: rattrs(r)}
    return rstate_dict(r)


def same_lattice(a, b, what):
    eq(a.vecs.tolist(), b.vecs.tolist(), what + ": vectors")
    eq(tuple(bool(x) for x in a.periodic), tuple(bool(x) for x in b.periodic), what + ": periodic directions")
    eq(a.dim, b.dim, what + ": dimension")


def same_structure(a, b, what):
    same_lattice(a.lattice, b.lattice, what)
    eq(list(a.site_ids), list(b.site_ids), what + ": ids")
    eq(len(a.sites()), len(b.sites()), what + ": number of sites")
    for i in b.site_ids:
        eq(a.site_class(i), b.site_class(i), what + f": class of {i}")
        eq(a.site_location(i).tolist(), b.site_location(i).tolist(), what + f": location of {i}")
        eq(a.get_site(i)[SITE_ID], b.get_site(i)[SITE_ID], what + f": id of {i}")


def rstructure(r, log):
    dim = r.choice([1, 2, 2, 3])
    vecs, kind = rlattice_vecs(r, dim)
    arg, per = rperiodic(r, dim)
    if r.random() < .1:
        vecs = [[x * 2.0 ** 14 for x in v] for v in vecs]       # a large cell: places far from the origin
    s = PeriodicStructure(Lattice(vecs, arg))
    added = []
    for _ in range(r.randrange(0, 25)):
        if r.random() < .4:
            f = [r.choice([0, 1 / 3, 2 / 3, 0.5, 0.25]) for _ in range(dim)]
        else:
            f = [r.random() * .998 for _ in range(dim)]
        p = cart(f, vecs)
        if not tie_free(p, 0.05):
            continue
        if all(min_image(p, q, vecs, per) > 0.005 for q in added):
            s.add_site(r.choice(["A", "B", "", "c d", "α", "a"]), tuple(p))
            added.append(p)
    log.update(vecs=vecs, periodic=per, locations=[list(map(float, p)) for p in added])
    return s, added, vecs, per


def sc_state(r, log):
    m = jstate(r)
    s = SimulationState(m)
    log.update(state=m)
    d = s.as_dict()
    d = via(r, copy.deepcopy(d), log)
    t = SimulationState.from_dict(d)
    same_state(t, m, "state read back")
    same_state(s, m, "saved state")
    need(s == t, "the two states compare equal")
    eq(t.site_ids(), list(m[SITES]), "site ids")
    t.set_site_state(5, {"zz": 1})
    t.set_general_state({"zz": 1})
    same_state(s, m, "saved state after a change of the one read back")


def sc_lattice(r, log):
    vecs, kind = rlattice_vecs(r)
    arg, per = rperiodic(r, len(vecs))
    log.update(vecs=vecs, periodic=arg)
    a = Lattice(vecs, arg)
    d = a.as_dict()
    b = Lattice.from_dict(via(r, copy.deepcopy(d), log))
    same_lattice(b, a, "lattice read back")
    eq(a.as_dict(), d, "saved lattice")
    eq(tuple(bool(x) for x in b.periodic), per, "periodic directions")
    x = [r.uniform(-5, 5) for _ in vecs]
    y = [r.uniform(-5, 5) for _ in vecs]
    eq(a.get_periodized_cartesian_coords(x).tolist(), b.get_periodized_cartesian_coords(x).tolist(), "wrapping")
    eq(float(a.cartesian_periodic_distance(x, y)), float(b.cartesian_periodic_distance(x, y)), "distance")


def sc_structure(r, log):
    s, added, vecs, per = rstructure(r, log)
    before = [(i, s.site_class(i), s.site_location(i).tolist()) for i in s.site_ids]
    d = s.as_dict()
    t = PeriodicStructure.from_dict(via(r, copy.deepcopy(d), log))
    same_structure(t, s, "structure read back")
    eq([(i, s.site_class(i), s.site_location(i).tolist()) for i in s.site_ids], before, "saved structure")
    for k, p in enumerate(added):
        eq(t.id_at(tuple(p)), s.id_at(tuple(p)), f"site at {p} in the structure read back")
        eq(t.id_at(tuple(p)), k, f"site at {p} in the structure read back")
    # the dictionary form shares nothing with the structure
    def smash(x):
        if isinstance(x, dict):
            for v in list(x.values()):
                smash(v)
            x.clear()
        elif isinstance(x, list):
            for v in x:
                smash(v)
            x.clear()
    smash(d)
    eq([(i, s.site_class(i), s.site_location(i).tolist()) for i in s.site_ids], before, "structure after a change of its dictionary form")
    same_structure(t, s, "structure after a change of its dictionary form")


def sc_simulation(r, log):
    if r.random() < .4:
        s = SimpleSquare2DStructureBuilder().build((r.randrange(1, 6), r.randrange(1, 6)))
        added = [tuple(s.site_location(i)) for i in s.site_ids]
    else:
        s, added, _, _ = rstructure(r, log)
    m = {SITES: {i: {SITE_ID: i, **rattrs(r)} for i in s.site_ids}, GENERAL: rattrs(r)}
    sim = Simulation(SimulationState(m), s)
    if r.random() < .5:
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "x.json")
            sim.to_file(f)
            b = Simulation.from_file(f)
    else:
        b = Simulation.from_dict(via(r, copy.deepcopy(sim.as_dict()), log))
    log.update(state=m)
    same_structure(b.structure, s, "structure of the simulation read back")
    same_state(b.state, m, "state of the simulation read back")
    same_state(sim.state, m, "state of the saved simulation")
    for k, p in enumerate(added):
        eq(b.state_at(tuple(p)), m[SITES][k], f"state at {p}")


def roundtrip_result(r, res, log):
    if r.random() < .5:
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "x.json")
            log["via"] = "file"
            eq(res.to_file(f), f, "name of the file")
            return SimulationResult.from_file(f)
    return SimulationResult.from_dict(via(r, copy.deepcopy(res.as_dict()), log))


def sc_result(r, log):
    m = jstate(r)
    res = SimulationResult(SimulationState(m))
    batches = []
    for _ in range(r.choice([0, 1, 3, 6, 12])):
        b = rbatch(r, list(m[SITES]))
        batches.append(b)
        res.add_step(copy.deepcopy(b))
    log.update(start=m, batches=batches)
    if r.random() < .3:
        res.load_steps(r.choice([1, 2, 5]))
    t = roundtrip_result(r, res, log)
    eq(len(t), len(batches) + 1, "length of the result read back")
    cur = m
    for k in range(len(batches) + 1):
        same_state(t.get_step(k), cur, f"step {k} of the result read back")
        same_state(res.get_step(k), cur, f"step {k} of the saved result")
        if k < len(batches):
            cur = apply(cur, batches[k])
    same_state(t.initial_state, m, "starting state of the result read back")
    t.add_step({1: {"zz": 3}})
    eq(len(res), len(batches) + 1, "length of the saved result")


class Follow(RuleController):
    def get_random_site(self, state):
        return state.site_ids()[0]

    def get_state_update(self, site_id, prev_state):
        u = super().get_state_update(site_id, prev_state)
        ids = prev_state.site_ids()
        return u, [ids[(ids.index(site_id) + 1) % len(ids)]]


def sc_runner(r, log):
    m = start_state(r, 1, 12)
    salt, n = r.randrange(10 ** 6), r.randrange(0, 5)
    how = r.choice(["serial", "serial", "parallel", "asynchronous"])
    log.update(start=m, salt=salt, n=n, how=how)
    perm = None
    st = SimulationState(m)
    if how == "asynchronous":
        res = AsynchronousRunner().run(st, Follow(salt, perm), n)
    elif how == "serial":
        res = SynchronousRunner().run(st, RuleController(salt, perm), n)
    else:
        res = SynchronousRunner(parallel=True, workers=2).run(st, RuleController(salt, perm), n)
    want = [dump(res.get_step(k)) for k in range(len(res))]
    t = roundtrip_result(r, res, log)
    eq(len(t), len(want), "length of the result read back")
    for k, w in enumerate(want):
        same_state(t.get_step(k), w, f"step {k} of the result read back")
        same_state(res.get_step(k), w, f"step {k} of the saved result")
    same_state(t.last_step, want[-1], "last step")


def sc_again(r, log):
    """saved, changed and saved again (to the same file too): what is read back is the later content"""
    s, added, vecs, per = rstructure(r, log)
    m = {SITES: {i: {SITE_ID: i, **rattrs(r)} for i in s.site_ids}, GENERAL: rattrs(r)}
    st = SimulationState(m)
    sim, res, start = Simulation(st, s), SimulationResult(SimulationState(m)), m
    batches = []
    log.update(start=m, rounds=[])
    with tempfile.TemporaryDirectory() as tmp:
        fs, fr = os.path.join(tmp, "sim.json"), os.path.join(tmp, "res.json")
        for k in range(3):
            if r.random() < .5:
                sim.to_file(fs)
                b = Simulation.from_file(fs)
            else:
                b = Simulation.from_dict(via(r, copy.deepcopy(sim.as_dict()), log))
            same_structure(b.structure, s, f"structure of the simulation read back, round {k}")
            same_state(b.state, m, f"state of the simulation read back, round {k}")
            same_state(SimulationState.from_dict(via(r, copy.deepcopy(st.as_dict()), log)), m, f"state read back, round {k}")
            if r.random() < .5:
                res.to_file(fr)
                t = SimulationResult.from_file(fr)
            else:
                t = SimulationResult.from_dict(via(r, copy.deepcopy(res.as_dict()), log))
            eq(len(t), len(batches) + 1, f"length of the result read back, round {k}")
            cur = start
            for j in range(len(batches) + 1):
                same_state(t.get_step(j), cur, f"step {j} of the result read back, round {k}")
                if j < len(batches):
                    cur = apply(cur, batches[j])
            # changes before the next round
            up = rbatch(r, list(m[SITES]) or [0])
            log["rounds"].append(copy.deepcopy(up))
            st.batch_update(copy.deepcopy(up))
            m = apply(m, up)
            batches.append(copy.deepcopy(up))
            res.add_step(up)
            for _ in range(20):
                p = cart([r.random() * .998 for _ in vecs], vecs)
                if tie_free(p, 0.05) and all(min_image(p, q, vecs, per) > 0.005 for q in added):
                    s.add_site("late", tuple(p))
                    added.append(p)
                    break
