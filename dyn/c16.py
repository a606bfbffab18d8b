from common import *
from pylattica.core import SimulationState, SimulationResult, PeriodicStructure, Lattice, StateAnalyzer
from pylattica.discrete import DiscreteStepAnalyzer, DiscreteResultAnalyzer, PhaseSet

RULE = ("random states with missing, falsy and repeated attribute values, structures with up to three interleaved classes, "
        "0-3 conditions; random results whose phases may appear or vanish at any step, the last included; reference: direct counting")
COUNTS = {"sites": 400, "where_equal": 400, "phases": 300, "result": 300, "phase_set": 40}


def make(r, log, occ=False):
    n = r.randrange(1, 9)
    s = PeriodicStructure(Lattice([(10.0, 0.0), (0.0, 10.0)]))
    cls = []
    for i in range(n):
        cls.append(r.choice(CLASSES))
        s.add_site(cls[-1], (i + 0.25, 1.25))
    m = {SITES: {}, GENERAL: {}}
    order = list(range(n))
    r.shuffle(order)
    odd = r.choice([["p", "q", "w", "", "VACANT"], ["p", 0, "0", 2, None], ["p", (1, 2), "(1, 2)", 1.5]])
    for i in order:
        a = {SITE_ID: i}
        for k in "xyz":
            if r.random() < 0.7:
                a[k] = r.choice([0, 1, 2, "", "u", False, None, 0.5, "0", "1", "None", (1, 2)])
        if occ:
            a[OCC] = r.choice(odd)
        m[SITES][i] = a
    log.update(classes=cls, state=m)
    return s, cls, m, SimulationState(copy.deepcopy(m))


def sc_sites(r, log):
    s, cls, m, st = make(r, log)
    crits = [("x", lambda d: d.get("x") == 1), ("y", lambda d: bool(d.get("y"))), ("z", lambda d: "z" in d),
             ("id", lambda d: d[SITE_ID] % 2 == 0), ("F", lambda d: False), ("T", lambda d: 1),
             ("xval", lambda d: d.get("x")), ("zval", lambda d: d.get("z", ())), ("ylist", lambda d: [k for k in d if k == "y"])]
    ch = r.sample(crits, r.randrange(0, 4) if r.random() < .8 else r.randrange(4, 8))
    if len(ch) > 3:
        ch = [(n + "?", (lambda f: lambda d: f(d) or d[SITE_ID] != 3)(f)) for n, f in ch if n != "F"]
    use = r.random() < 0.7
    sc = r.choice([None, "A", "B", "Z", "", "AB"]) if use else None
    log.update(conditions=[c for c, _ in ch], site_class=sc, with_structure=use)
    an = StateAnalyzer(s) if use else StateAnalyzer()
    order = list(range(len(cls))) if use else list(m[SITES])
    exp = [i for i in order if (sc is None or cls[i] == sc) and all(f(m[SITES][i]) for _, f in ch)]
    kw = {"site_class": sc} if sc is not None or r.random() < .5 else {}
    if ch or r.random() < .5:
        kw["state_criteria"] = [f for _, f in ch]
    eq(list(an.get_sites(st, **kw)), exp, "sites satisfying the conditions")
    eq(an.get_site_count(st, **kw), len(exp), "count")
    same_state(st, m, "state after analysis")
    if r.random() < .5:
        # the same analyzer, the same state changed in between
        ups = {i: {"x": r.choice([0, 1, 2]), "z": r.choice([0, "u"])} for i in m[SITES] if r.random() < .6}
        log["changed to"] = ups
        for i, d in ups.items():
            st.set_site_state(i, d)
        m = apply(m, ups)
        order = list(range(len(cls))) if use else list(m[SITES])
        exp = [i for i in order if (sc is None or cls[i] == sc) and all(f(m[SITES][i]) for _, f in ch)]
        eq(list(an.get_sites(st, **kw)), exp, "sites satisfying the conditions, asked again after changes")
    if r.random() < .5:
        # the same analyzer, another state, and perhaps a structure with more sites by then
        for a in m[SITES].values():
            a["x"] = r.choice([0, 1, 2])
        if use and r.random() < .7:
            for _ in range(r.randrange(1, 3)):
                i = len(cls)
                cls.append(r.choice(["A", "B", "", "AB"]))
                s.add_site(cls[-1], (i + 0.25, 1.25))
                m[SITES][i] = {SITE_ID: i, "x": 1, "y": 2}
        log["second state"] = m
        order = list(range(len(cls))) if use else list(m[SITES])
        exp = [i for i in order if (sc is None or cls[i] == sc) and all(f(m[SITES][i]) for _, f in ch)]
        eq(list(an.get_sites(SimulationState(copy.deepcopy(m)), **kw)), exp, "sites satisfying the conditions, in another state")


def sc_where_equal(r, log):
    s, cls, m, st = make(r, log)
    pairs = {}
    for k in r.sample("xyz", r.randrange(0, 3)):
        pairs[k] = r.choice([0, 1, "", "u", False, 0.5, 2, "0", "1", "None", (1, 2)])
    use = r.random() < 0.7
    sc = r.choice([None, "A", "B", "", "AB"]) if use else None
    log.update(pairs=pairs, site_class=sc, with_structure=use)
    an = r.choice([StateAnalyzer, DiscreteStepAnalyzer])(s) if use else StateAnalyzer()
    order = list(range(len(cls))) if use else list(m[SITES])
    exp = [i for i in order if (sc is None or cls[i] == sc) and all(k in m[SITES][i] and m[SITES][i][k] == v for k, v in pairs.items())]
    keep = dict(pairs)
    eq(list(an.get_sites_where_equal(st, pairs, site_class=sc)), exp, "sites with the given values")
    eq(an.get_site_count_where_equal(st, pairs, site_class=sc), len(exp), "count")
    eq(pairs, keep, "search pairs")


def check_phases(an, st, m, when):
    cnt = {}
    for a in m[SITES].values():
        cnt[a[OCC]] = cnt.get(a[OCC], 0) + 1
    n = len(m[SITES])
    for p in list(cnt) + ["absent"]:
        eq(an.cell_count(st, p), cnt.get(p, 0), f"count of {p!r}{when}")
        need(abs(an.cell_fraction(st, p) - cnt.get(p, 0) / n) < 1e-12, f"fraction of {p!r}{when}", an.cell_fraction(st, p))
        for q in cnt:
            need(abs(an.cell_ratio(st, p, q) - cnt.get(p, 0) / cnt[q]) < 1e-12, f"ratio of {p!r} to {q!r}{when}")
    got = an.phases_present(st)
    need(len(got) == len(set(got)) and set(got) == set(cnt), f"phases present{when}", got, cnt)
    eq(an.phase_count(st), len(cnt), f"number of phases{when}")
    same_state(st, m, f"state after analysis{when}")


def sc_phases(r, log):
    s, cls, m, st = make(r, log, True)
    plain = r.random() < .7
    an = DiscreteStepAnalyzer() if plain else DiscreteStepAnalyzer(s)
    check_phases(an, st, m, "")
    if r.random() < .6:
        # the same analyzer and the same state, changed in between
        ups = {i: {OCC: r.choice(["p", "q", "late", ""])} for i in m[SITES] if r.random() < .5}
        if plain and r.random() < .5:
            ups[90] = {OCC: "p"}
        log["changed to"] = ups
        st.batch_update(copy.deepcopy(ups))
        m = apply(m, ups)
        check_phases(an, st, m, ", asked again after changes")
    if plain and r.random() < .6:
        # the same analyzer, another state with another number of sites
        _, _, m2, st2 = make(r, log, True)
        check_phases(an, st2, m2, ", asked again about another state")
        check_phases(an, st, m, ", asked again about the first state")


def sc_result(r, log):
    n = r.randrange(1, 5)
    m = {SITES: {i: {SITE_ID: i, OCC: r.choice(["p", "q", ""])} for i in range(n)}, GENERAL: {}}
    res = SimulationResult(SimulationState(copy.deepcopy(m)))
    models, diffs = [m], []
    for k in range(r.randrange(0, 6) if r.random() < .97 else r.choice([101, 160, 260])):
        d = {i: {OCC: r.choice(["p", "q", f"new{k % 7}", "z", ""])} for i in range(n) if r.random() < .5}
        if r.random() < .5:
            d = {SITES: d, GENERAL: {}}
        diffs.append(copy.deepcopy(d))
        res.add_step(d)
        models.append(apply(models[-1], d))
    log.update(start=m, diffs=diffs)
    if r.random() < .3:
        res.load_steps(r.randrange(1, 3))
    an = DiscreteResultAnalyzer(res)
    if r.random() < .3:
        list(an.all_phases()), an.final_phase_fractions()
    phases = {a[OCC] for mm in models for a in mm[SITES].values()}
    got = list(an.all_phases())
    need(set(got) == phases and len(got) == len(phases), "phases of the result", got, phases)
    fr = an.final_phase_fractions()
    exp = {p: sum(a[OCC] == p for a in models[-1][SITES].values()) / n for p in phases}
    need(set(fr) == set(exp) and all(abs(fr[p] - exp[p]) < 1e-12 for p in exp), "final fractions", fr, exp)
    for k, mm in enumerate(models):
        for p in phases:
            e = sum(a[OCC] == p for a in mm[SITES].values()) / n
            need(abs(an.phase_fraction_at(k, p) - e) < 1e-12, f"fraction of {p} at step {k}", an.phase_fraction_at(k, p), e)
    if r.random() < .5:
        d = {r.randrange(n): {OCC: r.choice(["p", "later"])}}
        log["recorded later"] = copy.deepcopy(d)
        res.add_step(d)
        models.append(apply(models[-1], d))
        phases = {a[OCC] for mm in models for a in mm[SITES].values()}
        got = list(an.all_phases())
        need(set(got) == phases and len(got) == len(phases), "phases of the result after one more step", got, phases)
        fr = an.final_phase_fractions()
        exp = {p: sum(a[OCC] == p for a in models[-1][SITES].values()) / n for p in phases}
        need(set(fr) == set(exp) and all(abs(fr[p] - exp[p]) < 1e-12 for p in exp), "final fractions after one more step", fr, exp)
    fig = an.plot_phase_fractions(min_prevalence=-1) if r.random() < .2 else None
    if fig is not None:
        eq(sorted(t.name for t in fig.data), sorted(phases), "phases plotted")
        for t in fig.data:
            for x, y in zip(t.x, t.y):
                e = sum(a[OCC] == t.name for a in models[x][SITES].values()) / n
                need(abs(y - e) < 1e-12, f"plotted fraction of {t.name} at step {x}", y, e)
    same_state(res.initial_state, m, "starting state after analysis")
    for k, mm in enumerate(models):
        same_state(res.get_step(k), mm, f"step {k} after analysis")


def sc_phase_set(r, log):
    ph = [r.choice("abcd") for _ in range(r.randrange(0, 7))]
    log["phases"] = ph
    keep = list(ph)
    got = PhaseSet(ph).phases
    need(sorted(got) == sorted(set(keep)), "phase set", got, ph)
    eq(ph, keep, "given list")
