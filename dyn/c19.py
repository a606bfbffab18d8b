import os
import sys
import tempfile
from common import *
from PIL import Image
from pylattica.core import SimulationState, SimulationResult
from pylattica.structures.square_grid import SimpleSquare2DStructureBuilder
from pylattica.visualization import SquareGridArtist2D, ResultArtist, CellArtist, DiscreteCellArtist
from pylattica.visualization.structure_artist import StructureArtist
from pylattica.visualization.colors import COLORS
from pylattica.visualization.helpers import color_map

RULE = ("square grids of side 1-7, cell sizes 1-30, discrete and custom cell artists, other state keys, unmapped phases, "
        "given legends, more legend entries than rows; phase lists of 0-160 phases; animations with every draw frequency")
COUNTS = {"picture": 140, "cell_artist": 150, "palette": 120, "animation": 18, "frames": 10}
PHASES = ["Alpha", "b", "gamma 2", "", "Z", "7", "delta", "eps", "zeta", " a ", "β"]


def rcolor(r, used):
    while True:
        c = (r.randrange(256), r.randrange(256), r.randrange(256))
        if max(c) - min(c) > 40 and c not in used:
            used.add(c)
            return c


class Shade(CellArtist):
    def __init__(self, key, colors):
        self.key, self.colors = key, colors

    def get_color_from_cell_state(self, s):
        return self.colors[s[self.key] % len(self.colors)]

    def get_cell_legend_label(self, s):
        return "value %d" % (s[self.key] % len(self.colors))


def scene(r, log, lo=1, hi=7):
    n = r.randrange(lo, hi + 1)
    st = SimpleSquare2DStructureBuilder().build(n)
    key = r.choice([OCC, "other"])
    ph = r.sample(PHASES, r.randrange(1, len(PHASES) + 1))
    if r.random() < .15:
        ph = list(range(r.randrange(1, 6)))     # phases that are no texts
    m = {SITES: {i: {SITE_ID: i, OCC: "zz", key: r.choice(ph)} for i in st.site_ids}, GENERAL: {}}
    mapped = [p for p in ph if r.random() < .85]
    used = set()
    colors = {p: rcolor(r, used) for p in mapped}
    log.update(n=n, key=key, colors=colors, state={i: s[key] for i, s in m[SITES].items()})
    return n, st, key, ph, m, colors


def check_cells(img, n, cs, want, skip=None):
    px = np.array(img.convert("RGB")).astype(int)
    need(px.shape[0] >= n * cs and px.shape[1] >= n * cs, "picture smaller than the grid", px.shape)
    for (x, y), c in want.items():
        block = px[(n - 1 - y) * cs:(n - y) * cs, x * cs:(x + 1) * cs]
        bad = (np.abs(block - np.array(c)).max(axis=2) > 0)
        if skip:
            for i, j in zip(*np.nonzero(bad)):
                if (n - 1 - y) * cs + i < skip[1] and x * cs + j < skip[0]:
                    bad[i, j] = False
        if bad.any():
            i, j = [int(k[0]) for k in np.nonzero(bad)]
            need(False, f"cell ({x}, {y}): pixel right {x * cs + j} down {(n - 1 - y) * cs + i} is {block[i, j].tolist()}, expected {c}")
    return px


def at(st, i):
    return tuple(int(round(float(v))) for v in st.site_location(i))


def drawn(r, sa, st, state, m, kw, n, size, cell_colors, legend, label):
    art = sa.cell_artist
    if r.random() < .2:
        with tempfile.TemporaryDirectory() as tmp:
            f = os.path.join(tmp, "a.png")
            sa.save_img(state, f, **kw)
            img = Image.open(f)
            img.load()
    else:
        img = sa.get_img(state, **kw)
    px = check_cells(img, n, size, {at(st, i): c for i, c in cell_colors.items()}, (130, 24) if label else None)
    eq(art.get_legend(state), legend, "legend")
    same_state(state, m, "state after drawing")
    if label is None or n * size > 140:
        side = px[:, n * size:]
        for c in set(legend.values()):
            if c == (0, 0, 0):
                continue
            k = sum(v == c for v in legend.values())
            got = int((np.abs(side - np.array(c)).max(axis=2) == 0).sum())
            need(got >= k * size * size, f"pixels of color {c} in the drawn legend", got, k * size * size)
        known = {tuple(c) for c in legend.values()} | {(0, 0, 0), (255, 255, 255)}
        for c in {tuple(int(v) for v in p) for p in side.reshape(-1, 3)}:
            need(c in known or max(c) - min(c) < 8, "a color in the drawn legend that is not in the legend", c, legend)


def sc_picture(r, log):
    n, st, key, ph, m, colors = scene(r, log)
    given = ()
    cs = r.choice([1, 2, 3, 4, 5, 7, 10, 20, 30, None, r.randrange(1, 150) if n < 4 else 11])
    state = SimulationState(m)
    if r.random() < .2:
        vals = [(200, 10, 10), (10, 200, 10), (10, 20, 220)]
        for s in m[SITES].values():
            s["v"] = r.randrange(5)
        state = SimulationState(m)
        art = Shade("v", vals)
        cell_colors = {i: vals[s["v"] % 3] for i, s in m[SITES].items()}
        legend = {"value %d" % (s["v"] % 3): vals[s["v"] % 3] for s in m[SITES].values()}
    else:
        kw = {} if key == OCC else {"state_key": key}
        legend = {str(s[key]): colors.get(s[key], (0, 0, 0)) for s in m[SITES].values()}
        if r.random() < .25:
            legend = {"L%d" % i: (i * 15 + 60, 200, 10) for i in range(r.randrange(0, 12))}
            if r.random() < .4:
                # a legend may name the labels of the cells, with colors of its own
                legend.update({l: (250 - i * 15, 90, 200) for i, l in enumerate(sorted({str(s[key]) for s in m[SITES].values()}))})
            kw["legend"] = dict(legend)
        art, given = DiscreteCellArtist(dict(colors), **kw), tuple(kw)
        cell_colors = {i: colors.get(s[key], (0, 0, 0)) for i, s in m[SITES].items()}
    kw = {} if cs is None else {"cell_size": cs}
    size = cs or 20
    label = r.choice([None, None, "Step 12"])
    if label:
        kw["label"] = label
    log.update(cell_size=cs, label=label, legend=legend)
    sa = SquareGridArtist2D(st, art)
    drawn(r, sa, st, state, m, kw, n, size, cell_colors, legend, label)
    if isinstance(art, DiscreteCellArtist) and r.random() < .5:
        # another state, drawn by the same artist
        for s in m[SITES].values():
            s[key] = r.choice(ph)
        log["second state"] = {i: s[key] for i, s in m[SITES].items()}
        if "legend" not in given:
            legend = {str(s[key]): colors.get(s[key], (0, 0, 0)) for s in m[SITES].values()}
        cell_colors = {i: colors.get(s[key], (0, 0, 0)) for i, s in m[SITES].items()}
        drawn(r, sa, st, SimulationState(m), m, kw, n, size, cell_colors, legend, label)


def sc_cell_artist(r, log):
    n, st, key, ph, m, colors = scene(r, log)
    art = DiscreteCellArtist(dict(colors), state_key=key)
    for s in m[SITES].values():
        eq(tuple(art.get_color_from_cell_state(s)), colors.get(s[key], (0, 0, 0)), "color of a cell")
        eq(art.get_cell_legend_label(s), str(s[key]), "label of a cell")
    state = SimulationState(m)
    eq(art.get_legend(state), {str(s[key]): colors.get(s[key], (0, 0, 0)) for s in m[SITES].values()}, "legend")
    same_state(state, m, "state")
    # artists made from a state or a result
    one = DiscreteCellArtist.from_discrete_state(SimulationState({SITES: {i: {SITE_ID: i, OCC: s[key]} for i, s in m[SITES].items()}, GENERAL: {}}))
    eq(set(one.color_map), {s[key] for s in m[SITES].values()}, "phases with a color")
    eq(sorted(one.color_map.values()), sorted(COLORS[:len(one.color_map)]), "colors given to the phases of a state")
    res = SimulationResult(SimulationState({SITES: {0: {SITE_ID: 0, OCC: "first"}}, GENERAL: {}}))
    for k in range(r.randrange(0, 4)):
        res.add_step({0: {OCC: f"phase {k}"}})
    two = DiscreteCellArtist.from_discrete_result(res)
    eq(set(two.color_map), {"first"} | {f"phase {k}" for k in range(len(res) - 1)}, "phases of the result with a color")
    eq(sorted(two.color_map.values()), sorted(COLORS[:len(two.color_map)]), "colors given to the phases of a result")


def sc_palette(r, log):
    n = r.choice([0, 1, 2, 5, 35, 36, 69, 70, 71, 75, 139, 140, 141, 160])
    ph = [f"ph{i}" for i in range(n)]
    r.shuffle(ph)
    log["phases"] = n
    for f in (DiscreteCellArtist.build_color_map_from_phase_list, color_map,
              lambda p: DiscreteCellArtist.from_phase_list(p).color_map):
        eq(f(list(ph)), {p: COLORS[i % len(COLORS)] for i, p in enumerate(ph)}, f"colors of {n} phases")


class Flat(StructureArtist):
    """Draws the general attribute k of a state as one flat color, and the label into the size."""

    def _draw_image(self, state, **kw):
        need(kw.get("mark") == "m", "keyword passed on to the artist", kw)
        k = state.get_general_state()["k"]
        return Image.new("RGB", (12, 8), (10 * k + 5, 255 - 11 * k, 40))


def frames(path):
    out = []
    with Image.open(path) as im:
        for k in range(getattr(im, "n_frames", 1)):
            im.seek(k)
            out.append(im.convert("RGB"))
    return out


def gif(art, **kw):
    """the pictures of the animation written by the artist"""
    return in_scratch(lambda tmp: (art.to_gif("out.gif", **kw), frames("out.gif"))[1])


def gif_without_fork(art, **kw):
    """the same, as on a platform without fork"""
    def run(tmp):
        was = sys.platform
        sys.platform = "win32"
        try:
            art.to_gif("out.gif", **kw)
        finally:
            sys.platform = was
        return frames("out.gif")
    return in_scratch(run)


def in_scratch(fn):
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        try:
            return fn(tmp)
        finally:
            os.chdir(old)


def sc_animation(r, log):
    n = r.choice([0, 1, 2, 5, 10, 11, 12, 13, 20])
    f = r.choice([1, 1, 2, 3, 7])
    log.update(steps=n, draw_freq=f)
    res = SimulationResult(SimulationState({SITES: {0: {SITE_ID: 0}}, GENERAL: {"k": 0}}))
    for k in range(n):
        res.add_step({GENERAL: {"k": k + 1}})
    art = ResultArtist(Flat(SimpleSquare2DStructureBuilder().build(1), None), res)
    kw = {} if f == 1 else {"draw_freq": f}
    fr = r.choice([gif, gif_without_fork])(art, mark="m", **kw)
    want = list(range(0, n + 1, f))
    eq(len(fr), len(want), "number of pictures")
    for img, k in zip(fr, want):
        c = np.array(img).reshape(-1, 3).astype(int)
        need(np.abs(c - np.array((10 * k + 5, 255 - 11 * k, 40))).max() <= 4, f"picture of step {k}", c[0])


def sc_frames(r, log):
    n, st, key, ph, m, colors = scene(r, log, 3, 4)
    for s in m[SITES].values():
        s[OCC] = s[key]
    res = SimulationResult(SimulationState(m))
    cur = m
    steps = [m]
    for _ in range(r.randrange(1, 5)):
        b = {i: {OCC: r.choice(ph)} for i in m[SITES] if r.random() < .5}
        res.add_step(b)
        cur = apply(cur, b)
        steps.append(cur)
    if r.random() < .5:
        res.load_steps()
    art = ResultArtist(SquareGridArtist2D(st, DiscreteCellArtist(dict(colors), legend={str(p): c for p, c in colors.items()})), res)
    cs = r.choice([50, 60])
    fr = r.choice([gif, gif_without_fork])(art, cell_size=cs)
    eq(len(fr), len(steps), "number of pictures")
    for k, (img, s) in enumerate(zip(fr, steps)):
        px = np.array(img).astype(int)
        for i in st.site_ids:
            x, y = at(st, i)
            c = px[(n - 1 - y) * cs + 30:(n - y) * cs, x * cs:(x + 1) * cs].reshape(-1, 3)
            w = np.array(colors.get(s[SITES][i][OCC], (0, 0, 0)))
            need(np.abs(c - w).max() <= 8, f"cell {(x, y)} in the picture of step {k}", c[0], w)
