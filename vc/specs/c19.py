"""C19: pictures of square grids."""
from speclib import *

CA = "visualization.cell_artist"
DCA = CA + ".DiscreteCellArtist"
HM = "visualization.helpers"


def palette(u):
    """any palette with at least one color (a color is three numbers)"""
    mod = u.mod("visualization.colors")
    mod.env.pop("COLORS", None)         # (as it is in the source)
    real = u.ops.seq_of(u.get("visualization.colors", "COLORS")).concrete()
    u.ok(bool(real), "the palette has at least one color")
    n = u.int("palette.n", lo=1)
    f = z3.Function("palette.at", INT, V)
    mod.env["COLORS"] = ListObj(u.E, Seq([Part(n, true, lambda i: f(zi(i)))]))
    return n, f


def gives_colors(u, make):
    n, f = palette(u)
    ph = u.list("phases")
    ix = z3.Function("phases.ix", V, INT)
    u.E.defs["phases.at"] = lambda i: [z3.Implies(z3.And(i >= 0, i < ph.n), ix(ph.at(i)) == i)]
    m = u.frozen(make(ph))
    i = u.int("i", lo=0)
    u.assume(i < ph.n)
    u.prove(zb(u.has(m, ph.at(i))), "every phase has a color")
    u.prove(u.E.toV(u.at(m, ph.at(i))) == f(i % n), "the i-th phase has the i-th color, starting over at the end")
    q = u.opq("q")
    u.under(zb(u.has(m, q)), lambda: u.prove(u.E.loops.EX(ph.n, lambda k: ph.at(k) == q), "only the phases have colors"))


@unit("C19", "colors of a phase list", [HM + ".color_map"])
def _(u):
    gives_colors(u, lambda ph: u.call(u.get(HM, "color_map"), ph))


@unit("C19", "colors of a phase list, by the artist", [DCA + ".build_color_map_from_phase_list"])
def _(u):
    gives_colors(u, lambda ph: u.do(u.get(CA, "DiscreteCellArtist"), "build_color_map_from_phase_list", ph))


@unit("C19", "an artist made from a phase list", [DCA + ".from_phase_list", DCA + ".__init__"])
def _(u):
    gives_colors(u, lambda ph: u.attr(u.do(u.get(CA, "DiscreteCellArtist"), "from_phase_list", ph), "color_map"))


for what, fn, cls, method in (("state", "from_discrete_state", "DiscreteStepAnalyzer", "phases_present"), ("result", "from_discrete_result", "DiscreteResultAnalyzer", "all_phases")):
    @unit("C19", f"an artist made from a {what}", [f"{DCA}.{fn}", DCA + ".from_phase_list", DCA + ".build_color_map_from_phase_list", DCA + ".__init__"])
    def _(u, what=what, fn=fn, cls=cls, method=method):
        """The analyzers by contract (C16): the phases present, each once."""
        given = u.stub("SimulationState" if what == "state" else "SimulationResult", {})

        def make(ph):
            def phases(E, a, k):
                u.ok((a[0] if a else None) is given, f"the phases are those of the given {what}")
                return ph

            def analyzer(E, a, k):
                if what == "state":
                    return u.stub(cls, {method: Native(method, phases)})
                u.ok((a[0] if a else k.get("result")) is given, "the result analyzed is the given one")
                return u.stub(cls, {method: u.native(lambda: ph)})
            u.E.contracts[cls] = analyzer
            key = u.opq("key")
            art = u.do(u.get(CA, "DiscreteCellArtist"), fn, given, state_key=key)
            cell = u.symdict("cell")
            u.assume(cell.has(key))
            m = u.attr(art, "color_map")
            got = u.do(art, "get_color_from_cell_state", cell)
            v = u.E.toV(u.at(cell, key))
            f = u.frozen(m)
            u.prove(u.E.toV(got) == z3.If(zb(u.has(f, v)), u.E.toV(u.at(f, v)), u.E.toV(TupleVal([0, 0, 0]))), "the artist draws these colors")
            return m
        gives_colors(u, make)


BLACK = (0, 0, 0)


def color_of(u, colors, v):
    return z3.If(colors.has(v), u.E.toV(u.at(colors, v)), u.E.toV(TupleVal([0, 0, 0])))


@unit("C19", "the color of a cell", [DCA + ".get_color_from_cell_state", DCA + ".__init__"])
def _(u):
    colors, key = u.symdict("colors"), u.opq("key")
    art = u.new(CA, "DiscreteCellArtist", colors, key)
    cell = u.symdict("cell")
    u.assume(cell.has(key))
    got = u.do(art, "get_color_from_cell_state", cell)
    u.prove(u.E.toV(got) == color_of(u, colors, u.E.toV(u.at(cell, key))), "the color of its state, black if it has none")


@unit("C19", "the color of a cell, by default", [DCA + ".get_color_from_cell_state", DCA + ".__init__"])
def _(u):
    colors = u.symdict("colors")
    art = u.new(CA, "DiscreteCellArtist", colors)
    key = u.get("discrete.state_constants", "DISCRETE_OCCUPANCY")
    cell = u.symdict("cell")
    u.assume(cell.has(u.E.toV(key)))
    got = u.do(art, "get_color_from_cell_state", cell)
    u.prove(u.E.toV(got) == color_of(u, colors, u.E.toV(u.at(cell, key))), "the color of its occupancy, black if it has none")


def cells(u, key, nm="s"):
    """a state in which every site has a value (a text) under the key"""
    u.ops.ext["copy.deepcopy"] = lambda E, a, k: a[0]      # (of texts: the same texts)
    st = u.state(nm)
    k = u.E.toV(key)
    class sites:
        n, key, has = z3.Int(nm + ".n"), z3.Function(nm + ".key", INT, INT), z3.Function(nm + ".has", INT, BOOL)
    has, val = z3.Function(nm + ".s.has", V, V, BOOL), z3.Function(nm + ".s.val", V, V, V)
    value = lambda i: val(V.VInt(zi(i)), k)
    u.E.defs[nm + ".has"] = (lambda old: lambda q: old(q) + [z3.Implies(sites.has(q), z3.And(has(V.VInt(q), k), V.is_VStr(value(q))))])(u.E.defs[nm + ".has"])
    return st, sites, value


@unit("C19", "the legend of a state", [DCA + ".get_legend", CA + ".CellArtist.get_legend", DCA + ".get_cell_legend_label", DCA + ".get_color_from_cell_state", "core.simulation_state.SimulationState.all_site_states"])
def _(u):
    """The labels are texts (values that are not are shown as text, so two of them may share a label)."""
    legend_unit(u)


@unit("C19", "the legend of a state, when the artist was asked about another one before", [DCA + ".get_legend", CA + ".CellArtist.get_legend"])
def _(u):
    legend_unit(u, True)


def legend_unit(u, again=False):
    colors, key = u.symdict("colors"), u.opq("key")
    art = u.new(CA, "DiscreteCellArtist", colors, key)
    if again:
        u.do(art, "get_legend", cells(u, key, "old")[0])
    st, sites, value = cells(u, key)
    got = u.frozen(u.do(art, "get_legend", st))
    i = u.int("i")
    u.assume(sites.has(i))
    u.prove(zb(u.has(got, value(i))), "every label that occurs is in the legend")
    u.prove(u.E.toV(u.at(got, value(i))) == color_of(u, colors, value(i)), "with the color of its cells")
    q = u.opq("q")
    u.under(zb(u.has(got, q)), lambda: u.prove(u.E.loops.EX(sites.n, lambda j: value(sites.key(zi(j))) == q), "nothing else is in the legend"))


@unit("C19", "a legend that was given", [DCA + ".get_legend", DCA + ".__init__"])
def _(u):
    legend = u.symdict("legend")
    art = u.new(CA, "DiscreteCellArtist", u.symdict("colors"), u.opq("key"), legend)
    got = u.do(art, "get_legend", u.state("s"))
    u.same(u.frozen(got), u.frozen(legend), "the legend is the one given")


RA = "visualization.result_artist"


def frames(u, freq):
    """The result by contract (C04): it has a number of steps, and each can be had.  The artist
    draws a picture that is determined by the step and the options."""
    E = u.E
    N = u.int("steps", lo=1)
    STEP, IMG = z3.Function("STEP", INT, V), z3.Function("IMG", V, V, V, V)
    u.module_global(RA, "_dsr_globals")
    u.ops.ext["sys.platform.startswith"] = lambda E, a, k: z3.Bool("platform is " + str(a[0]))      # (every platform)
    result = u.stub("SimulationResult", {"__len__": u.native(lambda: N), "get_step": u.native(lambda i: STEP(zi(i))), "total_steps": N - 1})
    MARK = u.opq("mark")
    artist = u.stub("StructureArtist", {"get_img": Native("get_img", lambda E, a, k: IMG(E.toV(a[0]), E.toV(k["mark"]), E.toV(k["label"])))})
    ra = u.new(RA, "ResultArtist", artist, result)
    k = {"mark": MARK}
    if freq is not None:
        k["draw_freq"] = freq
    imgs = u.do(ra, "_get_images", **k)
    f = zi(1 if freq is None else freq)
    got = u.ops.models.indexer(u.ops.freeze_seq(imgs.seq))
    n = zi(u.ops.length(imgs))
    u.prove(z3.And(n * f >= N, (n - 1) * f < N), "one picture for each selected step")
    i = u.int("i", lo=0)
    u.assume(i < n)
    t = E.toV(got(i))
    u.ok(z3.is_app(t) and t.decl().eq(IMG), "pictures of the artist", str(t))
    u.prove(t.arg(0) == STEP(i * f), "each of its step, in order")
    u.prove(t.arg(1) == MARK, "the options are handed on")


for freq in ("given", None):
    @unit("C19", "the pictures of an animation" + (", by default" if freq is None else ""), [RA + ".ResultArtist._get_images", RA + "._get_img_parallel", RA + ".ResultArtist.__init__"])
    def _(u, freq=freq):
        frames(u, None if freq is None else u.int("freq", lo=1))


@unit("C19", "an animation is written", [RA + ".ResultArtist.to_gif"])
def _(u):
    """By contract: the pictures (proved above); what is saved to a path is what is opened from it until
    it is removed or saved again; a picture opened from a file is read when it is used; a picture saved
    with save_all is followed by those of append_images."""
    E = u.E
    n = u.int("pictures", lo=1)
    PIC, MARK = z3.Function("PIC", INT, V), u.opq("mark")
    disk, gone = u.ops.new_dict([]), u.ops.new_dict([])
    written = []
    target = u.opq("target")
    
    def save(E, a, k, o):
        if not k:
            u.ops.dict_set(disk, a[0], o.fields["pic"])
            return
        more = k.get("append_images", ListObj(E, Seq([])))
        written.append((a[0], o, u.ops.freeze_seq(u.ops.seq_of(more)), k, u.frozen(disk), u.frozen(gone)))

    def there(o, disk, gone):
        if "file" in o.fields:
            hit, v = u.ops.dict_at(disk, o.fields["file"])
            u.prove(z3.And(zb(hit), zb(neg(u.has(gone, o.fields["file"]))), E.toV(v) == o.fields["pic"]), "the file is there when the picture is read")

    def image(pic, file=None):
        return Inst(E, IMG, {"pic": pic} if file is None else {"pic": pic, "file": file})

    def get(E, o, nm):
        if nm == "save":
            return Native("save", lambda E, a, k: save(E, a, k, o))
        raise Unsupported(f"Image.{nm} is not in the contract")
    IMG = StubCls("Image", get)

    def opened(E, a, k):
        return image(E.toV(u.ops.getitem(disk, a[0])), E.toV(a[0]))
    u.ops.ext["PIL.Image.open"] = opened
    u.ops.ext["os.remove"] = lambda E, a, k: u.ops.dict_set(gone, a[0], True)
    E.contracts["ResultArtist._get_images"] = lambda E, a, k: (asked.append(k), ListObj(E, Seq([Part(n, true, lambda i: image(PIC(zi(i))))])))[1]
    asked = []
    ra = u.new(RA, "ResultArtist", u.stub("StructureArtist", {}), u.stub("SimulationResult", {}))
    u.do(ra, "to_gif", target, mark=MARK)
    u.shape(len(asked) == 1, "the pictures of the result")
    u.same(u.ops.new_dict([]) if not asked else u.ops.new_dict(list(asked[0].items())), u.ops.new_dict([("mark", MARK)]), "the options are handed on")
    if u.shape(len(written) == 1, "one animation is written", str(len(written))):
        to, first, more, k, disk, gone = written[0]
        u.prove(E.toV(to) == target, "to the given path")
        u.ok(k.get("save_all") is True, "all pictures are written")
        u.prove(first.fields["pic"] == PIC(z3.IntVal(0)), "the first picture is first")
        u.prove(zi(u.ops.length(ListObj(E, more))) == n - 1, "one picture for each step")
        i = u.int("i", lo=1)
        u.assume(i < n)
        other = u.ops.models.indexer(more)(i - 1)
        u.prove(other.fields["pic"] == PIC(i), "the others follow in order")
        there(first, disk, gone)
        there(other, disk, gone)


from specs.c18 import Grid, MOD as GRIDS

SA = "visualization.square_grid_artist_2D"


class Picture:
    """The canvas by contract: a picture of the given size whose pixels can be set one by one, and
    text that is written to the right of and below the place it is given."""

    def __init__(self, u):
        self.u = u
        E = u.E
        self.new, self.texts = [], ListObj(E, Seq([]))
        self.pixels = u.ops.new_dict([])

        def new(E, a, k):
            self.new.append(list(a))
            return u.stub("Image", {"load": u.native(lambda: self.pixels)})
        u.ops.ext["PIL.Image.new"] = new
        u.ops.ext["PIL.ImageDraw.Draw"] = lambda E, a, k: a[0] and u.stub("ImageDraw", {"text": u.native(lambda loc, text, *more: u.ops.list_append(self.texts, TupleVal([*u.ops.seq_of(loc).concrete(), text])))})

    def at(self, x, y):
        """(was set, color)"""
        return self.u.ops.dict_at(self.u.frozen(self.pixels), self.u.E.toV(TupleVal([x, y])))


def drawing(u, label, cell, again=False):
    E = u.E
    E.products, E.unroll = True, 4
    g = Grid(u, 2, exact=True)
    s = g.structure()
    pic = Picture(u)
    COLOR, CELL = z3.Function("COLOR", V, V), z3.Function("CELL", INT, V)
    legend = u.symdict("legend")
    before, legend0 = u.stub("SimulationState", {"get_site_state": u.native(lambda i: z3.Function("old.CELL", INT, V)(zi(i)))}), u.symdict("old.legend")
    art = u.stub("CellArtist", {"get_legend": u.native(lambda st: legend0 if st is before else legend), "get_color_from_cell_state": u.native(lambda c: COLOR(E.toV(c)))})
    st = u.stub("SimulationState", {"get_site_state": u.native(lambda i: CELL(zi(i)))})
    a = u.new(SA, "SquareGridArtist2D", s, art)
    k = {}
    if label:
        k["label"] = u.opq("label")
    if cell is not None:
        k["cell_size"] = cell
    N = lambda *x: [p == q for p, q in zip((zi(cell if cell is not None else 20), g.size, legend.n), x)]
    E.cases = [N(c, 2, 0) for c in ((1, 2) if cell is not None else (20,))]
    if again:       # the artist has drawn another state before
        u.do(a, "get_img", before, **k)
        pic = Picture(u)
    u.do(a, "get_img", st, **k)
    return g, s, pic, legend, lambda i: COLOR(CELL(i))


def spread(u, g, cs, i):
    """lemma: blocks of cells at different places do not overlap and lie within the grid"""
    place = z3.Function("place", INT, INT, INT)
    a, b, c = u.int("a"), u.int("b"), u.int("c", lo=1)
    apart = lambda a, b, c: z3.Implies(a < b, a * c + c <= b * c)
    u.under(a < b, lambda: u.fact((b - a - 1) * c >= 0, "a product of numbers that are not negative"))
    u.prove(apart(a, b, c), "multiples of a number are at least that number apart")
    old, at = u.E.defs["place"], z3.Function("placed at", INT, INT, INT)
    u.E.defs["place"] = lambda j, k: old(j, k) + [apart(place(j, k), place(i, k), cs), apart(place(i, k), place(j, k), cs), apart(place(j, k), g.size, cs),
                                                  z3.Implies(place(j, k) >= 0, place(j, k) * cs >= 0),
                                                  z3.Implies(z3.And(j >= 0, j < g.made[0].n), at(place(j, 0), place(j, 1)) == j)]


for label in (False, True):
    for cell in ("given", None):
        @unit("C19", f"the cells of a picture{' with a label' if label else ''}{', by default' if cell is None else ''}", [SA + ".SquareGridArtist2D._draw_image", "visualization.structure_artist.StructureArtist.get_img"], budget=150)
        def _(u, label=label, cell=cell):
            cs = u.int("cell", lo=1) if cell else z3.IntVal(20)
            g, s, pic, legend, color = drawing(u, label, cs if cell else None)
            i, x, y = u.int("i", lo=0), u.int("x", lo=0), u.int("y", lo=0)
            u.assume(z3.And(i < s.n, x < cs, y < cs))
            place = z3.Function("place", INT, INT, INT)
            spread(u, g, cs, i)
            X, Y = place(i, 0) * cs + x, (g.size - 1 - place(i, 1)) * cs + y
            hit, v = pic.at(X, Y)
            u.prove(zb(hit), "every pixel of a cell is drawn")
            u.prove(u.E.toV(v) == color(i), "in the color of its state, the first coordinate to the right and the second upward")
            text = u.ops.freeze_seq(pic.texts.seq)
            at, k = u.ops.models.indexer(text), u.int("k", lo=0)
            u.assume(k < zi(u.ops.length(ListObj(u.E, text))))
            t = u.ops.seq_of(at(k)).concrete()
            beside = u.E.num(t[0]) >= g.size * cs
            u.prove(z3.Or(beside, u.E.toV(t[2]) == z3.Const("label", V)) if label else beside, "no text is written over the cells but the label")
            # everything drawn lies within the picture
            if u.shape(len(pic.new) == 1, "one picture is made"):
                W, H = [u.E.num(q) for q in u.ops.seq_of(pic.new[0][1]).concrete()]
                a, b = u.int("px"), u.int("py")
                hit, v = pic.at(a, b)
                u.fact(z3.And(cs * legend.n >= 0, (g.size + 6) * cs == g.size * cs + 6 * cs, H >= g.size * cs, H >= cs + legend.n * cs), "the picture has room for the cells and for the legend")
                for c in (a >= 0, b >= 0, a < W, b < H):
                    u.under(zb(hit), lambda: u.prove(c, "nothing is drawn outside of the picture"))


@unit("C19", "the cells of a picture, when another state was drawn before", [SA + ".SquareGridArtist2D._draw_image", "visualization.structure_artist.StructureArtist.get_img"], budget=150)
def _(u):
    cs = u.int("cell", lo=1)
    g, s, pic, legend, color = drawing(u, False, cs, True)
    i, x, y = u.int("i", lo=0), u.int("x", lo=0), u.int("y", lo=0)
    u.assume(z3.And(i < s.n, x < cs, y < cs))
    place = z3.Function("place", INT, INT, INT)
    spread(u, g, cs, i)
    hit, v = pic.at(place(i, 0) * cs + x, (g.size - 1 - place(i, 1)) * cs + y)
    u.prove(zb(hit), "every pixel of a cell is drawn")
    u.prove(u.E.toV(v) == color(i), "in the color of its state")


@unit("C19", "a picture is saved", ["visualization.structure_artist.StructureArtist.save_img"])
def _(u):
    """the picture of the state, by the artist's own drawing (any), goes to the file named"""
    E, saved = u.E, []
    PIC = z3.Function("PIC", V, V, V)
    a = u.new("visualization.structure_artist", "StructureArtist", u.opq("structure"), u.opq("cell artist"))
    def draw(E, args, k):
        pic = PIC(E.toV(args[0]), E.toV(k.get("label")))
        return u.stub("Image", {"save": Native("save", lambda E, b, kw: saved.append((pic, b[0])))})
    a.fields["_draw_image"] = Native("_draw_image", draw)
    st, name, label = u.opq("state"), u.opq("name"), u.opq("label")
    got = u.do(a, "save_img", st, name, label=label)
    if u.ok(len(saved) == 1, "one picture is saved"):
        u.prove(saved[0][0] == PIC(E.toV(st), E.toV(label)), "the picture of the state, drawn as asked for")
        u.same(saved[0][1], name, "to the file named")
    u.same(got, name, "the name is handed back")


@unit("C19", "the legend of a picture", [SA + ".SquareGridArtist2D._draw_image"])
def _(u):
    cs = u.int("cell", lo=1)
    g, s, pic, legend, color = drawing(u, False, cs)
    k, x, y = u.int("k", lo=0), u.int("x", lo=0), u.int("y", lo=0)
    u.assume(z3.And(k < legend.n, x < cs, y < cs))
    spread(u, g, cs, u.int("i", lo=0))
    # the labels from top to bottom, each once
    text = u.ops.freeze_seq(pic.texts.seq)
    at = u.ops.models.indexer(text)
    u.prove(zi(u.ops.length(ListObj(u.E, text))) == legend.n, "as many labels as in the legend")
    label = lambda k: u.E.toV(u.ops.seq_of(at(k)).concrete()[2])
    lx, ly = [u.E.num(q) for q in u.ops.seq_of(at(k)).concrete()[:2]]
    u.prove(legend.has(label(k)), "a label of the legend")
    m = u.int("m", lo=0)
    u.under(z3.And(m < legend.n, m != k), lambda: u.prove(label(m) != label(k), "each label once"))
    left = g.size * cs + 5 + cs / 4
    hit, v = pic.at(left + x, k * cs + cs / 4 + y)
    u.prove(zb(hit), "a block for every label")
    u.prove(u.E.toV(v) == u.E.toV(u.at(legend, label(k))), "in its color")
    u.prove(z3.And(lx >= left + cs, ly >= k * cs + cs / 4, ly < (k + 1) * cs + cs / 4), "the label is beside its block")
