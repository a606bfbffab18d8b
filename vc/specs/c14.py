"""C14: the Game of Life rule."""
from speclib import *

GL = "models.game_of_life.controller"
SG = "structures.square_grid.neighborhoods"


def controller(u, born, survive, nb):
    """a rule of any variant, on any grid whose neighborhood (C13) is given"""
    u.E.contracts["MooreNbHoodBuilder"] = lambda E, a, k: u.stub("MooreNbHoodBuilder", {"get": u.native(lambda st: nb)})
    c = u.new(GL, "GameOfLifeController", u.stub("PeriodicStructure", {}), u.digits_text("B", born, "/S", survive))
    u.do(c, "pre_run", u.stub("SimulationState", {}))
    return c


@unit("C14", "the rule gives the state the variant prescribes", [GL + ".GameOfLifeController.get_state_update"])
def _(u):
    rule_unit(u)


@unit("C14", "the same, asked again in another state", [GL + ".GameOfLifeController.get_state_update"])
def _(u):
    rule_unit(u, True)


def rule_unit(u, again=False):
    OCC = u.get("discrete.state_constants", "DISCRETE_OCCUPANCY")
    occ = z3.Function("occ", INT, V)
    st = u.cells({OCC: occ})
    nb = u.neighbors()
    born, survive = u.list("born", INT), u.list("survive", INT)
    c = controller(u, born, survive, nb)
    s = u.int("s")
    if again:       # the rule was applied before, in another state and maybe to another cell
        u.do(c, "get_state_update", u.int("other cell"), u.cells({OCC: z3.Function("old.occ", INT, V)}))
    res = u.do(c, "get_state_update", s, st)
    alive, dead = u.E.toV("alive"), u.E.toV("dead")
    k = u.E.loops.SUM(nb.n(s), lambda i: z3.If(occ(nb.at(s, i)) == alive, 1, 0))
    within = lambda l: u.E.loops.EX(l.n, lambda j: l.at(zi(j)) == k)
    lives = z3.Or(z3.And(occ(s) == alive, within(survive)), z3.And(occ(s) == dead, within(born)))
    if u.shape(isinstance(res, DictObj), "the rule answers with attributes", repr(res)):
        has, val = u.ops.dict_at(res, u.E.toV(OCC))
        now = z3.If(lives, alive, dead)
        u.under(zb(has), lambda: u.prove(u.E.toV(val) == now, "alive exactly when the variant says so"))
        u.under(z3.Not(zb(has)), lambda: u.prove(occ(s) == now, "a cell that is not changed already is what the variant says"))
        u.same_set(u.ops.keys_seq(res), Seq([Item(u.E.toV(OCC), zb(has))]), "nothing else is changed")


@unit("C14", "the rule looks at the cells around, on the grid it was made for", [GL + ".GameOfLifeController.pre_run", GL + ".GameOfLifeController.__init__"])
def _(u):
    made, asked = [], []
    nb = u.neighbors()

    def builder(E, a, k):
        made.append((a[0] if a else k.get("size", 1), a[1] if len(a) > 1 else k.get("dim", 2)))
        return u.stub("MooreNbHoodBuilder", {"get": u.native(lambda st: (asked.append(st), nb)[1])})
    u.E.contracts["MooreNbHoodBuilder"] = builder
    st = u.stub("PeriodicStructure", {})
    c = u.new(GL, "GameOfLifeController", st, "B3/S23")
    L = lambda *x: ListObj(u.E, Seq.of(list(x)))
    with u.soft():      # kept as lists
        u.same(c.fields["born"], L(3), "birth counts of B3/S23")
        u.same(c.fields["survive"], L(2, 3), "survival counts of B3/S23")
    u.do(c, "pre_run", u.stub("SimulationState", {}))
    u.shape(made == [(1, 2)], "the neighborhood touches the cell in two dimensions", repr(made))
    u.shape(asked == [st], "the neighborhood is that of the given grid", "")
    u.shape(c.fields.get("neighborhood") is nb, "the rule uses that neighborhood", "")


@unit("C14", "a variant is read as its birth and survival counts", [GL + ".process_variant_string", GL + ".GameOfLifeController.__init__"])
def _(u):
    b, s = u.list("b", INT), u.list("s", INT)
    text = u.digits_text("B", b, "/S", s)
    c = u.new(GL, "GameOfLifeController", u.stub("PeriodicStructure", {}), text)
    with u.soft():
        u.same_seq(u.ops.seq_of(c.fields["born"]), Seq([Part(b.n, true, lambda i: b.at(zi(i)))]), "the birth counts are the digits after B")
        u.same_seq(u.ops.seq_of(c.fields["survive"]), Seq([Part(s.n, true, lambda i: s.at(zi(i)))]), "the survival counts are the digits after S")
