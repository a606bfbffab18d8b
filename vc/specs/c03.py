"""C03: a result reproduces the state after any step."""
from speclib import *

SR = "core.simulation_result"
P = SR + ".SimulationResult."


class R:
    """A result with a starting state, n recorded updates and any stored states that
    satisfy the class invariant: the state stored for step k is the state after k steps."""

    def __init__(self, u, stored=True):
        E = u.E
        self.u = u
        self.c0 = u.opq("c0")
        self.init = u.astate(self.c0)
        self.res = u.new(SR, "SimulationResult", self.init)
        u.fields_are(self.res, ["initial_state", "_diffs", "_stored_states"])
        self.diffs = u.list("diff")
        self.n, self.d = self.diffs.n, self.diffs.at
        self.res.fields["_diffs"] = self.diffs
        u.do(self.res, "set_output", u.astate(u.opq("out")))     # whatever a run has left as its output
        if stored:
            n, key, pos, has = u.keys("stored", INT)
            cont = z3.Function("stored.content", INT, V)
            old = E.defs["stored.has"]
            E.defs["stored.content"] = lambda k: [z3.Implies(has(k), z3.And(k >= 0, k <= self.n, cont(k) == self.ST(k)))]
            E.defs["stored.has"] = lambda q: old(q) + [z3.Implies(has(q), z3.And(q >= 0, q <= self.n))]
            keyV = lambda i: V.VInt(key(zi(i)))
            p = Part(n, true, keyV, None, "distinct")
            hasV = lambda q: z3.And(V.is_VInt(q), has(V.vi(q)))
            p.keyinv = (keyV, hasV, lambda q: pos(V.vi(q)))
            get = lambda q: Inst(None, u.statecls, {"content": cont(z3.simplify(V.vi(q)))})
            self.res.fields["_stored_states"] = DictObj(E, Base(hasV, get, Seq([p]), "stored", True))

    def ST(self, k):
        """the starting state with the first k updates applied"""
        j, h = z3.Int("st.j"), z3.Const("st.h", V)
        return self.u.E.loops.FOLD(k, [self.c0], [self.u.APPLY(h, self.d(j))], [h], j)[0]

    def unchanged(self, what="reading"):
        u = self.u
        u.shape(u.attr(self.res, "initial_state") is self.init, f"{what} keeps the starting state object")
        u.prove(self.init.fields["content"] == self.c0, f"{what} does not change the starting state")
        d = self.res.fields["_diffs"]
        u.prove(zi(u.ops.length(d)) == self.n, f"{what} keeps the number of recorded updates")
        i = u.int("di")
        u.under(z3.And(i >= 0, i < self.n), lambda: u.same(u.ops.getitem(d, i), self.d(i), f"{what} keeps the recorded updates"))

    def invariant(self, n=None, what=""):
        """every stored state is the state after that many steps"""
        u = self.u
        k = u.int("inv.k")
        f = u.frozen(self.res.fields["_stored_states"])
        v = u.at(f, k)
        if v is MISS:
            return
        h = u.has(f, k)
        u.under(h, lambda: u.prove(z3.And(k >= 0, k <= (self.n if n is None else n)), what + "stored steps are steps of the result"))
        u.under(h, lambda: u.prove(v.fields["content"] == self.ST(k), what + "the state stored for a step is the state after that step"))
        u.shape(all(o is not self.init for o in u.reachable(self.res.fields["_stored_states"]).values()), what + "the starting state itself is not stored")


def state_is(u, s, c, what):
    if not u.ok(isinstance(s, Inst) and s.cls is u.statecls, what + ": a state is returned", repr(s)):
        return
    u.prove(s.fields["content"] == c, what)


@unit("C03", "a new result has the starting state and no steps", [P + "__init__", P + "__len__", P + "get_step", P + "last_step", P + "first_step"])
def _(u):
    r = u.astate(u.opq("c0"))
    res = u.new(SR, "SimulationResult", r)
    u.prove(zi(u.ops.length(res)) == 1, "length 1")
    state_is(u, u.attr(res, "first_step"), u.opq("c0"), "first step")
    state_is(u, u.attr(res, "last_step"), u.opq("c0"), "last step")
    u.shape(u.attr(res, "initial_state") is r, "starting state kept")


@unit("C03", "the length is one more than the recorded steps", [P + "__len__"])
def _(u):
    r = R(u)
    u.prove(zi(u.ops.length(r.res)) == r.n + 1, "length")


@unit("C03", "any step is the starting state with that many updates applied", [P + "get_step"])
def _(u):
    r = R(u)
    k = u.int("k")
    u.assume(z3.And(k >= 0, k <= r.n))
    s = u.do(r.res, "get_step", k)
    state_is(u, s, r.ST(k), "state after step k")
    u.shape(s is not r.init, "the starting state itself is not handed out")
    r.unchanged()
    r.invariant(what="after reading: ")


@unit("C03", "a step read stays what it is while others are read and recorded", [P + "get_step", P + "add_step", P + "last_step"])
def _(u):
    r = R(u)
    j, k = u.int("j"), u.int("k")
    u.assume(z3.And(j >= 0, j <= r.n, k >= 0, k <= r.n))
    a = u.do(r.res, "get_step", j)
    b = u.do(r.res, "get_step", k)
    state_is(u, a, r.ST(j), "the state read first")
    state_is(u, b, r.ST(k), "the state read second")
    u.do(r.res, "add_step", r.d(r.n))
    state_is(u, u.do(r.res, "get_step", k), r.ST(k), "the state read after one more step was recorded")
    state_is(u, u.attr(r.res, "last_step"), r.ST(r.n + 1), "the last step then")
    state_is(u, a, r.ST(j), "the state read first, afterwards")
    state_is(u, b, r.ST(k), "the state read second, afterwards")


@unit("C03", "first and last step", [P + "first_step", P + "last_step"])
def _(u):
    r = R(u)
    state_is(u, u.attr(r.res, "first_step"), r.c0, "first step is the starting state")
    state_is(u, u.attr(r.res, "last_step"), r.ST(r.n), "last step has all updates applied")
    r.unchanged()
    r.invariant(what="after reading: ")


@unit("C03", "recording one more step keeps what was recorded and stored", [P + "add_step"])
def _(u):
    r = R(u)
    x = r.d(r.n)                      # the update recorded next
    u.do(r.res, "add_step", x)
    u.prove(zi(u.ops.length(r.res)) == r.n + 2, "length grows by one")
    d = r.res.fields["_diffs"]
    i = u.int("di")
    u.under(z3.And(i >= 0, i <= r.n), lambda: u.same(u.ops.getitem(d, i), r.d(i), "updates in order"))
    u.prove(r.init.fields["content"] == r.c0, "starting state unchanged")
    r.invariant(n=r.n + 1, what="after recording: ")


@unit("C03", "preloading at any interval stores only correct states", [P + "load_steps"])
def _(u):
    r = R(u)
    k = u.int("interval")
    u.assume(k >= 1)
    u.do(r.res, "load_steps", k)
    r.invariant(what="after preloading: ")
    r.unchanged("preloading")
    f = u.frozen(r.res.fields["_stored_states"])
    u.E.stored_live = f


@unit("C03", "preloading a fresh result, then reading any step", [P + "load_steps", P + "get_step"])
def _(u):
    r = R(u, stored=False)
    t, k = u.int("interval"), u.int("k")
    u.assume(z3.And(t >= 1, k >= 0, k <= r.n))
    u.do(r.res, "load_steps", t)
    state_is(u, u.do(r.res, "get_step", k), r.ST(k), "state after step k")
    r.unchanged("preloading and reading")


@unit("C03", "going through the steps visits steps 0 to n in order", [P + "steps"])
def _(u):
    r = R(u)
    it = u.do(r.res, "steps")
    seq = u.ops.seq_of(it)
    u.prove(zi(u.ops.seq_len(seq)) == r.n + 1, "n + 1 states are visited")
    k = u.int("k")
    u.assume(z3.And(k >= 0, k <= r.n))
    s = u.ops.seq_at(seq, k)
    state_is(u, s, r.ST(k), "the k-th visited state is the state after step k")
    r.unchanged("going through the steps")
    r.invariant(what="after the steps: ")
