"""C05: a synchronous step applies the rule once per site, on the pre-step state."""
from speclib import *

SY = "core.runner.synchronous_runner"
BR = "core.runner.base_runner"


def batch(u, c, n, at):
    """the responses for the sites at(0..n-1), in state c, combined in that order"""
    j, h = z3.Int("b.j"), z3.Const("b.h", V)
    s = at(j)
    return u.E.loops.FOLD(n, [V.VNone], [u.MERGE(u.RULE(s, c), h, s)], [h], j)[0]


def step_updates(u, c):
    return batch(u, c, u.SIZE(c), lambda j: V.VInt(u.SITEID(c, j)))


def states(u, c0):
    """state after k steps"""
    j, h = z3.Int("r.j"), z3.Const("r.h", V)
    return lambda k: u.E.loops.FOLD(k, [c0], [u.APPLY(h, step_updates(u, h))], [h], j)[0]


def calls_are(u, log, c, n, at, what):
    """the rule was called for at(0), ..., at(n-1) in this order, with state c"""
    u.prove(zi(u.ops.seq_len(log)) == n, what + ": as many calls as sites")
    with u.soft():      # in this order
        u.same_seq(log, Seq([Part(n, true, lambda i: TupleVal([at(i), c]))]), what)


@unit("C05", "a batch of sites: one call per site, responses combined in order", [SY + "._step_batch"])
def _(u):
    c = u.runner_contracts()
    st = u.astate(u.opq("c0"))
    ids = u.list("id", INT)
    ids_at = lambda j: V.VInt(ids.at(zi(j)))
    out = u.call(u.get(SY, "_step_batch"), ids, st, c)
    with u.soft():
        u.under(ids.n >= 1, lambda: u.prove(u.content(out) == batch(u, u.opq("c0"), ids.n, ids_at), "the combined responses"))
    calls_are(u, u.log.seq, u.opq("c0"), ids.n, ids_at, "the rule is called once per site with that state")
    u.prove(st.fields["content"] == u.opq("c0"), "the state is not changed")


@unit("C05", "a step: every site of the state once", [SY + ".SynchronousRunner._take_step", SY + "._step_batch"])
def _(u):
    c = u.runner_contracts()
    c0 = u.opq("c0")
    st = u.astate(c0)
    r = u.new(SY, "SynchronousRunner")
    out = u.do(r, "_take_step", st, c)
    with u.soft():
        u.prove(u.content(out) == step_updates(u, c0), "the combined responses of all sites")
    calls_are(u, u.log.seq, c0, u.SIZE(c0), lambda j: V.VInt(u.SITEID(c0, zi(j))), "the rule is called once per site with that state")
    u.prove(st.fields["content"] == c0, "the state is not changed")


@unit("C05", "a run of n steps", [BR + ".Runner.run", SY + ".SynchronousRunner._run", SY + ".SynchronousRunner._take_step", SY + "._step_batch",
                                  "core.basic_controller.BasicController.instantiate_result", "core.basic_controller.BasicController.pre_run"])
def _(u):
    c = u.runner_contracts()
    c0 = u.opq("c0")
    init = u.astate(c0)
    n = u.int("n", lo=0)
    r = u.new(SY, "SynchronousRunner")
    res = u.do(r, "run", init, c, n)
    ST = states(u, c0)
    u.ok(u.results == [res], "the controller's result is returned", repr(u.results))
    u.prove(zi(u.ops.seq_len(res.added.seq)) == n, "n recorded steps")
    with u.soft():
        u.same_seq(res.added.seq, Seq([Part(n, true, lambda k: step_updates(u, ST(zi(k))))]), "n recorded steps, each with the combined responses")
    u.prove(u.content(res.fields["start"]) == c0, "the result starts from the given state")
    u.ok(res.fields["start"] is not init, "the result has its own starting state")
    u.prove(init.fields["content"] == c0, "the given state is not changed")
    o = res.fields["output"]
    if u.ok(isinstance(o, Inst) and o.cls is u.statecls, "there is an output state"):
        with u.soft():
            u.prove(u.content(o) == ST(n), "the output is the state after n steps")
        u.ok(o is not init, "the output is not the given state")
    k, i = u.int("k"), u.int("i")
    want = Seq([Flat(n, true, lambda k: Seq([Part(u.SIZE(ST(zi(k))), true, lambda i: TupleVal([V.VInt(u.SITEID(ST(zi(k)), zi(i))), ST(zi(k))]))]))])
    with u.soft():
        u.same_seq(u.log.seq, want, "in every step the rule is called once for every site of the current state, with the state before the step")
