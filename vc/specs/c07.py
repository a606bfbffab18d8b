"""C07: an asynchronous run applies the rule once per step, first in, first out."""
from speclib import *
from specs.c05 import BR

AS = "core.runner.asynchronous_runner"
RUN = [BR + ".Runner.run", AS + ".AsynchronousRunner._run", "core.basic_controller.BasicController.instantiate_result", "core.basic_controller.BasicController.pre_run"]


class World:
    """The rule and the choice of sites may answer anything, and differently every time:
    the k-th rule call answers RULE(k, site, state): updates, or a pair of updates and
    follow-up sites; the k-th request for sites is answered ASK(k, state): an id, a list
    of ids, or nothing."""

    def __init__(self, u):
        self.u = u
        E = u.E
        self.ctl = u.runner_contracts()
        u.queues()
        self.ARULE = z3.Function("ARULE", INT, V, V, V)
        self.ISPAIR = z3.Function("ISPAIR", V, BOOL)
        self.UPD = z3.Function("UPD", V, V)
        self.NEXT = z3.Function("NEXT", V, V)
        self.ASK = z3.Function("ASK", INT, V, V)
        self.KIND = z3.Function("ASKKIND", V, INT)
        self.ID = z3.Function("ASKID", V, INT)
        tup = lambda x: u.call(u.ops.builtin("isinstance"), x, u.ops.builtin("tuple"))
        E.defs["UPD"] = lambda r: [z3.Not(zb(tup(self.UPD(r))))]
        self.count = Inst(E, StubCls("counters", None), {"rule": z3.IntVal(0), "ask": z3.IntVal(0)})
        self.asked = ListObj(E, Seq())
        self.asked.ghost = True
        f = self.count.fields

        def response(s, c):
            k = self.count.fields["rule"]
            self.count.fields["rule"] = k + 1
            r = self.ARULE(k, s, c)
            if E.branch(self.ISPAIR(r)):
                return TupleVal([self.UPD(r), u.opaque_list(self.NEXT(r))])
            return self.UPD(r)
        u.response = response

        def ask(st):
            k = self.count.fields["ask"]
            self.count.fields["ask"] = k + 1
            if not (isinstance(st, Inst) and st.cls is u.statecls):
                raise Unsupported("sites are asked for with something that is no state")
            c = u.ops.current(st).fields["content"]
            r = self.ASK(k, c)
            if E.branch(self.KIND(r) == 0):
                return self.ID(r)
            if E.branch(self.KIND(r) == 1):
                return u.opaque_list(r)
            return None
        u.ctable["get_random_site"] = u.native(ask)

    # ---- the specification
    def add(self, q, r):
        """the queue with the answer r to a request for sites added"""
        u = self.u
        l = u.qext(q, u.opaque_list(r).seq)
        return z3.If(self.KIND(r) == 0, u.QPUSH(q, V.VInt(self.ID(r))), z3.If(self.KIND(r) == 1, l, q))

    def step(self, k, a, c, q):
        """one step in state c with waiting sites q, after k rule calls and a requests"""
        u = self.u
        s = u.QAT(q, 0)
        r = self.ARULE(k, s, c)
        up = u.MERGE(self.UPD(r), V.VNone, s)
        c1 = u.APPLY(c, up)
        q1 = u.QPOP(q)
        q1 = z3.If(self.ISPAIR(r), u.qext(q1, u.opaque_list(self.NEXT(r)).seq), q1)
        dry = u.QLEN(q1) == 0
        q2 = z3.If(dry, self.add(q1, self.ASK(a, c1)), q1)
        return z3.If(dry, a + 1, a), c1, q2, s, up

    def trace(self, c0):
        """k -> (requests so far, state, waiting sites) before step k"""
        u = self.u
        h = [z3.Int("t.a"), z3.Const("t.c", V), z3.Const("t.q", V)]
        j = z3.Int("t.j")
        st = self.step(j, *h)
        e = [z3.IntVal(1), c0, self.add(u.QEMPTY, self.ASK(0, c0))]
        return lambda k: u.E.loops.FOLD(k, e, list(st[:3]), h, j)


@unit("C07", "an asynchronous run", RUN)
def _(u):
    w = World(u)
    c0 = u.opq("c0")
    init = u.astate(c0)
    n = u.int("n", lo=0)
    r = u.new(AS, "AsynchronousRunner")
    T = w.trace(c0)
    q0 = T(zi(0))[2]
    try:
        res = u.do(r, "run", init, w.ctl, n)
    except Raise as e:
        u.shape(e.kind == "RuntimeError", "the error of a run without a site", e.kind)
        u.prove(u.QLEN(T(zi(0))[2]) == 0, "an error only if no site is offered at the start")
        return
    u.prove(u.QLEN(T(zi(0))[2]) > 0, "no error only if a site is offered at the start")
    u.ok(u.results == [res], "the controller's result is returned", repr(u.results))
    N = zi(u.ops.seq_len(res.added.seq))
    at = u.ops.models.indexer(res.added.seq)
    waiting = lambda k: u.QLEN(T(k)[2])
    j = z3.Int("j")
    log = u.ops.models.indexer(u.log.seq)
    met = u.align(u.E.toV(log(j)), j, T, N - 1, "the run goes through the specified states and waiting sites")
    last = z3.simplify(N - 1)
    met(last)
    u.prove(z3.And(N >= 0, N <= n), "no more steps than requested")
    u.prove(z3.Or(N == n, waiting(N) == 0), "fewer steps only if nothing is waiting")
    u.assume(j >= 0)

    def ends():
        met(j)
        met(j + 1)
        u.prove(waiting(j + 1) > 0, "the run ends as soon as nothing is waiting")
    u.under(j + 1 < N, ends)

    def each():
        met(j)
        a, c, q = T(j)
        _, _, _, site, up = w.step(j, a, c, q)
        u.same(at(j), up, "step j is the response of the rule for the oldest waiting site, in the state before the step")
        u.same(u.ops.models.indexer(u.log.seq)(j), TupleVal([site, c]), "the j-th rule call is for the oldest waiting site, with the state before the step")
    u.under(j < N, each)
    u.prove(zi(u.ops.seq_len(u.log.seq)) == N, "one rule call per step")
    a, c, q = T(N)
    u.prove(w.count.fields["ask"] == a, "new sites are asked for exactly when nothing is waiting")
    u.prove(u.content(res.fields["start"]) == c0, "the result starts from the given state")
    u.ok(res.fields["start"] is not init, "the result has its own starting state")
    u.prove(init.fields["content"] == c0, "the given state is not changed")
    o = res.fields["output"]
    if u.ok(isinstance(o, Inst) and o.cls is u.statecls, "there is an output state"):
        u.prove(u.content(o) == c, "the output is the state after the last step")
        u.ok(o is not init, "the output is not the given state")


@unit("C07", "by default a single id is chosen, and it belongs to the state", ["core.basic_controller.BasicController.get_random_site"])
def _(u):
    u.abstract_states()
    c = u.opq("c0")
    u.assume(u.SIZE(c) > 0)
    st = u.astate(c)
    BC = u.get("core.basic_controller", "BasicController")
    got = u.call(Bound(BC.lookup("get_random_site"), u.stub("controller", {})), st)
    if u.ok(is_z(got) and got.sort() == INT or isinstance(got, int), "an id", repr(got)):
        u.prove(u.HASSITE(c, u.E.toV(got)), "an id of the state")
    u.prove(st.fields["content"] == c, "the state is not changed")
