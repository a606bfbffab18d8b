"""C06: a parallel run gives the same result as a serial run."""
from speclib import *
from specs.c04 import CM, response
from specs.c05 import SY, BR, step_updates, states, batch

LAWS = "merge_updates is associative"


def law(u, r, h, s, k):
    """merging r into h for site s and that into k is merging r into (h merged into k);
    with nothing collected in h it is merging r into k.  Proved of merge_updates in the
    units "merging by chunks equals merging one by one", for every layout of r."""
    M = u.MERGE
    u.assume(M(M(r, h, s), k, V.VNone) == z3.If(h == V.VNone, M(r, k, s), M(r, M(h, k, V.VNone), s)))


def collected(u, nm):
    """updates collected so far: both sections, of any content"""
    S, G = u.const("SITES"), u.const("GENERAL")
    return u.ops.new_dict([(S, u.symdict(nm, lambda k: u.attrs(nm + ".s", k), ints=True)), (G, u.symdict(nm + "g"))])


def associative(rk):
    def f(u):
        fn = u.get(CM, "merge_updates")
        sid = u.int("sid")
        resp = lambda: response(u, rk) if rk else None
        mk = lambda nm, there: collected(u, nm) if there else None
        for h in (False, True):
            for k in (False, True):
                what = f"into {'collected' if h else 'nothing'}, then into {'collected' if k else 'nothing'}"
                left = u.call(fn, u.call(fn, resp(), mk("h", h), sid), mk("k", k))
                right = u.call(fn, resp(), u.call(fn, mk("h", True), mk("k", k)), sid) if h else u.call(fn, resp(), mk("k", k), sid)
                u.same(left, right, what)
    return f


for rk in ("sg", "s", "g", "ids", "attrs", None):
    unit("C06", f"merging by chunks equals merging one by one: response [{rk or 'nothing'}]", [CM + ".merge_updates"])(associative(rk))


def pool(u):
    """a pool forked after the controller was handed over, as _run does it"""
    return u.I.ops.call_ext("multiprocessing.Pool", [2], {})


def parallel_step(u, c):
    g = u.module_global(SY, "mp_globals")
    ctl = u.runner_contracts()
    u.E.incomplete.add("MERGE")
    st = u.astate(c)
    ck = u.int("ck", lo=1)
    u.ops.dict_set(g, "controller", ctl)
    r = u.new(SY, "SynchronousRunner", True)
    out = u.do(r, "_take_step_parallel", st, pool(u), ck)
    return st, ck, u.content(out), ctl


def chunk_lemma(u, c, ck, T):
    """T, the combination over chunks of the combinations over the sites of a chunk, is
    the combination over all sites: by induction over the chunks and over the sites of
    a chunk.  Leaves T == serial known."""
    n = u.SIZE(c)
    at = lambda j: V.VInt(u.SITEID(c, zi(j)))
    ser = lambda m: batch(u, c, zi(m), at)
    cnt = T.arg(0)
    par = lambda b: T.decl()(zi(b), *[T.arg(k) for k in range(1, T.num_args())])
    upto = lambda b: z3.If(b * ck < n, b * ck, n)
    with u.soft():
        u.fact(z3.And(cnt >= 1, cnt * ck >= n, cnt * ck < n + ck), "the chunks cover the sites")

        def hint(b):
            u.fact((cnt - 1 - b) * ck >= 0, "chunk index")
            u.fact(b * ck + ck == (b + 1) * ck, "chunk start")
            u.fact(b * ck < n, "no chunk is empty")
            hi = z3.If(b * ck + ck < n, b * ck + ck, n) - b * ck
            chunk = lambda j: batch(u, c, zi(j), lambda i: at(i + b * ck))
            resp = lambda j: u.RULE(at(b * ck + j), c)
            law(u, resp(zi(0)), V.VNone, at(b * ck), ser(b * ck))
            known = u.induct(lambda j: z3.And(chunk(j) != V.VNone, u.MERGE(chunk(j), ser(b * ck), V.VNone) == ser(b * ck + j)), 1, hi, "merging a chunk continues the serial combination",
                             lambda j: law(u, resp(j), chunk(j), at(b * ck + j), ser(b * ck)))
            known(hi)
        known = u.induct(lambda b: par(b) == ser(upto(b)), 0, cnt, "merging the first chunks gives the serial combination of their sites", hint)
        known(cnt)
        u.fact(T == ser(n), "all chunks merged: the serial combination of all sites")


@unit("C06", "a parallel step combines the same responses as a serial one, for every chunk size", [SY + ".SynchronousRunner._take_step_parallel", SY + "._step_batch_parallel", SY + "._step_batch"])
def _(u):
    c = u.opq("c0")
    st, ck, T, ctl = parallel_step(u, c)
    n = u.SIZE(c)
    chunk_lemma(u, c, ck, T)
    u.prove(T == step_updates(u, c), "the combined responses of all sites")
    u.prove(st.fields["content"] == c, "the state is not changed")
    # every site is handed to exactly one worker
    b = u.int("b")
    if u.shape(len(u.log.seq.parts) == 1 and isinstance(u.log.seq.parts[0], Flat), "calls by chunk", repr(u.log.seq.parts)):
        p = u.log.seq.parts[0]
        with u.soft():
            u.prove(z3.And(p.n * ck >= n, (p.n - 1) * ck < n), "as many chunks as needed")

        def one():
            u.fact((p.n - 1 - b) * ck >= 0, "chunk index")
            size = z3.If(b * ck + ck < n, ck, n - b * ck)
            with u.soft():
                u.same_seq(p.inner(b), Seq([Part(size, true, lambda i: TupleVal([V.VInt(u.SITEID(c, b * ck + zi(i))), c]))]), "chunk b holds sites b*size up to (b+1)*size, each with that state")
        u.under(z3.And(b >= 0, b < p.n), one)


@unit("C06", "a parallel run records the same steps, start and output as the serial run, for every number of workers",
      [BR + ".Runner.run", SY + ".SynchronousRunner._run", SY + ".SynchronousRunner._take_step_parallel", SY + "._step_batch_parallel", SY + "._step_batch"])
def _(u):
    # the step lemma, for any state and chunk size
    c, ck0 = u.opq("c0"), z3.Int("ck")
    st, ck, T, ctl = parallel_step(u, c)
    pc0 = len(u.E.pc)
    chunk_lemma(u, c, ck, T)
    del u.E.pc[pc0:]
    args = [T.arg(k) for k in range(T.num_args())]
    pos = [next((k for k, a in enumerate(args) if a.eq(x)), None) for x in (c, ck)]
    if None in pos:
        raise Skip("the step does not depend on the state and the chunk size")
    nm = T.decl().name()
    old = u.E.defs[nm]
    lemma = T == step_updates(u, c)

    def ax(*a):
        sub = [(c, a[pos[0]]), (ck, a[pos[1]])]
        same = z3.And([x == z3.substitute(y, *sub) for x, y in zip(a, args)])
        return old(*a) + [z3.Implies(z3.And(a[pos[1]] >= 1, same), z3.substitute(lemma, *sub))]
    u.E.defs[nm] = ax
    # the run
    u.module_global(SY, "mp_globals")
    u.log.seq = Seq()
    c1 = u.opq("c1")
    init = u.astate(c1)
    n = u.int("n", lo=0)
    w = u.int("workers", lo=1)
    r = u.new(SY, "SynchronousRunner", True, w)
    del u.results[:]
    res = u.do(r, "run", init, ctl, n)
    ST = states(u, c1)
    u.ok(u.results == [res], "the controller's result is returned", repr(u.results))
    u.same_seq(res.added.seq, Seq([Part(n, true, lambda k: step_updates(u, ST(zi(k))))]), "the steps of the serial run are recorded")
    u.prove(u.content(res.fields["start"]) == c1, "the result starts from the given state")
    u.prove(init.fields["content"] == c1, "the given state is not changed")
    o = res.fields["output"]
    if u.ok(isinstance(o, Inst) and o.cls is u.statecls, "there is an output state"):
        u.prove(u.content(o) == ST(n), "the output is that of the serial run")
