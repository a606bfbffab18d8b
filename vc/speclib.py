"""Writing specifications: symbolic inputs, obligations about contents and aliasing."""
import contextlib
import json
import os
import sys
import time
import traceback

import z3

from core import *
import interp as interp_mod
import ops as ops_mod

MISS = ops_mod.MISS
UNITS = []
ISNEW = z3.Function("isnew", V, BOOL)


class Skip(Exception):
    """the unit's subject is not there in a form the unit can talk about"""


def unit(prop, title, functions=(), contracts=(), budget=60):
    def deco(fn):
        UNITS.append(dict(prop=prop, title=title, fn=fn, functions=list(functions), contracts=list(contracts), budget=budget))
        return fn
    return deco


class U:
    def __init__(self, budget):
        self.E = Engine(deadline=time.time() + budget)
        self.I = interp_mod.Interp(self.E)
        self.ops = self.E.ops
        self.E.defs["deepcopied"] = lambda x: [ISNEW(dc(x))]
        self.count = 0
        self.E.stubcls = {}
        self.batch_not_none = False

    # ------------------------------------------------------------ the program
    def mod(self, name):
        return self.I.mods.load("pylattica." + name)

    def get(self, mod, name):
        v = self.I.mods.get(self.mod(mod), name)
        if v is interp_mod.MISSING:
            raise Skip(f"{mod}.{name} is not defined")
        return v

    def module_global(self, mod, name):
        """a mutable module-level variable, as the module sets it up"""
        m = self.mod(mod)
        v = self.I.mods.get(m, name)
        if v is interp_mod.MISSING:
            raise Skip(f"{mod}.{name} is not defined")
        if getattr(v, "longlived", None):
            del v.longlived
            self.E.modglobals.vars[(m.name, name)] = v
        return v

    def call(self, f, *a, **k):
        return self.I.call(f, list(a), k)

    def new(self, mod, name, *a, **k):
        return self.I.call(self.get(mod, name), list(a), k)

    def attr(self, o, name):
        return self.ops.getattr(o, name)

    def do(self, o, name, *a, **k):
        return self.I.call(self.ops.getattr(o, name), list(a), k)

    def native(self, fn, name="given"):
        return Native(name, lambda E, a, k: fn(*a, **k))

    # ------------------------------------------------------------ symbols
    def int(self, nm, lo=None, hi=None):
        t = z3.Int(nm)
        if lo is not None:
            self.E.assume(t >= lo)
        if hi is not None:
            self.E.assume(t < hi)
        return t

    def real(self, nm):
        return z3.Real(nm)

    def bool(self, nm):
        return z3.Bool(nm)

    def opq(self, nm):
        return z3.Const(nm, V)

    def fun(self, nm, *sorts):
        return z3.Function(nm, *sorts)

    def assume(self, c):
        self.E.assume(zb(c))
        if self.E.infeasible():
            raise Dead()

    def keys(self, nm, sort=V, wrap=None):
        """the distinct keys of a dictionary of unknown size"""
        E = self.E
        n = z3.Int(nm + ".n")
        key = z3.Function(nm + ".key", INT, sort)
        pos = z3.Function(nm + ".pos", sort, INT)
        has = z3.Function(nm + ".has", sort, BOOL)
        E.defs[nm + ".n"] = lambda: [n >= 0]
        isapp = lambda t, f: z3.is_app(t) and t.decl().eq(f)
        E.defs[nm + ".key"] = lambda i: [] if isapp(i, pos) else [z3.Implies(z3.And(i >= 0, i < n), z3.And(has(key(i)), pos(key(i)) == i))]
        E.defs[nm + ".has"] = lambda q: [] if isapp(q, key) else [has(q) == z3.And(pos(q) >= 0, pos(q) < n, key(pos(q)) == q)]
        return n, key, pos, has

    def symdict(self, nm, val=None, ints=False, old=True):
        """dictionary of unknown size; val(key) gives its values (opaque by default)"""
        E = self.E
        if ints:
            n, key, pos, has = self.keys(nm, INT)
            hasV = lambda q: self.ops.simp(z3.And(V.is_VInt(q), has(V.vi(q))))
            posV = lambda q: pos(V.vi(z3.simplify(q)))
            keyV = lambda i: V.VInt(key(zi(i)))
            elem = lambda i: key(zi(i))
        else:
            n, key, pos, has = self.keys(nm)
            hasV, posV, keyV = has, pos, lambda i: key(zi(i))
            elem = keyV
        if val is None:
            f = z3.Function(nm + ".val", V, V)
            if old:
                E.defs[nm + ".val"] = lambda q: [z3.Not(ISNEW(f(q)))]
            val = lambda k: f(k)
        nested = False
        p = Part(n, true, keyV, None, "distinct")
        p.keyinv = (keyV, hasV, posV)
        d = DictObj(E, Base(hasV, val, Seq([p]), nm, not is_z(val(V.VNone))))
        d.has, d.key, d.n, d.pos = has, key, n, pos
        return d

    def attrs(self, nm, *idx):
        """frozen attribute dictionary nm[idx] : opaque attributes"""
        E = self.E
        sorts = [i.sort() for i in idx]
        n = z3.Function(nm + ".n", *sorts, INT)
        key = z3.Function(nm + ".key", *sorts, INT, V)
        pos = z3.Function(nm + ".pos", *sorts, V, INT)
        has = z3.Function(nm + ".has", *sorts, V, BOOL)
        val = z3.Function(nm + ".val", *sorts, V, V)
        if nm + ".val" not in E.defs:
            E.defs[nm + ".n"] = lambda *i: [n(*i) >= 0]
            isapp = lambda t, f: z3.is_app(t) and t.decl().eq(f)
            E.defs[nm + ".key"] = lambda *a: [] if isapp(a[-1], pos) else [z3.Implies(z3.And(a[-1] >= 0, a[-1] < n(*a[:-1])), z3.And(has(*a[:-1], key(*a)), pos(*a[:-1], key(*a)) == a[-1]))]
            E.defs[nm + ".has"] = lambda *a: [] if isapp(a[-1], key) else [has(*a) == z3.And(pos(*a) >= 0, pos(*a) < n(*a[:-1]), key(*a[:-1], pos(*a)) == a[-1])]
            E.defs[nm + ".val"] = lambda *a: [z3.Not(ISNEW(val(*a)))]
        p = Part(n(*idx), true, lambda i: key(*idx, zi(i)), None, "distinct")
        p.keyinv = (lambda i: key(*idx, zi(i)), lambda q: has(*idx, q), lambda q: pos(*idx, q))
        return DictObj(None, Base(lambda q: has(*idx, q), lambda q: val(*idx, q), Seq([p]), nm), (), nm, False)

    def site_dict(self, nm):
        """{site id: {attribute: value}} of unknown size"""
        return self.symdict(nm, lambda k: self.attrs(nm + ".s", k), ints=True)

    def const(self, name):
        return self.get("core.constants", name)

    def state_dict(self, nm):
        return self.ops.new_dict([(self.const("SITES"), self.site_dict(nm)), (self.const("GENERAL"), self.symdict(nm + ".g"))])

    def state(self, nm):
        """a simulation state of unknown content, made with the real constructor"""
        return self.new("core.simulation_state", "SimulationState", self.state_dict(nm))

    def seq(self, nm, sort=V, wrap=None, length=None):
        """list of unknown length"""
        n = z3.Int(nm + ".n") if length is None else length
        if length is None:
            self.E.defs[nm + ".n"] = lambda: [n >= 0]
        f = z3.Function(nm + ".at", INT, sort)
        return Seq([Part(n, true, lambda i: (wrap or (lambda x: x))(f(zi(i))))]), n, f

    def list(self, nm, sort=V, wrap=None):
        s, n, f = self.seq(nm, sort, wrap)
        l = ListObj(self.E, s)
        l.n, l.at = n, f
        return l

    # ------------------------------------------------------------ contract objects
    def stub(self, name, table, **params):
        """An object known only by its contract: table maps attribute names to values
        or natives.  It cannot be changed.  With params, table is a function of them (so that
        objects made in a loop can be told apart by them)."""
        if params:
            cls = self.E.stubcls.get((name, id(table)))
            if cls is None:
                def pget(E, o, nm):
                    t = table(**o.fields)
                    if nm in t:
                        E.used_contracts.add(f"{name}.{nm}")
                        return t[nm]
                    raise Unsupported(f"{name}.{nm} is not in the contract")
                cls = self.E.stubcls[(name, id(table))] = StubCls(name, pget)
                self.E.keep.append(table)
            return Inst(self.E, cls, params)
        def get(E, o, nm):
            if nm in table:
                E.used_contracts.add(f"{name}.{nm}")
                v = table[nm]
                return v() if callable(v) and not isinstance(v, (Native, FuncVal)) else v
            raise Unsupported(f"{name}.{nm} is not in the contract")
        cls = StubCls(name, get)
        cls.inner = bool(self.E.ctx)
        return Inst(self.E, cls, {})

    def abstract_states(self, nonempty=False):
        """From here on simulation states are known by their contract only: an opaque
        content; copy keeps it, batch_update(u) turns it into APPLY(content, u)."""
        if hasattr(self, "statecls"):
            return self.statecls
        E = self.E
        APPLY = z3.Function("APPLY", V, V, V)
        SIZE = z3.Function("SIZE", V, INT)
        if nonempty:
            # states with at least one site: updates never remove one (C01)
            SIZE1 = z3.Function("SIZE1", V, INT)
            SIZE = lambda c: SIZE1(c) + 1
            E.defs["SIZE1"] = lambda c: [SIZE1(c) >= 0]
        SID = z3.Function("SITEID", V, INT, INT)
        HASSITE = z3.Function("HASSITE", V, V, BOOL)
        SPOS = z3.Function("SITEPOS", V, V, INT)
        E.defs["SIZE"] = lambda c: [SIZE(c) >= 0]
        E.defs["SITEID"] = lambda c, i: [z3.Implies(z3.And(i >= 0, i < SIZE(c)), z3.And(HASSITE(c, V.VInt(SID(c, i))), SPOS(c, V.VInt(SID(c, i))) == i))]
        E.defs["HASSITE"] = lambda c, q: [HASSITE(c, q) == z3.And(V.is_VInt(q), SPOS(c, q) >= 0, SPOS(c, q) < SIZE(c), SID(c, SPOS(c, q)) == V.vi(q))]
        self.APPLY, self.SIZE, self.SITEID, self.HASSITE = APPLY, SIZE, SID, HASSITE
        EMPTY = z3.Const("EMPTYSTATE", V)
        E.defs["EMPTYSTATE"] = lambda: [SIZE(EMPTY) == 0]

        def term(u):
            return self.content(u)

        def get(E, o, nm):
            E.used_contracts.add(f"SimulationState.{nm}")
            self.ops.current(o)
            c = o.fields["content"]
            if nm == "copy":
                return Native(nm, lambda E, a, k: self.astate(o.fields["content"]))
            if nm == "batch_update":
                def bu(E, a, k):
                    if o.serial == -1:
                        raise Unsupported("change of a state reached through an unknown container")
                    u = term(a[0])
                    if self.batch_not_none:
                        self.prove(u != V.VNone, "batch_update is given updates")
                    o.fields["content"] = APPLY(o.fields["content"], u)
                return Native(nm, bu)
            if nm == "site_ids":
                def ids(E, a, k):
                    p = Part(SIZE(c), true, lambda i: SID(c, zi(i)), None, "distinct")
                    p.keyinv = (lambda i: V.VInt(SID(c, zi(i))), lambda q: HASSITE(c, q), lambda q: SPOS(c, q))
                    return ListObj(E, Seq([p]))
                return Native(nm, ids)
            if nm == "size":
                return SIZE(c)
            if nm == "__eq__":
                def eq(E, a, k):
                    b = a[0]
                    return o.fields["content"] == b.fields["content"] if isinstance(b, Inst) and b.cls is self.statecls else False
                return Native(nm, eq)
            if nm == "__class__":
                return self.get("core.simulation_state", "SimulationState")
            raise Unsupported(f"SimulationState.{nm} is not in the contract")
        self.statecls = StubCls("SimulationState", get)

        def make(E, a, k):
            if not a and not k:
                return self.astate(EMPTY)
            raise Unsupported("a state made from a mapping")
        E.contracts["SimulationState"] = make
        return self.statecls

    def runner_contracts(self):
        """merge_updates (C04), the result class (C03) and a controller, each by contract.
        The log lists the rule calls in order: (site, content of the state it was given)."""
        E = self.E
        self.abstract_states(nonempty=True)
        self.batch_not_none = True
        MERGE = z3.Function("MERGE", V, V, V, V)
        RULE = z3.Function("RULE", V, V, V)
        E.defs["MERGE"] = lambda a, b, s: [MERGE(a, b, s) != V.VNone]
        self.MERGE, self.RULE = MERGE, RULE

        def merge(E, a, k):
            new = a[0] if a else k.get("new_updates")
            cur = a[1] if len(a) > 1 else k.get("curr_updates")
            sid = a[2] if len(a) > 2 else k.get("site_id")
            return MERGE(*[self.strip(x) if x is not None else V.VNone for x in (new, cur, sid)])
        E.contracts["merge_updates"] = merge
        self.log = ListObj(E, Seq())
        self.log.ghost = True

        def rule(s, st):
            if not (isinstance(st, Inst) and st.cls is self.statecls):
                raise Unsupported("the rule is called with something that is no state")
            c = self.ops.current(st).fields["content"]
            self.ops.list_append(self.log, TupleVal([E.toV(s), c]))
            self.rule_pre(s, st)
            return self.response(E.toV(s), c)
        self.response = lambda s, c: RULE(s, c)
        self.rule_pre = lambda s, st: None
        self.results = []

        def make(E, a, k):
            st = a[0] if a else k["starting_state"]
            log = ListObj(E, Seq())
            res = Inst(E, StubCls("SimulationResult", get), {"start": st, "output": None})
            res.added = log
            self.results.append(res)
            return res

        def get(E, o, nm):
            E.used_contracts.add("SimulationResult." + nm)
            if nm == "add_step":
                return Native(nm, lambda E, a, k: self.ops.list_append(o.added, self.content(a[0])))
            if nm == "set_output":
                def so(E, a, k):
                    o.fields["output"] = a[0]
                return Native(nm, so)
            if nm == "initial_state":
                return o.fields["start"]
            raise Unsupported(f"SimulationResult.{nm} is not in the contract")
        E.contracts["SimulationResult"] = make
        BC = self.get("core.basic_controller", "BasicController")
        c = self.stub("controller", {})
        table = {"get_state_update": self.native(rule)}
        for nm in ("pre_run", "get_random_site", "instantiate_result"):
            table[nm] = Bound(BC.lookup(nm), c)
        c.cls.get = (lambda old: lambda E, o, nm: table[nm] if nm in table else old(E, o, nm))(c.cls.get)
        self.ctable = table
        return c

    def opaque_list(self, term):
        """a list known only by the value it is"""
        LLEN, LAT = z3.Function("LLEN", V, INT), z3.Function("LAT", V, INT, V)
        self.E.defs["LLEN"] = lambda l: [LLEN(l) >= 0]
        return ListObj(self.E, Seq([Part(LLEN(term), true, lambda i: LAT(term, zi(i)))]))

    def queues(self):
        """From here on a deque is known by its contract: first in, first out."""
        E, ops = self.E, self.ops
        QLEN, QAT = z3.Function("QLEN", V, INT), z3.Function("QAT", V, INT, V)
        PUSH, POP = z3.Function("QPUSH", V, V, V), z3.Function("QPOP", V, V)
        EMPTY = z3.Const("QEMPTY", V)
        E.defs["QEMPTY"] = lambda: [QLEN(EMPTY) == 0]
        E.defs["QLEN"] = lambda q: [QLEN(q) >= 0]
        E.defs["QPUSH"] = lambda q, x: [QLEN(PUSH(q, x)) == QLEN(q) + 1, QAT(PUSH(q, x), QLEN(q)) == x]
        E.defs["QPOP"] = lambda q: [z3.Implies(QLEN(q) > 0, QLEN(POP(q)) == QLEN(q) - 1)]

        def qat(q, i):
            r = []
            if z3.is_app(q) and q.decl().eq(PUSH):
                p, x = q.children()
                r = [QAT(q, i) == z3.If(i == QLEN(p), x, QAT(p, i))]
            elif z3.is_app(q) and q.decl().eq(POP):
                r = [z3.Implies(i >= 0, QAT(q, i) == QAT(q.arg(0), i + 1))]
            return r
        E.defs["QAT"] = qat
        self.QLEN, self.QAT, self.QPUSH, self.QPOP, self.QEMPTY = QLEN, QAT, PUSH, POP, EMPTY
        count = [0]

        def ext(q, seq):
            for p in seq.parts:
                if isinstance(p, Item) and p.guard is True:
                    q = PUSH(q, E.toV(p.value))
                elif type(p) is Part and p.cond is true:
                    j, h = z3.Int("q.j"), z3.Const("q.h", V)
                    q = E.loops.FOLD(p.n, [q], [PUSH(h, E.toV(p.elem(j)))], [h], j)[0]
                else:
                    raise Unsupported("a queue extended by this list")
            return q
        self.qext = ext

        def get(E, o, nm):
            E.used_contracts.add("deque." + nm)
            q = lambda: o.fields["q"]

            def put(t):
                if o.serial == -1:
                    raise Unsupported("change of a queue reached through an unknown container")
                o.fields["q"] = t
            if nm == "__len__":
                return Native(nm, lambda E, a, k: QLEN(q()))
            if nm == "append":
                return Native(nm, lambda E, a, k: put(PUSH(q(), E.toV(a[0]))))
            if nm == "extend":
                return Native(nm, lambda E, a, k: put(ext(q(), ops.seq_of(a[0]))))
            if nm == "popleft":
                def popleft(E, a, k):
                    if not E.branch(QLEN(q()) > 0):
                        raise Raise("IndexError", "pop from an empty deque")
                    v = QAT(q(), 0)
                    put(POP(q()))
                    return v
                return Native(nm, popleft)
            if nm == "clear":
                return Native(nm, lambda E, a, k: put(EMPTY))
            raise Unsupported(f"deque.{nm} is not in the contract")
        cls = StubCls("deque", get)
        cls.sized = True
        self.queuecls = cls

        def make(E, a, k):
            o = Inst(E, cls, {"q": EMPTY})
            if a:
                o.fields["q"] = ext(EMPTY, ops.seq_of(a[0]))
            self.made_queues.append(o)
            return o
        self.made_queues = []
        ops.ext["collections.deque"] = make

    def graphs(self):
        """From here on rustworkx.PyDiGraph is known by its contract: nodes are numbered from 0
        in the order added; edges run between existing nodes; the neighbors of a node are the
        distinct ends of its edges, in some order; the data of an edge is that of one of the
        edges between the two nodes."""
        E, ops = self.E, self.ops
        self.made_graphs = []

        def edges(o, pred, what):
            return pick(o.edges.seq, lambda e: pred(*e.items), lambda e: what(*e.items))

        def pick(seq, cond, f):
            out = []
            for p in seq.parts:
                if isinstance(p, Item):
                    out.append(Item(f(p.value), conj([p.guard, zb(cond(p.value))])))
                elif isinstance(p, Flat):
                    out.append(Flat(p.n, p.cond, lambda i, p=p: pick(p.inner(i), cond, f)))
                elif isinstance(p, OfSet):
                    raise Unsupported("edges in no order")
                else:
                    out.append(Part(p.n, lambda i, p=p: conj([p.cond(i), zb(cond(p.elem(i)))]), lambda i, p=p: f(p.elem(i))))
            return Seq(out)

        def get(E, o, nm):
            E.used_contracts.add("PyDiGraph." + nm)
            if nm == "add_node":
                def add_node(E, a, k):
                    ops.list_append(o.nodes, self.plain(a[0]))
                    return Native("node index", lambda E, a, k: None)     # (not used as a number)
                return Native(nm, add_node)
            if nm == "add_nodes_from":
                def add_nodes(E, a, k):
                    E.loops.for_loop(a[0], lambda v: ops.list_append(o.nodes, self.plain(v)), lambda: None, None, None)
                return Native(nm, add_nodes)
            if nm == "add_edge":
                def add_edge(E, a, k):
                    ops.list_append(o.edges, TupleVal([self.plain(a[0]), self.plain(a[1]), a[2]]))
                return Native(nm, add_edge)
            if nm == "add_edges_from":
                def add_edges(E, a, k):
                    def one(v):
                        x, y, w = ops.unpack(v, 3, False)
                        ops.list_append(o.edges, TupleVal([self.plain(x), self.plain(y), w]))
                    E.loops.for_loop(a[0], one, lambda: None, None, None)
                return Native(nm, add_edges)
            if nm in ("neighbors", "successor_indices"):
                def nbs(E, a, k):
                    s = self.plain(a[0])
                    return ListObj(E, Seq([OfSet(edges(o, lambda x, y, w: zi(x) == zi(s), lambda x, y, w: y))]))
                return Native(nm, nbs)
            if nm == "get_edge_data":
                def data(E, a, k):
                    s, t = self.plain(a[0]), self.plain(a[1])
                    ctx = list(E.ctx)
                    edges_now = o.edges.seq
                    among = lambda s, t, f: zb(ops.exists(pick(edges_now, lambda e: z3.And(zi(e.items[0]) == s, zi(e.items[1]) == t), lambda e: e.items[2]), f))
                    if not E.branch(among(zi(s), zi(t), lambda v: True)):
                        raise Raise("NoEdgeBetweenNodes", "no edge")

                    def ax(*args):
                        # (the data of one of the edges from s to t, when there is one)
                        pre, (a, b) = args[:len(ctx)], args[len(ctx):]
                        w = self.E.loops.app(w_.decl().name(), REAL, args)
                        f = z3.Implies(among(a, b, lambda v: True), among(a, b, lambda v: ops.eq(v, w)))
                        return [z3.substitute(f, *zip(ctx, pre)) if ctx else f]
                    w_ = E.define("edge", REAL, ax, params=(zi(s), zi(t)))
                    return w_
                return Native(nm, data)
            raise Unsupported(f"PyDiGraph.{nm} is not in the contract")
        cls = StubCls("PyDiGraph", get)

        def make(E, a, k):
            o = Inst(E, cls, {})
            o.nodes, o.edges = ListObj(E, Seq()), ListObj(E, Seq())
            self.made_graphs.append(o)
            return o
        ops.ext["rustworkx.PyDiGraph"] = make

    def astate(self, c):
        self.abstract_states()
        return Inst(self.E, self.statecls, {"content": c})

    def content(self, u):
        """content term of an update"""
        if is_z(u):
            return self.strip(u) if u.sort() == V else self.E.toV(u)
        t = getattr(u, "term", None)
        if t is not None:
            return t
        if isinstance(u, Inst) and u.cls is getattr(self, "statecls", 0):
            return self.ops.current(u).fields["content"]
        raise Unsupported("content of an update built here")

    def foreach(self, seq, body):
        """run body(element) for every element, as a loop of the program would"""
        self.E.loops.for_loop(seq, lambda v: body(v), lambda: None, None, None)

    def fields_are(self, o, names):
        if set(o.fields) != set(names):
            raise Skip(f"fields of {o.cls.name}: {sorted(o.fields)}")

    def known(self, o, names):
        """the representation is set up for these parts (or for more that hold only arrays or
        texts): with others, what is set up may be no state the object can be in, and then an
        obligation that is not met decides nothing"""
        more = {f: v for f, v in o.fields.items() if f not in names and not isinstance(v, (Vec, str))}
        if more:
            self.E.guess = True
            self.ok(False, f"a {o.cls.name} has the parts its invariant speaks about", repr(sorted(more)))

    def readings(self, s, q):
        """what a simulation state reads like: at a site q, in general, and its sites"""
        got = self.do(s, "get_site_state", q)
        ids = self.do(s, "site_ids")
        return (None if got is None else self.frozen(got), self.frozen(self.do(s, "get_general_state")), self.ops.freeze_seq(self.ops.seq_of(ids)))

    def same_readings(self, a, b, what):
        if self.ok((a[0] is None) == (b[0] is None), what + ": the same sites have a state") and a[0] is not None:
            self.same(a[0], b[0], what + ": the state of a site")
        self.same(a[1], b[1], what + ": the general state")
        self.same_set(a[2], b[2], what + ": the sites")

    def structure(self, nm="st", dim=None, coords=None, **more):
        """Contract of a structure (C10): sites 0..n-1, each with a class and a location."""
        E = self.E
        n = z3.Int(nm + ".n")
        E.defs[nm + ".n"] = lambda: [n >= 0]
        cls = z3.Function(nm + ".class", INT, V)
        d = dim if dim is not None else z3.Int(nm + ".dim")
        if dim is None:
            E.defs[nm + ".dim"] = lambda: [d >= 1]
        co = coords or z3.Function(nm + ".loc", INT, INT, REAL)
        C, LOC, ID = (self.const(x) for x in ("SITE_CLASS", "LOCATION", "SITE_ID"))
        locid = z3.Function(nm + ".locid", INT, V)

        def loc(i):
            return Vec(d, lambda j: co(zi(i), zi(j)), None, locid(zi(i)))

        def site(i):
            return DictObj(None, None, [(E.toV(C), cls(zi(i))), (E.toV(LOC), loc(i)), (E.toV(ID), zi(i))])
        self_ = self
        now, grown = [n], []           # (how many sites it has now)

        def grow():
            """more sites are added (with the next ids; those that were there stay)"""
            m, was = z3.Int(f"{nm}.n{len(grown)}"), now[0]
            grown.append(m)
            E.defs[m.decl().name()] = lambda: [m >= was]
            now[0] = o.n = m

        def ids():
            n = now[0]
            p = Part(n, true, lambda i: zi(i), None, "distinct")
            p.keyinv = (lambda i: V.VInt(zi(i)), lambda q: z3.And(V.is_VInt(q), V.vi(q) >= 0, V.vi(q) < n), lambda q: V.vi(q))
            return ListObj(E, Seq([p]))

        def get_site(i):
            n, i = now[0], E.num(self_.plain(i))
            if E.branch(z3.And(zi(i) >= 0, zi(i) < n)):
                return site(i)
            return None

        def sites(site_class=None):
            n = now[0]
            if site_class is None:
                return ListObj(E, Seq([Part(n, true, site)]))
            c = E.toV(site_class)
            return ListObj(E, Seq([Part(n, lambda i: cls(zi(i)) == c, site)]))
        table = {"site_ids": ids, "dim": d, "get_site": self.native(get_site), "sites": self.native(sites),
                 "site_class": self.native(lambda i: self_.ops.getitem(get_site(i), C)),
                 "site_location": self.native(lambda i: self_.ops.getitem(get_site(i), LOC))}
        table.update(more)
        o = self.stub("PeriodicStructure", table)
        E.defs.setdefault(nm + ".n", lambda: [n >= 0])
        o.n, o.cls_at, o.co, o.loc, o.site, o.table, o.grow = n, cls, co, loc, site, table, grow
        return o

    def contains(self, v, x):
        seq = v.seq if isinstance(v, SetObj) else self.ops.seq_of(v)
        self.placed(x)
        x = self.E.toV(x)
        if z3.is_app(x) and x.decl().eq(V.VInt):
            self.placed(x.arg(0))
        return self.ops.exists(seq, lambda y: self.E.toV(y) == x)

    def placed(self, x):
        """the positions of x in every enumeration of a set so far"""
        for sort, pos, ctx in self.E.enums:
            if sort == x.sort() and not ctx:
                self.note(pos(x))

    def each_once(self, v, what):
        if isinstance(v, SetObj):
            return
        l = self.ops.seq_of(v)
        at = self.ops.models.indexer(l)
        self.count += 1
        i, j = z3.Int(f"i!{self.count}"), z3.Int(f"j!{self.count}")
        self.under(z3.And(0 <= i, i < j, j < zi(self.ops.seq_len(l))), lambda: self.prove(self.E.toV(at(i)) != self.E.toV(at(j)), what))

    def note(self, t):
        """make the facts about a term known"""
        self.E.pc.append(t == t)

    def digits_text(self, *pieces):
        """a text made of literal pieces and of runs of digits (lists of integers 0..9)"""
        E = self.E
        from models import intstr
        out = []
        for p in pieces:
            if isinstance(p, str):
                out.append(p)
                continue
            nm = p.at.name()
            ch = z3.Function(nm + ".char", INT, INT)
            E.defs[nm + ".char"] = lambda i, p=p, ch=ch: [intstr(ch(i)) == p.at(i)]
            out.append(Seq([Part(p.n, true, lambda i, ch=ch: V.VStr(ch(zi(i))))]))
        t = Text(E, out)
        t.digits = True
        return t

    def neighbors(self, nm="nb"):
        """Contract of a neighborhood (C12, C13): the sites in the neighborhood of a site, in
        some order (each a site that has a state)."""
        n = z3.Function(nm + ".n", V, INT)
        at = z3.Function(nm + ".at", V, INT, INT)
        self.E.defs[nm + ".n"] = lambda s: [n(s) >= 0]

        def of(s):
            sv = self.E.toV(s)
            return ListObj(self.E, Seq([Part(n(sv), true, lambda i: at(sv, zi(i)))]))
        o = self.stub("Neighborhood", {"neighbors_of": self.native(of)})
        o.n, o.at = (lambda s: n(self.E.toV(s))), (lambda s, i: at(self.E.toV(s), zi(i)))
        return o

    def cells(self, attrs):
        """Contract of a simulation state (C01): every site reads as its id and the given
        attributes (name -> function of the site)."""
        SID = self.const("SITE_ID")

        def get(s):
            s = self.plain(s)
            d = DictObj(None, None, [(self.E.toV(SID), s)] + [(self.E.toV(k), f(zi(s))) for k, f in attrs.items()])
            return d
        o = self.stub("SimulationState", {"get_site_state": self.native(get)})
        return o

    def plain(self, v):
        """the number in a value"""
        if is_z(v) and v.sort() == V:
            if self.E.branch(V.is_VInt(v)):
                return z3.simplify(V.vi(v))
            raise Unsupported("site id that is no number")
        return v

    # ------------------------------------------------------------ obligations
    def prove(self, goal, what):
        return self.E.prove(zb(goal), what)

    def induct(self, P, lo, hi, what, hint=None):
        """Lemma by induction: P(j) for lo <= j <= hi.  Returns P, now known for any j in range
        (use assume(P(t)) through the returned function)."""
        self.count += 1
        E = self.E
        j = z3.Int(f"ind!{self.count}")
        self.under(zi(lo) <= zi(hi), lambda: self.prove(P(zi(lo)), what + ": start"))
        n0 = len(E.pc)
        E.pc += [j >= zi(lo), j < zi(hi), zb(P(j))]
        if hint:
            hint(j)
        self.prove(P(j + 1), what + ": step")
        del E.pc[n0:]

        def at(t):
            self.assume(z3.Implies(z3.And(zi(lo) <= zi(t), zi(t) <= zi(hi)), zb(P(zi(t)))))
        return at

    def same_sums(self, n, f, g, what, uses=(None,), given=lambda y: True):
        """Lemma by induction: the sums of f(i, y) and of g(i, y) over [0, n) are equal for every y
        with given(y); then used for the listed y"""
        S, E = self.E.loops.SUM, self.E
        self.count += 1
        y, nn = z3.Const(f"y!{self.count}", V), z3.Int(f"n!{self.count}")
        pc, E.pc = E.pc, [nn >= 0, zb(given(y))]
        try:
            self.induct(lambda k: S(k, lambda i: f(i, y)) == S(k, lambda i: g(i, y)), 0, nn, what)
        finally:
            E.pc = pc
        for t in uses:
            self.assume(z3.Implies(z3.And(zi(n) >= 0, zb(given(t))), S(n, lambda i: f(i, t)) == S(n, lambda i: g(i, t))))

    def recurrences(self, term, j):
        """the values computed from step to step that the term mentions at step j:
        [(k -> value before step k, value at the start)]"""
        seen, out, todo = set(), {}, [term]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            nm = t.decl().name() if z3.is_app(t) else ""
            if nm.startswith("FOLD") and t.arg(0).eq(j):
                k = int(nm[4:nm.index("#")])
                out.setdefault((nm, t.get_id()), (k, t))
            todo += t.children()
        return [(lambda x, t=t: t.decl()(x, *t.children()[1:]), t.arg(1 + k)) for k, t in out.values()]

    def align(self, term, j, spec, hi, what):
        """Lemma by induction: the values the code computes step by step, as mentioned in the term
        (about step j), are those of the specification (k -> tuple of values) for k <= hi."""
        start = spec(z3.IntVal(0))
        pairs = {}
        for f, e in self.recurrences(term, j):
            for pos, s in enumerate(start):
                if pos not in pairs and e.sort() == s.sort() and self.E.valid(e == s):
                    pairs[pos] = f
                    break
        if not pairs:
            return lambda t: None
        P = lambda k: z3.And(*[f(k) == spec(k)[pos] for pos, f in sorted(pairs.items())])
        return self.induct(P, 0, hi, what)

    def fact(self, c, what):
        """prove c, then use it"""
        if self.prove(c, what):
            self.assume(c)

    def ok(self, cond, what, detail=""):
        """an obligation decided by the shape of the values"""
        self.E.obls.append(Obligation(what, "proved" if cond else ("proved" if self.E.infeasible() else "undecided" if self.E.guess else "failed"), detail, 0.0, "engine"))
        return cond

    def shape(self, cond, what, detail=""):
        """like ok, for a way of working that the property does not ask for: otherwise undecided"""
        with self.soft():
            return self.ok(cond, what, detail)

    @contextlib.contextmanager
    def soft(self):
        """obligations that ask for more than the property: not meeting them decides nothing"""
        old, self.E.guess = self.E.guess, True
        try:
            yield
        finally:
            self.E.guess = old

    def leaves(self, seq, idx=()):
        """the elements of a nested sequence: ([(index, range, condition)], condition, value)"""
        for p in seq.parts:
            if isinstance(p, Item):
                yield list(idx), p.guard, p.value
                continue
            if isinstance(p, OfSet):
                raise Unsupported("elements of a set")
            self.count += 1
            i = z3.Int(f"leaf!{self.count}")
            if isinstance(p, Flat):
                yield from self.leaves(p.inner(i), tuple(idx) + ((i, zi(p.n), p.cond(i)),))
            else:
                yield list(idx) + [(i, zi(p.n), p.cond(i))], True, p.elem(i)

    def amount(self, seq):
        """the number of elements of a nested sequence, constant factors pulled out of the sums"""
        total = z3.IntVal(0)
        for idx, guard, _ in self.leaves(seq):
            body = z3.If(zb(guard), z3.IntVal(1), z3.IntVal(0)) if guard is not True else z3.IntVal(1)
            factor = z3.IntVal(1)
            for i, n, c in reversed(idx):
                if c is not True and not (is_z(c) and z3.is_true(z3.simplify(c))):
                    body = z3.If(zb(c), body, z3.IntVal(0))
                uses = any(z3.eq(x, i) for x in self.E.subterms(body))
                if not uses and self.E.valid(n >= 0):
                    if any(z3.eq(x, j) for x in self.E.subterms(n) for j, _, _ in idx):
                        body = n * body
                    else:
                        factor = factor * n
                else:
                    body = self.E.loops.SUM(n, lambda j, body=body, i=i: z3.substitute(body, (i, zi(j))))
            total = total + factor * body
        return z3.simplify(total, som=True)

    def occurs(self, seq, hints, cond, pairs, what):
        """obligation: some element of a nested sequence satisfies cond(element) and has the
        given components; hints are the indices to look at, in any order"""
        E = self.E
        ok = lambda c: c is True or (is_z(zb(c)) and (z3.is_true(z3.simplify(zb(c))) or E.valid(zb(c))))

        def at(idx, guard, value, pos, used):
            if pos == len(idx):
                return ok(guard) and ok(cond(value)) and all(self.equal(a, b) for a, b in pairs(value))
            i, n, c = idx[pos]
            for h, t in enumerate(hints):
                if h in used:
                    continue
                put = lambda x: z3.substitute(x, (i, zi(t))) if is_z(x) else x
                if not ok(z3.And(zi(t) >= 0, zi(t) < put(n))) or not ok(put(c)):
                    continue
                rest = [(j, put(m), put(q)) for j, m, q in idx]
                if at(rest, put(guard), self.ops.subst(value, [(i, zi(t))]), pos + 1, used | {h}):
                    return True
            return False
        for leaf in self.leaves(seq):
            if at(*leaf, 0, frozenset()):
                return self.ok(True, what)
        self.undecided(what, "no index found")

    def equal(self, a, b):
        a, b = (x if is_z(x) else self.E.num(x) for x in (a, b))
        d = z3.simplify(z3.ToReal(a) - b if is_z(a) and a.sort() == INT and is_z(b) and b.sort() == REAL else a - b, som=True)
        if is_z(d) and (z3.is_rational_value(d) or z3.is_int_value(d)):
            return d.as_fraction() == 0 if z3.is_rational_value(d) else d.as_long() == 0
        return self.E.valid(d == 0)

    def undecided(self, what, detail):
        self.E.obls.append(Obligation(what, "undecided", detail, 0.0, "none"))

    def identity(self, a, b, what):
        """two polynomials are the same"""
        d = z3.simplify(a - b, som=True)
        if z3.is_rational_value(d) and d.as_fraction() == 0:
            return self.ok(True, what)
        return self.prove(a == b, what)

    def unreachable(self, what):
        self.prove(False, what)

    def strip(self, v):
        return self.ops.strip(self.E.toV(v))

    def eqv(self, a, b):
        return self.strip(a) == self.strip(b)

    def frozen(self, o):
        return self.ops.freeze(o)

    def has(self, d, k):
        return zb(self.ops.dict_at(d, self.E.toV(k))[0])

    def at(self, d, k):
        return self.ops.dict_at(d, self.E.toV(k))[1]

    def under(self, cond, fn):
        n = len(self.E.pc)
        self.E.pc.append(zb(cond))
        try:
            if not self.E.infeasible():
                fn()
        finally:
            del self.E.pc[n:]

    def same(self, a, b, what, depth=0):
        """obligation: equal contents"""
        E, ops = self.E, self.ops
        if depth > 6:
            raise Unsupported("deep comparison")
        if isinstance(a, Obj):
            a = ops.freeze(a)
        if isinstance(b, Obj):
            b = ops.freeze(b)
        if E.scalar(a) and E.scalar(b):
            if (is_z(a) and a.sort() in (INT, REAL) or isinstance(a, (int, Fraction))) and (is_z(b) and b.sort() in (INT, REAL) or isinstance(b, (int, Fraction))):
                return self.prove(ops.eq(a, b), what)
            return self.prove(self.eqv(a, b), what)
        if isinstance(a, DictObj) and isinstance(b, DictObj):
            ka, kb = ops.const_keys(a), ops.const_keys(b)
            if ka is not None and kb is not None:
                if not self.ok(set(ka) == set(kb), what + ": same keys", f"{ka} / {kb}"):
                    return
                for k in ka:
                    self.same(self.at(a, k), self.at(b, k), f"{what}[{k}]", depth + 1)
                return
            self.count += 1
            k = z3.Const(f"k!{self.count}", V)
            ha, va = ops.dict_at(a, k)
            hb, vb = ops.dict_at(b, k)
            self.prove(zb(ha) == zb(hb), what + ": same keys")
            if va is MISS or vb is MISS:
                if va is not vb:
                    self.under(hb if va is MISS else ha, lambda: self.unreachable(what + ": key in one only"))
                return
            return self.under(z3.And(zb(ha), zb(hb)), lambda: self.same(va, vb, what + "[k]", depth + 1))
        if isinstance(a, Inst) and isinstance(b, Inst):
            if not self.ok(a.cls is b.cls, what + ": class"):
                return
            for f in sorted(set(a.fields) | set(b.fields)):
                if f not in a.fields or f not in b.fields:
                    self.ok(False, f"{what}.{f}: missing")
                else:
                    self.same(a.fields[f], b.fields[f], f"{what}.{f}", depth + 1)
            return
        if isinstance(a, Vec) or isinstance(b, Vec):
            a, b = ops.models.vec(a), ops.models.vec(b)
            self.prove(zi(a.n) == zi(b.n), what + ": dimension")
            self.count += 1
            i = z3.Int(f"i!{self.count}")
            return self.under(z3.And(i >= 0, i < zi(a.n)), lambda: self.prove(a.at(i) == b.at(i), what + "[i]"))
        if isinstance(a, (ListObj, TupleVal)) and isinstance(b, (ListObj, TupleVal)):
            return self.same_seq(a.seq, b.seq, what, depth)
        if isinstance(a, SetObj) and isinstance(b, SetObj):
            return self.same_set(a.seq, b.seq, what)
        if isinstance(a, Ext) and isinstance(b, Ext) or isinstance(a, ClassVal) or isinstance(a, FuncVal):
            return self.ok(a is b or getattr(a, "name", 0) == getattr(b, "name", 1), what)
        if E.scalar(a) and isinstance(b, TupleVal) or E.scalar(b) and isinstance(a, TupleVal):
            return self.prove(self.eqv(a, b), what)
        ka, kb = ops.kind(a), ops.kind(b)
        if ka and kb and "V" not in (ka, kb) and ka != kb:
            return self.ok(False, what + ": same type", f"{ka} / {kb}")
        raise Unsupported(f"comparison of {type(a).__name__} and {type(b).__name__}")

    def same_set(self, a, b, what):
        self.count += 1
        x = z3.Const(f"x!{self.count}", V)
        ma = self.ops.exists(a, lambda v: self.E.toV(v) == x)
        mb = self.ops.exists(b, lambda v: self.E.toV(v) == x)
        self.prove(zb(ma) == zb(mb), what + ": same elements")

    def drop_guards(self, seq):
        return [p for p in seq.parts if not (isinstance(p, Item) and (p.guard is False or (is_z(p.guard) and self.E.valid(z3.Not(p.guard)))))]

    def same_seq(self, a, b, what, depth=0):
        E, ops = self.E, self.ops
        ca, cb = a.concrete(), b.concrete()
        if ca is not None and cb is not None:
            if self.ok(len(ca) == len(cb), what + ": same length", f"{len(ca)} / {len(cb)}"):
                for k, (x, y) in enumerate(zip(ca, cb)):
                    self.same(x, y, f"{what}[{k}]", depth + 1)
            return
        pa, pb = self.drop_guards(a), self.drop_guards(b)
        pa = [p for p in pa if isinstance(p, Item) or p.n is None or not E.valid(zi(p.n) <= 0)]
        pb = [p for p in pb if isinstance(p, Item) or p.n is None or not E.valid(zi(p.n) <= 0)]
        if len(pa) != len(pb) or any(type(x) is not type(y) for x, y in zip(pa, pb)):
            # element by element, when both are plain
            la, lb = ops.seq_len(Seq(pa)), ops.seq_len(Seq(pb))
            try:
                fa, fb = ops.models.indexer(Seq(pa)), ops.models.indexer(Seq(pb))
            except Unsupported:
                raise Unsupported(f"{what}: sequences of different shape")
            self.prove(zi(la) == zi(lb), what + ": same length")
            self.count += 1
            i = z3.Int(f"i!{self.count}")
            return self.under(z3.And(i >= 0, i < zi(la)), lambda: self.same(fa(i), fb(i), what + "[i]", depth + 1))
        for p, q in zip(pa, pb):
            if isinstance(p, Item):
                self.prove(zb(p.guard) == zb(q.guard), what + ": element present")
                self.under(p.guard, lambda: self.same(p.value, q.value, what + "[x]", depth + 1))
            elif isinstance(p, OfSet):
                self.same_set(p.seq, q.seq, what)
            else:
                self.prove(zi(p.n) == zi(q.n), what + ": same range")
                self.count += 1
                i = z3.Int(f"i!{self.count}")

                def inner():
                    self.prove(zb(p.cond(i)) == zb(q.cond(i)), what + ": same elements kept")
                    if isinstance(p, Flat):
                        self.under(p.cond(i), lambda: self.same_seq(p.inner(i), q.inner(i), what + "[i]", depth + 1))
                    else:
                        self.under(p.cond(i), lambda: self.same(p.elem(i), q.elem(i), what + "[i]", depth + 1))
                self.under(z3.And(i >= 0, i < zi(p.n)), inner)

    def reachable(self, o, out=None):
        out = {} if out is None else out
        if isinstance(o, TupleVal):
            for p in o.seq.parts:
                if isinstance(p, Item):
                    self.reachable(p.value, out)
            return out
        if not isinstance(o, Obj) or id(o) in out:
            return out
        out[id(o)] = o
        if isinstance(o, DictObj):
            for _, v in list(o.ents) + list(o.mats):
                self.reachable(v, out)
        elif isinstance(o, (ListObj, SetObj)):
            for p in o.seq.parts:
                if isinstance(p, Item):
                    self.reachable(p.value, out)
        elif isinstance(o, Inst):
            for v in o.fields.values():
                self.reachable(v, out)
        return out

    def fresh_leaves(self, o, what, depth=0):
        """every opaque value in o is a copy: nothing in it is shared with the inputs"""
        ops = self.ops
        if isinstance(o, Obj):
            o = ops.freeze(o)
        if is_z(o):
            if o.sort() == V:
                t = z3.simplify(o)
                if z3.is_app(t) and t.decl().name() in ("VInt", "VStr", "VNone", "VBool", "VReal"):
                    return
                return self.prove(ISNEW(o), what)
            return
        if isinstance(o, DictObj):
            for k, v in o.ents:
                if v is not TOMB:
                    self.fresh_leaves(v, what, depth + 1)
            if o.base is not None:
                self.count += 1
                k = z3.Const(f"k!{self.count}", V)
                if self.ops.simp(zb(o.base.has(k))) is not False:
                    self.under(o.base.has(k), lambda: self.fresh_leaves(o.base.get(k), what + "[k]", depth + 1))
        elif isinstance(o, Inst):
            for f, v in o.fields.items():
                self.fresh_leaves(v, f"{what}.{f}", depth + 1)
        elif isinstance(o, (ListObj, TupleVal, SetObj)):
            for p in o.seq.parts:
                if isinstance(p, Item):
                    self.fresh_leaves(p.value, what, depth + 1)
                elif isinstance(p, (Flat, OfSet)):
                    raise Unsupported("aliasing of a nested list")
                else:
                    self.count += 1
                    i = z3.Int(f"i!{self.count}")
                    self.under(z3.And(i >= 0, i < zi(p.n), zb(p.cond(i))), lambda: self.fresh_leaves(p.elem(i), what + "[i]", depth + 1))

    def disjoint(self, a, b, what):
        """obligation: no mutable object is reachable from both"""
        ra, rb = self.reachable(a), self.reachable(b)
        both = [o for k, o in ra.items() if k in rb]
        leaky = [o for o in list(ra.values()) if isinstance(o, DictObj) and getattr(o, "leaked", False)]
        self.ok(not both, what + ": no shared object", ", ".join(repr(o) for o in both[:3]))
        if leaky:
            raise Unsupported("objects shared through an unknown container")


def run_unit(un, cross=False):
    """Verify one unit.  Returns a dict with its obligations and status."""
    t0 = time.time()
    u = None
    res = {"property": un["prop"], "unit": un["title"], "functions": un["functions"], "status": "proved", "note": "", "obligations": []}
    try:
        u = U(un["budget"])
        E = u.E
        E.cross = cross
        outs = E.explore(lambda: harness(u, un["fn"]), limit=400)
        if not outs:
            res["status"], res["note"] = "undecided", "no feasible path"
    except Unsupported as e:
        res["status"], res["note"] = "unsupported", str(e)
    except Skip as e:
        res["status"], res["note"] = "unsupported", str(e)
    except Exception as e:
        res["status"], res["note"] = "unsupported", "verifier error: " + repr(e)[:300] + "\n" + traceback.format_exc()[-1500:]
    if u is not None:
        E = u.E
        for o in E.obls:
            res["obligations"].append({"name": o.name, "status": o.status, "detail": o.detail, "secs": round(o.secs, 4), "backend": o.backend})
        if any(o.status == "failed" for o in E.obls):
            res["status"] = "failed"
        elif res["status"] == "proved" and any(o.status != "proved" for o in E.obls):
            res["status"] = "undecided"
        if res["status"] == "proved" and not E.obls:
            res["status"], res["note"] = "undecided", "no obligation"
        res["inlined"] = sorted(E.inlined)
        res["contracts_used"] = sorted(E.used_contracts)
        res["assumed"] = sorted(E.assumed)
        res["queries"] = E.stats["queries"]
        res["solver_s"] = round(E.stats["solver_s"], 3)
        res["cvc5_agrees"], res["cvc5_asked"] = E.stats.get("cvc5_ok", 0), E.stats.get("cvc5_asked", 0)
        res["loops"] = getattr(E, "loops_run", 0)
    res["wall_s"] = round(time.time() - t0, 3)
    return res


def harness(u, fn):
    try:
        fn(u)
    except Raise as e:
        u.E.prove(z3.BoolVal(False), f"no exception ({e})")
