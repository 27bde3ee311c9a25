"""Contracts of veroku/cluster_graph.py and veroku/_cg_helpers/_cluster.py over abstract factors"""
from pyvc.spec import *  # noqa: F401,F403
from pyvc.spec import X
from pyvc.heaplib import *  # noqa: F401,F403
from pyvc import heaplib as H

CGM, CLM = "veroku.cluster_graph", "veroku._cg_helpers._cluster"
QC, QG, QM, QP = CLM + ":Cluster.", CGM + ":ClusterGraph.", CLM + ":Message.", CGM + ":_GraphMessagePath."


class Heapy:
    """the classes, and field maps for their attributes"""

    def __init__(self, it):
        self.it = it
        X.world = W = self.W = World()
        H.axioms()
        self.CL, self.MSG = it.get_class(CLM, "Cluster"), it.get_class(CLM, "Message")
        self.GMP = it.get_class(CGM, "_GraphMessagePath")
        self.fac = W.val("Cluster", "_factor", FacK)
        self.cid = W.val("Cluster", "_cluster_id", NameK)
        W.dict("Cluster", "_neighbour_sepsets", LstK)
        W.dict("Cluster", "_received_message_factors", FacK)
        W.list("Cluster", "_neighbour_references", RefK(self.CL))
        W.list("Cluster", "_outward_message_paths", RefK(self.GMP))
        self.ev = W.val("Cluster", "_special_evidence", EvK)
        W.val("Message", "_sender_id", NameK)
        W.val("Message", "_receiver_id", NameK)
        W.val("Message", "_factor", FacK)
        W.val("_GraphMessagePath", "sender_cluster", RefK(self.CL))
        W.val("_GraphMessagePath", "receiver_cluster", RefK(self.CL))
        W.val("_GraphMessagePath", "previously_sent_message", RefK(self.MSG, True))
        W.val("_GraphMessagePath", "next_message", RefK(self.MSG))
        W.val("_GraphMessagePath", "next_information_gain", RealK)
        W.list("_GraphMessagePath", "information_gains_with_iters", RealK)

    def __getattr__(self, n):
        """current field maps: F_ (cluster factor), S_dom ... by short name"""
        short = {"Cf": ("Cluster", "_factor"), "Cid": ("Cluster", "_cluster_id"), "Cev": ("Cluster", "_special_evidence"),
                 "Ms": ("Message", "_sender_id"), "Mr": ("Message", "_receiver_id"), "Mf": ("Message", "_factor"),
                 "Ps": ("_GraphMessagePath", "sender_cluster"), "Pr": ("_GraphMessagePath", "receiver_cluster"),
                 "Pp": ("_GraphMessagePath", "previously_sent_message"), "Pn": ("_GraphMessagePath", "next_message"),
                 "Pg": ("_GraphMessagePath", "next_information_gain")}
        dicts = {"Sep": ("Cluster", "_neighbour_sepsets"), "Rec": ("Cluster", "_received_message_factors")}
        lists = {"Out": ("Cluster", "_outward_message_paths"), "Nb": ("Cluster", "_neighbour_references"), "Gains": ("_GraphMessagePath", "information_gains_with_iters")}
        if n in short:
            return self.W.f(*short[n]).get
        if n in dicts:
            f = self.W.f(*dicts[n])
            return f.dom, f.get
        if n in lists:
            f = self.W.f(*lists[n])
            return f.len, f.at
        raise AttributeError(n)

    def obj(self, cls, name):
        r = X.const(name, Ref)
        X.assume(And(r != NULL, alloc(r) <= 0))
        return r, SymObj(cls, r)

    def mk(self, c, x):
        """the message cluster c sends to the cluster with id x"""
        f = fmarg(fred(self.Cf(c), evkeys(self.Cev(c)), evvals(self.Cev(c))), self.Sep[1](c, x))
        rd, rg = self.Rec
        return If(rd(c, x), fcancel(f, rg(c, x)), f)

    def unchanged(self, allowed=(), label="frame: nothing else changes"):
        bad = sorted(".".join(k) for k in self.W.written - set(allowed))
        ob(not bad, label + (f" [{bad}]" if bad else ""))


def at(it, o, name):
    return it.getattr(o, name)


def msg_parts(it, h, m):
    ok = isinstance(m, (Obj, SymObj)) and m.cls is h.MSG
    ob(ok, "a Message")
    if not ok:
        raise Infeasible()
    return at(it, m, "_factor"), at(it, m, "_sender_id"), at(it, m, "_receiver_id")


# ------------------------------------------------------------------ clusters
def make_message(evid):
    def run(it):
        setup()
        h = Heapy(it)
        c, co = h.obj(h.CL, "c")
        x = X.const("nid", Name)
        X.assume(h.Sep[0](c, x))
        if not evid:
            r = z3.Const("r", Ref)
            h.W.fields[("Cluster", "_special_evidence")] = NoneField()
        start()
        m = it.call(it.getattr(co, "make_message"), [x])
        f, s, r = msg_parts(it, h, m)
        if evid:
            want = h.mk(c, x)
        else:
            base = fmarg(h.Cf(c), h.Sep[1](c, x))
            want = If(h.Rec[0](c, x), fcancel(base, h.Rec[1](c, x)), base)
        ob(f == want, "the message is the marginal over the sepset with what was received from that neighbour divided out")
        ob(s == h.Cid(c), "sender id")
        ob(r == x, "receiver id")
        h.unchanged()
    return run


class NoneField:
    key = ("Cluster", "_special_evidence")

    def read(self, r):
        return None

    def snap(self):
        return ()


contract("C29", "Cluster.make_message", [QC + "make_message"])(make_message(True))
contract("C29", "Cluster.make_message, no special evidence set", [QC + "make_message"])(make_message(False))


@contract("C29", "Cluster.receive_message", [QC + "receive_message"])
def receive_message(it):
    setup()
    h = Heapy(it)
    c, co = h.obj(h.CL, "c")
    m, mo = h.obj(h.MSG, "m")
    X.assume(h.Mr(m) == h.Cid(c))
    start()
    f0, s, mf = h.Cf, h.Ms(m), h.Mf(m)
    rd0, rg0 = h.Rec
    it.call(it.getattr(co, "receive_message"), [mo])
    r = X.const("r", Ref)
    x = X.const("x", Name)
    ob(fval(h.Cf(c)) == fval(f0(c)) + fval(mf) - z3.If(rd0(c, s), fval(rg0(c, s)), z3.RealVal(0)),
       "the new potential: times the message, without the previous message of that sender")
    ob(lmem(fscope(h.Cf(c)), x) == Or(lmem(fscope(f0(c)), x), lmem(fscope(mf), x), And(rd0(c, s), lmem(fscope(rg0(c, s)), x))), "scope of the potential")
    ob(Implies(r != c, h.Cf(r) == f0(r)), "other clusters keep their potential")
    rd, rg = h.Rec
    ob(And(rd(c, s), rg(c, s) == mf), "the message replaces the previous message of that sender")
    ob(Implies(Or(r != c, x != s), And(Iff(rd(r, x), rd0(r, x)), Implies(rd(r, x), rg(r, x) == rg0(r, x)))), "messages of other senders are kept")
    h.unchanged([("Cluster", "_factor"), ("Cluster", "_received_message_factors")])


@contract("C29", "Cluster.receive_message of a message for another cluster", [QC + "receive_message"])
def receive_wrong(it):
    setup()
    h = Heapy(it)
    c, co = h.obj(h.CL, "c")
    m, mo = h.obj(h.MSG, "m")
    X.assume(h.Mr(m) != h.Cid(c))
    start()
    expect_raise(it, lambda: it.call(it.getattr(co, "receive_message"), [mo]), "a message for another cluster is refused")
    h.unchanged()


@contract("C29", "Message accessors and copy", [QM + "copy", QM + "factor", QM + "kl_divergence", QM + "distance_from_vacuous"])
def message(it):
    setup()
    h = Heapy(it)
    m, mo = h.obj(h.MSG, "m")
    n, no = h.obj(h.MSG, "n")
    start()
    ob(at(it, mo, "factor") == h.Mf(m), "factor")
    ob(at(it, mo, "sender_id") == h.Ms(m), "sender_id")
    ob(at(it, mo, "receiver_id") == h.Mr(m), "receiver_id")
    ob(it.call(at(it, mo, "kl_divergence"), [no]) == fkl(h.Mf(m), h.Mf(n)), "divergence of the factors")
    ob(it.call(at(it, mo, "distance_from_vacuous"), []) == fdv(h.Mf(m)), "distance from vacuous")
    k = it.call(at(it, mo, "copy"), [])
    f, s, r = msg_parts(it, h, k)
    ob(And(f == h.Mf(m), s == h.Ms(m), r == h.Mr(m)), "copy")
    h.unchanged()


# ------------------------------------------------------------------ the graph
class Graph(Heapy):
    """a graph as the constructor leaves it (C28): structure"""

    def __init__(self, it, structure=True):
        super().__init__(it)
        self.gl = BaseSeq("paths", Ref, distinct=True)
        self.cl = BaseSeq("clusters", Ref, distinct=True)
        g, c, i = z3.Const("g", Ref), z3.Const("c", Ref), z3.Int("i")
        gm, cm = self.gl._mem, self.cl._mem
        X.forall([g], Implies(gm(g), And(g != NULL, alloc(g) <= 0)), gm(g))
        X.forall([c], Implies(cm(c), And(c != NULL, alloc(c) <= 0)), cm(c))
        Ps, Pr = self.Ps, self.Pr
        X.forall([g], Implies(gm(g), And(cm(Ps(g)), cm(Pr(g)), Ps(g) != Pr(g))), gm(g), Ps(g), Pr(g))
        ol, oa = self.Out
        outpos = X.fresh_fn("outpos", [Ref], Int)
        X.forall([c, i], Implies(And(cm(c), InR(0, i, ol(c))), And(gm(oa(c, i)), Ps(oa(c, i)) == c, outpos(oa(c, i)) == i)), oa(c, i))
        X.forall([g], Implies(gm(g), And(InR(0, outpos(g), ol(Ps(g))), oa(Ps(g), outpos(g)) == g)), outpos(g), gm(g))
        ofid = X.fresh_fn("ofid", [Name], Ref)
        X.forall([c], Implies(cm(c), ofid(self.Cid(c)) == c), self.Cid(c))
        path = X.fresh_fn("path", [Ref, Ref], Ref)
        X.forall([g], Implies(gm(g), And(path(Ps(g), Pr(g)) == g, self.Sep[0](Ps(g), self.Cid(Pr(g))))), gm(g))
        x = z3.Const("x", Name)
        X.gforall([z3.Const("e", Ev), x], Implies(evdom(z3.Const("e", Ev), x), evget(z3.Const("e", Ev), x) == sigma(x)), evget(z3.Const("e", Ev), x))
        self.outpos, self.path, self.ofid = outpos, path, ofid
        self.S = X.sums = Sums()

    def structure(self):
        """frame of the structural attributes"""
        ob(not {("Cluster", a) for a in ("_cluster_id", "_neighbour_sepsets", "_outward_message_paths", "_special_evidence")} & self.W.written
           and not {("_GraphMessagePath", a) for a in ("sender_cluster", "receiver_cluster")} & self.W.written, "frame: the structure of the graph is unchanged")

    def upd(self, g):
        """the pending message of path g and its gain are up to date"""
        n, p = self.Pn(g), self.Pp(g)
        return [("pending message", And(n != NULL, alloc(n) <= self.W.clock, self.Mf(n) == self.mk(self.Ps(g), self.Cid(self.Pr(g))))),
                ("pending message ids", And(self.Ms(n) == self.Cid(self.Ps(g)), self.Mr(n) == self.Cid(self.Pr(g)))),
                ("pending gain", self.Pg(g) == z3.If(p == NULL, fdv(self.Mf(n)), fkl(self.Mf(p), self.Mf(n))))]

    def clauses(self, C, joint=True):
        gm = self.gl._mem
        pats = lambda g: [gm(g), self.Pn(g), self.Pp(g), self.Pg(g)] if C.mode == "assume" else None  # noqa: E731
        for k, (what, _) in enumerate(self.upd(z3.Const("g", Ref))):
            C.forall(what + " is up to date", [Ref], lambda g: Implies(gm(g), self.upd(g)[k][1]), pats)
        rd, rg = self.Rec
        C.forall("last sent and last received messages agree", [Ref], lambda g: Implies(gm(g), And(
            Iff(self.Pp(g) != NULL, rd(self.Pr(g), self.Cid(self.Ps(g)))), alloc(self.Pp(g)) <= self.W.clock,
            Implies(self.Pp(g) != NULL, self.Mf(self.Pp(g)) == rg(self.Pr(g), self.Cid(self.Ps(g)))))), pats)
        if joint:
            C.add("the represented joint distribution", self.joint() == self.J0)

    def joint(self):
        cf, pp, mf = self.Cf, self.Pp, self.Mf
        a = self.S.sum(self.cl.length(), lambda k: fval(cf(self.cl.at(k))), "sumC")
        b = self.S.sum(self.gl.length(), lambda k: z3.If(pp(self.gl.at(k)) != NULL, fval(mf(pp(self.gl.at(k)))), z3.RealVal(0)), "sumM")
        return a - b

    def pass_contract(self, it, f, args, kw):
        """calls of pass_next_message by its contract (proved under C29)"""
        o = args[0]
        if not isinstance(o, SymObj) or o.cls is not self.GMP or X.loops or X.bound or len(args) > 1 or kw:
            return NotImplemented
        g = o.ref
        X.oblige(self.gl._mem(g), "the message is passed along a path of the graph")
        self.clauses(Clauses("check", "before a pass"), joint=False)
        hook = getattr(self, "on_pass", None)
        if hook:
            hook(g)
        for k in PASS_WRITES:
            self.W.fields[k].fresh("p_" + k[1])
            self.W.written.add(k)
        self.W.tick()
        self.clauses(Clauses("assume", "after a pass"), joint=False)
        return None

    def graph(self, it):
        """the ClusterGraph object"""
        cls = it.get_class(CGM, "ClusterGraph")
        o = Obj(cls)
        o.attrs["_clusters"] = PList(ObjSeq(self.cl, self.CL))
        o.attrs["graph_message_paths"] = PList(ObjSeq(self.gl, self.GMP))
        o.attrs["disable_tqdm"] = X.const("disable", Bool)
        o.attrs["verbose"] = X.const("verbose", Bool)
        o.attrs["debug"] = False
        o.attrs["passed_messages"] = PList(CSeq([]))
        o.attrs["special_evidence"] = EvDict(X.const("sev", Ev))
        o.attrs["num_messages_passed"] = X.const("nmp", Int)
        o.attrs["sync_message_passing_max_distances"] = PList(CSeq([]))
        return o


PASS_WRITES = [("Cluster", "_factor"), ("Cluster", "_received_message_factors"), ("_GraphMessagePath", "previously_sent_message"),
               ("_GraphMessagePath", "next_message"), ("_GraphMessagePath", "next_information_gain"), ("_GraphMessagePath", "information_gains_with_iters"),
               ("Message", "_factor"), ("Message", "_sender_id"), ("Message", "_receiver_id")]


def pass_handler(it, f, args, kw):
    G = getattr(it, "graph_model", None)
    return G.pass_contract(it, f, args, kw) if G is not None else NotImplemented


callee(QP + "pass_next_message", pass_handler)


def outward_inv(G, rc):
    """the loop of pass_next_message over the outward paths of the receiver"""
    st = {}

    def havoc(it, env, i):
        W = G.W
        st["old"] = dict(Pn=G.Pn, Pg=G.Pg, Mf=G.Mf, Ms=G.Ms, Mr=G.Mr, clock=W.clock)
        for k in (("_GraphMessagePath", "next_message"), ("_GraphMessagePath", "next_information_gain"), ("_GraphMessagePath", "information_gains_with_iters"),
                  ("Message", "_factor"), ("Message", "_sender_id"), ("Message", "_receiver_id")):
            W.fields[k].fresh("h_" + k[1])
        W.tick()

    def clauses(C, it, env, i):
        o = st.get("old") or dict(Pn=G.Pn, Pg=G.Pg, Mf=G.Mf, Ms=G.Ms, Mr=G.Mr, clock=G.W.clock)
        gm = G.gl._mem
        pats = lambda g: [gm(g), G.Pn(g), G.Pg(g)]  # noqa: E731
        for k, (what, _) in enumerate(G.upd(z3.Const("g", Ref))):
            C.forall(f"{what} of the first outward paths", [Ref], lambda g: Implies(And(gm(g), G.Ps(g) == rc, G.outpos(g) < i), G.upd(g)[k][1]), pats)
        C.forall("paths of other senders", [Ref], lambda g: Implies(And(gm(g), G.Ps(g) != rc), And(G.Pn(g) == o["Pn"](g), G.Pg(g) == o["Pg"](g))), pats)
        C.forall("existing messages are unchanged", [Ref], lambda m: Implies(alloc(m) <= o["clock"], And(
            G.Mf(m) == o["Mf"](m), G.Ms(m) == o["Ms"](m), G.Mr(m) == o["Mr"](m))), lambda m: [G.Mf(m), G.Ms(m), G.Mr(m)])
    return LoopInv("outward paths", havoc, clauses)


@contract("LEMMA:" + QP + "pass_next_message", "_GraphMessagePath.pass_next_message keeps messages and gains up to date", [QP + "pass_next_message"])
@contract("C29", "_GraphMessagePath.pass_next_message preserves the joint, and keeps messages and gains up to date", [QP + "pass_next_message"])
def pass_next(it):
    setup()
    G = Graph(it)
    G.J0 = X.const("J0", Real)
    G.clauses(Clauses("assume", "graph"))
    g = X.const("path", Ref)
    X.assume(G.gl._mem(g))
    start()
    old = dict(Pn=G.Pn, Pp=G.Pp, Mf=G.Mf, Cf=G.Cf)
    rc = G.Pr(g)
    it.loop_invs[(QP + "pass_next_message", 0)] = outward_inv(G, rc)
    it.call(it.getattr(SymObj(G.GMP, g), "pass_next_message"), [])
    G.clauses(Clauses("check", "after the pass"))
    h = X.const("h", Ref)
    ob(And(G.Pp(g) != NULL, G.Mf(G.Pp(g)) == old["Mf"](old["Pn"](g))), "the message sent is the pending one")
    ob(Implies(And(G.gl._mem(h), h != g), G.Pp(h) == old["Pp"](h)), "no other path sends")
    ob(Implies(h != rc, G.Cf(h) == old["Cf"](h)), "only the receiver's potential changes")
    G.structure()
    extra = sorted(".".join(k) for k in G.W.written - set(PASS_WRITES))
    ob(not extra, "frame: nothing but potentials, messages and gains changes" + (f" [{extra}]" if extra else ""))


@contract("C29", "ClusterGraph.get_posterior_joint", [QG + "get_posterior_joint", QG + "_last_passed_message_factors"])
def posterior_joint(it):
    setup()
    G = Graph(it)
    G.J0 = X.const("J0", Real)
    G.clauses(Clauses("assume", "graph"))
    o = G.graph(it)
    X.assume(G.cl.length() >= 1)
    w = X.const("sent", Ref)
    X.assume(Or(o.attrs["num_messages_passed"] == 0, And(G.gl._mem(w), G.Pp(w) != NULL)))
    start()
    r = it.call(it.getattr(o, "get_posterior_joint"), [])
    ob(isz(r) and r.sort() == Fac, "a factor")
    ob(fval(r) == G.J0, "the posterior joint is the represented joint distribution")
    G.unchanged()
    check_frame()


# ------------------------------------------------------------------ C30
class Perm:
    """an arbitrary arrangement of the message paths, in descending order of their gain"""

    def __init__(self, G):
        self.G = G
        self.p, self.q = X.fresh_fn("ord", [Int], Int), X.fresh_fn("ordi", [Int], Int)

    def seq(self):
        return ObjSeq(PermSeq(self.G.gl, self.p, self.q), self.G.GMP)


def paths_of(G, o):
    l = o.attrs.get("graph_message_paths")
    if not isinstance(l, PList):
        raise Unsupported("graph_message_paths")
    return l.seq


def paths_clauses(G, C, s):
    """the list s holds exactly the message paths, largest pending gain first"""
    if C.mode == "assume":
        i, j = z3.Int("i"), z3.Int("j")
        n = G.gl.length()
        p, q = s.base.p, s.base.q
        X.forall([i], Implies(InR(0, i, n), And(InR(0, p(i), n), q(p(i)) == i)), p(i))
        X.forall([i], Implies(InR(0, i, n), And(InR(0, q(i), n), p(q(i)) == i)), q(i))
        pg = G.Pg
        X.forall([i, j], Implies(And(0 <= i, i <= j, j < n), pg(G.gl.at(p(i))) >= pg(G.gl.at(p(j)))), [p(i), p(j)])
        g = z3.Const("g", Ref)
        gp = G.gl.pos(g)
        X.forall([g], Implies(G.gl._mem(g), And(InR(0, q(gp), n), p(q(gp)) == gp, G.gl.at(gp) == g)), G.gl._mem(g))
        X.hint(p(z3.IntVal(0)))
        return
    C.add("number of paths in the list", zi(s.length()) == G.gl.length())
    el = lambda k: reify(s.get(k), G.GMP)  # noqa: E731
    C.forall("the list holds paths of the graph", [Int], lambda i: Implies(InR(0, i, G.gl.length()), G.gl._mem(el(i))))
    C.forall("every path is in the list", [Ref], lambda g: Implies(G.gl._mem(g), And(InR(0, s.pos(SymObj(G.GMP, g)), G.gl.length()), el(s.pos(SymObj(G.GMP, g))) == g)))
    C.forall("the list is in descending order of gain", [Int, Int], lambda i, j: Implies(And(0 <= i, i <= j, j < G.gl.length()), G.Pg(el(i)) >= G.Pg(el(j))))


def process_inv(G, o, st):
    def havoc(it, env, i):
        for k in PASS_WRITES:
            G.W.fields[k].fresh("l_" + k[1])
        G.W.tick()
        o.attrs["graph_message_paths"] = PList(Perm(G).seq())
        o.attrs["num_messages_passed"] = X.const("nmp", Int)
        rl = X.fresh_fn("recd", [Int], Real)
        n = X.const("nrec", Int)
        X.assume(n >= 0)
        o.attrs["sync_message_passing_max_distances"] = PList(FnSeq(n, lambda k: rl(zi(k))))
        st["n"] = X.const("passes", Int)
        return [o]

    def clauses(C, it, env, i):
        G.clauses(C, joint=False)
        paths_clauses(G, C, paths_of(G, o))
        C.add("messages passed so far", st["n"] == i)
        C.add("counted messages", o.attrs["num_messages_passed"] == st["n0"] + st["n"])
        s = o.attrs["sync_message_passing_max_distances"].seq
        C.add("number of recorded gains", zi(s.length()) == st["n"])
        if C.mode == "assume":
            k = z3.Int("k")
            X.forall([k], Implies(InR(0, k, s.length()), s.get(k) == st["rec"](k)), s.get(k))
        elif s.items() != []:
            C.forall("recorded gains", [Int], lambda k: Implies(InR(0, k, s.length()), s.get(k) == st["rec"](k)))
        C.add("not converged before", Or(st["n"] == 0, st["maxg"](st["n"] - 1) > st["tol"]))
    return LoopInv("messages passed", havoc, clauses)


@contract("C30", "ClusterGraph.process_graph is greedy, bounded and stops only when converged", [QG + "process_graph"])
def process(it):
    setup()
    G = Graph(it)
    G.clauses(Clauses("assume", "graph"), joint=False)
    o = G.graph(it)
    X.assume(G.cl.length() >= 2)
    tol, mi = X.const("tol", Real), X.const("max_iter", Int)
    X.assume(mi >= 0)
    it.graph_model = G
    rec = X.fresh_fn("rec", [Int], Real)
    st = {"n": z3.IntVal(0), "n0": o.attrs["num_messages_passed"], "rec": rec, "maxg": rec, "tol": tol}

    def on_pass(g):
        h = X.const("h", Ref)
        ob(Implies(G.gl._mem(h), G.Pg(h) <= G.Pg(g)), "the message passed has the largest pending gain")
    G.on_pass = on_pass
    real = G.pass_contract

    def counted(*a):
        r = real(*a)
        if r is NotImplemented:
            raise Unsupported("a message passed where its contract does not apply")
        # ghost: after this pass rec(n) is the largest pending gain
        w, h = X.const("largest", Ref), z3.Const("h", Ref)
        pg = G.Pg
        X.assume(And(G.gl._mem(w), rec(st["n"]) == pg(w)))
        X.forall([h], Implies(G.gl._mem(h), pg(h) <= rec(st["n"])), pg(h))
        st["n"] = z3.simplify(st["n"] + 1)
        return r
    G.pass_contract = counted
    it.loop_invs[(QG + "process_graph", 0)] = process_inv(G, o, st)
    start()
    it.call(it.getattr(o, "process_graph"), [], {"tol": tol, "max_iter": mi})
    n, lim = st["n"], mi * G.gl.length()
    ob(And(n >= 0, n <= lim), "at most max_iter times the number of paths messages are passed")
    h, k = X.const("h", Ref), X.const("k", Int)
    ob(Or(n == lim, Implies(G.gl._mem(h), G.Pg(h) <= tol)), "an early return only when no pending gain exceeds the tolerance")
    ob(o.attrs["num_messages_passed"] == st["n0"] + n, "every pass is counted")
    s = o.attrs["sync_message_passing_max_distances"].seq
    ob(zi(s.length()) == n, "one gain is recorded per pass")
    ob(Implies(InR(0, k, n), s.get(k) == rec(k)), "the largest pending gain is recorded after each pass")
    G.clauses(Clauses("check", "afterwards"), joint=False)
    s = paths_of(G, o)
    ob(zi(s.length()) == G.gl.length(), "the paths of the graph are kept: number")
    ob(Implies(G.gl._mem(h), s.mem(SymObj(G.GMP, h))), "the paths of the graph are kept")
    G.structure()


@contract("C30", "ClusterGraph.process_graph of a graph with a single cluster", [QG + "process_graph"])
def process_single(it):
    setup()
    G = Graph(it)
    o = G.graph(it)
    X.assume(And(G.cl.length() == 1, G.gl.length() == 0))
    tol, mi = X.const("tol", Real), X.const("max_iter", Int)
    X.assume(mi >= 0)
    n0, c, f0 = o.attrs["num_messages_passed"], G.cl.at(0), G.Cf
    ev = o.attrs["special_evidence"].term
    start()
    it.call(it.getattr(o, "process_graph"), [], {"tol": tol, "max_iter": mi})
    r = X.const("r", Ref)
    ob(o.attrs["num_messages_passed"] == n0, "no message is passed")
    ob(o.attrs["sync_message_passing_max_distances"].seq.items() == [], "no gain is recorded")
    ob(fval(G.Cf(c)) == fval(f0(c)), "the potential keeps its value at the special evidence")
    ob(Implies(r != c, G.Cf(r) == f0(r)), "no other cluster changes")
    G.unchanged([("Cluster", "_factor")])


# ------------------------------------------------------------------ C32
def marginal_parts(G, r):
    """r as (cluster, evidence variables or None, evidence values, kept variables)"""
    def un(t, name):
        if not (z3.is_app(t) and t.decl().name() == name):
            raise Unsupported(f"a marginal that is not built with {name}")
        return t.children()
    r = z3.simplify(r)
    f, keep = un(r, "fmarg")
    K = V = None
    if f.decl().name() == "fred":
        f, K, V = f.children()
    if f.decl().name() != G.fac0.name():
        raise Unsupported("a marginal of something else than a potential")
    return f.children()[0], K, V, keep


def get_marginal(single):
    def run(it):
        setup()
        G = Graph(it)
        c0 = z3.Const("c", Ref)
        o = G.graph(it)
        G.fac0 = G.Cf(c0).decl()
        ev = o.attrs["special_evidence"].term
        if single:
            v = X.const("v", Name)
            vrs, inv = v, lambda x: x == v
            want = CSeq([v])
        else:
            want = BaseSeq("vrs", Name, distinct=True)
            vrs, inv = PList(want), want.mem
        start()
        c, x, i = X.const("c", Ref), X.const("x", Name), X.const("i", Int)
        try:
            r = it.call(it.getattr(o, "get_marginal"), [vrs])
        except PyRaise as e:
            ob(e.exc is EXC["ValueError"], "only a ValueError is raised")
            X.assume(G.cl._mem(c))
            X.hint(G.cl.pos(c))
            q = z3.Const("q", Name)
            X.forall([q], Implies(inv(q), lmem(fscope(G.Cf(c)), q)), lmem(fscope(G.Cf(c)), q))
            if single:
                X.hint(lmem(fscope(G.Cf(c)), v))
            ob(False, "an error only when no cluster contains the variables")
            G.unchanged(label="frame: the graph is unchanged when an error is raised")
            return
        c, K, V, keep = marginal_parts(G, r)
        ob(G.cl._mem(c), "the potential of a cluster of the graph")
        ob(Implies(inv(x), lmem(fscope(G.Cf(c)), x)), "a cluster that contains the variables")
        ob(llen(keep) == zi(want.length()), "onto the variables asked for: number")
        ob(Implies(InR(0, i, want.length()), lat(keep, i) == want.get(i)), "onto the variables asked for")
        obs = And(evdom(ev, x), lmem(fscope(G.Cf(c)), x))
        if K is None:
            ob(Not(obs), "sliced at the special evidence in its scope (none)")
        else:
            ob(Iff(lmem(K, x), obs), "sliced at exactly the special evidence in its scope")
            ob(Implies(InR(0, i, llen(K)), And(i < vlen(V), vat(V, i) == evget(ev, lat(K, i)))), "every variable at its observed value")
            ob(Implies(InR(0, i, llen(K)), lpos(K, lat(K, i)) == i), "no variable is observed twice")
        G.unchanged()
        check_frame()
    return run


contract("C32", "ClusterGraph.get_marginal of a list of variables", [QG + "get_marginal"])(get_marginal(False))
contract("C32", "ClusterGraph.get_marginal of one variable", [QG + "get_marginal"])(get_marginal(True))


# ------------------------------------------------------------------ C27
QGM = CGM + ":"


def facs(tag="f"):
    return BaseSeq(tag, Fac)


def plain(it):
    """no heap objects, only abstract factors at an arbitrary assignment"""
    X.world = None
    H.axioms()
    X.sums = Sums()


def known_evidence(e):
    """the assignment sigma agrees with the evidence (elsewhere the observed factors are compared with nothing)"""
    x = z3.Const("x", Name)
    X.forall([x], Implies(evdom(e, x), evget(e, x) == sigma(x)), evget(e, x))


def reduce_factors(evid):
    def run(it):
        setup()
        plain(it)
        F = facs()
        e = X.const("ev", Ev)
        known_evidence(e)
        fs = PList(F)
        start()
        r = it.call(it.get_func(CGM, "_evidence_reduce_factors"), [fs, EvDict(e) if evid else None])
        ok = isinstance(r, PList)
        ob(ok, "a list")
        s = r.seq
        ob(zi(s.length()) == F.length(), "one factor for each given factor")
        i, x = X.const("i", Int), X.const("x", Name)
        X.assume(InR(0, i, F.length()))
        v = s.get(i)
        ob(isz(v) and v.sort() == Fac, "factors")
        ob(fval(v) == fval(F.get(i)), "each factor keeps its value at the evidence")
        ob(Iff(lmem(fscope(v), x), And(lmem(fscope(F.get(i)), x), Not(evdom(e, x)) if evid else True)), "the scope of each factor loses exactly the observed variables")
        check_frame()
    return run


contract("C27", "_evidence_reduce_factors", [QGM + "_evidence_reduce_factors"])(reduce_factors(True))
contract("C27", "_evidence_reduce_factors without evidence", [QGM + "_evidence_reduce_factors"])(reduce_factors(False))


class Absorb:
    """roles of the local variables of _absorb_subset_factors, found by what they hold when the first loop starts"""

    def __init__(self, F):
        self.F, self.n = F, F.length()
        self.env = None

    def roles(self, env):
        if self.env is not None:
            return
        self.env = env
        ls = {a: v for a, v in env.vars.items() if type(v) is PList and not v.pre}
        fin = [a for a, v in ls.items() if v.seq.items() == []]
        msk = [a for a, v in ls.items() if v.seq.items() is None and is_flag(v.seq.get(z3.Int("i")))]
        if len(fin) != 1 or len(msk) != 1:
            raise Unsupported("the lists the absorption works on")
        self.fin, self.mask = env.vars[fin[0]], env.vars[msk[0]]

    def sumfin(self):
        return X.sums.over(self.fin.seq, fval, "sumFin")

    def summask(self, extra=None):
        s = self.mask.seq
        key = ("summask", id(s), extra.get_id() if extra is not None else None)
        if key not in X.memo:
            X.memo[key] = (self._summask(s, extra), s)
        return X.memo[key][0]

    def _summask(self, s, extra):
        return X.sums.sum(self.n, lambda k: z3.If(zb(Or(flag(s.get(k)), k == extra if extra is not None else False)), fval(self.F.get(k)), z3.RealVal(0)), "sumMask")

    def fresh_mask(self):
        b = X.fresh_fn("mask", [Int], Int)
        i = z3.Int("i")
        self.mask.set_seq(FnSeq(self.n, lambda k: b(zi(k))))
        X.forall([i], Or(b(i) == 0, b(i) == 1), b(i))

    def fresh_fin(self):
        n, a = X.const("nfin", Int), X.fresh_fn("fin", [Int], Fac)
        X.assume(n >= 0)
        self.fin.set_seq(FnSeq(n, lambda k: a(zi(k))))

    def mask_len(self, C):
        C.add("one flag per factor", zi(self.mask.seq.length()) == self.n)


def is_flag(v):
    return is_int(v) or is_bool(v)


def flag(v):
    return v if is_bool(v) else v != 0


def absorb_invs(it, A):
    st = {}

    def outer_havoc(it, env, i):
        A.fresh_mask()
        A.fresh_fin()
        return [A.mask, A.fin]

    def outer(C, it, env, i):
        A.roles(env)
        A.mask_len(C)
        C.add("the clusters so far hold exactly the factors marked as processed", A.sumfin() == A.summask())

    def inner_havoc(it, env, i):
        A.fresh_mask()
        st["env"].vars[st["fp"]] = X.const("fprod", Fac)
        return [A.mask]

    def inner(C, it, env, j):
        # the first time the loop is entered: the factor under construction and the marks before
        if C.mode == "check" and C.label.endswith("initially"):
            cand = [a for a, v in env.vars.items() if isz(v) and v.sort() == Fac and a in st["assigned"](env)]
            if len(cand) != 1:
                raise Unsupported("the product under construction")
            st["fp"], st["env"] = cand[0], env
            st["m0"] = A.mask.seq
            st["i"] = st["index"](env)
        s, m0, i, fp = A.mask.seq, st["m0"], st["i"], env.vars[st["fp"]]
        A.mask_len(C)
        C.add("clusters and product hold the marked factors and the current one", A.sumfin() + fval(fp) == A.summask(i))
        C.forall("marks are kept", [Int], lambda k: Implies(And(InR(0, k, A.n), flag(m0.get(k))), flag(s.get(k))), lambda k: [s.get(k), m0.get(k)])
        C.forall("nothing is absorbed unless the current factor is marked", [Int],
                 lambda k: Implies(And(InR(0, k, A.n), Not(flag(s.get(i)))), Iff(flag(s.get(k)), flag(m0.get(k)))), lambda k: [s.get(k), m0.get(k)])

    def rest(C, it, env, i):
        A.mask_len(C)
        C.add("the clusters so far hold exactly the factors marked as processed", A.sumfin() == A.summask())
        s = A.mask.seq
        C.forall("the first factors are marked", [Int], lambda k: Implies(And(InR(0, k, i), k < A.n), flag(s.get(k))), lambda k: [s.get(k)])

    import ast
    f = it.get_func(CGM, "_absorb_subset_factors")
    loops = sorted((n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))), key=lambda n: (n.lineno, n.col_offset))
    if len(loops) == 3:
        body = {n.id for n in ast.walk(loops[1]) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        tgt = [n.id for n in ast.walk(loops[0].target) if isinstance(n, ast.Name)]

        def index(env):
            ix = [env.vars[t] for t in tgt if is_int(env.vars.get(t))]
            if len(ix) != 1:
                raise Unsupported("the index of the outer loop")
            return ix[0]
        st["assigned"], st["index"] = (lambda env: body), index
    Q = QGM + "_absorb_subset_factors"
    it.loop_invs[(Q, 0)] = LoopInv("absorbing factors", outer_havoc, outer, loops=3)
    it.loop_invs[(Q, 1)] = LoopInv("absorbing into one factor", inner_havoc, inner, loops=3)
    it.loop_invs[(Q, 2)] = LoopInv("remaining factors", outer_havoc, rest, loops=3)


@contract("C27", "_absorb_subset_factors loses and repeats no factor", [QGM + "_absorb_subset_factors"])
def absorb(it):
    setup()
    plain(it)
    F = facs()
    A = Absorb(F)
    absorb_invs(it, A)
    total = X.sums.sum(F.length(), lambda k: fval(F.get(k)), "sumGiven")
    start()
    r = it.call(it.get_func(CGM, "_absorb_subset_factors"), [PList(F)])
    ob(isinstance(r, PList), "a list")
    s = r.seq
    A.fin = r
    ob(A.sumfin() == total, "the product of the clusters is the product of the given factors")
    check_frame()
