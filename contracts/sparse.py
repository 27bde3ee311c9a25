"""Contracts of veroku/factors/sparse_categorical.py"""
from pyvc.spec import *  # noqa: F401,F403
from pyvc.spec import X
from pyvc import spec
from pyvc.core import *  # noqa: F401,F403
from pyvc.heaplib import LoopInv
from pyvc.interp import Builtin
from pyvc.tuplib import *  # noqa: F401,F403
from pyvc import tuplib

SMOD = "veroku.factors.sparse_categorical"
QM = SMOD + ":"
QS = QM + "SparseCategorical."
T1, T2, TT = z3.Const("t1", Tup), z3.Const("t2", Tup), z3.Const("tt", Tup)


def fin_or_ninf(t):
    return z3.Or(XR.is_fin(t), XR.is_ninf(t))


def arg(f_args, kw, i, name, default=None):
    return f_args[i] if len(f_args) > i else kw.get(name, default)


def is_tab(d):
    """a dictionary from tuples to numbers"""
    return isinstance(d, SDict) and not isinstance(d, NDict) and (d._conc == [] or d._conc is None and d.ksort == Tup)


def tdom(d, t):
    return False if d._conc is not None else d.dom(t)


def binfn(it, func):
    """a two-argument function of numbers, as a term"""
    x, y = X.const("fx", XR), X.const("fy", XR)
    with X.binding(x, y):
        runs = X.explore(lambda: it.call(func, [x, y]))
    r = None
    for run in reversed(runs):
        if run.kind not in ("normal", "return") or not is_num(run.value) or run.defs:
            raise Unsupported("a binary operation that may raise")
        r = to_xr(run.value) if r is None else If(And(*run.guards), to_xr(run.value), r)
    return lambda a, b: z3.substitute(r, (x, to_xr(a)), (y, to_xr(b)))


def arbitrary_fn():
    b = X.fresh_decl("bop", [XR, XR], XR)
    return b, Builtin("func", lambda it, a, k: b(to_xr(a[0]), to_xr(a[1])))


def arbitrary_table(tag, n=None):
    D = fresh_table(tag)
    ks = BaseSeq(tag + "_k", Tup, distinct=True)
    X.forall([TT], Iff(ks._mem(TT), D.dom(TT)), ks._mem(TT), D.dom(TT))
    D._keys = ks
    if n is not None:
        X.forall([TT], Implies(D.dom(TT), tlen(TT) == zi(n)), D.dom(TT))
    return D


def new_dict(env):
    """the dictionary the function is building"""
    old = X.memo.get(("building", id(env)))
    if old is not None:
        return old[0]
    ds = {id(v): v for v in env.vars.values() if isinstance(v, SDict) and not isinstance(v, InnerDict) and not v.pre}
    if len(ds) != 1:
        raise Unsupported("not exactly one new dictionary")
    X.memo[("building", id(env))] = (next(iter(ds.values())), env)
    return next(iter(ds.values()))


# ------------------------------------------------------------------ _same_scope_binary_operation
QSS = QM + "_same_scope_binary_operation"


def same_scope_post(A, B, R, f, d, t):
    return And(look(R, t, f(d, d)) == f(look(A, t, d), look(B, t, d)), Implies(tdom(R, t), Or(tdom(A, t), tdom(B, t))))


def same_scope_handler(it, func, a, kw):
    A, B, f, d = arg(a, kw, 0, "probs_table_a"), arg(a, kw, 1, "pribs_table_b"), arg(a, kw, 2, "func"), arg(a, kw, 3, "default")
    if not (is_tab(A) and is_tab(B)):
        return NotImplemented
    axioms()
    g = binfn(it, f)
    R = fresh_table("ss")
    pats = [R.dom(TT), R.get(TT)]
    for M in (A, B):
        m = tdom(M, TT)
        pats += [q for q in (pick_patterns([TT], m) if isz(m) else []) if len(q) == 1]
    X.forall([TT], same_scope_post(A, B, R, g, to_xr(d), TT), *pats)
    return R


callee(QSS, same_scope_handler)


@contract("LEMMA:" + QSS, "_same_scope_binary_operation combines the stored or default values of both tables", [QSS])
def same_scope(it):
    setup()
    axioms()
    A, B = arbitrary_table("A"), arbitrary_table("B")
    f, fo = arbitrary_fn()
    d = X.const("default", XR)
    start()
    R = it.call(it.get_func(SMOD, "_same_scope_binary_operation"), [A, B, fo, d])
    t = X.const("t", Tup)
    ob(is_tab(R), "a table")
    ob(same_scope_post(A, B, R, f, d, t), "every entry, stored or default, is the operation on the operands' entries")
    check_frame()


# ------------------------------------------------------------------ _get_nested_sorted_probs
QN = QM + "_get_nested_sorted_probs"


def make_comb(VO, VI, V):
    """comb(o, i): the tuple over V whose entries at the outer variables are o's and at the inner ones i's"""
    comb = X.fresh_fn("comb", [Tup, Tup], Tup)
    c = comb(T1, T2)
    k = z3.Int("k")
    X.forall([T1, T2], And(tk(c), tlen(c) == zi(V.length())), c)
    v = V.get(k)
    X.forall([T1, T2, k], Implies(InR(0, k, V.length()), tat(c, k) == If(VO.mem(v), tat(T1, zi(VO.pos(v))), tat(T2, zi(VI.pos(v))))), tat(c, k))
    return comb


def nested_has(VO, VI, D, comb, o, i):
    return And(tlen(o) == zi(VO.length()), tlen(i) == zi(VI.length()), D.dom(comb(o, i)))


def split_ok(VO, VI, V):
    """VO and VI have different elements and together are exactly V"""
    x = X.const("x", Name)
    return [(VO.distinct_goal(), ""), (VI.distinct_goal(), ""), (V.distinct_goal(), ""), (Not(And(VO.mem(x), VI.mem(x))), ""),
            (Iff(V.mem(x), Or(VO.mem(x), VI.mem(x))), ""), (zi(V.length()) == zi(VO.length()) + zi(VI.length()), "")]


def nested_handler(it, func, a, kw):
    VO, VI, V, D = (arg(a, kw, i, n) for i, n in enumerate(("new_variables_order_outer", "new_variables_order_inner", "old_variable_order", "old_assign_probs")))
    if not (is_tab(D) and D._conc is None and all(isinstance(v, PList) and v.kind == "list" for v in (VO, VI, V))):
        return NotImplemented
    so, si, s = VO.seq, VI.seq, V.seq
    axioms()
    for g, _ in split_ok(so, si, s)[:5]:
        if not X.holds(g):
            return NotImplemented
    t = X.const("kt", Tup)
    if not X.holds(Implies(D.dom(t), tlen(t) == zi(s.length()))):
        return NotImplemented
    # the number of elements of a disjoint union (finite sets)
    X.trusted.add("the lengths of two lists without common elements that together list the elements of a third add up to its length")
    X.assume(zi(s.length()) == zi(so.length()) + zi(si.length()))
    comb = make_comb(so, si, s)
    N = fresh_nested("nst")
    wit = X.fresh_fn("nstw", [Tup], Tup)
    # the outer and the inner part of a key (a definition)
    po, pi = X.fresh_fn("nsto", [Tup], Tup), X.fresh_fn("nsti", [Tup], Tup)
    k = z3.Int("k")
    for f, q in ((po, so), (pi, si)):
        X.forall([TT], And(tk(f(TT)), tlen(f(TT)) == zi(q.length())), f(TT))
        X.forall([TT, k], Implies(InR(0, k, q.length()), tat(f(TT), k) == tat(TT, zi(s.pos(q.get(k))))), tat(f(TT), k))
    X.forall([TT], Implies(D.dom(TT), comb(po(TT), pi(TT)) == TT), D.dom(TT))
    h = nested_has(so, si, D, comb, T1, T2)
    X.forall([T1, T2], Iff(N.has(T1, T2), h), N.nest.idom(T1, T2), comb(T1, T2))
    X.forall([T1, T2], Implies(h, N.nest.iget(T1, T2) == to_xr(D.get(comb(T1, T2)))), N.nest.iget(T1, T2))
    X.forall([T1], Implies(N.dom(T1), N.has(T1, wit(T1))), N.dom(T1))
    N.comb, N.split, N.table, N.olen = comb, (so, si, s), D, zi(so.length())
    N.wit = wit
    X.memo.setdefault("splits", []).append(N)
    order = PList(ConcatSeq(so, si), "list")
    return PList(CSeq([N, order]), "tuple")


callee(QN, nested_handler)


@contract("LEMMA:" + QN, "_get_nested_sorted_probs splits every entry of the table by variable name", [QN])
def nested(it):
    setup()
    axioms()
    VO, VI, V = BaseSeq("outer", Name, distinct=True), BaseSeq("inner", Name, distinct=True), BaseSeq("names", Name, distinct=True)
    x = z3.Const("x", Name)
    X.forall([x], And(V._mem(x) == z3.Or(VO._mem(x), VI._mem(x)), z3.Not(z3.And(VO._mem(x), VI._mem(x)))), V._mem(x), VO._mem(x), VI._mem(x))
    X.assume(V.length() == VO.length() + VI.length())
    D = arbitrary_table("D", V.length())
    comb = make_comb(VO, VI, V)
    ks = D._keys
    nl, vl, il = PList(VO), PList(VI), PList(V)
    start()
    st = {}

    def has_upto(o, i, j):
        return And(nested_has(VO, VI, D, comb, o, i), ks._pos(comb(o, i)) < j)

    def havoc(it, env, i):
        d = new_dict(env)
        N = fresh_nested("inv")
        make_nested(d, N._dom, N.nest)
        st["w"] = X.fresh_fn("invw", [Tup], Tup)
        return [d]

    def clauses(C, it, env, j):
        d = new_dict(env)
        if C.mode == "check" and not isinstance(d, NDict):
            C.add("empty before the loop", d._conc == [] and (isz(j) and z3.is_int_value(j)))
            return
        C.forall("entries so far", [Tup, Tup], lambda o, i: Iff(d.has(o, i), has_upto(o, i, j)), lambda o, i: [d.nest.idom(o, i), comb(o, i)])
        C.forall("values so far", [Tup, Tup], lambda o, i: Implies(has_upto(o, i, j), to_xr(d.nest.iget(o, i)) == to_xr(D.get(comb(o, i)))), lambda o, i: [d.nest.iget(o, i)])
        if C.mode == "assume":
            C.forall("", [Tup], lambda o: Implies(d.dom(o), d.has(o, st["w"](o))), lambda o: [d.dom(o)])
        else:
            o = X.const("o", Tup)
            goal = Or(d.has(o, st["w"](o)), *[d.has(o, i) for i in getattr(d, "last_inner", [])])
            C.add("no empty inner table", Implies(d.dom(o), goal))
    it.loop_invs[(QN, 0)] = LoopInv("entries", havoc, clauses, loops=2)
    r = it.call(it.get_func(SMOD, "_get_nested_sorted_probs"), [nl, vl, il, D])
    N, order = it.unpack(r, 2)
    o, i = X.const("o", Tup), X.const("i", Tup)
    ob(isinstance(N, NDict), "a dictionary of dictionaries")
    ob(Iff(N.has(o, i), nested_has(VO, VI, D, comb, o, i)), "an entry for exactly the stored assignments")
    ob(Implies(nested_has(VO, VI, D, comb, o, i), to_xr(N.nest.iget(o, i)) == to_xr(D.get(comb(o, i)))), "every entry keeps its value")
    ob(Implies(N.dom(o), N.has(o, st["w"](o))), "no empty inner table")
    check_frame()


# ------------------------------------------------------------------ _flatten_ntd
QF = QM + "_flatten_ntd"


def parts(t, L):
    return tsub(t, z3.IntVal(0), zi(L)), tsub(t, zi(L), tlen(t) - zi(L))


def flat_at(N, L, t):
    pre, suf = parts(t, L)
    return And(tlen(t) >= zi(L), N.has(pre, suf)), to_xr(N.nest.iget(pre, suf))


def flatten_handler(it, func, a, kw):
    N = arg(a, kw, 0, "ntd")
    L = getattr(N, "olen", None)
    if not isinstance(N, NDict) or L is None:
        return NotImplemented
    axioms()
    o = X.const("ko", Tup)
    if not X.holds(Implies(N.dom(o), tlen(o) == zi(L))):
        return NotImplemented
    F = fresh_table("flat")
    h, v = flat_at(N, L, TT)
    X.forall([TT], And(Iff(F.dom(TT), h), Implies(h, F.get(TT) == v)), F.dom(TT), F.get(TT))
    return F


callee(QF, flatten_handler)


def arbitrary_nested(tag, L):
    N = fresh_nested(tag)
    X.forall([T1], Implies(N.dom(T1), tlen(T1) == zi(L)), N.dom(T1))
    return N


@contract("LEMMA:" + QF, "_flatten_ntd joins the outer and inner keys", [QF])
def flatten(it):
    setup()
    axioms()
    L = X.const("L", Int)
    X.assume(L >= 0)
    N = arbitrary_nested("N", L)
    start()
    st = {}

    def havoc(it, env, i):
        d = new_dict(env)
        f = fresh_table("finv")
        make_table(d, f._dom, f._get)
        return [d]

    def state(env):
        d = new_dict(env)
        return (lambda t: tdom(d, t)), (lambda t: to_xr(d.get(t)) if d._conc is None else XR.nan)

    def clauses_for(cond):
        def clauses(C, it, env, i):
            dom, get = state(env)
            C.forall("entries so far", [Tup], lambda t: Iff(dom(t), cond(t, i)), lambda t: [dom(t)])
            C.forall("values so far", [Tup], lambda t: Implies(cond(t, i), get(t) == flat_at(N, L, t)[1]), lambda t: [get(t)])
        return clauses

    def outer(t, i):
        return And(flat_at(N, L, t)[0], st["o"].seq.pos(parts(t, L)[0]) < i)

    def inner(t, j):
        pre, suf = parts(t, L)
        return And(flat_at(N, L, t)[0], Or(st["o"].seq.pos(pre) < st["i"], And(st["o"].seq.pos(pre) == st["i"], st["n"].seq.pos(suf) < j)))
    st["o"] = LoopInv("outer keys", havoc, clauses_for(outer), loops=2)
    st["n"] = LoopInv("inner keys", havoc, clauses_for(inner), loops=2)

    def before(it, env, i):
        st["i"] = i
    st["o"].before_body = before
    it.loop_invs[(QF, 0)], it.loop_invs[(QF, 1)] = st["o"], st["n"]
    r = it.call(it.get_func(SMOD, "_flatten_ntd"), [N])
    t = X.const("t", Tup)
    h, v = flat_at(N, L, t)
    ob(is_tab(r), "a table")
    ob(Iff(tdom(r, t), h), "an entry for exactly the nested entries")
    ob(Implies(h, to_xr(r.get(t)) == v), "every entry keeps its value")
    check_frame()


# ------------------------------------------------------------------ _make_inner_dense
QD = QM + "_make_inner_dense"


def card_fn(seq):
    return lambda k: zi(seq.get(k))


def inner_dense_handler(it, func, a, kw):
    N, cards, d = arg(a, kw, 0, "sparse_nested_table"), arg(a, kw, 1, "outer_inner_cards"), arg(a, kw, 2, "default_value")
    if not isinstance(N, NDict) or not isinstance(cards, PList) or not is_num(d):
        return NotImplemented
    axioms()
    s = lib.iter_seq(it, cards.seq.get(1))
    M = fresh_nested("dense")
    M.olen = getattr(N, "olen", None)
    k = z3.Int("k")
    d = to_xr(d)
    M._dom = N._dom
    X.forall([T1, TT], And(look2(M, T1, TT, d) == look2(N, T1, TT, d), Implies(And(M.has(T1, TT), Not(N.has(T1, TT))), tlen(TT) == zi(s.length()))),
             M.nest.idom(T1, TT), M.nest.iget(T1, TT))
    X.forall([T1, TT, k], Implies(And(M.has(T1, TT), Not(N.has(T1, TT)), InR(0, k, s.length())), InR(0, tat(TT, k), card_fn(s)(k))),
             [M.nest.idom(T1, TT), tat(TT, k)])
    return M


callee(QD, inner_dense_handler)


@contract("LEMMA:" + QD, "_make_inner_dense adds default entries only", [QD])
def inner_dense(it):
    setup()
    axioms()
    N = fresh_nested("N")
    oc, ic = BaseSeq("ocards", Int), BaseSeq("icards", Int)
    d = X.const("default", XR)
    cards = PList(CSeq([PList(oc), PList(ic)]))
    start()

    def havoc(it, env, i):
        M = new_dict(env)
        f = fresh_nested("dinv")
        make_nested(M, M._dom, f.nest)
        return [M]

    def clauses(C, it, env, i):
        M = new_dict(env)
        C.forall("same outer keys", [Tup], lambda o: Iff(M.dom(o), N.dom(o)), lambda o: [M.dom(o)])
        C.forall("same values", [Tup, Tup], lambda o, t: look2(M, o, t, d) == look2(N, o, t, d), lambda o, t: [M.nest.idom(o, t), M.nest.iget(o, t)])
        C.forall("added keys: length", [Tup, Tup], lambda o, t: Implies(And(M.has(o, t), Not(N.has(o, t))), tlen(t) == zi(ic.length())), lambda o, t: [M.nest.idom(o, t)])
        C.forall("added keys: range", [Tup, Tup, Int], lambda o, t, k: Implies(And(M.has(o, t), Not(N.has(o, t)), InR(0, k, ic.length())),
                                                                              InR(0, tat(t, k), ic.at(k))), lambda o, t, k: [[M.nest.idom(o, t), tat(t, k)]])
    for k in range(2):
        it.loop_invs[(QD, k)] = LoopInv(f"default entries ({'outer' if k == 0 else 'inner'} loop)", havoc, clauses, loops=2)
    M = it.call(it.get_func(SMOD, "_make_inner_dense"), [N, cards, d])
    o, t, k = X.const("o", Tup), X.const("t", Tup), X.const("k", Int)
    ob(isinstance(M, NDict), "a dictionary of dictionaries")
    ob(Iff(M.dom(o), N.dom(o)), "the same outer keys")
    ob(look2(M, o, t, d) == look2(N, o, t, d), "the same value, stored or default, at every pair of keys")
    ob(Implies(And(M.has(o, t), Not(N.has(o, t))), tlen(t) == zi(ic.length())), "added keys have the inner length")
    ob(Implies(And(M.has(o, t), Not(N.has(o, t)), InR(0, k, ic.length())), InR(0, tat(t, k), ic.at(k))), "added keys are in range")
    check_frame()


# ------------------------------------------------------------------ _apply_any_scope_binary_opp
QA = QM + "_apply_any_scope_binary_opp"


def with_default(N, F, a, t, d):
    """the entry a[t] of a nested table whose missing inner tables are F"""
    inner = If(N.nest.idom(a, t), to_xr(N.nest.iget(a, t)), d)
    return If(N.dom(a), inner, look(F, t, d) if F is not None else d)


def in_default(N, F, a, t):
    return If(N.dom(a), N.nest.idom(a, t), tdom(F, t) if F is not None else False)


class AnyScope:
    def __init__(self, NA, NB, FA, FB, s0, s1, f, d):
        self.NA, self.NB, self.FA, self.FB, self.s0, self.s1, self.f, self.d = NA, NB, FA, FB, s0, s1, f, d
        self.dn = f(d, d)

    def F(self, a, b, t):
        return self.f(with_default(self.NA, self.FA, a, t, self.d), with_default(self.NB, self.FB, b, t, self.d))

    def keys(self, R, o, la, lb):
        pre, suf = parts(o, la)
        return Implies(R.dom(o), And(tlen(o) == zi(la) + zi(lb), self.s0.mem(pre), self.s1.mem(suf)))

    def inner_keys(self, R, o, t, la):
        pre, suf = parts(o, la)
        return Implies(R.has(o, t), Or(in_default(self.NA, self.FA, pre, t), in_default(self.NB, self.FB, suf, t)))


def any_scope_handler(it, func, a, kw):
    names = ("ntd_a", "ntd_b", "full_sd_a_default_sub_table", "full_sd_b_default_sub_table", "symmetric_difference_combinations", "func", "default")
    NA, NB, FA, FB, S, f, d = (arg(a, kw, i, n) for i, n in enumerate(names))
    if not (isinstance(NA, NDict) and isinstance(NB, NDict) and is_num(d)):
        return NotImplemented
    for F in (FA, FB):
        if F is not None and not is_tab(F):
            return NotImplemented
    seq = S._seq if isinstance(S, PList) else None
    if getattr(seq, "pairs", None) is None:
        return NotImplemented
    axioms()
    (s0, s1), p, q = seq.pairs
    A = AnyScope(NA, NB, FA, FB, s0, s1, binfn(it, f), to_xr(d))
    la, lb = getattr(NA, "olen", None), getattr(NB, "olen", None)
    if la is None or lb is None:
        return NotImplemented
    x, y = X.const("ka", Tup), X.const("kb", Tup)
    pre = [s0.distinct_goal(), s1.distinct_goal(), Implies(s0.mem(x), tlen(x) == zi(la)), Implies(s1.mem(y), tlen(y) == zi(lb))]
    pre += [Implies(s.mem(x), N.dom(x)) for s, N, F in ((s0, NA, FA), (s1, NB, FB)) if F is None]
    if not all(X.holds(g) for g in pre):
        return NotImplemented
    lib.consume(it, S)
    R = fresh_nested("any")
    X.memo.setdefault("anyscopes", []).append((A, R))
    R.olen = zi(la) + zi(lb)
    X.forall([T1], A.keys(R, T1, la, lb), R.dom(T1))
    X.forall([T1, TT], A.inner_keys(R, T1, TT, la), R.nest.idom(T1, TT))
    ab = tcat(T1, T2)
    X.forall([T1, T2, TT], Implies(And(s0.mem(T1), s1.mem(T2)), look2(R, ab, TT, A.dn) == A.F(T1, T2, TT)), R.nest.idom(ab, TT))
    return R


callee(QA, any_scope_handler)


def any_scope(none):
    def run(it):
        setup()
        axioms()
        la, lb = X.const("la", Int), X.const("lb", Int)
        X.assume(And(la >= 0, lb >= 0))
        NA, NB = fresh_nested("A"), fresh_nested("B")
        s0, s1 = BaseSeq("outa", Tup, distinct=True), BaseSeq("outb", Tup, distinct=True)
        for s, n, N in ((s0, la, NA), (s1, lb, NB)):
            X.forall([TT], Implies(s._mem(TT), And(tlen(TT) == n, N.dom(TT) if none else True)), s._mem(TT))
        FA, FB = (None, None) if none else (arbitrary_table("FA"), arbitrary_table("FB"))
        f, fo = arbitrary_fn()
        d = X.const("default", XR)
        A = AnyScope(NA, NB, FA, FB, s0, s1, f, d)
        S = tuplib.product(it, [PList(s0), PList(s1)], {})
        q = S._seq.pairs[2]
        start()
        idx = lambda a, b: q(s0._pos(a), s1._pos(b))  # noqa: E731

        def havoc(it, env, i):
            R = new_dict(env)
            g = fresh_nested("ainv")
            make_nested(R, g._dom, g.nest)
            return [R]

        def clauses(C, it, env, i):
            R = new_dict(env)
            if C.mode == "check" and not isinstance(R, NDict):
                C.add("empty before the loop", R._conc == [])
                return
            C.forall("outer keys", [Tup], lambda o: A.keys(R, o, la, lb), lambda o: [R.dom(o)])
            C.forall("inner keys", [Tup, Tup], lambda o, t: A.inner_keys(R, o, t, la), lambda o, t: [R.nest.idom(o, t)])
            C.forall("stored values", [Tup, Tup], lambda o, t: Implies(R.dom(o), look2(R, o, t, A.dn) == A.F(*parts(o, la), t)), lambda o, t: [R.nest.idom(o, t)])
            C.forall("dropped combinations have only default values", [Tup, Tup, Tup],
                     lambda a, b, t: Implies(And(s0._mem(a), s1._mem(b), idx(a, b) < i, Not(R.dom(tcat(a, b)))), A.F(a, b, t) == A.dn),
                     lambda a, b, t: [R.nest.idom(tcat(a, b), t), [tcat(a, b), NA.nest.idom(a, t)], [tcat(a, b), NB.nest.idom(b, t)]])
        it.loop_invs[(QA, 0)] = LoopInv("combinations", havoc, clauses, loops=1)
        R = it.call(it.get_func(SMOD, "_apply_any_scope_binary_opp"), [NA, NB, FA, FB, S, fo, d])
        ob(isinstance(R, NDict), "a dictionary of dictionaries")
        o, t, a, b = (X.const(n, Tup) for n in "otab")
        ob(A.keys(R, o, la, lb), "outer keys join one listed key of each operand")
        ob(A.inner_keys(R, o, t, la), "inner keys come from the operands")
        ob(Implies(And(s0.mem(a), s1.mem(b)), look2(R, tcat(a, b), t, A.dn) == A.F(a, b, t)), "value at every listed combination")
        check_frame()
    return run


contract("LEMMA:" + QA, "_apply_any_scope_binary_opp on stored combinations", [QA])(any_scope(True))
contract("LEMMA:" + QA, "_apply_any_scope_binary_opp on all combinations", [QA])(any_scope(False))


# ------------------------------------------------------------------ arbitrary sparse factors
def spa(it, tag, names=None, cardf=None, default=None, dense_vals=fin_or_ninf):
    """an arbitrary sparse factor, built by the real constructor"""
    axioms()
    C = it.get_class(SMOD, "SparseCategorical")
    ns = names if names is not None else BaseSeq(tag + "_n", Name, distinct=True)
    if cardf is None:
        cf = X.fresh_fn(tag + "_card", [Name], Int)
        cardf = lambda x: cf(x)  # noqa: E731
    x, k = z3.Const("x", Name), z3.Int("k")
    if isinstance(ns, BaseSeq):
        X.forall([x], Implies(ns.mem(x), cardf(x) >= 1), cardf(x))
    D = arbitrary_table(tag + "_D", ns.length())
    X.forall([TT, k], Implies(And(D.dom(TT), InR(0, k, ns.length())), InR(0, tat(TT, k), cardf(ns.get(k)))), [D.dom(TT), tat(TT, k)])
    X.forall([TT], Implies(D.dom(TT), dense_vals(to_xr(D.get(TT)))), D.get(TT))
    if default is None:
        default = X.const(tag + "_default", XR)
        X.assume(dense_vals(default))
    kw = {"log_probs_table": D, "cardinalities": PList(FnSeq(ns.length(), lambda i: cardf(ns.get(i))), "list"), "default_log_prob": default}
    f = it.call(C, [PList(ns, "list")], kw)
    g = Ghost(f, ns, lambda sig: look(D, sigma_key(ns, sig), default), cardf)
    g.D, g.default = D, default
    return g


def sigma_key(ns, sig):
    """the key of the named assignment sig in a table over the variables ns"""
    if isinstance(ns, ConcatSeq):
        return tcat(sigma_key(ns.a, sig), sigma_key(ns.b, sig))
    key = ("sigkey", id(ns), id(sig))
    if key not in X.memo:
        X.memo[key] = (tupterm(FnSeq(ns.length(), lambda i: zi(sig(ns.get(i))))), ns, sig)
    return X.memo[key][0]


def svalue(it, f, sig):
    """log value of a sparse factor at a named assignment"""
    return look(it.getattr(f, "log_probs_table"), sigma_key(names_of(it, f), sig), it.getattr(f, "default_log_prob"))


def check_spa_inv(it, f, card, label="class invariant", outer=None):
    """cardinalities, var_cards and the keys of the table agree with the variables"""
    ns, D, cs = names_of(it, f), it.getattr(f, "log_probs_table"), it.getattr(f, "cardinalities")
    ob(is_tab(D), label + ": a table")
    ob(zi(cs.seq.length()) == zi(ns.length()), label + ": number of cardinalities")
    d, x, t = X.const("d", Int), X.const("x", Name), X.const("t", Tup)
    ob(Implies(InR(0, d, ns.length()), eq(cs.seq.get(d), card(ns.get(d)))), label + ": cardinalities")
    vc = it.getattr(f, "var_cards")
    ob(Iff(vc.dom(x), ns.mem(x)), label + ": var_cards keys")
    ob(Implies(ns.mem(x), eq(vc.get(x), card(x))), label + ": var_cards values")
    ob(Implies(tdom(D, t), tlen(t) == zi(ns.length())), label + ": key length")
    with X.local():
        rng = InR(0, tat(t, d), card(ns.get(d)))
        for lo, hi in hint_key(ns, t, d, outer):
            with X.local():
                X.assume(And(lo <= d, d < hi))
                ob(Implies(tdom(D, t), rng), label + ": key range")


def step(goal):
    """an intermediate claim: used from here on when it is proved, ignored otherwise"""
    if X.holds(goal):
        X.assume(goal)
        return True
    return False


def hint_value(sig, ns=None):
    """the keys at which the tables split by name are read at the assignment sig, and the parts of the result's key"""
    for N in X.memo.get("splits", []):
        so, si, s = N.split
        o, i, k = sigma_key(so, sig), sigma_key(si, sig), sigma_key(s, sig)
        X.hint(o, i, k)
        step(N.comb(o, i) == k)
        step(Iff(N.has(o, i), N.table.dom(k)))
        step(Implies(N.nest.idom(o, i), N.nest.iget(o, i) == to_xr(N.table.get(k))))
        step(Implies(N.has(o, i), N.dom(o)))
    if ns is not None:
        cut_key(ns, sig)
        for A, R in X.memo.get("anyscopes", []):
            NN = X.memo["splits"]
            if len(NN) != 2 or not isinstance(ns, ConcatSeq) or not isinstance(ns.a, ConcatSeq):
                continue
            (a, b, i), d = [sigma_key(q, sig) for q in (ns.a.a, ns.a.b, ns.b)], A.d
            ina, inb = A.s0.mem(a), A.s1.mem(b)
            step(Iff(ina, NN[0].dom(a)) if A.FA is None else ina)
            step(Iff(inb, NN[1].dom(b)) if A.FB is None else inb)
            for N, F, k, D, q in ((A.NA, A.FA, a, NN[0], 0), (A.NB, A.FB, b, NN[1], 1)):
                step(Implies((ina, inb)[q], with_default(N, F, k, i, d) == look(D.table, sigma_key(D.split[2], sig), d)))
            step(Implies(And(ina, inb), look2(R, tcat(a, b), i, A.dn) == A.F(a, b, i)))
            step(Implies(R.dom(tcat(a, b)), And(ina, inb)))


def hint_fills(D, t, to, ns, nt):
    """loops over the table D that fill another table: they take the entry of key t to key `to`"""
    for bvs, kk, h, last in X.memo.get("dfills", []):
        if len(bvs) == 1:
            step(Implies(D.dom(t), subst(kk, [(bvs[0], zi(D._keys.pos(t)))]) == to))
            t2 = D._keys.get(last[0](to))
            d = tdiff(t2, t)
            step(Implies(And(h(to), InR(0, d, tlen(t))), tat(t2, d) == tat(to, zi(nt.pos(ns.get(d))))))
            step(Implies(h(to), t2 == t))


def cut_key(ns, sig):
    if not isinstance(ns, ConcatSeq):
        return
    t, a, b = sigma_key(ns, sig), sigma_key(ns.a, sig), sigma_key(ns.b, sig)
    X.hint(t)
    n = zi(ns.a.length())
    step(tlen(a) == n)
    step(tsub(t, z3.IntVal(0), n) == a)
    step(tsub(t, n, tlen(t) - n) == b)
    cut_key(ns.a, sig)
    cut_key(ns.b, sig)


def hint_key(ns, t, d, outer=None):
    """the entries of the operands a key t of the result stems from, at the position of the result's d-th variable"""
    parts_, lo, out = [], z3.IntVal(0), []

    def cut(n):
        if isinstance(n, ConcatSeq):
            cut(n.a), cut(n.b)
        else:
            parts_.append(n)
    cut(ns)
    for n in parts_:
        X.hint(tsub(t, lo, zi(n.length())))
        hi = z3.simplify(lo + zi(n.length()))
        out.append((lo, hi))
        lo = hi
    v = ns.get(d)
    for N in X.memo.get("splits", []):
        so, si, s = N.split
        o, i, lo = outer, None, z3.IntVal(0)
        for n in parts_:
            c = tsub(t, lo, zi(n.length()))
            lo = z3.simplify(lo + zi(n.length()))
            if n is so:
                o = c
            if n is si or (isinstance(n, Seq) and zi(n.length()).eq(zi(si.length()))):
                i = c
        if o is None:
            continue
        for j in (i, N.wit(o)):
            if j is not None:
                X.hint(tat(N.comb(o, j), zi(s.pos(v))))
    return out


def spa_pair(it):
    setup()
    cf = X.fresh_fn("card", [Name], Int)
    d = X.const("default", XR)
    a = spa(it, "a", cardf=lambda x: cf(x), default=d)
    b = spa(it, "b", cardf=lambda x: cf(x), default=d)
    X.assume(fin_or_ninf(d))
    start()
    return a, b


def sbinary(method, op, pre=None):
    def run(it):
        a, b = spa_pair(it)
        r = it.call(it.getattr(a.f, method), [b.f])
        if not check_class(r, "SparseCategorical"):
            return
        check_scope(it, r, lambda x: Or(a.names.mem(x), b.names.mem(x)))
        sig = sigma("sig", a, b)
        if pre is not None:
            X.assume(pre(a.val(sig), b.val(sig)))
        with X.local():
            hint_value(sig, names_of(it, r))
            ob(same(svalue(it, r, sig), op(a.val(sig), b.val(sig))), "value at every joint assignment")
        check_spa_inv(it, r, a.card)
        check_frame()
        fresh_roots(it, r, [a.f, b.f])
    return run


from contracts.categorical import cancel_op, perm_list, subset_list  # noqa: E402

for _m, _op in (("multiply", xadd), ("absorb", xadd), ("__mul__", xadd), ("divide", xsub), ("__div__", xsub)):
    contract("C09", f"SparseCategorical.{_m}", [QS + _m, QS + "_apply_binary_operator"])(sbinary(_m, _op))
contract("C05", "SparseCategorical.cancel", [QS + "cancel", QS + "_apply_binary_operator"])(
    sbinary("cancel", cancel_op, lambda x, y: Implies(XR.is_ninf(y), XR.is_ninf(x))))


# ------------------------------------------------------------------ C10 observation
def sreduce(method, vkind):
    def run(it):
        setup()
        a = spa(it, "a")
        vs = BaseSeq("vrs", Name, distinct=True)
        x = z3.Const("x", Name)
        X.forall([x], Implies(vs.mem(x), a.names.mem(x)), vs._mem(x), vs._pos(x))
        vals = BaseSeq("vals", Int, length=vs.length())
        i = z3.Int("i")
        X.forall([i], Implies(And(InR(0, i, vs.length()), a.names.mem(vs.at(i))), InR(0, vals.at(i), a.card(vs.at(i)))), vs.at(i), vals.at(i))
        vl, vv = PList(vs, "list"), PList(vals, vkind)
        start()
        r = it.call(it.getattr(a.f, method), [vl, vv])
        if not check_class(r, "SparseCategorical"):
            return
        check_scope(it, r, lambda x: And(a.names.mem(x), Not(vs.mem(x))))
        sig = sigma("sig", a)
        ext = lambda x: If(vs.mem(x), vals.at(vs.pos(x)), sig(x))  # noqa: E731
        with X.local():
            hint_value(ext)
            ob(same(svalue(it, r, sig), a.val(ext)), "value is the original value at the extended assignment")
        check_spa_inv(it, r, a.card, outer=tupterm(PList(vals, "tuple")))
        check_frame()
        fresh_roots(it, r, [a.f])
    return run


contract("C10", "SparseCategorical.reduce list", [QS + "reduce"])(sreduce("reduce", "list"))
contract("C10", "SparseCategorical.reduce tuple", [QS + "reduce"])(sreduce("reduce", "tuple"))
contract("C10", "SparseCategorical.observe", [QS + "observe", QS + "reduce"])(sreduce("observe", "list"))


# ------------------------------------------------------------------ _logsumexp_with_implicit
QL = QS + "_logsumexp_with_implicit"


def box_lse(n, card, body, label=None):
    """log of the sum of exp(body(J)) over the box of n axes with card(k) values each"""
    return BigOp("lse", n, card, body, XR, label=label, base="lse").term


def entry_at(L, q, n, sub=()):
    """J -> the table's entry (stored or default) at the tuple J(0), ..., J(n-1); L is the entry at q"""
    def body(J):
        t = tupterm(FnSeq(n, lambda k: zi(J(k))))
        return subst(L, [(q, t)] + list(sub))
    return body


def lsei_handler(it, func, a, kw):
    f, D, num = a[0] if a else None, arg(a, kw, 1, "log_probs_table"), arg(a, kw, 2, "num_assignments")
    if not isinstance(f, Obj) or not is_tab(D) or not isz(num):
        return NotImplemented
    P = X.bigops.get(num.decl().get_id()) if z3.is_app(num) else None
    if P is None or P.kind != "seqprod" or P.bound:
        return NotImplemented
    axioms()
    d = to_xr(it.getattr(f, "default_log_prob"))
    n, card = P.dims(0), lambda k: zi(P.body(lambda q: zi(k)))
    q, k = X.const("lq", Tup), X.const("lk", Int)
    dom = tdom(D, q)
    pre = [Implies(dom, tlen(q) == zi(n)), Implies(And(dom, InR(0, k, n)), InR(0, tat(q, k), card(k))), fin_or_ninf(d)]
    if dom is not False:
        pre.append(Implies(dom, fin_or_ninf(to_xr(D.get(q)))))
    with X.local():
        N = getattr(D, "parent", None)
        if N is not None and hasattr(N, "comb"):
            X.hint(N.comb(D.key, q), tat(N.comb(D.key, q), zi(N.split[2].pos(N.split[1].get(k)))))
        if not all(X.holds(g) for g in pre):
            return NotImplemented
    X.trusted.add(tuplib.ML)
    L = look(D, q, d)
    names = getattr(getattr(P, "seq", None), "base", None)
    names = names if isinstance(names, Seq) and names.esort() == Name else None
    bound = list(X.bound)
    decl = X.fresh_decl("lsei", [], XR)
    term = decl(*bound)

    def close(done):
        out, seen = [], set()
        for z in X.query_now:
            for u in subterms(z, seen):
                if z3.is_app(u) and u.decl().eq(decl) and not has_var(u):
                    key = ("lsei", u.get_id())
                    if key in done:
                        continue
                    done.add(key)
                    X.memo.setdefault("keep-terms", []).append(u)
                    sub = list(zip(bound, u.children()))
                    n0 = len(X.facts)
                    old, X.bound = X.bound, []
                    try:
                        B = BigOp("lse", subst(n, sub) if isz(n) else n, lambda k: subst(card(k), sub), entry_at(L, q, n, sub), XR, label=names, base="lse")
                    finally:
                        X.bound = old
                    out.append(u == B.term)
                    out += [f.z() for f in X.facts[n0:]]
        return out
    X.closers.append(close)
    return term


callee(QL, lsei_handler)


@contract("LEMMA:" + QL, "_logsumexp_with_implicit adds the missing assignments at the default value", [QL])
def lsei(it):
    setup()
    f = spa(it, "a")
    D = arbitrary_table("D")
    X.forall([TT], Implies(D.dom(TT), fin_or_ninf(to_xr(D.get(TT)))), D.get(TT))
    num = X.const("num", Int)
    m = D._keys.length()
    X.assume(num >= m)
    start()
    r = it.call(it.getattr(f.f, "_logsumexp_with_implicit"), [D, num])
    stored = lambda J: to_xr(D.get(D._keys.get(J(0))))  # noqa: E731
    missing = xadd(f.default, xlog(XR.fin(z3.ToReal(num - m))))
    if X.branch(num > m):
        e = box_lse(1, lambda k: m + 1, lambda J: If(zi(J(0)) < m, stored(J), missing))
    else:
        e = box_lse(1, lambda k: m, stored)
    ob(same(r, e), "the log-sum-exp of the stored values and of default + log(number of missing entries)")
    check_frame()


# ------------------------------------------------------------------ C10 marginalisation
def removed_lse(g, kept, sig):
    """log of the sum of the values of g over all assignments of the variables not kept, the kept ones at sig"""
    ns = g.names
    rem = FilterSeq(ns, lambda i: Not(kept(ns.get(i))), lambda x: Not(kept(x)))

    def body(J):
        t = tupterm(FnSeq(ns.length(), lambda i: If(kept(ns.get(i)), zi(sig(ns.get(i))), zi(J(rem.pos(ns.get(i)))))))
        return look(g.D, t, g.default)
    return box_lse(rem.length(), lambda k: g.card(rem.get(k)), body, label=rem), rem


def smarg(keep, kw):
    def run(it):
        setup()
        a = spa(it, "a")
        vs, vl = subset_list(a)
        start()
        r = it.call(it.getattr(a.f, "marginalize"), [vl], {} if kw is None else {"keep": kw})
        kept = (lambda x: vs.mem(x)) if keep else (lambda x: And(a.names.mem(x), Not(vs.mem(x))))
        if not check_class(r, "SparseCategorical"):
            return
        check_scope(it, r, kept)
        if keep:
            check_names_order(it, r, vs)
        check_spa_inv(it, r, a.card)
        sig = sigma("sig", a)
        e, rem = removed_lse(a, kept, sig)
        v = svalue(it, r, sig)
        for N in X.memo.get("splits", []):
            o = sigma_key(N.split[0], sig)
            X.hint(o, N.wit(o))
            with X.local():
                X.assume(N.dom(o))
                ob(same(v, e), "value is the sum over the removed variables")
            X.assume(Not(N.dom(o)))
        ob(same(v, e), "value is the sum over the removed variables")
        check_frame()
        fresh_roots(it, r, [a.f])
    return run


contract("C10", "SparseCategorical.marginalize keep", [QS + "marginalize"])(smarg(True, True))
contract("C10", "SparseCategorical.marginalize default", [QS + "marginalize"])(smarg(True, None))
contract("C10", "SparseCategorical.marginalize drop", [QS + "marginalize"])(smarg(False, False))


# ------------------------------------------------------------------ C06 normalize
def total_lse(ns, card, D, d):
    """log of the sum of all values of a sparse table (one term per table, cardinalities and default)"""
    q, k = z3.Const("allq", Tup), z3.Int("allk")
    L, n, c = look(D, q, d), zi(ns.length()), zi(card(ns.get(k)))
    key = ("all-lse", L.get_id(), n.get_id(), c.get_id())
    if key not in X.memo:
        X.memo[key] = box_lse(ns.length(), lambda k: card(ns.get(k)), lambda J: look(D, tupterm(FnSeq(ns.length(), lambda i: zi(J(i)))), d), label=ns), L, n, c
    return X.memo[key][0]


def all_lse(g):
    return total_lse(g.names, g.card, g.D, g.default)


@contract("C06", "SparseCategorical.normalize", [QS + "normalize"])
def snormalize(it):
    setup()
    a = spa(it, "a")
    start()
    r = it.call(it.getattr(a.f, "normalize"), [])
    if not check_class(r, "SparseCategorical"):
        return
    check_names_order(it, r, a.names)
    check_spa_inv(it, r, a.card)
    sig = sigma("sig", a)
    ob(same(svalue(it, r, sig), xsub(a.val(sig), all_lse(a))), "every value is divided by the total")
    check_frame()
    fresh_roots(it, r, [a.f])


# ------------------------------------------------------------------ C11 reorder, copy, potential
@contract("C11", "SparseCategorical.reorder", [QS + "reorder"])
def sreorder(it):
    setup()
    a = spa(it, "a")
    o = perm_list(a)
    ol = PList(o, "list")
    start()
    r = it.call(it.getattr(a.f, "reorder"), [ol])
    if not check_class(r, "SparseCategorical"):
        return
    check_names_order(it, r, o)
    sig = sigma("sig", a)
    hint_fills(a.D, sigma_key(a.names, sig), sigma_key(o, sig), a.names, o)
    ob(same(svalue(it, r, sig), a.val(sig)), "same value at every named assignment")
    check_spa_inv(it, r, a.card)
    check_frame()
    fresh_roots(it, r, [a.f])


@contract("C11", "SparseCategorical.copy", [QS + "copy"])
def scopy(it):
    setup()
    a = spa(it, "a")
    start()
    r = it.call(it.getattr(a.f, "copy"), [])
    if not check_class(r, "SparseCategorical"):
        return
    check_names_order(it, r, a.names)
    sig = sigma("sig", a)
    ob(same(svalue(it, r, sig), a.val(sig)), "same value at every named assignment")
    check_spa_inv(it, r, a.card)
    check_frame()
    fresh_roots(it, r, [a.f])


def spotential(kind):
    def run(it):
        setup()
        a = spa(it, "a")
        o = perm_list(a)
        vals = BaseSeq("vals", Int, length=o.length())
        i = z3.Int("i")
        X.forall([i], Implies(InR(0, i, o.length()), InR(0, vals.at(i), a.card(o.at(i)))), o.at(i), vals.at(i))
        ol, vl = PList(o, "list"), PList(vals, kind)
        start()
        r = it.call(it.getattr(a.f, "potential"), [ol, vl])
        sig = lambda x: vals.at(o.pos(x))  # noqa: E731
        ob(same(r, xexp(a.val(sig))), "the table value of the named assignment")
        check_frame()
    return run


contract("C11", "SparseCategorical.potential list", [QS + "potential"])(spotential("list"))
contract("C11", "SparseCategorical.potential tuple", [QS + "potential"])(spotential("tuple"))


# ------------------------------------------------------------------ C20 refusals
def sbad_card(method):
    def run(it):
        setup()
        a, b = spa(it, "a"), spa(it, "b")
        w = X.const("w", Name)
        X.assume(And(a.names.mem(w), b.names.mem(w), a.card(w) != b.card(w)))
        start()
        expect_raise(it, lambda: it.call(it.getattr(a.f, method), [b.f]), "different cardinalities of a shared variable are refused")
    return run


def sbad_kind(method, mod, cls):
    def run(it):
        setup()
        a = spa(it, "a")
        other = Obj(it.get_class(mod, cls))
        start()
        expect_raise(it, lambda: it.call(it.getattr(a.f, method), [other]), "a factor of another kind is refused")
    return run


def saccepted(method):
    def run(it):
        a, b = spa_pair(it)
        it.call(it.getattr(a.f, method), [b.f])
        ob(True, "well-matched operands are accepted")
    return run


for _m in ("multiply", "divide", "cancel"):
    contract("C20", f"SparseCategorical.{_m} cardinalities", [QS + _m])(sbad_card(_m))
    contract("C20", f"SparseCategorical.{_m} Gaussian operand", [QS + _m])(sbad_kind(_m, "veroku.factors.gaussian", "Gaussian"))
    contract("C20", f"SparseCategorical.{_m} dense operand", [QS + _m])(sbad_kind(_m, "veroku.factors.categorical", "Categorical"))
    contract("C20", f"SparseCategorical.{_m} accepts matching operands", [QS + _m])(saccepted(_m))


@contract("C20", "SparseCategorical.kl_divergence cardinalities", [QS + "kl_divergence"])
def skl_card(it):
    setup()
    a = spa(it, "a")
    cf = X.fresh_fn("b_card", [Name], Int)
    b = spa(it, "b", names=perm_list(a, "b_n"), cardf=lambda x: cf(x))
    w = X.const("w", Name)
    X.assume(And(a.names.mem(w), a.card(w) != b.card(w)))
    start()
    expect_raise(it, lambda: it.call(it.getattr(a.f, "kl_divergence"), [b.f]), "different cardinalities of a shared variable are refused")


@contract("C20", "SparseCategorical.__init__ duplicate variables", [QS + "__init__"])
def sdup_vars(it):
    setup()
    C = it.get_class(SMOD, "SparseCategorical")
    ns = BaseSeq("n", Name)
    i, j = X.const("i", Int), X.const("j", Int)
    X.assume(And(0 <= i, i < j, j < ns.length(), ns.at(i) == ns.at(j)))
    cs = BaseSeq("c", Int, length=ns.length())
    D = arbitrary_table("D")
    nl, cl = PList(ns, "list"), PList(cs, "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl, cl], {"log_probs_table": D}), "duplicate variables are refused")


@contract("C20", "SparseCategorical.__init__ cardinalities of another length", [QS + "__init__"])
def sbad_cards(it):
    setup()
    C = it.get_class(SMOD, "SparseCategorical")
    ns, cs = BaseSeq("n", Name, distinct=True), BaseSeq("c", Int)
    X.assume(cs.length() != ns.length())
    D = arbitrary_table("D")
    nl, cl = PList(ns, "list"), PList(cs, "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl, cl], {"log_probs_table": D}), "cardinalities of another length are refused")


@contract("C20", "SparseCategorical.__init__ without a table", [QS + "__init__"])
def sno_table(it):
    setup()
    C = it.get_class(SMOD, "SparseCategorical")
    ns = BaseSeq("n", Name, distinct=True)
    cs = BaseSeq("c", Int, length=ns.length())
    nl, cl = PList(ns, "list"), PList(cs, "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl, cl]), "a factor without a table is refused")

# ------------------------------------------------------------------ C08 equals
def perm_fn(tag, ns, nt):
    """the function that takes a key over the variables ns to the key over nt of the same named assignment"""
    p = X.fresh_fn(tag, [Tup], Tup)
    k = z3.Int("k")
    X.forall([TT], And(tk(p(TT)), tlen(p(TT)) == zi(nt.length())), p(TT))
    X.forall([TT, k], Implies(InR(0, k, nt.length()), tat(p(TT), k) == tat(TT, zi(ns.pos(nt.get(k))))), tat(p(TT), k))
    return p


def mentions(f, prefixes):
    return any(z3.is_app(u) and u.decl().name().startswith(prefixes) for u in subterms(f.z(), set()))


def seqs(method, neg=False, tol=False, scope="any"):
    def run(it):
        setup()
        a = spa(it, "a")
        b = spa(it, "b", names=perm_list(a, "b_n")) if scope == "same" else spa(it, "b")
        kw = {}
        if tol:
            rtol, atol = X.const("rtol", Real), X.const("atol", Real)
            X.assume(And(rtol >= 0, atol >= 0))
            kw = {"rtol": rtol, "atol": atol}
        start()
        if not tol:
            m = it.module(SMOD)
            rtol, atol = lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_RTOL"])), lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_ATOL"]))
        r = it.call(it.getattr(a.f, method), [b.f], kw)
        ans = r if isinstance(r, bool) else X.branch(lib.truth_cond(it, r))
        if neg:
            ans = not ans
        check_frame()
        x = X.const("x", Name)
        if ans:
            ob(Iff(a.names.mem(x), b.names.mem(x)), "answered equal: same variables")
            ob(Implies(a.names.mem(x), a.card(x) == b.card(x)), "answered equal: same cardinalities")
            sig = sigma("sig", a, b)
            ta, tb = sigma_key(a.names, sig), sigma_key(b.names, sig)
            hint_fills(b.D, tb, ta, b.names, a.names)
            X.hint(a.D._keys.pos(ta), b.D._keys.pos(tb), ta, tb)
            ob(close(a.val(sig), b.val(sig), rtol, atol), "answered equal: values agree at every assignment")
            ob(Implies(Not(And(a.D.dom(ta), b.D.dom(tb))), a.val(sig) == b.val(sig)), "answered equal: implicit entries match exactly")
            return
        # answered different: contradict the assumption that everything agrees
        x = z3.Const("x", Name)
        X.forall([x], a.names.mem(x) == b.names.mem(x), a.names.mem(x), b.names.mem(x))
        X.forall([x], Implies(a.names.mem(x), a.card(x) == b.card(x)), a.names.mem(x), b.names.mem(x), a.card(x), b.card(x))
        X.trusted.add("two lists of different names with the same elements have the same length")
        X.assume(zi(a.names.length()) == zi(b.names.length()))
        p, pi = perm_fn("permt", a.names, b.names), perm_fn("permti", b.names, a.names)
        X.forall([TT], Implies(tlen(TT) == zi(b.names.length()), p(pi(TT)) == TT), pi(TT))
        X.forall([TT], Implies(tlen(TT) == zi(a.names.length()), pi(p(TT)) == TT), p(TT))
        n = a.names.length()
        box = Box(n, lambda k: a.card(a.names.get(k)))

        def agree(t):
            u, v = look(a.D, t, a.default), look(b.D, p(t), b.default)
            return If(And(a.D.dom(t), b.D.dom(p(t))), close(u, v, rtol, atol, strict=True), u == v)
        X.forall([TT], Implies(box.p(TT), agree(TT)), tlen(TT), p(TT))
        X.forall([TT], Implies(b.D.dom(TT), box.p(pi(TT))), b.D.dom(TT), pi(TT))
        t = X.const("ft", Tup)
        counting = [c for c in X.closers if getattr(c, "counts", False)]
        X.closers = [c for c in X.closers if c not in counting]
        for _, _, h, _ in X.memo.get("dfills", []):
            g1 = lambda t: Implies(h(t), And(box.p(t), b.D.dom(p(t))))
            g2 = lambda t: Implies(And(box.p(t), b.D.dom(p(t))), h(t))
            with X.fewer(lambda f: not mentions(f, ("exits!", "sprod!", "card!"))):
                X.hint(b.D._keys.pos(p(t)), a.D._keys.pos(t))
                with X.local():
                    hint_fills(b.D, p(t), t, b.names, a.names)
                    ok1 = step(g1(t))
                X.assume(And(box.p(t), b.D.dom(p(t))))
                X.hint(pi(p(t)))
                hint_fills(b.D, p(t), t, b.names, a.names)
                ok2 = step(g2(t))
            if ok1:
                X.forall([TT], g1(TT), h(TT))
            if ok2:
                X.forall([TT], g2(TT), box.p(TT), p(TT))
        X.closers = X.closers + counting
        for seq, w in X.memo.get("exits", []):
            e = seq.get(w)
            t = e.seq.get(0) if isinstance(e, PList) else e
            if not (isz(t) and t.sort() == Tup) or core.has_var(t):
                continue
            u = p(t)
            hint_fills(b.D, u, t, b.names, a.names)
            X.hint(a.D._keys.pos(t), b.D._keys.pos(u))
            step(Implies(Not(box.p(t)), Not(Or(a.D.dom(t), b.D.dom(u)))))
            step(Implies(a.names.length() == 0, u == t))
            step(Implies(b.D.dom(t), u == t))
        ob(False, "answered different only when some assignment differs")
    return run


from contracts.categorical import close  # noqa: E402

contract("C08", "SparseCategorical.equals same scope", [QS + "equals", QS + "_all_non_default_equal"])(seqs("equals", scope="same"))
contract("C08", "SparseCategorical.equals any scope", [QS + "equals", QS + "_all_non_default_equal"])(seqs("equals"))
contract("C08", "SparseCategorical.equals tolerances", [QS + "equals", QS + "_all_non_default_equal"])(seqs("equals", tol=True))
contract("C08", "SparseCategorical.__eq__", [QS + "__eq__"])(seqs("__eq__"))
contract("C08", "SparseCategorical.__ne__", [QS + "__ne__"])(seqs("__ne__", neg=True))


@contract("C08", "SparseCategorical.equals refuses another kind", [QS + "equals"])
def seq_kind(it):
    setup()
    a = spa(it, "a")
    other = Obj(it.get_class("veroku.factors.gaussian", "Gaussian"))
    start()
    expect_raise(it, lambda: it.call(it.getattr(a.f, "equals"), [other]), "another factor kind raises TypeError", ["TypeError"])


# ------------------------------------------------------------------ contracts of the operations, applied at call sites
def parts_of(it, f):
    """names, table and default of a sparse factor whose table is one dictionary from tuples to numbers"""
    if not isinstance(f, Obj) or f.cls.name != "SparseCategorical":
        return None
    ns, D = names_of(it, f), it.getattr(f, "log_probs_table")
    if not is_tab(D) or D._conc is not None or D._keys is None:
        return None
    return ns, D, to_xr(it.getattr(f, "default_log_prob")), lambda x: it.getattr(f, "var_cards").get(x)


def key_inv(D, ns, card):
    """the class invariant of a sparse table: its keys are tuples of the box of its variables"""
    t, k = X.const("it", Tup), X.const("ik", Int)
    return And(Implies(D.dom(t), tlen(t) == zi(ns.length())), Implies(And(D.dom(t), InR(0, k, ns.length())), InR(0, tat(t, k), card(ns.get(k)))))


def result_factor(it, tag, ns, card, default):
    """an arbitrary sparse factor over the variables ns that satisfies the class invariant"""
    k = z3.Int("k")
    M = arbitrary_table(tag, ns.length())
    X.forall([TT, k], Implies(And(M.dom(TT), InR(0, k, ns.length())), InR(0, tat(TT, k), card(ns.get(k)))), [M.dom(TT), tat(TT, k)])
    kw = {"log_probs_table": M, "cardinalities": PList(FnSeq(ns.length(), lambda i: card(ns.get(i))), "list"), "default_log_prob": default}
    r = it.call(it.get_class(SMOD, "SparseCategorical"), [PList(ns, "list")], kw)
    return r, it.getattr(r, "log_probs_table")


def entry_fn(D, d):
    """the value of the table at a key in its box, in terms of the tables it was made from"""
    old = X.memo.get(("entries", id(D)))
    if old is not None and old[1].eq(d):
        return old[0]
    return lambda t: look(D, t, d)


def set_entries(M, d, box, fn):
    """for every key t in the box the stored or default value of M is fn(t)"""
    X.forall([TT], Implies(box.p(TT), look(M, TT, d) == fn(TT)), M.dom(TT), M.get(TT))
    X.memo[("entries", id(M))] = (fn, d, M, box)


def normalize_handler(it, func, a, kw):
    p = parts_of(it, a[0]) if len(a) == 1 and not kw else None
    if p is None:
        return NotImplemented
    ns, D, d, card = p
    if not X.holds(key_inv(D, ns, card)):
        return NotImplemented
    Z = total_lse(ns, card, D, d)
    rd = X.const("nd", XR)
    r, M = result_factor(it, "norm", ns, card, rd)
    g = entry_fn(D, d)
    set_entries(M, rd, Box(ns.length(), lambda k: card(ns.get(k))), lambda t: xsub(g(t), Z))
    return r


def reorder_handler(it, func, a, kw):
    p = parts_of(it, a[0]) if a else None
    o = arg(a, kw, 1, "new_var_names_order")
    if p is None or not isinstance(o, PList):
        return NotImplemented
    ns, D, d, card = p
    x, t, k = X.const("rx", Name), X.const("rt", Tup), X.const("rk", Int)
    if not X.holds(And(key_inv(D, ns, card), Iff(ns.mem(x), o.seq.mem(x)), o.seq.distinct_goal())):
        return NotImplemented
    r, M = result_factor(it, "reord", o.seq, card, d)
    q = perm_fn("rot", o.seq, ns)
    box = Box(o.seq.length(), lambda k: card(o.seq.get(k)))
    # the value fact of the operand is about keys in its box: the renamed key is one
    if not X.holds(Implies(And(box.p(t), InR(0, k, ns.length())), InR(0, tat(q(t), k), card(ns.get(k))))):
        return NotImplemented
    g = entry_fn(D, d)
    set_entries(M, d, box, lambda t: g(q(t)))
    return r


# ------------------------------------------------------------------ _make_dense
QMD = QM + "_make_dense"
BOXSUM = "finite sums: a sum over a list without repetitions of all tuples of a box is the sum over the box"


def boxsums(keys, n, card, names):
    """keys lists every tuple of the box once: sums over the list are sums over the box"""
    X.trusted.add(BOXSUM)
    at = keys.at(z3.Int("k")).decl()

    def box_sum(B):
        """(condition, sum over the box) for a sum over the list"""
        if B is None or B.bound or not isinstance(B.rank, int) or B.rank != 1 or B.kind != "sum":
            return None
        j, q = X.const("bj", Int), X.const("bq", Tup)
        e = B.body(lambda k: j)
        f = z3.substitute(e, (at(j), q)) if isz(e) else e
        if not isz(f) or occurs(j, f):
            return None
        f = z3.substitute(f, *[(M.get(q), fn(q)) for M, fn in X.memo.get("dense", [])])   # equal for q in the box
        return zi(B.dims(0)) == zi(keys.length()), BigOp("sum", n, card, lambda J: subst(f, [(q, tupterm(FnSeq(n, lambda i: zi(J(i)))))]), XR, label=names, base="bsum")

    def close(done):
        out, seen, us = [], set(), {}
        for z in X.query_now:
            for u in subterms(z, seen):
                B = X.bigops.get(u.decl().get_id()) if z3.is_app(u) else None
                if B is not None and B.kind == "sum":
                    us[u.get_id()] = (u, B)
        for u, B in us.values():
            key = ("boxsum", at.get_id(), u.get_id())
            if key in done:
                continue
            done.add(key)
            n0 = len(X.facts)
            S = box_sum(B)
            if S is not None:
                out.append(Implies(S[0], u == S[1].term))
            out += [g.z() for g in X.facts[n0:]]
            del X.facts[n0:]
        return [zb(z) for z in out]
    X.closers.append(close)
    X.memo.setdefault("boxsums", []).append(box_sum)


def equal_sums(B, C):
    """the congruence of sums over the same box: equal terms at an arbitrary index, in queries of their own"""
    J, d = X.fresh_fn("eqJ", [Int], Int), X.const("eqd", Int)
    k = z3.Int("k")
    with X.fewer(lambda f: not mentions(f, ("norm_", "reord_", "md_"))):
        if not X.holds(And(zi(B.rank) == zi(C.rank), Implies(InR(0, d, B.rank), zi(B.dims(d)) == zi(C.dims(d))))):
            return False
        X.forall([k], Implies(InR(0, k, B.rank), InR(0, J(k), B.dims(k))), J(k))
        x, y = B.body(lambda k: J(zi(k))), C.body(lambda k: J(zi(k)))
        tups = [u for e in (x, y) for u in subterms(e, set()) if z3.is_app(u) and u.sort() == Tup]
        uniq = list({u.get_id(): u for u in tups}.values())
        for i, u in enumerate(uniq):
            for v in uniq[:i]:
                step(u == v)
        return X.holds(x == y, 6000) or X.holds(x == y, 9000, seed=7) or X.holds(x == y, 9000, case_split=3, seed=3)


def make_dense_post(M, ns, D, d, card):
    box = Box(ns.length(), lambda k: card(ns.get(k)))
    X.forall([TT], Iff(M.dom(TT), box.p(TT)), M.dom(TT), box.p(TT))
    fn = entry_fn(D, d)
    X.forall([TT], Implies(box.p(TT), M.get(TT) == fn(TT)), M.get(TT))
    X.memo.setdefault("dense", []).append((M, fn))


def make_dense_handler(it, func, a, kw):
    f = arg(a, kw, 0, "factor")
    p = parts_of(it, f)
    if p is None:
        return NotImplemented
    ns, D, d, card = p
    if not X.holds(key_inv(D, ns, card)):
        return NotImplemented
    r, M = result_factor(it, "md", ns, card, d)
    make_dense_post(M, ns, D, d, card)
    boxsums(M._keys, ns.length(), lambda k: card(ns.get(k)), ns)
    return r


callee(QMD, make_dense_handler)


@contract("LEMMA:" + QMD, "_make_dense stores every assignment with its value", [QMD])
def make_dense(it):
    setup()
    a = spa(it, "a")
    start()
    ns, d = a.names, a.default
    box = Box(ns.length(), lambda k: a.card(ns.get(k)))

    def table(env):
        fs = {id(v): v for v in env.vars.values() if isinstance(v, Obj) and v.cls.name == "SparseCategorical" and not v.pre}
        if len(fs) != 1:
            raise Unsupported("not exactly one new factor")
        return it.getattr(next(iter(fs.values())), "log_probs_table")

    def seq_of(env):
        return X.memo["prods"][-1]

    def havoc(it, env, i):
        R = table(env)
        f = arbitrary_table("md", ns.length())
        R._conc, R._dom, R._get, R._keys, R.ksort = None, f._dom, f._get, f._keys, Tup
        return [R]

    def clauses(C, it, env, i):
        R, S = table(env), X.memo["prods"][-1]
        C.forall("keys", [Tup], lambda t: Implies(R.dom(t), box.p(t)), lambda t: [R.dom(t)])
        C.forall("stored entries stay", [Tup], lambda t: Implies(a.D.dom(t), R.dom(t)), lambda t: [a.D.dom(t)])
        C.forall("listed so far", [Tup], lambda t: Implies(And(S._mem(t), S._pos(t) < i), R.dom(t)), lambda t: [S._mem(t)])
        C.forall("values", [Tup], lambda t: Implies(R.dom(t), R.get(t) == look(a.D, t, d)), lambda t: [R.get(t)])
    it.loop_invs[(QMD, 0)] = LoopInv("entries added so far", havoc, clauses, loops=1)
    r = it.call(it.get_func(SMOD, "_make_dense"), [a.f])
    if not check_class(r, "SparseCategorical"):
        return
    check_names_order(it, r, ns)
    M, t = it.getattr(r, "log_probs_table"), X.const("t", Tup)
    for S in X.memo.get("prods", []):
        step(Iff(box.p(t), S._mem(t)))
    ob(Iff(M.dom(t), box.p(t)), "exactly the assignments of the variables are stored")
    ob(Implies(box.p(t), M.get(t) == look(a.D, t, d)), "every assignment is stored with its value")
    ob(same(it.getattr(r, "default_log_prob"), d), "the default value is kept")
    check_spa_inv(it, r, a.card)
    check_frame()
    fresh_roots(it, r, [a.f])


# ------------------------------------------------------------------ C07 kl_divergence
for _q, _fn in ((QS + "normalize", snormalize), (QS + "reorder", sreorder)):
    contract("LEMMA:" + _q, _q.split(".")[-1] + " (as in C06, C11)", [_q])(_fn)


def with_ops(it):
    it.contracts[QS + "normalize"] = normalize_handler
    it.contracts[QS + "reorder"] = reorder_handler


def total_of(it, g):
    ns, D, d, card = parts_of(it, g.f)
    return total_lse(ns, card, D, d)


def claim_sum(it, qual, K):
    """an intermediate claim: the sum that the call of the function returns is K (it does not replace the body)"""
    def h(it, func, a, kw):
        r = it.exec_func(func, a, kw)
        B, C = X.bigops.get(r.decl().get_id()), X.bigops.get(K.decl().get_id())
        for box_sum in X.memo.get("boxsums", []):
            S = box_sum(B)
            if S is not None and X.holds(S[0]) and equal_sums(S[1], C):
                X.assume(r == K)
                r = K
                break
        it.inline_claims.add(qual)
        return r
    it.contracts[qual] = h


def skld(norm, kw=None):
    def run(it):
        setup()
        with_ops(it)
        a = spa(it, "a")
        b = spa(it, "b", names=perm_list(a, "b_n"), cardf=a.card)
        za, zb_ = total_of(it, a), total_of(it, b)
        X.assume(And(XR.is_fin(za), XR.is_fin(zb_)))
        la = lambda s: xsub(a.val(s), za)  # noqa: E731
        lb = (lambda s: xsub(b.val(s), zb_)) if norm else b.val  # noqa: E731
        K = kl_term(b, a, la, lb)
        X.assume(xle(XR.fin(0), K))
        X.trusted.add("Gibbs' inequality: sum p log(p/q) >= 0 for normalised p, q")
        claim_sum(it, QS + "_raw_kld", K)
        start()
        r = it.call(it.getattr(a.f, "kl_divergence"), [b.f], {} if kw is None else {"normalize_factor": kw})
        ob(same(r, K), "the divergence is the sum of p log(p/q) matched by name")
        check_frame()
    return run


from contracts.categorical import kl_term  # noqa: E402

contract("C07", "SparseCategorical.kl_divergence", [QS + "kl_divergence", QS + "_raw_kld"])(skld(True))
contract("C07", "SparseCategorical.kl_divergence normalised flag", [QS + "kl_divergence"])(skld(True, True))
contract("C07", "SparseCategorical.kl_divergence raw second factor", [QS + "kl_divergence"])(skld(False, False))


@contract("C07", "SparseCategorical.distance_from_vacuous", [QS + "distance_from_vacuous"])
def sdfv(it):
    setup()
    with_ops(it)
    a = spa(it, "a")
    za = total_of(it, a)
    X.assume(XR.is_fin(za))
    n = a.names.length()
    N = BigOp("seqprod", 1, lambda k: n, lambda J: a.card(a.names.get(J(0))), Int, base="sprod").term
    X.assume(N >= 1)
    u = xneg(xlog(XR.fin(z3.ToReal(N))))
    K = kl_term(a, a, lambda s: xsub(a.val(s), za), lambda s: u)
    X.assume(xle(XR.fin(0), K))
    X.trusted.add("Gibbs' inequality: sum p log(p/q) >= 0 for normalised p, q")
    start()
    r = it.call(it.getattr(a.f, "distance_from_vacuous"), [])
    ob(same(r, K), "the divergence from the uniform distribution over all assignments")
    check_frame()


# ------------------------------------------------------------------ C12 argmax and enumeration
@contract("C12", "SparseCategorical.argmax", [QS + "argmax"])
def sargmax(it):
    setup()
    a = spa(it, "a", default=XR.ninf)
    X.assume(a.D._keys.length() >= 1)
    start()
    r = it.call(it.getattr(a.f, "argmax"), [])
    t = tupterm(r)
    k = X.const("k", Int)
    ob(tlen(t) == zi(a.names.length()), "one value per variable, in variable order")
    ob(Implies(InR(0, k, a.names.length()), InR(0, tat(t, k), a.card(a.names.get(k)))), "the assignment is in range")
    sig = sigma("sig", a)
    s = sigma_key(a.names, sig)
    X.hint(a.D._keys.pos(s), a.D._keys.pos(t))
    ob(xle(a.val(sig), look(a.D, t, a.default)), "no assignment has a larger value")
    check_frame()


@contract("C12", "SparseCategorical.dense_distribution_array", [QS + "dense_distribution_array", QMD])
def sdda(it):
    setup()
    a = spa(it, "a")
    start()
    r = it.getattr(a.f, "dense_distribution_array")
    n = a.names.length()
    if len(X.memo.get("dense", [])) != 1:
        raise Unsupported("the enumeration is not made from one dense table")
    (M, fn), = X.memo["dense"]
    ks = M._keys
    if isinstance(r, Arr) and r.rank == 1:
        X.oblige(ks.length() == 0, "an empty enumeration only of an empty table")
        return
    if not isinstance(r, Arr) or r.rank != 2:
        raise Unsupported("the enumeration is not a table")
    ob(zi(r.dim(1)) == zi(n) + 1, "one column per variable and one for the value")
    i, j, k = X.const("i", Int), X.const("j", Int), X.const("k", Int)
    X.assume(And(InR(0, i, r.dim(0)), InR(0, k, n)))
    t = ks.at(i)
    row = lambda i, q: r.at(i, q)  # noqa: E731
    ob(And(XR.is_fin(row(i, k)), row(i, k) == XR.fin(z3.ToReal(tat(t, k)))), "rows hold assignments of the table")
    ob(InR(0, tat(t, k), a.card(a.names.get(k))), "rows hold assignments in range, in variable order")
    ob(same(row(i, zi(n)), xexp(look(a.D, t, a.default))), "each row carries the value of its assignment")
    s = sigma_key(a.names, sigma("sig", a))
    p = ks.pos(s)
    X.hint(p)
    ob(And(InR(0, p, r.dim(0)), row(p, k) == XR.fin(z3.ToReal(tat(s, k)))), "every assignment is listed")
    X.assume(And(InR(0, j, r.dim(0)), i != j))
    d = tdiff(t, ks.at(j))
    X.hint(ks.at(j))
    ob(And(InR(0, d, n), row(i, d) != row(j, d)), "no assignment is listed twice")
    check_frame()
