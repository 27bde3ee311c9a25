"""Contracts of veroku/factors/categorical.py"""
from pyvc.spec import *  # noqa: F401,F403
from pyvc.spec import X
from pyvc.interp import Builtin, Lib, Opaque, Unsupported

Q = CATMOD + ":Categorical."


def union_pair(it, same_names=False):
    """two factors that agree on shared cardinalities and assignment names"""
    setup()
    cf = X.fresh_fn("card", [Name], Int)
    af = X.fresh_fn("an", [Name], Opq)
    a = cat(it, "a", cardf=lambda x: cf(x), an=lambda x: af(x))
    b = cat(it, "b", cardf=lambda x: cf(x), an=lambda x: af(x))
    start()
    return a, b


def binary(method, op):
    def run(it):
        a, b = union_pair(it)
        r = it.call(it.getattr(a.f, method), [b.f])
        if not check_class(r, "Categorical"):
            return
        check_scope(it, r, lambda x: Or(a.names.mem(x), b.names.mem(x)))
        check_cat_inv(it, r, a.card, a.an)
        sig = sigma("sig", a, b)
        ob(same(value(it, r, sig), op(a.val(sig), b.val(sig))), "value at every joint assignment")
        check_frame()
        fresh_roots(it, r, [a.f, b.f])
    return run


for _m, _op in (("multiply", xadd), ("absorb", xadd), ("__mul__", xadd), ("divide", xsub), ("__div__", xsub)):
    contract("C01", f"Categorical.{_m}", [Q + _m])(binary(_m, _op))


# ------------------------------------------------------------------ C02 marginalize
def subset_list(g, tag="vrs", kind="list"):
    """an arbitrary list of different variables of the scope, in any order"""
    vs = BaseSeq(tag, Name, distinct=True)
    x = z3.Const("x", Name)
    X.forall([x], Implies(vs.mem(x), g.names.mem(x)), vs._mem(x), vs._pos(x))
    return vs, PList(vs, kind)


def lse_over(g, kept, sig, label=None):
    """log of the sum of the values of g over all assignments of the variables not kept, the kept ones at sig"""
    n = g.names.length()
    B = BigOp("lse", n, lambda k: g.card(g.names.get(k)),
              lambda J: g.T._val(lambda k: If(kept(g.names.get(k)), zi(sig(g.names.get(k))), zi(J(k)))), XR, base="lse")
    B.S = lambda k: Not(kept(g.names.get(k)))
    return B.term


def marg(keep, kw):
    def run(it):
        setup()
        a = cat(it, "a")
        vs, vl = subset_list(a)
        start()
        kwargs = {} if kw is None else {"keep": kw}
        r = it.call(it.getattr(a.f, "marginalize"), [vl], kwargs)
        kept = (lambda x: vs.mem(x)) if keep else (lambda x: And(a.names.mem(x), Not(vs.mem(x))))
        if not check_class(r, "Categorical"):
            return
        check_scope(it, r, kept)
        check_cat_inv(it, r, a.card, a.an)
        sig = sigma("sig", a)
        ob(same(value(it, r, sig), lse_over(a, kept, sig)), "value is the sum over the removed variables")
        check_frame()
        fresh_roots(it, r, [a.f])
    return run


contract("C02", "Categorical.marginalize keep", [Q + "marginalize"])(marg(True, True))
contract("C02", "Categorical.marginalize default", [Q + "marginalize"])(marg(True, None))
contract("C02", "Categorical.marginalize drop", [Q + "marginalize"])(marg(False, False))


# ------------------------------------------------------------------ C03 reduce
def red(method, vkind):
    def run(it):
        setup()
        a = cat(it, "a")
        vs = BaseSeq("vrs", Name, distinct=True)
        vals = BaseSeq("vals", Int, length=vs.length())
        i = z3.Int("i")
        X.forall([i], Implies(And(InR(0, i, vs.length()), a.names.mem(vs.at(i))), InR(0, vals.at(i), a.card(vs.at(i)))), vs.at(i), vals.at(i))
        vl, vv = PList(vs, "list"), PList(vals, vkind)
        start()
        r = it.call(it.getattr(a.f, method), [vl, vv])
        if not check_class(r, "Categorical"):
            return
        check_scope(it, r, lambda x: And(a.names.mem(x), Not(vs.mem(x))))
        check_cat_inv(it, r, a.card, a.an)
        sig = sigma("sig", a)
        ext = lambda x: If(vs.mem(x), vals.at(vs.pos(x)), sig(x))  # noqa: E731
        ob(same(value(it, r, sig), a.val(ext)), "value is the original value at the extended assignment")
        check_frame()
        fresh_roots(it, r, [a.f])
    return run


contract("C03", "Categorical.reduce list", [Q + "reduce"])(red("reduce", "list"))
contract("C03", "Categorical.reduce tuple", [Q + "reduce"])(red("reduce", "tuple"))
contract("C03", "Categorical.observe", [Q + "observe", Q + "reduce"])(red("observe", "list"))


# ------------------------------------------------------------------ C04 reorder, copy, potential
def perm_list(g, tag="order"):
    o = BaseSeq(tag, Name, distinct=True)
    x = z3.Const("x", Name)
    X.forall([x], o._mem(x) == g.names.mem(x), o._mem(x), g.names.mem(x))
    X.assume(o.length() == zi(g.names.length()))
    return o


@contract("C04", "Categorical.reorder", [Q + "reorder"])
def reorder(it):
    setup()
    a = cat(it, "a")
    o = perm_list(a)
    ol = PList(o, "list")
    start()
    r = it.call(it.getattr(a.f, "reorder"), [ol])
    if not check_class(r, "Categorical"):
        return
    check_names_order(it, r, o)
    check_cat_inv(it, r, a.card, a.an)
    sig = sigma("sig", a)
    ob(same(value(it, r, sig), a.val(sig)), "same value at every named assignment")
    check_frame()
    fresh_roots(it, r, [a.f])


@contract("C04", "Categorical.reorder refuses another variable set", [Q + "reorder"])
def reorder_refuse(it):
    setup()
    a = cat(it, "a")
    o = BaseSeq("order", Name)
    w = X.const("w", Name)
    X.assume(o.mem(w) != a.names.mem(w))
    ol = PList(o, "list")
    start()
    expect_raise(it, lambda: it.call(it.getattr(a.f, "reorder"), [ol]), "a different variable set is refused")


@contract("C04", "Categorical.copy", [Q + "copy"])
def copy_(it):
    setup()
    a = cat(it, "a")
    start()
    r = it.call(it.getattr(a.f, "copy"), [])
    if not check_class(r, "Categorical"):
        return
    check_names_order(it, r, a.names)
    check_cat_inv(it, r, a.card, a.an)
    sig = sigma("sig", a)
    ob(same(value(it, r, sig), a.val(sig)), "same value at every named assignment")
    check_frame()
    fresh_roots(it, r, [a.f])


def potential(kind):
    def run(it):
        setup()
        a = cat(it, "a")
        o = perm_list(a)
        vals = BaseSeq("vals", Int, length=o.length())
        i = z3.Int("i")
        X.forall([i], Implies(InR(0, i, o.length()), InR(0, vals.at(i), a.card(o.at(i)))), o.at(i), vals.at(i))
        ol, vl = PList(o, "list"), PList(vals, kind)
        start()
        r = it.call(it.getattr(a.f, "potential"), [ol, vl])
        sig = lambda x: vals.at(o.pos(x))  # noqa: E731
        r = lib.scalar_of(it, r) if isinstance(r, Arr) else r
        ob(same(r, xexp(a.val(sig))), "the table value of the named assignment")
        check_frame()
    return run


contract("C04", "Categorical.potential list", [Q + "potential"])(potential("list"))
contract("C04", "Categorical.potential tuple", [Q + "potential"])(potential("tuple"))


# ------------------------------------------------------------------ C05 cancel
def cancel_op(x, y):
    return z3.If(z3.And(XR.is_ninf(x), XR.is_ninf(y)), XR.ninf, xsub(x, y))


contract("C05", "Categorical.cancel", [Q + "cancel"])(binary("cancel", cancel_op))


# ------------------------------------------------------------------ C06 normalize
@contract("C06", "Categorical.normalize", [Q + "normalize"])
def normalize(it):
    setup()
    a = cat(it, "a")
    start()
    r = it.call(it.getattr(a.f, "normalize"), [])
    if not check_class(r, "Categorical"):
        return
    check_names_order(it, r, a.names)
    check_cat_inv(it, r, a.card, a.an)
    sig = sigma("sig", a)
    tot = lse_over(a, lambda x: False, sig)
    ob(same(value(it, r, sig), xsub(a.val(sig), tot)), "every value is divided by the total")
    check_frame()
    fresh_roots(it, r, [a.f])


# ------------------------------------------------------------------ C07 kl_divergence
def lse_all(g):
    return lse_over(g, lambda x: False, lambda x: 0)


def kl_term(a, b, la, lb):
    """sum over all assignments (in b's axis order) of p log(p/q); zero where p is zero, infinite where only q is"""
    n = b.names.length()

    def body(J):
        sig = lambda x: zi(J(b.names.pos(x)))  # noqa: E731
        p, q = la(sig), lb(sig)
        return z3.If(XR.is_ninf(p), XR.fin(0), z3.If(XR.is_ninf(q), XR.pinf, xmul(xexp(p), xsub(p, q))))
    B = BigOp("sum", n, lambda k: b.card(b.names.get(k)), body, XR, label=b.names, base="kl")
    return B.term


def same_scope_pair(it, nb="b"):
    cf = X.fresh_fn("card", [Name], Int)
    af = X.fresh_fn("an", [Name], Opq)
    a = cat(it, "a", cardf=lambda x: cf(x), an=lambda x: af(x))
    nb_ = perm_list(a, "b_n")
    b = cat(it, "b", names=nb_, cardf=lambda x: cf(x), an=lambda x: af(x))
    return a, b


def positive_total(*gs):
    """the total of a factor is positive and finite (a log-sum-exp of finite and -inf values is never nan or +inf)"""
    out = []
    for g in gs:
        t = lse_all(g)
        X.assume(XR.is_fin(t))
        out.append(t)
    return out


def kld(norm, kw=None):
    def run(it):
        setup()
        a, b = same_scope_pair(it)
        za, zb_ = positive_total(a, b)
        la = lambda s: xsub(a.val(s), za)  # noqa: E731
        lb = (lambda s: xsub(b.val(s), zb_)) if norm else b.val  # noqa: E731
        K = kl_term(a, b, la, lb)
        # Gibbs' inequality (assumed; for the unnormalised second factor it is the stated precondition)
        X.assume(xle(XR.fin(0), K))
        X.trusted.add("Gibbs' inequality: sum p log(p/q) >= 0 for normalised p, q")
        start()
        r = it.call(it.getattr(a.f, "kl_divergence"), [b.f], {} if kw is None else {"normalize_factor": kw})
        ob(same(r, K), "the divergence is the sum of p log(p/q) matched by name")
        check_frame()
    return run


contract("C07", "Categorical.kl_divergence", [Q + "kl_divergence"])(kld(True))
contract("C07", "Categorical.kl_divergence normalised flag", [Q + "kl_divergence"])(kld(True, True))
contract("C07", "Categorical.kl_divergence raw second factor", [Q + "kl_divergence"])(kld(False, False))


@contract("C07", "Categorical.distance_from_vacuous", [Q + "distance_from_vacuous"])
def dfv(it):
    setup()
    a = cat(it, "a")
    (za,) = positive_total(a)
    la = lambda s: xsub(a.val(s), za)  # noqa: E731
    n = a.names.length()
    N = BigOp("seqprod", 1, lambda k: n, lambda J: a.card(a.names.get(J(0))), Int, base="sprod").term
    X.assume(N >= 1)
    u = xneg(xlog(XR.fin(z3.ToReal(N))))
    K = kl_term(a, a, la, lambda s: u)
    X.assume(xle(XR.fin(0), K))
    X.trusted.add("Gibbs' inequality: sum p log(p/q) >= 0 for normalised p, q")
    start()
    r = it.call(it.getattr(a.f, "distance_from_vacuous"), [])
    ob(same(r, K), "the divergence from the uniform distribution over all assignments")
    check_frame()


# ------------------------------------------------------------------ C08 equals
def close(x, y, rtol, atol, strict=False):
    """agreement within the tolerances; the relative tolerance may refer to either of the two values"""
    fx, fy = XR.r(x), XR.r(y)
    ab = lambda t: z3.If(t < 0, -t, t)  # noqa: E731
    d = ab(fx - fy)
    m = z3.If((ab(fx) < ab(fy)) if strict else (ab(fx) > ab(fy)), ab(fx), ab(fy))
    return z3.If(z3.And(XR.is_fin(x), XR.is_fin(y)), d <= atol + rtol * m, z3.And(x == y, z3.Not(XR.is_nan(x))))


def eqs(method, neg=False, tol=False, scope="any"):
    def run(it):
        setup()
        a = cat(it, "a")
        if scope == "same":
            nb = perm_list(a, "b_n")
            b = cat(it, "b", names=nb)
        else:
            b = cat(it, "b")
        kw = {}
        rtol, atol = z3.RealVal("1/100000"), z3.RealVal("1/100000000")
        if tol:
            rtol, atol = X.const("rtol", Real), X.const("atol", Real)
            X.assume(And(rtol >= 0, atol >= 0))
            kw = {"rtol": rtol, "atol": atol}
        start()
        if method == "equals" and not tol:
            d = it.get_func(CATMOD, "Categorical.equals").node.args
            m = it.module(CATMOD)
            rtol, atol = lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_RTOL"])), lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_ATOL"]))
        elif not tol:
            m = it.module(CATMOD)
            rtol, atol = lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_RTOL"])), lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_ATOL"]))
        r = it.call(it.getattr(a.f, method), [b.f], kw)
        ans = r if isinstance(r, bool) else X.branch(lib.truth_cond(it, r))
        if neg:
            ans = not ans
        check_frame()
        if ans:
            x = X.const("x", Name)
            ob(Iff(a.names.mem(x), b.names.mem(x)), "answered equal: same variables")
            ob(Implies(a.names.mem(x), a.card(x) == b.card(x)), "answered equal: same cardinalities")
            sig = sigma("sig", a, b)
            for g in (a, b):
                instantiate_boxquants(lambda k, g=g: sig(g.names.get(k)))
            ob(close(a.val(sig), b.val(sig), rtol, atol), "answered equal: values agree at every assignment")
            return
        # answered different: contradict the assumption that everything agrees
        x = z3.Const("x", Name)
        X.forall([x], a.names.mem(x) == b.names.mem(x), a.names.mem(x), b.names.mem(x))
        X.forall([x], Implies(a.names.mem(x), a.card(x) == b.card(x)), a.names.mem(x), b.names.mem(x), a.card(x), b.card(x))
        inr = []
        for W in X.memo.get(("boxwit",), []):
            for g in (a, b):
                sig = lambda v, g=g: W(g.names.pos(v))  # noqa: E731
                inr.append(close(a.val(sig), b.val(sig), rtol, atol, strict=True))
        for c in inr:
            X.assume(c)
        ob(False, "answered different only when some assignment differs")
    return run


contract("C08", "Categorical.equals same scope", [Q + "equals"])(eqs("equals", scope="same"))
contract("C08", "Categorical.equals any scope", [Q + "equals"])(eqs("equals"))
contract("C08", "Categorical.equals tolerances", [Q + "equals"])(eqs("equals", tol=True))
contract("C08", "Categorical.__eq__", [Q + "__eq__"])(eqs("__eq__"))
contract("C08", "Categorical.__ne__", [Q + "__ne__"])(eqs("__ne__", neg=True))


@contract("C08", "Categorical.equals refuses another kind", [Q + "equals"])
def eq_kind(it):
    setup()
    a = cat(it, "a")
    other = Obj(it.get_class("veroku.factors.gaussian", "Gaussian"))
    start()
    expect_raise(it, lambda: it.call(it.getattr(a.f, "equals"), [other]), "another factor kind raises TypeError", ["TypeError"])


# ------------------------------------------------------------------ C12 argmax and enumeration
@contract("C12", "Categorical.argmax", [Q + "argmax"])
def argmax(it):
    setup()
    a = cat(it, "a")
    start()
    r = it.call(it.getattr(a.f, "argmax"), [])
    s = lib.iter_seq(it, r)
    ob(zi(s.length()) == zi(a.names.length()), "one value per variable")
    i = X.const("i", Int)
    ob(Implies(InR(0, i, a.names.length()), InR(0, zi(s.get(i)), a.card(a.names.get(i)))), "values in range, in variable order")
    sig = sigma("sig", a)
    instantiate_argmax(lambda k: sig(a.names.get(k)))
    best = lambda x: zi(s.get(a.names.pos(x)))  # noqa: E731
    ob(xle(a.val(sig), a.val(best)), "no other assignment has a larger value")
    check_frame()


@contract("C12", "Categorical.argmax_assignment_names", [Q + "argmax_assignment_names"])
def argmax_names(it):
    setup()
    a = cat(it, "a")
    start()
    r0 = it.call(it.getattr(a.f, "argmax"), [])
    r = it.call(it.getattr(a.f, "argmax_assignment_names"), [])
    s, s0 = lib.iter_seq(it, r), lib.iter_seq(it, r0)
    ob(zi(s.length()) == zi(a.names.length()), "one name per variable")
    i = X.const("i", Int)
    w = X.memo[("argmax",)][-1][3]
    ob(Implies(InR(0, i, a.names.length()), lib.to_opq(s.get(i)) == lib.oat(a.an(a.names.get(i)), zi(w(i)))), "the names of a maximising assignment")
    ob(Implies(InR(0, i, a.names.length()), InR(0, zi(w(i)), a.card(a.names.get(i)))), "the maximising assignment is in range")
    check_frame()


@contract("C12", "Categorical.dense_distribution_array", [Q + "dense_distribution_array"])
def dda(it):
    setup()
    a = cat(it, "a")
    start()
    r = it.getattr(a.f, "dense_distribution_array")
    n = a.names.length()
    nds = X.memo.get(("ndindex",), [])
    if not isinstance(r, Arr) or r.rank != 2 or len(nds) != 1:
        if isinstance(r, Arr) and r.rank == 1:
            X.oblige(Not(nds[-1].n > 0) if nds else False, "an empty enumeration only of an empty table")
            return
        raise Unsupported("the enumeration is not built by one np.ndindex loop")
    nd = nds[0]
    ob(zi(r.dim(1)) == zi(n) + 1, "one column per variable and one for the value")
    i, j = X.const("i", Int), X.const("j", Int)
    k = X.const("k", Int)
    X.assume(And(InR(0, i, r.dim(0)), InR(0, k, n)))
    row = lambda q: r.at(i, q)  # noqa: E731
    ob(And(XR.is_fin(row(k)), row(k) == XR.fin(z3.ToReal(nd.dig(i, k)))), "rows hold assignments of the table")
    ob(InR(0, nd.dig(i, k), a.card(a.names.get(k))), "rows hold assignments in range, in variable order")
    sig = lambda x: nd.dig(i, a.names.pos(x))  # noqa: E731
    ob(same(row(zi(n)), xexp(a.val(sig))), "each row carries the value of its assignment")
    # every assignment appears
    s2 = sigma("sig", a)
    st = nd.step_of(lambda q: s2(a.names.get(q)))
    ob(And(InR(0, st, r.dim(0)), r.at(st, k) == XR.fin(z3.ToReal(s2(a.names.get(k))))), "every assignment is listed")
    X.assume(And(InR(0, j, r.dim(0)), i != j))
    nd.separate(i, j)
    d = nd.diff(i, j)
    ob(And(InR(0, d, n), r.at(i, d) != r.at(j, d)), "no assignment is listed twice")
    check_frame()


# ------------------------------------------------------------------ C20 refusals
def bad_card(method):
    def run(it):
        setup()
        a, b = cat(it, "a"), cat(it, "b")
        w = X.const("w", Name)
        X.assume(And(a.names.mem(w), b.names.mem(w), a.card(w) != b.card(w)))
        start()
        expect_raise(it, lambda: it.call(it.getattr(a.f, method), [b.f]), "different cardinalities of a shared variable are refused")
    return run


def bad_names(method):
    def run(it):
        setup()
        cf = X.fresh_fn("card", [Name], Int)
        a, b = cat(it, "a", cardf=lambda x: cf(x)), cat(it, "b", cardf=lambda x: cf(x))
        w = X.const("w", Name)
        X.assume(And(a.names.mem(w), b.names.mem(w), a.an(w) != b.an(w)))
        start()
        expect_raise(it, lambda: it.call(it.getattr(a.f, method), [b.f]), "different assignment names of a shared variable are refused")
    return run


def bad_kind(method, mod, cls):
    def run(it):
        setup()
        a = cat(it, "a")
        other = Obj(it.get_class(mod, cls))
        start()
        expect_raise(it, lambda: it.call(it.getattr(a.f, method), [other]), "a factor of another kind is refused")
    return run


for _m in ("multiply", "divide", "cancel"):
    contract("C20", f"Categorical.{_m} cardinalities", [Q + _m])(bad_card(_m))
    contract("C20", f"Categorical.{_m} assignment names", [Q + _m])(bad_names(_m))
    contract("C20", f"Categorical.{_m} Gaussian operand", [Q + _m])(bad_kind(_m, "veroku.factors.gaussian", "Gaussian"))
    contract("C20", f"Categorical.{_m} sparse operand", [Q + _m])(bad_kind(_m, "veroku.factors.sparse_categorical", "SparseCategorical"))


@contract("C20", "Categorical.kl_divergence assignment names", [Q + "kl_divergence"])
def kl_names(it):
    bad_names("kl_divergence")(it)


@contract("C20", "Categorical.__init__ duplicate variables", [Q + "__init__"])
def dup_vars(it):
    setup()
    C = it.get_class(CATMOD, "Categorical")
    ns = BaseSeq("n", Name)
    i, j = X.const("i", Int), X.const("j", Int)
    X.assume(And(0 <= i, i < j, j < ns.length(), ns.at(i) == ns.at(j)))
    cf = X.fresh_fn("dim", [Int], Int)
    T = base_arr("T", ns.length(), lambda k: cf(zi(k)), XR)
    nl = PList(ns, "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl], {"log_probs_tensor": T}), "duplicate variables are refused")


@contract("C20", "Categorical.__init__ table of another dimension", [Q + "__init__"])
def bad_rank(it):
    setup()
    C = it.get_class(CATMOD, "Categorical")
    ns = BaseSeq("n", Name, distinct=True)
    r = X.const("rank", Int)
    X.assume(And(r >= 0, r != ns.length()))
    cf = X.fresh_fn("dim", [Int], Int)
    T = base_arr("T", r, lambda k: cf(zi(k)), XR)
    nl = PList(ns, "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl], {"log_probs_tensor": T}), "a table whose dimensions do not fit the variables is refused")


@contract("C20", "Categorical.__init__ cardinalities of another length", [Q + "__init__"])
def bad_cards(it):
    setup()
    C = it.get_class(CATMOD, "Categorical")
    ns = BaseSeq("n", Name, distinct=True)
    cs = BaseSeq("c", Int)
    X.assume(cs.length() != ns.length())
    d = SDict(None, None, None, None, conc=[])
    nl, cl = PList(ns, "list"), PList(cs, "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl], {"probs_table": d, "cardinalities": cl}), "cardinalities of another length are refused")


@contract("C20", "Categorical.__init__ wrong number of assignment names", [Q + "__init__"])
def bad_an(it):
    setup()
    C = it.get_class(CATMOD, "Categorical")
    ns = BaseSeq("n", Name, distinct=True)
    cf = X.fresh_fn("dim", [Int], Int)
    T = base_arr("T", ns.length(), lambda k: cf(zi(k)), XR)
    af = X.fresh_fn("an", [Int], Opq)
    i = X.const("i", Int)
    X.assume(And(InR(0, i, ns.length()), ocard(af(i)) != cf(i)))
    nl = PList(ns, "list")
    al = PList(FnSeq(ns.length(), lambda k: af(zi(k))), "list")
    start()
    expect_raise(it, lambda: it.call(C, [nl], {"log_probs_tensor": T, "variables_assignment_names": al}), "the wrong number of assignment names is refused")


def accepted(method):
    def run(it):
        a, b = union_pair(it)
        it.call(it.getattr(a.f, method), [b.f])
        ob(True, "well-matched operands are accepted")
    return run


for _m in ("multiply", "divide", "cancel"):
    contract("C20", f"Categorical.{_m} accepts matching operands", [Q + _m])(accepted(_m))


def rows_of(it, a):
    """dense_distribution_array at a call site (its own contract is proved above): some rows of assignments in range"""
    n = a.names.length()
    m = X.const("rows", Int)
    X.assume(m >= 1)
    dig = X.fresh_fn("dig", [Int, Int], Int)
    pv = X.fresh_fn("prob", [Int], XR)
    i, k = z3.Int("i"), z3.Int("k")
    X.forall([i, k], Implies(And(InR(0, i, m), InR(0, k, n)), InR(0, dig(i, k), a.card(a.names.get(k)))), dig(i, k))
    E = Arr(2, lambda d: (m, n + 1)[d] if isinstance(d, int) else If(d == 0, m, n + 1),
            lambda K: If(zi(K(1)) < zi(n), XR.fin(z3.ToReal(dig(zi(K(0)), zi(K(1))))), pv(zi(K(0)))), XR)
    return E, m, dig, pv


def settle(v):
    while isinstance(v, CondValue):
        v = next(x for k, (c, x) in enumerate(v.cases) if k == len(v.cases) - 1 or X.branch(c))
    return v


def get_df(named):
    def run(it):
        """the rows as handed to pandas.DataFrame (which shows them under the given column names: assumed)"""
        def frame(i, args, kw):
            bound = dict(zip(("data", "index", "columns"), args))
            bound.update(kw)
            X.memo.setdefault("frames", []).append(bound)
            return Opaque("DataFrame")
        it.libs["pandas"] = Lib("pandas", {"DataFrame": Builtin("DataFrame", frame)})
        setup()
        a = cat(it, "a")
        n = a.names.length()
        start()
        E, m, dig, pv = rows_of(it, a)
        it.contracts[Q + "dense_distribution_array"] = lambda it2, f, ar, kw: E if ar[0] is a.f else NotImplemented
        try:
            r = it.call(it.getattr(a.f, "get_df"), [], {"named_assignments": True} if named else {})
        finally:
            it.contracts.pop(Q + "dense_distribution_array", None)
        made = X.memo.get("frames", [])
        X.oblige(isinstance(r, Opaque) and r.what == "DataFrame" and len(made) == 1 and set(made[0]) == {"data", "columns"},
                 "the rows and column names of one data frame")
        cols, rows = lib.iter_seq(it, made[0]["columns"]), lib.iter_seq(it, made[0]["data"])
        q, k = X.const("q", Int), X.const("k", Int)
        ob(zi(cols.length()) == zi(n) + 1, "one column per variable and one for the value")
        ob(zi(rows.length()) == zi(m), "one row per row of the enumeration")
        X.assume(InR(0, q, m))
        row = lib.iter_seq(it, rows.get(q))
        ob(zi(row.length()) == zi(n) + 1, "rows as long as the column list")
        ob(same(settle(row.get(n)), pv(q)), "each row carries its value")
        X.assume(InR(0, k, n))
        ob(eq(cols.get(k), a.names.get(k)), "columns in variable order")
        if named:
            ob(lib.to_opq(settle(row.get(k))) == lib.oat(a.an(a.names.get(k)), dig(q, k)), "each row carries the names of its assignment")
        else:
            ob(same(settle(row.get(k)), XR.fin(z3.ToReal(dig(q, k)))), "each row carries its assignment")
        check_frame()
    return run


contract("C12", "Categorical.get_df", [Q + "get_df"])(get_df(False))
contract("C12", "Categorical.get_df with names", [Q + "get_df"])(get_df(True))
