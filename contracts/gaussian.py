"""Contracts of veroku/factors/gaussian.py and _factor_utils.py"""
from fractions import Fraction
from pyvc.spec import *  # noqa: F401,F403
from pyvc.spec import X
from pyvc import matlib
from pyvc.matlib import NF, block_facts, dimeq

GMOD = "veroku.factors.gaussian"
Q = GMOD + ":Gaussian."
HALF = z3.RealVal("1/2")
FORMS = ("canform", "covform", "both")


class GG:
    """a Gaussian operand together with the function it denotes"""


def gauss(it, tag, form, names=None, sym_only=False):
    """an arbitrary Gaussian in the given form, built by the real constructor.  Canonical parameters K, h, g and covariance
    parameters S, m, lw of the function it denotes are normal forms / real terms."""
    ml = it.matlib
    lib.REALS[0] = True
    C = it.get_class(GMOD, "Gaussian")
    ns = names if names is not None else BaseSeq(tag + "_n", Name, distinct=True)
    n = ns.length()
    X.assume(zi(n) >= 1)
    G = GG()
    G.names, G.n, G.form = ns, n, form
    G.K = G.h = G.g = G.S = G.m = G.lw = None
    if form in ("canform", "canraw"):
        K = ml.mat(tag + "_K", n, n, sym=True, pd=(form != "canraw"))
        h = ml.mat(tag + "_h", n, 1)
        G.g = X.const(tag + "_g", Real)
        G.K, G.h, G.base = ml.of_mat(K), ml.of_mat(h), K
        kw = {"prec": ml.arr(G.K), "h_vec": ml.arr(G.h), "g_val": G.g}
    else:
        S = ml.mat(tag + "_S", n, n, sym=True, pd=True)
        m = ml.mat(tag + "_m", n, 1)
        G.lw = X.const(tag + "_lw", Real)
        G.S, G.m, G.base = ml.of_mat(S), ml.of_mat(m), S
        kw = {"cov": ml.arr(G.S), "mean": ml.arr(G.m), "log_weight": G.lw}
    kw["var_names"] = PList(ns, "list")
    G.f = it.call(C, [], kw)
    complete(ml, G)
    if form == "both":
        it.setattr(G.f, "prec", ml.arr(G.K))
        it.setattr(G.f, "h_vec", ml.arr(G.h))
        it.setattr(G.f, "g_val", G.g)
        it.setattr(G.f, "canform", True)
    return G


def quad(ml, a, b, c):
    return ml.entry(ml.mul(ml.mul(ml.T(a), b), c), 0, 0)


def complete(ml, G):
    """the other parameter set of the same function"""
    if G.K is None:
        G.K = ml.inverse(G.S)
        G.h = ml.mul(G.K, G.m)
        G.g = G.lw - HALF * quad(ml, G.m, G.K, G.m) - HALF * (ml.dimlog(G.n) + ml.ld(G.S))
    elif G.S is None and ml.pd(G.K):
        G.S = ml.inverse(G.K)
        G.m = ml.mul(G.S, G.h)
        G.lw = G.g + HALF * quad(ml, G.m, G.K, G.m) + HALF * (ml.dimlog(G.n) + ml.ld(G.S))


def denote(it, f, n=None):
    """parameters of the function a Gaussian object denotes, read from its attributes"""
    ml = it.matlib
    G = GG()
    G.f = f
    G.names = it.getattr(f, "var_names").seq
    G.n = G.names.length()
    G.canform, G.covform = f.attrs.get("canform"), f.attrs.get("covform")
    G.K = G.h = G.g = G.S = G.m = G.lw = None
    if G.canform is True:
        G.K, G.h, G.g = ml.recognise(f.attrs["prec"]), ml.recognise(f.attrs["h_vec"]), to_real(f.attrs["g_val"])
    if G.covform is True:
        G.S, G.m, G.lw = ml.recognise(f.attrs["cov"]), ml.recognise(f.attrs["mean"]), to_real(f.attrs["log_weight"])
    if G.K is None and G.S is None:
        raise Unsupported("a Gaussian in neither form")
    if G.K is None or G.S is None:
        try:
            complete(ml, G)
        except Unsupported:
            if G.K is None:
                raise
    return G


# ------------------------------------------------------------------ callee contract: is_vacuous
def is_vacuous_contract(it, f, args, kw):
    """a Gaussian that was not made vacuous and whose canonical precision is positive definite (or absent) is not vacuous"""
    o = args[0]
    if X.bound or len(X.frames) > 1 or not isinstance(o, Obj) or o.attrs.get("_is_vacuous") is not False:
        return NotImplemented
    can = o.attrs.get("canform")
    if can is True and isinstance(o.attrs.get("prec"), Arr):
        try:
            K = it.matlib.recognise(o.attrs["prec"])
        except Unsupported:
            return NotImplemented
        if dimeq(K.rows, K.cols) and it.matlib.pd(K):
            return False
    return NotImplemented


callee(Q + "is_vacuous", is_vacuous_contract)


@contract("LEMMA:" + Q + "is_vacuous", "Gaussian.is_vacuous of a positive definite precision", [Q + "is_vacuous"])
def isvac(it):
    setup()
    a = gauss(it, "a", "canform")
    start()
    r = it.getattr(a.f, "is_vacuous")
    ob(r is False or Not(r), "a positive definite precision is not vacuous")
    check_frame()


def check_gauss_class(f):
    return check_class(f, "Gaussian")


def is_matrix(it, A, spec, label):
    """the array A is the matrix spec"""
    ml = it.matlib
    if not isinstance(A, Arr) or A.rank != 2:
        ob(False, label + ": two-dimensional array")
        return
    ob(And(zi(A.dim(0)) == zi(spec.rows), zi(A.dim(1)) == zi(spec.cols)), label + ": shape")
    i, j = X.const("i", Int), X.const("j", Int)
    rng = And(InR(0, i, spec.rows), InR(0, j, spec.cols))
    ii = 0 if ml.scalar_dim(spec.rows) else i
    jj = 0 if ml.scalar_dim(spec.cols) else j
    got = to_real(A.val(lambda k: (ii, jj)[k]))
    ob(Implies(rng, got == ml.entry(spec, ii, jj)), label)


def nf_eq(it, a, b, label):
    """two normal forms denote the same matrix"""
    ml = it.matlib
    i, j = X.const("i", Int), X.const("j", Int)
    ob(And(zi(a.rows) == zi(b.rows), zi(a.cols) == zi(b.cols)), label + ": shape")
    ob(Implies(And(InR(0, i, a.rows), InR(0, j, a.cols)), ml.entry(a, i, j) == ml.entry(b, i, j)), label)


def unchanged(it, G, label="queries never change the function"):
    """the object still denotes the same function and both parameter sets it holds describe it"""
    D = denote(it, G.f)
    check_names_order(it, G.f, G.names, label + ": variable order")
    if D.canform is True:
        nf_eq(it, D.K, G.K, label + ": precision")
        nf_eq(it, D.h, G.h, label + ": h")
        ob(D.g == G.g, label + ": g")
    if D.covform is True:
        nf_eq(it, D.S, G.S, label + ": covariance")
        nf_eq(it, D.m, G.m, label + ": mean")
        ob(D.lw == G.lw, label + ": log weight")


CACHE = {"cov", "mean", "log_weight", "prec", "h_vec", "g_val", "canform", "covform"}


def check_gauss_frame(label="frame: operands unchanged apart from their cached parameter forms"):
    bad = [f"{e[1]} {e[2] if isinstance(e[2], str) else ''}" for e in X.effects_on_pre if not (e[1] == "setattr" and e[2] in CACHE)]
    ob(not bad, label + (f" [{', '.join(bad[:3])}]" if bad else ""))


# ------------------------------------------------------------------ C14 parameter forms
def getter(form, what):
    def run(it):
        setup()
        a = gauss(it, "a", form)
        start()
        r = it.call(it.getattr(a.f, "get_" + what), [])
        spec = {"prec": a.K, "h": a.h, "cov": a.S, "mean": a.m}.get(what)
        if spec is not None:
            is_matrix(it, r, spec, f"{what} describes the function")
        elif what == "weight":
            ob(to_real(r) == rexp(a.lw), "weight is the integral")
        else:
            ob(to_real(r) == {"g": a.g, "log_weight": a.lw}[what], f"{what} describes the function")
        unchanged(it, a)
        check_gauss_frame()
        if isinstance(r, Arr):
            shared = [k for k in CACHE if isinstance(a.f.attrs.get(k), Arr) and a.f.attrs[k].root() is r.root()]
            ob(not shared, "the returned array is not the stored one")
    return run


for _f in FORMS:
    for _w in ("prec", "h", "g", "cov", "mean", "log_weight", "weight"):
        contract("C14", f"Gaussian.get_{_w} from {_f}", [Q + "get_" + _w, Q + "_update_canform", Q + "_update_covform"])(getter(_f, _w))


def gcopy(form):
    def run(it):
        setup()
        a = gauss(it, "a", form)
        start()
        r = it.call(it.getattr(a.f, "copy"), [])
        if not check_gauss_class(r):
            return
        b = GG()
        b.__dict__.update(a.__dict__)
        b.f = r
        unchanged(it, b, "the copy denotes the same function")
        check_frame()
        fresh_roots(it, r, [a.f])
    return run


for _f in FORMS:
    contract("C14", f"Gaussian.copy {_f}", [Q + "copy"])(gcopy(_f))


def logvalue(it, G, x):
    """log of the value of the function at the column vector x"""
    ml = it.matlib
    return -HALF * quad(ml, x, G.K, x) + ml.entry(ml.mul(ml.T(G.h), x), 0, 0) + G.g


def logpot(form, named):
    def run(it):
        setup()
        ml = it.matlib
        a = gauss(it, "a", form)
        vals = BaseSeq("xv", Real, length=a.names.length())
        args = [PList(vals, "list")]
        if named:
            x = z3.Const("x", Name)
            o = BaseSeq("order", Name, distinct=True)
            X.forall([x], o._mem(x) == a.names.mem(x), o._mem(x), a.names.mem(x))
            X.assume(o.length() == zi(a.names.length()))
            args.append(PList(o, "list"))
        start()
        r = it.call(it.getattr(a.f, "log_potential"), args)
        at = (lambda k: vals.at(o.pos(a.names.get(k)))) if named else (lambda k: vals.at(k))
        A = Arr(2, lambda k: (a.n, 1)[k] if isinstance(k, int) else If(k == 0, zi(a.n), 1), lambda K: at(K(0)), Real)
        spec = logvalue(it, a, ml.recognise(A))
        ob(to_real(r) == spec, "log_potential is the function's log value at the named point")
        unchanged(it, a)
        check_gauss_frame()
    return run


for _f in FORMS:
    contract("C14", f"Gaussian.log_potential {_f}", [Q + "log_potential"])(logpot(_f, False))
    contract("C14", f"Gaussian.log_potential named {_f}", [Q + "log_potential"])(logpot(_f, True))


def addlw(form):
    def run(it):
        setup()
        a = gauss(it, "a", form)
        w = X.const("w", Real)
        start()
        it.call(it.getattr(a.f, "_add_log_weight"), [w])
        b = GG()
        b.__dict__.update(a.__dict__)
        b.g, b.lw = a.g + w, a.lw + w
        unchanged(it, b, "the function is scaled by the added weight")
    return run


for _f in FORMS:
    contract("C14", f"Gaussian._add_log_weight {_f}", [Q + "_add_log_weight"])(addlw(_f))


# ------------------------------------------------------------------ C15 marginalisation
def index_map(ml, src, names):
    """position in names of the i-th element of src, as an index map"""
    return ml.imap(src.length(), names.length(), zi(names.pos(src.get(matlib.I0))))


def subset_of(g, tag="vrs"):
    vs = BaseSeq(tag, Name, distinct=True)
    x = z3.Const("x", Name)
    X.forall([x], Implies(vs.mem(x), g.names.mem(x)), vs._mem(x), vs._pos(x))
    return vs


def check_marginal(it, r, a, kept):
    """r is the marginal of the function a over exactly the names satisfying kept"""
    ml = it.matlib
    check_scope(it, r, kept)
    D = denote(it, r)
    s = index_map(ml, D.names, a.names)
    nf_eq(it, D.S, ml.sub(a.S, s, s), "the covariance is the corresponding block")
    spec_m = ml.select(a.m, s)
    # canonical form: the mean is Sigma_xx h' and the block rules relate it to the block of Sigma h
    y = ml.complement(s) if s is not None else None
    if D.canform is True and s is not None and y is not None:
        K = ml.mats[next(iter(a.K.t))[0][1]]
        D.m, spec_m = ml.blockform(D.m, K, s, y), ml.blockform(spec_m, K, s, y)
        ml.dimsum(s.m, y.m, s.n)
        block_facts(ml, [D.lw, a.lw], K, s, y)
    nf_eq(it, D.m, spec_m, "the mean is the corresponding block")
    ob(D.lw == a.lw, "the weight is unchanged")


def gmarg(form, keep, kw):
    def run(it):
        setup()
        a = gauss(it, "a", form)
        vs = subset_of(a)
        x = X.const("nx", Name)
        vl = PList(vs, "list")
        kept = (lambda x: vs.mem(x)) if keep else (lambda x: And(a.names.mem(x), Not(vs.mem(x))))
        X.assume(kept(x))           # at least one variable is kept
        start()
        r = it.call(it.getattr(a.f, "marginalize"), [vl], {} if kw is None else {"keep": kw})
        if not check_gauss_class(r):
            return
        check_marginal(it, r, a, kept)
        check_frame()
        fresh_roots(it, r, [a.f])
    return run


for _f in FORMS:
    contract("C15", f"Gaussian.marginalize keep {_f}", [Q + "marginalize", Q + "_canform_marginalise"])(gmarg(_f, True, True))
    contract("C15", f"Gaussian.marginalize default {_f}", [Q + "marginalize"])(gmarg(_f, True, None))
    contract("C15", f"Gaussian.marginalize drop {_f}", [Q + "marginalize"])(gmarg(_f, False, False))


# ------------------------------------------------------------------ C16 observation
def at_point(it, ml, parts, n):
    """the column vector over n entries that has x at the indices s, for each (s, x)"""
    z = ml.zero(n, 1)
    for s, x in parts:
        z = ml.add(z, x if s is None else ml.mul(NF(s.n, s.m, {(("S", s.id, 1),): Fraction(1)}), x))
    return z


def greduce(form, asarray):
    def run(it):
        setup()
        ml = it.matlib
        a = gauss(it, "a", form)
        vs = subset_of(a)
        x, y = X.const("ox", Name), X.const("ux", Name)
        X.assume(vs.mem(x))                                      # at least one variable is observed
        X.assume(And(a.names.mem(y), Not(vs.mem(y))))            # and at least one is not
        vals = BaseSeq("obs", Real, length=vs.length())
        v = Arr(1, lambda k: vals.length(), lambda K: vals.at(K(0)), Real)
        start()
        r = it.call(it.getattr(a.f, "reduce"), [], {"vrs": PList(vs, "list"), "values": v if asarray else PList(vals, "list")})
        if not check_gauss_class(r):
            return
        check_scope(it, r, lambda q: And(a.names.mem(q), Not(vs.mem(q))))
        D = denote(it, r)
        so, su = index_map(ml, vs, a.names), index_map(ml, D.names, a.names)
        xv = ml.of_mat(ml.mat("x", D.n, 1))
        z = at_point(it, ml, [(su, xv), (so, ml.recognise(v))], a.n)
        got, want = logvalue(it, D, xv), logvalue(it, a, z)
        ob(got == want, "value at every point is the value at the point extended with the evidence")
        unchanged(it, a)
        check_gauss_frame()
        fresh_roots(it, r, [a.f])
    return run


for _f in FORMS:
    for _arr in (False, True):
        contract("C16", f"Gaussian.reduce {_f} {'array' if _arr else 'list'}",
                 [Q + "reduce", Q + "_get_observation_reduced_canonical_vars"])(greduce(_f, _arr))
contract("C16", "Gaussian.reduce singular precision", [Q + "reduce"])(greduce("canraw", False))


# ------------------------------------------------------------------ C17 normalise
def gnormalize(form):
    def run(it):
        setup()
        a = gauss(it, "a", form)
        start()
        r = it.call(it.getattr(a.f, "normalize"), [])
        if not check_gauss_class(r):
            return
        b = GG()
        b.__dict__.update(a.__dict__)
        b.f, b.lw = r, z3.RealVal(0)
        b.g = a.g - a.lw
        unchanged(it, b, "normalised: same mean and covariance, weight one")
        unchanged(it, a)
        check_gauss_frame()
        fresh_roots(it, r, [a.f])
    return run


for _f in FORMS:
    contract("C17", f"Gaussian.normalize {_f}", [Q + "normalize", Q + "copy", Q + "_update_covform"])(gnormalize(_f))


# ------------------------------------------------------------------ C13 product and quotient
def raw(it, A, label):
    """entries of an array given only by its entry function"""
    if not isinstance(A, Arr) or A.rank != 2:
        ob(False, label + ": two-dimensional array")
        return None
    f = lib.freeze(A)
    return lambda i, j: to_real(f(lambda k: (i, j)[k]))


def combine(op, fa, fb, method):
    def run(it):
        setup()
        ml = it.matlib
        a = gauss(it, "a", fa)
        b = gauss(it, "b", fb)
        start()
        r = it.call(it.getattr(a.f, method), [b.f])
        if not check_gauss_class(r):
            return
        check_scope(it, r, lambda x: Or(a.names.mem(x), b.names.mem(x)))
        names = it.getattr(r, "var_names").seq
        n = names.length()
        i, j = X.const("i", Int), X.const("j", Int)
        xi, xj = names.get(i), names.get(j)
        rng = And(InR(0, i, n), InR(0, j, n))
        can = r.attrs.get("canform") is True and r.attrs.get("covform") is False
        ob(can, "the result is held in canonical form only")
        if not can:
            return
        zero = z3.RealVal(0)

        def padK(G):
            return If(And(G.names.mem(xi), G.names.mem(xj)), ml.entry(G.K, G.names.pos(xi), G.names.pos(xj)), zero)

        def padh(G):
            return If(G.names.mem(xi), ml.entry(G.h, G.names.pos(xi), 0), zero)
        K = raw(it, r.attrs["prec"], "precision")
        h = raw(it, r.attrs["h_vec"], "h")
        if K is None or h is None:
            return
        ob(And(zi(r.attrs["prec"].dim(0)) == zi(n), zi(r.attrs["prec"].dim(1)) == zi(n)), "shape of the precision")
        ob(And(zi(r.attrs["h_vec"].dim(0)) == zi(n), zi(r.attrs["h_vec"].dim(1)) == 1), "shape of h")
        ob(Implies(rng, K(i, j) == op(padK(a), padK(b))), "quadratic coefficients combine pointwise, matched by name")
        ob(Implies(InR(0, i, n), h(i, 0) == op(padh(a), padh(b))), "linear coefficients combine pointwise, matched by name")
        ob(to_real(r.attrs["g_val"]) == op(a.g, b.g), "constants combine")
        for G in (a, b):
            unchanged(it, G)
        check_gauss_frame()
        fresh_roots(it, r, [a.f, b.f])
    return run


for _m, _o in (("multiply", lambda x, y: x + y), ("divide", lambda x, y: x - y), ("absorb", lambda x, y: x + y), ("cancel", lambda x, y: x - y)):
    for _fa in FORMS:
        for _fb in FORMS:
            if _m in ("absorb", "cancel") and (_fa, _fb) != ("canform", "covform"):
                continue
            contract("C13", f"Gaussian.{_m} {_fa} {_fb}", [Q + _m, Q + "_absorb_or_cancel", "veroku.factors._factor_utils:indexed_square_matrix_operation",
                     "veroku.factors._factor_utils:indexed_column_vector_operation"])(combine(_o, _fa, _fb, _m))
contract("C13", "Gaussian.multiply singular precisions", [Q + "multiply"])(combine(lambda x, y: x + y, "canraw", "canraw", "multiply"))
contract("C13", "Gaussian.divide singular precisions", [Q + "divide"])(combine(lambda x, y: x - y, "canraw", "canraw", "divide"))


# ------------------------------------------------------------------ C17 equality
def rclose(x, y, rtol, atol, strict=False):
    ab = lambda t: z3.If(t < 0, -t, t)  # noqa: E731
    m = z3.If((ab(x) < ab(y)) if strict else (ab(x) > ab(y)), ab(x), ab(y))
    return ab(x - y) <= atol + rtol * m


def by_name(ml, G, what, x, y=None):
    """entry of a parameter of the function at named variables"""
    if what in ("h", "m"):
        return ml.entry(getattr(G, what), G.names.pos(x), 0)
    return ml.entry(getattr(G, what), G.names.pos(x), G.names.pos(y))


def permuted(g, tag):
    o = BaseSeq(tag, Name, distinct=True)
    x = z3.Const("x", Name)
    X.forall([x], o._mem(x) == g.names.mem(x), o._mem(x), g.names.mem(x))
    X.assume(o.length() == zi(g.names.length()))
    return o


def gequals(fa, fb, same_scope, tol=False):
    def run(it):
        setup()
        ml = it.matlib
        a = gauss(it, "a", fa)
        b = gauss(it, "b", fb, names=permuted(a, "b_n") if same_scope else None)
        kw = {}
        if tol:
            rtol, atol = X.const("rtol", Real), X.const("atol", Real)
            X.assume(And(rtol >= 0, atol >= 0))
            kw = {"rtol": rtol, "atol": atol}
        start()
        if not tol:
            m = it.module(GMOD)
            rtol, atol = lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_RTOL"])), lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_ATOL"]))
        r = it.call(it.getattr(a.f, "equals"), [b.f], kw)
        ans = r if isinstance(r, bool) else X.branch(lib.truth_cond(it, r))
        for G in (a, b):
            unchanged(it, G)
        check_gauss_frame()
        cl = lambda u, v, s=False: rclose(u, v, rtol, atol, s)  # noqa: E731
        if ans:
            x = X.const("x", Name)
            ob(Iff(a.names.mem(x), b.names.mem(x)), "answered equal: same variables")
            ob(agree_by_name(ml, a, b, rtol, atol), "answered equal: the parameters agree by name within the tolerances")
            return
        X.canary("answered different")
        x = z3.Const("x", Name)
        X.forall([x], a.names.mem(x) == b.names.mem(x), a.names.mem(x), b.names.mem(x))
        X.assume(And(cl(a.g, b.g, True), cl(rexp(a.lw), rexp(b.lw), True), cl(a.lw, b.lw, True)))
        for W in X.memo.get(("boxwit",), []):
            for G in (a, b):
                x, y = G.names.get(W(z3.IntVal(0))), G.names.get(W(z3.IntVal(1)))
                for p in ("h", "m"):
                    X.assume(cl(by_name(ml, a, p, x), by_name(ml, b, p, x), True))
                for p in ("K", "S"):
                    X.assume(cl(by_name(ml, a, p, x, y), by_name(ml, b, p, x, y), True))
        ob(False, "answered different only when some parameter differs")
    return run


for _fa in FORMS:
    for _fb in FORMS:
        contract("C17", f"Gaussian.equals {_fa} {_fb}", [Q + "equals", Q + "_canform_equals", Q + "_covform_equals", Q + "_reorder_parameters"])(gequals(_fa, _fb, True))
contract("C17", "Gaussian.equals any scope canform", [Q + "equals"])(gequals("canform", "canform", False))
contract("C17", "Gaussian.equals any scope covform", [Q + "equals"])(gequals("covform", "covform", False))
contract("C17", "Gaussian.equals tolerances canform", [Q + "equals"])(gequals("canform", "covform", True, True))
contract("C17", "Gaussian.equals tolerances covform", [Q + "equals"])(gequals("covform", "canform", True, True))


def agree_by_name(ml, a, b, rtol, atol):
    """both answers of equals: the parameters of one form agree by name (goal form, with fresh variables)"""
    x, y = X.const("x", Name), X.const("y", Name)
    X.assume(And(a.names.mem(x), a.names.mem(y)))
    for G in (a, b):
        i, j = zi(G.names.pos(x)), zi(G.names.pos(y))
        instantiate_boxquants(lambda k: (i, j)[k] if isinstance(k, int) else If(k == 0, i, j))
        instantiate_boxquants(lambda k: (i, z3.IntVal(0))[k] if isinstance(k, int) else If(k == 0, i, z3.IntVal(0)))
    X.assume(And(b.names.mem(x), b.names.mem(y)))
    cl = lambda u, v: rclose(u, v, rtol, atol)  # noqa: E731
    can = And(cl(a.g, b.g), cl(by_name(ml, a, "h", x), by_name(ml, b, "h", x)), cl(by_name(ml, a, "K", x, y), by_name(ml, b, "K", x, y)))
    cov = And(Or(cl(rexp(a.lw), rexp(b.lw)), cl(a.lw, b.lw)), cl(by_name(ml, a, "m", x), by_name(ml, b, "m", x)),
              cl(by_name(ml, a, "S", x, y), by_name(ml, b, "S", x, y)))
    return Or(can, cov)


def gkl(fa, fb, normalized=True):
    def run(it):
        setup()
        ml = it.matlib
        a = gauss(it, "a", fa)
        b = gauss(it, "b", fb, names=permuted(a, "b_n"))
        start()
        m = it.module(GMOD)
        rtol, atol = lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_RTOL"])), lib.to_real(it.resolve(m.env["DEFAULT_FACTOR_ATOL"]))
        r = it.call(it.getattr(a.f, "kl_divergence"), [b.f], {} if normalized else {"normalize_factor": False})
        for G in (a, b):
            unchanged(it, G)
        check_gauss_frame()
        if isinstance(r, (int, float)) and r == 0:
            ob(agree_by_name(ml, a, b, rtol, atol), "zero only when the operands agree by name within the tolerances")
            return
        s = index_map(ml, a.names, b.names)
        Kq, Sq, mq = ml.sub(b.K, s, s), ml.sub(b.S, s, s), ml.select(b.m, s)
        d = ml.add(a.m, mq, -1)
        tr = z3.RealVal(0)
        for w, c in ml.mul(Kq, a.S).t.items():
            tr = tr + matlib._cz(c) * ml.tr_of(w, a.n)
        closed = HALF * (tr + quad(ml, d, Kq, d) - z3.ToReal(zi(a.n)) + ml.ld(Sq) - ml.ld(a.S))
        X.trusted.add("ML8 the Gaussian divergence is non-negative")
        X.assume(closed >= 0)
        ob(to_real(r) == closed, "the closed-form divergence of the normalised operands, matched by name")
    return run


for _fa in FORMS:
    for _fb in FORMS:
        contract("C17", f"Gaussian.kl_divergence {_fa} {_fb}", [Q + "kl_divergence", Q + "normalize", Q + "equals"])(gkl(_fa, _fb))
contract("C17", "Gaussian.kl_divergence without normalising", [Q + "kl_divergence"])(gkl("canform", "covform", False))


# ------------------------------------------------------------------ C18 linear Gaussian
@contract("C18", "make_linear_gaussian", [GMOD + ":make_linear_gaussian"])
def lingauss(it):
    setup()
    ml = it.matlib
    lib.REALS[0] = True
    xs, ys = BaseSeq("x_n", Name, distinct=True), BaseSeq("y_n", Name, distinct=True)
    n = xs.length()
    X.assume(zi(n) >= 1)
    X.assume(zi(ys.length()) == zi(n))
    v = z3.Const("x", Name)
    X.forall([v], Not(And(xs._mem(v), ys._mem(v))), xs._mem(v), ys._mem(v))
    A, N = ml.of_mat(ml.mat("A", n, n)), ml.of_mat(ml.mat("N", n, n, sym=True, pd=True))
    px, py = PList(xs, "list"), PList(ys, "list")
    start()
    r = it.call(it.get_func(GMOD, "make_linear_gaussian"), [ml.arr(A), ml.arr(N), px, py])
    if not check_gauss_class(r):
        return
    check_scope(it, r, lambda q: Or(xs.mem(q), ys.mem(q)))
    D = denote(it, r)
    sx, sy = index_map(ml, xs, D.names), index_map(ml, ys, D.names)
    x, y = ml.of_mat(ml.mat("x", n, 1)), ml.of_mat(ml.mat("y", n, 1))
    z = at_point(it, ml, [(sx, x), (sy, y)], D.n)
    d = ml.add(y, ml.mul(A, x), -1)
    want = -HALF * quad(ml, d, ml.inverse(N), d) - HALF * (ml.dimlog(n) + ml.ld(N))
    ob(logvalue(it, D, z) == want, "the log density of y given x at every point")
    check_frame()
    fresh_roots(it, r, [])
