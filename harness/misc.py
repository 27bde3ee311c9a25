"""Frame conditions (C19), refusals (C20) and templates (C26)."""
from base import *  # noqa: F401,F403
import base
import gau
import graph as gr


def snap(f):
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical
    from veroku.factors.gaussian import Gaussian
    n = type(f).__name__
    if isinstance(f, Categorical):
        return (n, list(f.var_names), dict(f.var_cards), [int(c) for c in f.cardinalities], f.log_probs_tensor.tolist(),
                {k: list(v) for k, v in f.vars_assignments_names_dict.items()}, f.dim)
    if isinstance(f, SparseCategorical):
        full = obs_named(f)
        return (n, list(f.var_names), dict(f.var_cards), [int(c) for c in f.cardinalities], full.table, f.dim)
    if isinstance(f, Gaussian):
        o = obs_gauss(f)[0]
        return (n, list(f.var_names), o.K.tolist(), o.h.tolist(), o.g, f.dim)
    if n == "GaussianMixture":
        return (n, list(f.var_names), f.cancel_method, [snap(x) for x in f.components])
    if n == "FactorizedFactor":
        return (n, list(f.var_names), [snap(x) for x in f.factors])
    if n == "NonLinearGaussian":
        return (n, list(f.var_names), list(f._conditioning_vars) if hasattr(f, "_conditioning_vars") else None,
                snap(f.joint_distribution) if f._joint_distribution is not None else None)
    raise TypeError(n)


def near(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(near(a[k], b[k]) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return close(float(a), float(b), rtol=1e-7, atol=1e-7 * max(1.0, abs(float(a))) if not math.isinf(float(a)) else 0.0)
    return a == b


# ---- C19
def rmixspec(rng, vs):
    return {"kind": "mix", "parts": [rgauss(rng, list(vs)) for _ in range(int(rng.integers(1, 4)))],
            "cm": int(rng.integers(0, 3))}


def rffspec(rng, pool, kind):
    parts = []
    for _ in range(int(rng.integers(1, 4))):
        vs = gau.pick(rng, pool, 1, min(3, len(pool)))
        cards = {v: 2 + (sum(map(ord, v)) % 2) for v in vs}
        parts.append(rgauss(rng, vs) if kind == "gauss" else rcat(rng, vs, cards, pzero=0.0, scale=1.0))
    return {"kind": "ff", "parts": parts}


def mk(spec):
    if spec["kind"] == "mix":
        from veroku.factors.experimental.gaussian_mixture import GaussianMixture
        return GaussianMixture([build(p) for p in spec["parts"]], cancel_method=spec["cm"])
    if spec["kind"] == "ff":
        from veroku.factors.experimental.factorised_factor import FactorizedFactor
        return FactorizedFactor([build(p) for p in spec["parts"]])
    return build(spec)


UNARY = ["normalize", "copy", "marginalize", "marginalize_out", "reduce", "dfv", "is_vacuous", "self_equal", "repr", "joint"]
BINARY = ["multiply", "divide", "cancel", "absorb", "equals", "eq", "ne", "kld"]


def gen_C19(rng, i):
    kind = ["cat", "sparse", "gauss", "mix", "ff", "ctor", "graph"][i % 7]
    if kind == "graph":
        return {"t": "graph", "g": gr.rgraph(rng), "seed": int(rng.integers(0, 10 ** 6))}
    pool = rnames(rng, int(rng.integers(1, 5)))
    cards = {v: 2 + (sum(map(ord, v)) % 2) for v in pool}
    sub = lambda lo=1: gau.pick(rng, pool, lo)  # noqa: E731
    same = rng.random() < 0.4
    if kind == "ctor":
        which = str(rng.choice(["cat", "cattable", "sparse", "cov", "can", "mix", "ff"]))
        vs = sub()
        if which in ("cat", "cattable"):
            s = rcat(rng, vs, cards, names=rnameslist(rng, vs, cards), pzero=0.0, scale=1.0)
        elif which == "sparse":
            s = rsparse(rng, vs, cards)
        elif which in ("cov", "can"):
            s = rgauss(rng, vs, form=which)
        elif which == "mix":
            s = rmixspec(rng, vs)
        else:
            s = rffspec(rng, pool, "gauss")
        return {"t": "ctor", "which": which, "a": s}
    if kind == "cat":
        va = sub(0)
        nm = rnameslist(rng, pool, cards) if rng.random() < 0.5 else None
        vb = gau.perm(rng, va) if same else sub(0)
        a, b = rcat(rng, va, cards, nm), rcat(rng, vb, cards, nm)
    elif kind == "sparse":
        va = sub()
        vb = gau.perm(rng, va) if same else sub()
        d = None if rng.random() < 0.7 else -0.3
        a, b = rsparse(rng, va, cards, default=d), rsparse(rng, vb, cards, default=d)
    elif kind == "gauss":
        va = sub()
        vb = gau.perm(rng, va) if same else sub()
        a, b = rgauss(rng, va), rgauss(rng, vb)
    elif kind == "mix":
        va = sub()
        a = rmixspec(rng, va)
        b = rmixspec(rng, gau.perm(rng, va)) if rng.random() < 0.5 else rgauss(rng, gau.perm(rng, va))
    else:
        k2 = str(rng.choice(["gauss", "cat"]))
        a = rffspec(rng, pool, k2)
        b = rffspec(rng, pool, k2)["parts"][0] if rng.random() < 0.6 else rffspec(rng, pool, k2)
    op = str(rng.choice(UNARY + BINARY + (["reorder", "potential", "argmax"] if kind in ("cat", "sparse") else []) +
                        (["log_potential", "get_cov", "get_prec", "log_potential"] if kind == "gauss" else []) +
                        (["mm", "log_potential"] if kind == "mix" else [])))
    return {"t": "op", "kind": kind, "a": a, "b": b, "op": op, "seed": int(rng.integers(0, 10 ** 6))}


def scribble(obj):
    """Change every mutable piece of a factor in place, through what the factor hands out and holds."""
    if obj is None or isinstance(obj, (float, int, bool, str, complex, tuple, np.generic)):
        return
    for name in ("factors", "components"):
        parts = getattr(obj, name, None)
        if isinstance(parts, list):
            for p in list(parts):
                scribble(p)
            parts.reverse()
    for name in ("log_probs_tensor", "cov", "mean", "prec", "h_vec"):
        arr = getattr(obj, name, None)
        if isinstance(arr, np.ndarray) and arr.flags.writeable:
            arr[...] = arr + 17.25
    for name in ("log_probs_table", "var_cards", "vars_assignments_names_dict"):
        d = getattr(obj, name, None)
        if isinstance(d, dict):
            for k in list(d):
                d[k] = 5
            d["scribble"] = 7
    for name in ("cardinalities", "_var_names"):
        xs = getattr(obj, name, None)
        if isinstance(xs, list):
            xs.append("scribble")
    for name in ("_var_names",):
        pass
    vn = getattr(obj, "var_names", None)
    if isinstance(vn, list):
        vn.reverse()


def check_C19(case):
    if case["t"] == "graph":
        return check_C19_graph(case)
    if case["t"] == "ctor":
        return check_C19_ctor(case)
    A, B = mk(case["a"]), mk(case["b"])
    rng = np.random.default_rng(case["seed"])
    sa, sb = snap(A), snap(B)
    op = case["op"]
    vs = list(A.var_names)
    vrs = [vs[i] for i in rng.permutation(len(vs))[: int(rng.integers(0, len(vs) + 1))]]
    args = []
    res = None
    try:
        if op in ("multiply", "divide", "cancel", "absorb"):
            res = getattr(A, op)(B)
        elif op == "equals":
            A.equals(B)
        elif op == "eq":
            A == B  # noqa: B015
        elif op == "ne":
            A != B  # noqa: B015
        elif op == "kld":
            A.kl_divergence(B)
        elif op in ("marginalize", "marginalize_out"):
            args = [vrs]
            keep0 = list(vrs)
            res = A.marginalize(vrs, keep=op == "marginalize")
        elif op == "reduce":
            if case["kind"] in ("gauss", "mix", "ff") and len(vrs) == len(vs):
                vrs = vrs[:-1]
            cards = dict(zip(case["a"].get("vars", []), case["a"].get("cards", [])))
            vals = [float(rng.normal()) if case["kind"] in ("gauss", "mix") or (case["kind"] == "ff" and case["a"]["parts"][0]["kind"] == "gauss")
                    else int(rng.integers(0, cards.get(v, 2))) for v in vrs]
            args, keep0 = [vrs, vals], None
            before = [list(vrs), list(vals)]
            res = A.reduce(vrs, vals)
            need([vrs, vals] == before, "reduce changed the lists it was given")
        elif op == "reorder":
            order = [vs[i] for i in rng.permutation(len(vs))]
            before = list(order)
            res = A.reorder(order)
            need(order == before, "reorder changed the list it was given")
            order.append("scribble")
        elif op == "potential":
            order = [vs[i] for i in rng.permutation(len(vs))]
            A.potential(order, [0] * len(vs))
        elif op == "log_potential":
            x = np.array(rng.normal(size=(len(vs), 1)))
            x0 = x.copy()
            A.log_potential(x)
            if case["kind"] == "gauss":
                order = [vs[i] for i in rng.permutation(len(vs))]
                A.log_potential(x, vrs=order)
            need(np.array_equal(x, x0), "log_potential changed the point it was given")
        elif op == "dfv":
            A.distance_from_vacuous()
        elif op == "self_equal":
            A.equals(A)
        elif op == "is_vacuous":
            A.is_vacuous  # noqa: B018
        elif op == "joint":
            res = A.joint_distribution
        elif op == "mm":
            res = A.moment_match_to_single_gaussian()
        elif op == "repr":
            repr(A)
        else:
            res = getattr(A, op)()
            if op in ("get_cov", "get_prec"):
                res = None
    except Fail:
        raise
    except Exception:  # noqa: BLE001   refusals and unsupported combinations must leave the operands alone too
        res = None
    what = f"{case['kind']} {op}"
    need(near(snap(A), sa), f"{what} changed the factor itself: {sa} -> {snap(A)}")
    need(near(snap(B), sb), f"{what} changed its operand: {sb} -> {snap(B)}")
    if op in ("marginalize", "marginalize_out"):
        need(vrs == keep0, f"{what} changed the variable list it was given")
        if res is not None:
            s0 = snap(res)
            vrs.append("scribble")
            need(near(snap(res), s0), f"{what}: the result shares the given variable list")
    if res is not None and type(res).__name__ in ("Categorical", "SparseCategorical", "Gaussian", "GaussianMixture", "FactorizedFactor"):
        need(res is not A and res is not B, f"{what} returned its operand itself")
        scribble(res)
        need(near(snap(A), sa), f"in-place changes to the result of {what} show in the factor")
        need(near(snap(B), sb), f"in-place changes to the result of {what} show in the operand")


def check_C19_ctor(case):
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical
    from veroku.factors.gaussian import Gaussian
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    w, s = case["which"], case["a"]
    if w == "cat":
        vs, t = list(s["vars"]), np.array(s["logv"], dtype=float).reshape(tuple(s["cards"]))
        names = [list(n) for n in s["names"]]
        f = Categorical(var_names=vs, log_probs_tensor=t, variables_assignment_names=names)
        s0 = snap(f)
        vs.append("x"), names.append(["q"]), names[0].append("zz")
        t[...] = t + 3.0
    elif w == "cattable":
        vs, cards = list(s["vars"]), list(s["cards"])
        table = {a: sexp(x) for a, x in zip(itertools.product(*[range(c) for c in cards]), s["logv"])}
        f = Categorical(var_names=vs, cardinalities=cards, probs_table=table)
        s0 = snap(f)
        vs.append("x"), cards.append(4)
        for k in table:
            table[k] = 0.123
    elif w == "sparse":
        vs, cards = list(s["vars"]), list(s["cards"])
        table = {tuple(a): (NINF if x is None else float(x)) for a, x in s["entries"]}
        f = SparseCategorical(var_names=vs, cardinalities=cards, log_probs_table=table)
        s0 = snap(f)
        vs.append("x"), cards.append(4)
        for k in table:
            table[k] = 0.123
        table[tuple(0 for _ in s["cards"])] = -1.25
    elif w in ("cov", "can"):
        vs = list(s["vars"])
        n = len(vs)
        if w == "cov":
            M, v = np.array(s["cov"], dtype=float), np.array(s["mean"], dtype=float).reshape(n, 1)
            f = Gaussian(cov=M, mean=v, log_weight=0.25, var_names=vs)
        else:
            M, h, g = can_of(s)
            v = h.reshape(n, 1).copy()
            f = Gaussian(prec=M, h_vec=v, g_val=0.25, var_names=vs)
        s0 = snap(f)
        vs.append("x")
        M[...] = np.eye(n) * 3.0
        v[...] = 9.0
    else:
        parts = [build(p) for p in s["parts"]]
        f = GaussianMixture(parts, cancel_method=s["cm"]) if w == "mix" else FactorizedFactor(parts)
        s0 = snap(f)
        parts.append(parts[0]), parts.reverse()
    need(near(snap(f), s0), f"changing the containers a {w} factor was built from changed the factor")


def check_C19_graph(case):
    from veroku.cluster_graph import ClusterGraph
    c = case["g"]
    factors = [build(s) for s in c["factors"]]
    snaps = [snap(f) for f in factors]
    lst, ev, sp = list(factors), dict(c["ev"]), dict(c["sp"])
    g = ClusterGraph(lst, disable_tqdm=True, **({"evidence": ev} if not c["evnone"] else {}), **({"special_evidence": sp} if sp else {}))
    g.process_graph(tol=1e-3, max_iter=1)
    g.get_posterior_joint()
    vs = [v for v in g._clusters[0].var_names if v not in sp][:2]
    if vs:
        arg = list(vs)
        g.get_marginal(arg)
        need(arg == vs, "get_marginal changed the list it was given")
    need(len(lst) == len(factors) and all(a is b for a, b in zip(lst, factors)), "the list of factors was changed")
    need(ev == c["ev"] and sp == c["sp"], "the evidence was changed")
    for f, s in zip(factors, snaps):
        need(near(snap(f), s), f"building and running a cluster graph changed a given factor {s} -> {snap(f)}")
    before = [gr.snapshot(x._factor) for x in g._clusters]
    for f in factors:
        scribble(f)
    need(all(gr.same_snapshot(gr.snapshot(x._factor), b) for x, b in zip(g._clusters, before)),
         "in-place changes to a given factor show in a cluster")


# ---- C20
C20 = ["cards", "names", "kind", "dup", "shape", "gauss", "ok_names", "missing"]


def gen_C20(rng, i):
    t = C20[i % len(C20)]
    pool = rnames(rng, int(rng.integers(1, 5)))
    cards = {v: int(rng.choice([1, 2, 3])) for v in pool}
    a = gau.pick(rng, pool, 1)
    b = gau.perm(rng, list(dict.fromkeys([a[0]] + gau.pick(rng, pool, 0))))
    kind = str(rng.choice(["cat", "sparse"])) if t in ("cards", "kind", "missing") else "cat"
    return {"t": t, "kind": kind, "a": a, "b": b, "cards": cards, "v": a[0], "delta": int(rng.choice([-1, 1, 2])),
            "op": str(rng.choice(["multiply", "divide", "cancel", "absorb"])), "seed": int(rng.integers(0, 10 ** 6))}


def check_C20(case):
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical
    from veroku.factors.gaussian import Gaussian
    rng = np.random.default_rng(case["seed"])
    cards, a, b, v, t, op = dict(case["cards"]), case["a"], case["b"], case["v"], case["t"], case["op"]
    r = (lambda vs, c, **kw: rcat(rng, vs, c, pzero=0.0, scale=1.0, **kw)) if case["kind"] == "cat" else \
        (lambda vs, c, **kw: rsparse(rng, vs, c, default=None, scale=1.0))
    if t == "cards":
        cb = dict(cards)
        cb[v] = cards[v] + case["delta"]
        if cb[v] < 1:
            cb[v] = cards[v] + 1
        A, B = build(r(a, cards)), build(r(b, cb))
        if not (case["kind"] == "sparse" and set(a).isdisjoint(b)):
            need(raises(lambda: getattr(A, op)(B)), f"{case['kind']} {op} accepted cardinalities {cards} and {cb} over {a} and {b}")
        if set(a) == set(b):
            need(raises(lambda: A.kl_divergence(B)), f"{case['kind']} kl_divergence accepted cardinalities {cards} and {cb}")
    elif t in ("names", "ok_names"):
        na = rnameslist(rng, list(cards), cards)
        nb = {k: list(x) for k, x in na.items()}
        if t == "names":
            if cards[v] > 1 and rng.random() < 0.6:
                nb[v] = nb[v][1:] + nb[v][:1]
            else:
                nb[v] = nb[v][:-1] + ["other"]
        A, B = build({**r(a, cards), "names": [na[x] for x in a]}), build({**r(b, cards), "names": [nb[x] for x in b]})
        if t == "names":
            need(raises(lambda: getattr(A, op)(B)), f"{op} accepted different assignment names {na[v]} and {nb[v]} of {v}")
        else:
            getattr(A, op)(B)
            getattr(B, op)(A)
    elif t == "kind":
        A = build(r(a, cards))
        other = SparseCategorical if case["kind"] == "cat" else Categorical
        O1 = build({"kind": "sparse" if case["kind"] == "cat" else "cat", "vars": a, "cards": [cards[x] for x in a],
                    **({"entries": [], "default": None} if case["kind"] == "cat" else {"logv": [0.5] * math.prod(cards[x] for x in a)})})
        O2 = build(rgauss(rng, a))
        need(isinstance(O1, other), "harness")
        for O in (O1, O2):
            for f in (lambda: getattr(A, op)(O), lambda: A.kl_divergence(O), lambda: A.equals(O)):  # noqa: B023
                need(raises(f), f"{case['kind']} operation accepted a {type(O).__name__}")
        need(raises(lambda: O2.equals(A)), "Gaussian equals accepted a categorical factor")
        need(raises(lambda: getattr(O2, op)(A)), f"Gaussian {op} accepted a categorical factor")
    elif t == "dup":
        vs = a + [v]
        c = [cards[x] for x in vs]
        need(raises(lambda: Categorical(var_names=vs, log_probs_tensor=np.zeros(c)), ValueError), "duplicate variables accepted (tensor)")
        need(raises(lambda: Categorical(var_names=vs, cardinalities=c, probs_table={}), ValueError), "duplicate variables accepted (table)")
        need(raises(lambda: SparseCategorical(var_names=vs, cardinalities=c, probs_table={}), ValueError), "duplicate variables accepted (sparse)")
        n = len(vs)
        need(raises(lambda: Gaussian(cov=np.eye(n), mean=np.zeros((n, 1)), log_weight=0.0, var_names=vs), ValueError), "duplicate variables accepted (Gaussian)")
        need(raises(lambda: Gaussian(prec=np.eye(n), h_vec=np.zeros((n, 1)), g_val=0.0, var_names=vs), ValueError), "duplicate variables accepted (Gaussian canonical)")
    elif t == "shape":
        c = [cards[x] for x in a]
        need(raises(lambda: Categorical(var_names=a + ["extra"], cardinalities=c, probs_table={})), "too few cardinalities accepted")
        need(raises(lambda: SparseCategorical(var_names=a + ["extra"], cardinalities=c, probs_table={})), "too few cardinalities accepted (sparse)")
        need(raises(lambda: SparseCategorical(var_names=a, cardinalities=c + [2], probs_table={})), "too many cardinalities accepted (sparse)")
        need(raises(lambda: Categorical(var_names=a, cardinalities=c + [2], probs_table={})), "too many cardinalities accepted")
        need(raises(lambda: Categorical(var_names=a, cardinalities=c, probs_table={tuple(c): 1.0})), "an assignment outside the cardinalities was accepted")
        n = len(a)
        k = n + int(rng.integers(1, 3))
        need(raises(lambda: Gaussian(cov=np.eye(k), mean=np.zeros((n, 1)), log_weight=0.0, var_names=a)), "covariance of the wrong size accepted")
        need(raises(lambda: Gaussian(cov=np.eye(n), mean=np.zeros((k, 1)), log_weight=0.0, var_names=a)), "mean of the wrong size accepted")
        need(raises(lambda: Gaussian(prec=np.eye(k), h_vec=np.zeros((n, 1)), g_val=0.0, var_names=a)), "precision of the wrong size accepted")
        need(raises(lambda: Gaussian(prec=np.eye(n), h_vec=np.zeros((k, 1)), g_val=0.0, var_names=a)), "h of the wrong size accepted")
        Categorical(var_names=a, cardinalities=c, probs_table={})
        SparseCategorical(var_names=a, cardinalities=c, probs_table={})
    elif t == "gauss":
        n = len(a)
        full = {"cov": np.eye(n), "mean": np.zeros((n, 1)), "log_weight": 0.0}
        can = {"prec": np.eye(n), "h_vec": np.zeros((n, 1)), "g_val": 0.0}
        for d in (full, can):
            Gaussian(var_names=a, **d)
            for k in range(1, 7):
                part = {x: y for i, (x, y) in enumerate(d.items()) if k >> i & 1}
                need(raises(lambda: Gaussian(var_names=a, **part), ValueError), f"incomplete parameters {sorted(part)} accepted")  # noqa: B023
            need(raises(lambda: Gaussian(**d), ValueError), "missing variable names accepted")  # noqa: B023
        need(raises(lambda: Gaussian(var_names=a), ValueError), "no parameters accepted")
    elif t == "missing":
        A = build(r(a, cards))
        need(raises(lambda: A.reorder(a + ["none_such"])), "reorder to another variable set accepted")
        if len(a) > 1 and case["kind"] == "cat":
            need(raises(lambda: A.reorder(a[:-1])), "reorder to fewer variables accepted")
        need(raises(lambda: Categorical(var_names=a)), "no table accepted")
        need(raises(lambda: SparseCategorical(var_names=a, cardinalities=[cards[x] for x in a])), "no table accepted (sparse)")


# ---- C26
def gen_C26(rng, i):
    kind = ["cat", "catlog", "sparse", "gauss", "lin", "nlg"][i % 6]
    n = int(rng.integers(1, 4))
    base_ = ["a", "b", "c", "x_y", "q"]
    tpl = []
    for j in rng.permutation(5)[:n]:
        tpl.append(base_[j] + str(rng.choice(["_{i}", "{i}_{t}", "_{t}"])))
    cards = [int(rng.choice([1, 2, 3])) for _ in tpl]
    size = math.prod(cards)
    logs = rlogs(rng, size, scale=1.0)
    return {"kind": kind, "tpl": tpl, "cards": cards, "logv": logs, "fd": {"i": int(rng.integers(0, 20)), "t": int(rng.integers(0, 20))},
            "given": bool(rng.random() < 0.3), "seed": int(rng.integers(0, 10 ** 6))}


def fn_from_tables(vs, cards, logv):
    table = dict(zip(itertools.product(*[range(c) for c in cards]), [NINF if x is None else x for x in logv]))
    return Fn(vs, dict(zip(vs, cards)), table)


def check_C26(case):
    from veroku.factors.categorical import CategoricalTemplate
    from veroku.factors.sparse_categorical import SparseCategoricalTemplate
    from veroku.factors.gaussian import GaussianTemplate, make_linear_gaussian_cpd_template
    kind, tpl, cards, fd = case["kind"], list(case["tpl"]), list(case["cards"]), case["fd"]
    rng = np.random.default_rng(case["seed"])
    given = [f"v{k}" for k in rng.permutation(len(tpl))]
    exp_vars = given if case["given"] else [t.format(**fd) for t in tpl]
    fd2 = {"i": fd["i"] + 100, "t": fd["t"] + 100}
    args = {"var_names": list(given)} if case["given"] else {"format_dict": dict(fd)}
    assigns = list(itertools.product(*[range(c) for c in cards]))
    probs = {a: sexp(x) for a, x in zip(assigns, case["logv"]) if x is not None}
    if kind in ("cat", "sparse"):
        t = CategoricalTemplate(var_templates=list(tpl), cardinalities=list(cards), probs_table=dict(probs)) if kind == "cat" else \
            SparseCategoricalTemplate(probs_table=dict(probs), cardinalities=list(cards), var_templates=list(tpl))
    elif kind == "catlog":
        arr = np.array([NINF if x is None else x for x in case["logv"]], dtype=float).reshape(tuple(cards))
        t = CategoricalTemplate(var_templates=list(tpl), log_probs_tensor=arr)
    elif kind == "gauss":
        s = rgauss(rng, list(tpl), form="can")
        K, h, g = can_of(s)
        t = GaussianTemplate({"prec": K.copy(), "h": h.reshape(-1, 1).copy(), "g": g}, list(tpl))
    elif kind == "lin":
        n = len(tpl)
        A, N = np.round(rng.normal(size=(n, n)), 5), rcov(rng, n)
        t = make_linear_gaussian_cpd_template(A, N, [x + "_x" for x in tpl], [x + "_y" for x in tpl])
        x = ([f"v{k}" for k in range(n)] if case["given"] else [q.format(**fd) + "_x" for q in tpl])
        y = ([f"w{k}" for k in range(n)] if case["given"] else [q.format(**fd) + "_y" for q in tpl])
        exp_vars = x + y
        args = {"var_names": list(exp_vars)} if case["given"] else {"format_dict": dict(fd)}
    else:
        return check_C26_nlg(case, rng)
    f = t.make_factor(**args)

    def right(f, vs, what):
        need(list(f.var_names) == list(vs), f"{what}: variables {f.var_names}, expected {vs}")
        if kind in ("cat", "catlog", "sparse"):
            exp = fn_from_tables(vs, cards, case["logv"])
            check_fn(f, vs, exp.cards, exp.at, order=vs, what=what)
        elif kind == "gauss":
            check_gfn(f, GFn(vs, K, h, g), what=what, order=vs)
        else:
            lin = gau.lin_gfn(A, N, x, y)
            o = obs_gauss(f)[0]
            check_gfn(f, GFn(lin.vars, lin.K, lin.h, 0.0), what=what, order=vs)
            need(o is not None, "harness")
    right(f, exp_vars, "instance")
    if kind in ("gauss",):
        if len(exp_vars) > 1:
            k = [exp_vars[j] for j in rng.permutation(len(exp_vars))[:1]]
            check_gfn(f.marginalize(list(k)), gfn_marg(GFn(exp_vars, K, h, g), k), what="TEMPLATE-VACUOUS marginal of an instance")
    two = t.make_factor(**args)
    scribble(f)
    if kind in ("gauss", "lin"):
        f.g_val = 99.0
    right(two, exp_vars, "another instance after changing the first")
    three = t.make_factor(**args)
    right(three, exp_vars, "an instance made after changing the first")
    if not case["given"] and kind != "lin":
        right(t.make_factor(format_dict=fd2), [q.format(**fd2) for q in tpl], "an instance with other values")


def known_C26(case, msg):
    if case["kind"] == "gauss" and msg.startswith("TEMPLATE-VACUOUS"):
        return "gaussian-template-instances-are-marked-vacuous"
    return None


def check_C26_nlg(case, rng):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussianTemplate
    n = len(case["tpl"])
    A, N = np.round(rng.normal(size=(n, n)), 4), rcov(rng, n)
    order = {}

    def transform(pts_, var_names):
        return A @ pts_[[list(var_names).index(v) for v in order["x"]], :]

    xt, yt = [t + "_x" for t in case["tpl"]], [t + "_y" for t in case["tpl"]]
    t = NonLinearGaussianTemplate(conditioning_var_templates=list(xt), conditional_var_templates=list(yt),
                                  transition_function=transform, noise_cov=N.copy())
    fd = case["fd"]
    x, y = [q.format(**fd) for q in xt], [q.format(**fd) for q in yt]
    if case["given"]:
        x, y = [f"v{k}" for k in range(n)], [f"w{k}" for k in range(n)]
    order["x"] = x
    if case["given"]:
        mkf = lambda: t.make_factor(conditioning_vars=list(x), conditional_vars=list(y))  # noqa: E731
    else:
        mkf = lambda: t.make_factor(format_dict=dict(fd))  # noqa: E731
    f = mkf()
    need(list(f.var_names) == x + y, f"variables {f.var_names}, expected {x + y}")
    s = rgauss(rng, gau.perm(rng, x))
    exp = gfn_add([gau.lin_gfn(A, N, x, y), gfn_of_spec(s)], [1, 1])
    two = mkf()
    j = f.multiply(build(s)).joint_distribution
    check_gfn(j, exp, what="joint of a linear instance", rtol=1e-4, atol=1e-4)
    j2 = two.multiply(build(s)).joint_distribution
    check_gfn(j2, exp, what="joint of another instance", rtol=1e-4, atol=1e-4)
