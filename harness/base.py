"""Concrete oracle: case construction and independent reference semantics (never calls the code under test to compute
the expected value).  Cases are plain JSON values, so every failing case can be written to and replayed from a file."""
import itertools
import json
import math
import os
import sys
import warnings

warnings.simplefilter("ignore")
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
os.environ.setdefault("MPLBACKEND", "Agg")

import numpy as np  # noqa: E402

np.seterr(all="ignore")
NINF = -math.inf


class Fail(Exception):
    """The property is violated on this case."""


def need(cond, msg):
    if not cond:
        raise Fail(msg)


def lse(values):
    values = [v for v in values if v != NINF]
    if not values:
        return NINF
    m = max(values)
    if m == math.inf:
        return math.inf
    return m + math.log(math.fsum(math.exp(v - m) for v in values))


def sexp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def close(a, b, rtol=1e-7, atol=1e-9):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


# ---------------------------------------------------------------- categorical functions of named assignments
class Fn:
    """A reference log-function over named discrete variables: vars (list), cards (dict), table {tuple: log value}."""

    def __init__(self, vars_, cards, table):
        self.vars = list(vars_)
        self.cards = {v: int(cards[v]) for v in self.vars}
        self.table = table

    def at(self, named):
        return self.table[tuple(named[v] for v in self.vars)]


def assignments(vars_, cards):
    for combo in itertools.product(*[range(cards[v]) for v in vars_]):
        yield dict(zip(vars_, combo))


def fn_of_spec(spec):
    vs, cs = spec["vars"], spec["cards"]
    cards = dict(zip(vs, cs))
    if spec["kind"] == "cat":
        vals = [NINF if x is None else float(x) for x in spec["logv"]]
        table = dict(zip(itertools.product(*[range(c) for c in cs]), vals))
    else:
        d = NINF if spec.get("default") is None else float(spec["default"])
        table = {a: d for a in itertools.product(*[range(c) for c in cs])}
        for a, x in spec["entries"]:
            table[tuple(a)] = NINF if x is None else float(x)
    return Fn(vs, cards, table)


def names_of_spec(spec):
    if spec.get("names"):
        return {v: tuple(n) for v, n in zip(spec["vars"], spec["names"])}
    return {v: tuple(range(c)) for v, c in zip(spec["vars"], spec["cards"])}


def build(spec):
    from veroku.factors.categorical import Categorical
    from veroku.factors.sparse_categorical import SparseCategorical
    from veroku.factors.gaussian import Gaussian
    k = spec["kind"]
    if k == "cat":
        arr = np.array([NINF if x is None else float(x) for x in spec["logv"]], dtype=float)
        if spec.get("ctor") == "table":
            table = {}
            for a, x in zip(itertools.product(*[range(c) for c in spec["cards"]]), arr):
                if x != NINF:
                    table[a] = math.exp(x)
            return Categorical(var_names=list(spec["vars"]), cardinalities=list(spec["cards"]), probs_table=table,
                               variables_assignment_names=spec.get("names"))
        return Categorical(var_names=list(spec["vars"]), log_probs_tensor=arr.reshape(tuple(spec["cards"])),
                           variables_assignment_names=spec.get("names"))
    if k == "sparse":
        d = NINF if spec.get("default") is None else float(spec["default"])
        table = {tuple(a): (NINF if x is None else float(x)) for a, x in spec["entries"]}
        return SparseCategorical(var_names=list(spec["vars"]), cardinalities=list(spec["cards"]),
                                 log_probs_table=table, default_log_prob=d)
    if k == "gauss":
        vs = list(spec["vars"])
        if spec["form"] in ("cov", "covboth"):
            g = Gaussian(cov=np.array(spec["cov"], dtype=float), mean=np.array(spec["mean"], dtype=float).reshape(-1, 1),
                         log_weight=float(spec["lw"]), var_names=vs)
            if spec["form"] == "covboth":
                g.get_prec()
            return g
        K, h, gv = can_of(spec)
        g = Gaussian(prec=K, h_vec=h.reshape(-1, 1), g_val=float(gv), var_names=vs)
        if spec["form"] == "canboth":
            g.get_cov()
        return g
    raise ValueError(k)


def obs_named(factor):
    """Observe the factor under test as a named function through its public attributes."""
    from veroku.factors.categorical import Categorical
    vs = list(factor.var_names)
    cards = {v: int(factor.var_cards[v]) for v in vs}
    if isinstance(factor, Categorical):
        need(len(factor.log_probs_tensor.shape) == len(vs), "tensor rank does not match the variables")
        need(tuple(int(x) for x in factor.log_probs_tensor.shape) == tuple(cards[v] for v in vs),
             f"tensor shape {factor.log_probs_tensor.shape} does not match the cardinalities {cards} of {vs}")
        table = {a: float(factor.log_probs_tensor[a]) for a in itertools.product(*[range(cards[v]) for v in vs])}
    else:
        d = float(factor.default_log_prob)
        table = {a: float(factor.log_probs_table.get(a, d)) for a in itertools.product(*[range(cards[v]) for v in vs])}
        for key in factor.log_probs_table:
            need(key in table, f"stored entry {key} outside the table of {vs} with cardinalities {cards}")
    need(set(factor.var_cards) == set(vs), f"var_cards {factor.var_cards} do not match {vs}")
    need([int(c) for c in factor.cardinalities] == [cards[v] for v in vs],
         f"cardinalities {list(factor.cardinalities)} do not match var_cards {cards} in the order {vs}")
    need(factor.dim == len(vs), "dim does not match the variables")
    return Fn(vs, cards, table)


def check_fn(factor, exp_vars, cards, expected, names=None, order=None, skip=lambda n: False, what="result", **tol):
    """factor must be exactly the function `expected` (named assignment -> log value) over exp_vars."""
    got = obs_named(factor)
    need(sorted(got.vars) == sorted(exp_vars), f"{what}: scope {got.vars}, expected the variables {sorted(exp_vars)}")
    if order is not None:
        need(got.vars == list(order), f"{what}: variable order {got.vars}, expected {list(order)}")
    for v in exp_vars:
        need(got.cards[v] == cards[v], f"{what}: cardinality of {v} is {got.cards[v]}, expected {cards[v]}")
    for named in assignments(got.vars, got.cards):
        if skip(named):
            continue
        e = expected(named)
        g = got.at(named)
        need(close(g, e, **tol), f"{what}: log value at {named} is {g!r}, expected {e!r}")
    if names is not None and hasattr(factor, "vars_assignments_names_dict"):
        for v in exp_vars:
            gn = tuple(factor.vars_assignments_names_dict[v])
            need(gn == tuple(names[v]), f"{what}: assignment names of {v} are {gn}, expected {tuple(names[v])}")


# ---------------------------------------------------------------- Gaussian reference
def can_of(spec):
    if "prec" in spec:
        return (np.array(spec["prec"], dtype=float), np.array(spec["h"], dtype=float).ravel(), float(spec["g"]))
    S = np.array(spec["cov"], dtype=float)
    m = np.array(spec["mean"], dtype=float).ravel()
    K = np.linalg.inv(S)
    K = 0.5 * (K + K.T)
    h = K @ m
    g = float(spec["lw"]) - 0.5 * m @ K @ m - 0.5 * np.linalg.slogdet(2 * np.pi * S)[1]
    return K, h, g


class GFn:
    """Reference quadratic log-function over named variables."""

    def __init__(self, vars_, K, h, g):
        self.vars = list(vars_)
        self.K, self.h, self.g = np.array(K, dtype=float), np.array(h, dtype=float).ravel(), float(g)

    def at(self, named):
        x = np.array([named[v] for v in self.vars])
        return float(-0.5 * x @ self.K @ x + x @ self.h + self.g)

    def moments(self):
        S = np.linalg.inv(self.K)
        m = S @ self.h
        lw = self.g + 0.5 * m @ self.K @ m + 0.5 * np.linalg.slogdet(2 * np.pi * S)[1]
        return S, m, float(lw)


def gfn_of_spec(spec):
    return GFn(spec["vars"], *can_of(spec))


def gfn_moment(vars_, S, m, lw):
    S = np.array(S, dtype=float)
    m = np.array(m, dtype=float).ravel()
    K = np.linalg.inv(S)
    return GFn(vars_, K, K @ m, lw - 0.5 * m @ K @ m - 0.5 * np.linalg.slogdet(2 * np.pi * S)[1])


def gfn_add(fs, signs):
    vs = []
    for f in fs:
        vs += [v for v in f.vars if v not in vs]
    n = len(vs)
    K, h, g = np.zeros((n, n)), np.zeros(n), 0.0
    for f, s in zip(fs, signs):
        ix = [vs.index(v) for v in f.vars]
        K[np.ix_(ix, ix)] += s * f.K
        h[ix] += s * f.h
        g += s * f.g
    return GFn(vs, K, h, g)


def gfn_slice(f, ev):
    keep = [v for v in f.vars if v not in ev]
    xi = [f.vars.index(v) for v in keep]
    ob = [v for v in f.vars if v in ev]
    yi = [f.vars.index(v) for v in ob]
    y = np.array([float(ev[v]) for v in ob])
    K = f.K[np.ix_(xi, xi)]
    h = f.h[xi] - f.K[np.ix_(xi, yi)] @ y
    g = f.g + f.h[yi] @ y - 0.5 * y @ f.K[np.ix_(yi, yi)] @ y
    return GFn(keep, K, h, g)


def gfn_marg(f, keep):
    S, m, lw = f.moments()
    ix = [f.vars.index(v) for v in keep]
    return gfn_moment(keep, S[np.ix_(ix, ix)], m[ix], lw)


def obs_gauss(g):
    """The function a Gaussian under test denotes, read from a raw stored form (no query that could mutate)."""
    vs = list(g._var_names)
    outs = []
    if g.canform:
        outs.append(GFn(vs, g.prec, g.h_vec, g.g_val))
    if g.covform:
        outs.append(gfn_moment(vs, g.cov, g.mean, float(g.log_weight)))
    need(outs, "Gaussian has no parameters")
    return outs


def points(vars_, rng, n=4, scale=2.0):
    return [dict(zip(vars_, (rng.normal(size=len(vars_)) * scale).tolist())) for _ in range(n)]


def check_gfn(g, expected, what="result", order=None, rtol=1e-6, atol=1e-6, params=True):
    vs = list(g.var_names)
    need(sorted(vs) == sorted(expected.vars), f"{what}: scope {vs}, expected {sorted(expected.vars)}")
    if order is not None:
        need(vs == list(order), f"{what}: variable order {vs}, expected {list(order)}")
    need(g.dim == len(vs), f"{what}: dim {g.dim} for variables {vs}")
    ix = [expected.vars.index(v) for v in vs]
    K, h = expected.K[np.ix_(ix, ix)], expected.h[ix]
    ref = max(1.0, float(np.max(np.abs(K))) if K.size else 1.0, float(np.max(np.abs(h))) if h.size else 1.0)
    for o in obs_gauss(g):
        need(o.K.shape == K.shape and np.allclose(o.K, K, rtol=rtol, atol=atol * ref),
             f"{what}: precision {o.K.tolist()} expected {K.tolist()} over {vs}")
        need(np.allclose(o.h, h, rtol=rtol, atol=atol * ref), f"{what}: h {o.h.tolist()} expected {h.tolist()} over {vs}")
        need(close(o.g, expected.g, rtol=rtol, atol=atol * max(ref, 10.0)), f"{what}: g {o.g} expected {expected.g}")


# ---------------------------------------------------------------- random generation
NAMEPOOL = ["a", "b", "c", "d", "e", "x1", "x10", "x2", "ab", "ba", "B", "A_1", "z"]


def rnames(rng, n):
    if rng.random() < 0.4:
        base = ["a", "b", "c", "d", "e", "f", "g"][:max(n, 1)]
        return [base[i] for i in rng.permutation(n)]
    return [NAMEPOOL[i] for i in rng.permutation(len(NAMEPOOL))[:n]]


def rcards(rng, vars_, maxcard=4, maxsize=400):
    while True:
        c = {v: int(rng.choice([1, 2, 2, 3, 3, maxcard])) for v in vars_}
        if math.prod(c.values()) <= maxsize:
            return c
        maxcard = max(2, maxcard - 1)
        c = {v: int(rng.choice([1, 2, 2, 2])) for v in vars_}
        if math.prod(c.values()) <= maxsize:
            return c


def rlogs(rng, n, pzero=None, scale=None):
    if pzero is None:
        pzero = float(rng.choice([0.0, 0.0, 0.15, 0.5]))
    if scale is None:
        scale = float(rng.choice([1.0, 3.0, 3.0, 300.0]))
    out = []
    for _ in range(n):
        out.append(None if rng.random() < pzero else float(np.round(rng.normal() * scale, 6)))
    if rng.random() < 0.1 and n:
        out = [out[0]] * n
    return out


def rnameslist(rng, vars_, cards):
    pool = ["lo", "hi", "mid", "yes", "no", "q"]
    return {v: [f"{v}:{pool[i]}" for i in rng.permutation(6)[:cards[v]]] if cards[v] <= 6 else
            [f"{v}:{i}" for i in range(cards[v])] for v in vars_}


def rcat(rng, vars_, cards, names=None, **kw):
    n = math.prod(cards[v] for v in vars_)
    spec = {"kind": "cat", "vars": list(vars_), "cards": [cards[v] for v in vars_], "logv": rlogs(rng, n, **kw)}
    if names is not None:
        spec["names"] = [names[v] for v in vars_]
    if rng.random() < 0.25 and all(x is None or abs(x) < 300 for x in spec["logv"]):
        spec["ctor"] = "table"
    return spec


def rsparse(rng, vars_, cards, default="rand", **kw):
    n = math.prod(cards[v] for v in vars_)
    logs = rlogs(rng, n, **kw)
    if default == "rand":
        default = None if rng.random() < 0.7 else float(np.round(rng.normal(), 4))
    density = float(rng.choice([0.0, 0.3, 0.6, 1.0]))
    entries = []
    allassign = list(itertools.product(*[range(cards[v]) for v in vars_]))
    for i in rng.permutation(n):
        if rng.random() < density:
            entries.append([list(allassign[i]), logs[i]])
    return {"kind": "sparse", "vars": list(vars_), "cards": [cards[v] for v in vars_], "entries": entries,
            "default": default}


def rcov(rng, n, scale=None):
    A = rng.normal(size=(n, n))
    S = A @ A.T / max(n, 1) + np.diag(rng.uniform(0.3, 1.5, size=n))
    d = np.exp(rng.normal(size=n) * 0.4)
    S = S * np.outer(d, d)
    if scale is None:
        scale = float(rng.choice([1.0, 1.0, 1.0, 20.0, 0.05]))
    return np.round(S * scale, 9)


def rgauss(rng, vars_, form=None):
    n = len(vars_)
    S = rcov(rng, n)
    S = (S + S.T) / 2
    if form is None:
        form = str(rng.choice(["cov", "can", "covboth", "canboth"]))
    return {"kind": "gauss", "vars": list(vars_), "cov": S.tolist(), "mean": np.round(rng.normal(size=n) * 2, 6).tolist(),
            "lw": float(np.round(rng.choice([0.0, rng.normal() * 2]), 6)), "form": form}


def rcan(rng, vars_):
    """An arbitrary canonical form (not necessarily a density)."""
    n = len(vars_)
    A = rng.normal(size=(n, n))
    return {"kind": "gauss", "form": "can", "vars": list(vars_), "prec": np.round((A + A.T), 6).tolist(),
            "h": np.round(rng.normal(size=n), 6).tolist(), "g": float(np.round(rng.normal(), 6))}


def rpair_vars(rng, maxv=5):
    """Two scopes with a random overlap pattern and independent random orders."""
    pool = rnames(rng, int(rng.integers(1, maxv + 1)))
    mode = int(rng.integers(0, 6))
    n = len(pool)
    if mode == 0:
        a, b = pool, pool
    elif mode == 1:
        k = int(rng.integers(0, n + 1))
        a, b = pool[:k], pool[k:]
    elif mode == 2:
        a, b = pool, pool[: int(rng.integers(0, n + 1))]
    elif mode == 3:
        a, b = pool[: int(rng.integers(0, n + 1))], pool
    else:
        a = [v for v in pool if rng.random() < 0.65]
        b = [v for v in pool if rng.random() < 0.65]
    shuffle = rng.random() < 0.85
    if shuffle:
        a = [a[i] for i in rng.permutation(len(a))]
        b = [b[i] for i in rng.permutation(len(b))]
    return list(a), list(b)


def raises(fn, *exc):
    try:
        fn()
    except exc or Exception:  # noqa: BLE001
        return True
    return False


def dumps(case):
    return json.dumps(case, sort_keys=True)
