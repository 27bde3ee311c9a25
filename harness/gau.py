"""Gaussian properties C13-C18, mixtures C21-C22, factorised factors C23, sigma points C24, non-linear Gaussians C25."""
from base import *  # noqa: F401,F403
import base

GETTERS = ["get_prec", "get_h", "get_g", "get_cov", "get_mean", "get_log_weight", "get_weight", "copy", "log_potential",
           "normalize", "equals_self", "distance"]


def perm(rng, xs):
    return [xs[i] for i in rng.permutation(len(xs))]


def pick(rng, xs, lo=0, hi=None):
    k = int(rng.integers(lo, (len(xs) if hi is None else hi) + 1))
    return [xs[i] for i in rng.permutation(len(xs))[:k]]


def pts(seed, vars_, n=3, scale=1.5):
    return points(sorted(vars_), np.random.default_rng(seed), n, scale)


def log_at(g, named, style=0):
    vs = list(g.var_names)
    if style == 1:
        order = sorted(vs, reverse=True)
        return float(g.log_potential([named[v] for v in order], vrs=order))
    if style == 2:
        order = sorted(vs)
        return float(g.log_potential(np.array([[named[v]] for v in order]), vrs=order))
    return float(g.log_potential(np.array([[named[v]] for v in vs])))


def check_points(g, f, seed=3, what="value", rtol=1e-6, atol=1e-5):
    for i, p in enumerate(pts(seed, f.vars)):
        got, exp = log_at(g, p, i % 3), f.at(p)
        need(close(got, exp, rtol=rtol, atol=atol * max(1.0, abs(exp))), f"{what}: log value at {p} is {got}, expected {exp}")


def query(g, q):
    if q == "log_potential":
        g.log_potential(np.zeros((len(g.var_names), 1)))
    elif q == "equals_self":
        g.equals(g.copy())
    elif q == "distance":
        g.distance_from_vacuous()
    else:
        getattr(g, q)()


# ---- C13
def gen_C13(rng, i):
    a, b = rpair_vars(rng, 5)
    a = a or ["a"]
    b = b or ["b"]
    mk = lambda v: rgauss(rng, v) if rng.random() < 0.75 else rcan(rng, v)  # noqa: E731
    return {"a": mk(a), "b": mk(b), "op": ["multiply", "divide", "absorb", "cancel"][i % 4], "same": bool(rng.random() < 0.05),
            "pre": [GETTERS[int(rng.integers(0, 9))] for _ in range(int(rng.integers(0, 3)))], "seed": int(rng.integers(0, 10 ** 6))}


def check_C13(case):
    A, B = build(case["a"]), build(case["b"])
    fa, fb = gfn_of_spec(case["a"]), gfn_of_spec(case["b"])
    for q in case["pre"]:
        if "cov" in case["a"]:
            query(A, q)
    if case["same"]:
        B, fb = A, fa
    R = getattr(A, case["op"])(B)
    s = 1 if case["op"] in ("multiply", "absorb") else -1
    exp = gfn_add([fa, fb], [1, s])
    check_gfn(R, exp, what=case["op"])
    check_points(R, exp, case["seed"], case["op"])


# ---- C14
def gen_C14(rng, i):
    vs = rnames(rng, int(rng.integers(1, 5)))
    ops = []
    for _ in range(int(rng.integers(1, 6))):
        ops.append(GETTERS[int(rng.integers(0, len(GETTERS)))] if rng.random() < 0.7 else
                   str(rng.choice(["addw", "replace_copy", "replace_norm", "reorder"])))
    return {"f": rgauss(rng, vs), "ops": ops, "w": float(np.round(rng.normal(), 4)), "seed": int(rng.integers(0, 10 ** 6)),
            "order": perm(rng, vs), "arg": int(rng.integers(0, 3))}


def forms_agree(G, f, what):
    S, m, lw = f.moments()
    K, h, g = f.K, f.h, f.g
    ix = [f.vars.index(v) for v in G.var_names]
    sc = max(1.0, float(np.max(np.abs(K))), float(np.max(np.abs(S))), float(np.max(np.abs(h))))
    ok = lambda a, b: np.allclose(np.array(a, dtype=float).ravel(), np.array(b, dtype=float).ravel(),  # noqa: E731
                                  rtol=1e-6, atol=1e-7 * sc)
    need(ok(G.get_prec(), K[np.ix_(ix, ix)]), f"{what}: precision {G.get_prec().tolist()} expected {K[np.ix_(ix, ix)].tolist()}")
    need(ok(G.get_h(), h[ix]), f"{what}: h {G.get_h().tolist()} expected {h[ix].tolist()}")
    need(close(float(G.get_g()), g, rtol=1e-6, atol=1e-6 * sc), f"{what}: g {G.get_g()} expected {g}")
    need(ok(G.get_cov(), S[np.ix_(ix, ix)]), f"{what}: covariance {G.get_cov().tolist()}")
    need(ok(G.get_mean(), m[ix]), f"{what}: mean {G.get_mean().tolist()} expected {m[ix].tolist()}")
    need(close(float(G.get_log_weight()), lw, rtol=1e-6, atol=1e-6 * sc), f"{what}: log weight {G.get_log_weight()} expected {lw}")
    need(close(float(G.get_weight()), sexp(lw), rtol=1e-5), f"{what}: weight {G.get_weight()}")


def check_C14(case):
    G = build(case["f"])
    f = gfn_of_spec(case["f"])
    for op in case["ops"]:
        if op == "addw":
            G._add_log_weight(case["w"])
            f = GFn(f.vars, f.K, f.h, f.g + case["w"])
        elif op == "replace_copy":
            G = G.copy()
        elif op == "replace_norm":
            G = G.normalize()
            f = GFn(f.vars, f.K, f.h, f.g - f.moments()[2])
        elif op == "reorder":
            G._reorder_parameters(list(case["order"]))
            need(G.var_names == case["order"], "reorder did not give the requested order")
        else:
            query(G, op)
        check_gfn(G, f, what=f"after {op}")
    check_points(G, f, case["seed"], "evaluation")
    p = pts(case["seed"] + 1, f.vars, 1, 0.5)[0]
    vs = G.var_names
    x = [[p[v] for v in vs], np.array([p[v] for v in vs]), np.array([[p[v]] for v in vs])][case["arg"]]
    got = float(G.potential(x))
    need(close(got, sexp(f.at(p)), rtol=1e-5 * max(1.0, abs(f.at(p))), atol=1e-300), f"potential {got} expected exp({f.at(p)})")
    forms_agree(G, f, "final")
    check_points(G, f, case["seed"] + 2, "evaluation after queries")


# ---- C15 / C16
def gen_C15(rng, i):
    vs = rnames(rng, int(rng.integers(1, 6)))
    vrs = pick(rng, vs, 1)
    keep = bool(rng.random() < 0.6)
    if not keep and len(vrs) == len(vs):
        vrs = vrs[:-1]
    return {"f": rgauss(rng, vs), "vrs": vrs, "keep": keep, "pre": [GETTERS[int(rng.integers(0, 9))] for _ in range(int(rng.integers(0, 2)))]}


def check_C15(case):
    G = build(case["f"])
    f = gfn_of_spec(case["f"])
    for q in case["pre"]:
        query(G, q)
    keep = case["vrs"] if case["keep"] else [v for v in f.vars if v not in case["vrs"]]
    R = G.marginalize(list(case["vrs"]), keep=case["keep"])
    exp = gfn_marg(f, keep)
    check_gfn(R, exp, what="marginal", order=keep if case["keep"] else None)
    forms_agree(R, exp, "marginal")


def gen_C16(rng, i):
    vs = rnames(rng, int(rng.integers(2, 6)))
    vrs = pick(rng, vs, 1, len(vs) - 1)
    f = rgauss(rng, vs) if rng.random() < 0.7 else rcan(rng, vs)
    return {"f": f, "vrs": vrs, "values": [float(np.round(rng.normal() * 2, 4)) for _ in vrs], "style": int(rng.integers(0, 4)),
            "alias": bool(rng.random() < 0.3)}


def check_C16(case):
    G = build(case["f"])
    f = gfn_of_spec(case["f"])
    vals = case["values"]
    vals = [vals, np.array(vals), np.array([[v] for v in vals]), vals][case["style"]]
    R = (G.observe if case["alias"] else G.reduce)(list(case["vrs"]), vals)
    exp = gfn_slice(f, dict(zip(case["vrs"], case["values"])))
    check_gfn(R, exp, what="observed factor")
    check_points(R, exp, 5, "observed factor")


# ---- C17
def permute_spec(rng, spec, form=None):
    vs = spec["vars"]
    o = perm(rng, list(range(len(vs))))
    S = np.array(spec["cov"])
    return {**spec, "vars": [vs[i] for i in o], "cov": S[np.ix_(o, o)].tolist(), "mean": [spec["mean"][i] for i in o],
            "form": form or str(rng.choice(["cov", "can", "covboth", "canboth"]))}


def gen_C17(rng, i):
    vs = rnames(rng, int(rng.integers(1, 5)))
    a = rgauss(rng, vs)
    S = rcov(rng, len(vs), 1.0)
    a["cov"] = ((S + S.T) / 2).tolist()
    op = ["normalize", "equals", "kl", "equals", "kl"][i % 5]
    b = permute_spec(rng, a)
    mode = str(rng.choice(["same", "mean", "cov", "weight", "scope"]))
    if op == "equals":
        if mode == "mean":
            b["mean"][int(rng.integers(0, len(vs)))] += 0.7
        elif mode == "cov":
            k = int(rng.integers(0, len(vs)))
            b["cov"][k][k] *= 1.5
        elif mode == "weight":
            b["lw"] += 0.8
        elif mode == "scope":
            b["vars"] = [v if j else "other" for j, v in enumerate(b["vars"])]
    if op == "kl":
        other = rgauss(rng, b["vars"], b["form"])
        other["cov"] = rcov(rng, len(vs), float(rng.choice([1.0, 3.0]))).tolist()
        if rng.random() < 0.85:
            b = other
            mode = "other"
        else:
            mode = "same"
    return {"a": a, "b": b, "op": op, "mode": mode, "tol": bool(rng.random() < 0.2)}


def check_C17(case):
    A, B = build(case["a"]), build(case["b"])
    fa, fb = gfn_of_spec(case["a"]), gfn_of_spec(case["b"])
    if case["op"] == "normalize":
        lw = fa.moments()[2]
        R = A.normalize()
        exp = GFn(fa.vars, fa.K, fa.h, fa.g - lw)
        check_gfn(R, exp, what="normalised")
        forms_agree(R, exp, "normalised")
        check_points(R, exp, 7, "normalised")
    elif case["op"] == "equals":
        exp = case["mode"] == "same"
        if case["mode"] in ("mean", "cov"):
            ix = [fb.vars.index(v) for v in fa.vars]
            tiny = lambda x, y: bool(np.allclose(x, y, rtol=2e-3, atol=2e-3))  # noqa: E731
            can = tiny(fa.h, fb.h[ix]) and tiny(fa.K, fb.K[np.ix_(ix, ix)]) and tiny(fa.g, fb.g)
            if can:
                return
        if case["tol"]:
            got = A.equals(B, rtol=100.0, atol=1e6)
            exp = case["mode"] != "scope"
        else:
            got = A.equals(B)
        need(bool(got) == exp, f"equals is {got}, expected {exp} ({case['mode']})")
    else:
        Sa, ma, _ = fa.moments()
        Sb, mb, _ = fb.moments()
        ix = [fb.vars.index(v) for v in fa.vars]
        Sb, mb = Sb[np.ix_(ix, ix)], mb[ix]
        Kb = np.linalg.inv(Sb)
        d = ma - mb
        exp = 0.5 * (np.linalg.slogdet(Sb)[1] - np.linalg.slogdet(Sa)[1] + np.trace(Kb @ Sa) + d @ Kb @ d - len(ma))
        got = complex(A.kl_divergence(B))
        need(abs(got.imag) < 1e-9 and got.real >= 0, f"divergence {got}")
        need(close(got.real, float(exp), rtol=1e-5, atol=1e-6), f"divergence {got.real}, expected {exp}")


# ---- C18
def gen_C18(rng, i):
    d = int(rng.integers(1, 4))
    vs = rnames(rng, 2 * d)
    A = np.round(rng.normal(size=(d, d)), 4)
    N = rcov(rng, d, 1.0)
    return {"A": A.tolist(), "N": ((N + N.T) / 2).tolist(), "x": vs[:d], "y": vs[d:], "seed": int(rng.integers(0, 10 ** 6))}


def lin_gfn(A, N, x, y):
    A, N = np.array(A), np.array(N)
    Ni = np.linalg.inv(N)
    K = np.block([[A.T @ Ni @ A, -A.T @ Ni], [-Ni @ A, Ni]])
    return GFn(x + y, K, np.zeros(len(x) + len(y)), -0.5 * np.linalg.slogdet(2 * np.pi * N)[1])


def check_C18(case):
    from veroku.factors.gaussian import make_linear_gaussian
    R = make_linear_gaussian(np.array(case["A"]), np.array(case["N"]), list(case["x"]), list(case["y"]))
    exp = lin_gfn(case["A"], case["N"], case["x"], case["y"])
    check_gfn(R, exp, what="linear Gaussian", rtol=1e-5, atol=1e-6)
    check_points(R, exp, case["seed"], "linear Gaussian")


# ---- C21 / C22
def rmix(rng, vs, k=None):
    k = k or int(rng.integers(1, 4))
    comps = []
    for _ in range(k):
        c = rgauss(rng, vs)
        c["cov"] = rcov(rng, len(vs), 1.0).tolist()
        comps.append(c)
    return {"comps": comps, "cm": int(rng.integers(0, 3))}


def bmix(m):
    from veroku.factors.experimental.gaussian_mixture import GaussianMixture
    return GaussianMixture([build(c) for c in m["comps"]], cancel_method=m["cm"])


def mix_fns(m):
    return [gfn_of_spec(c) for c in m["comps"]]


def mix_at(fns, p):
    return lse([f.at(p) for f in fns])


def warm(M):
    """query the components so that both parameter forms are present before the operation"""
    for i, c in enumerate(M.components):
        if i % 2 == 0:
            c.get_prec(), c.get_cov()
    return M


def check_mix(R, fns, what, cm=None, seed=5):
    vs = list(R.var_names)
    if all(np.all(np.linalg.eigvalsh((f.K + f.K.T) / 2) > 1e-6) for f in fns):
        z = lse([f.moments()[2] for f in fns])
        got = float(R.get_log_weight())
        need(close(got, z, rtol=1e-6, atol=1e-5 * max(1, abs(z))), f"{what}: log weight {got}, expected {z}")
    need(sorted(vs) == sorted(fns[0].vars), f"{what}: scope {vs}, expected {fns[0].vars}")
    for p in pts(seed, fns[0].vars):
        got = float(R.log_potential(np.array([[p[v]] for v in vs])))
        exp = mix_at(fns, p)
        need(close(got, exp, rtol=1e-6, atol=1e-5 * max(1, abs(exp))), f"{what}: log value at {p} is {got}, expected {exp}")
        order = sorted(vs)
        got = float(R.log_potential([p[v] for v in order], vrs=order))
        need(close(got, exp, rtol=1e-6, atol=1e-5 * max(1, abs(exp))), f"{what}: log value (by name) at {p} is {got}, expected {exp}")
        if abs(exp) < 300:
            got = float(R.potential(np.array([[p[v]] for v in vs])))
            need(close(got, sexp(exp), rtol=1e-4, atol=0), f"{what}: value at {p} is {got}, expected exp({exp})")
    if cm is not None:
        need(R.cancel_method == cm, f"{what}: division method {R.cancel_method}, expected {cm}")


def gen_C21(rng, i):
    vs = rnames(rng, int(rng.integers(1, 4)))
    m = rmix(rng, vs)
    op = ["value", "mulg", "mulm", "divg", "marg", "reduce", "normalize", "copy", "equals", "divm1"][i % 10]
    c = {"m": m, "op": op, "warm": i // 10 % 2 == 1}
    if op in ("mulg", "mulm", "divg", "divm1"):
        k = perm(rng, vs)
        v2 = k[: int(rng.integers(1, len(k) + 1))]
        if op in ("mulg", "mulm") and rng.random() < 0.4:
            v2 = v2 + ["new1"]
        c["g"] = rgauss(rng, v2)
        c["m2"] = rmix(rng, v2, 1 if op == "divm1" else None)
    if op == "marg":
        c["vrs"] = pick(rng, vs, 1)
        c["keep"] = bool(rng.random() < 0.6) or len(c["vrs"]) == len(vs)
    if op == "reduce":
        if len(vs) < 2:
            c["m"] = rmix(rng, ["a", "b"])
            vs = ["a", "b"]
        c["vrs"] = pick(rng, vs, 1, len(vs) - 1)
        c["values"] = [float(np.round(rng.normal(), 4)) for _ in c["vrs"]]
    if op == "equals":
        c["perm"] = [int(x) for x in rng.permutation(len(m["comps"]))]
        c["dup"] = bool(rng.random() < 0.3)
        c["mode"] = str(rng.choice(["same", "mean", "count"]))
    return c


def check_C21(case):
    m = case["m"]
    M = bmix(m)
    if case.get("warm"):
        warm(M)
    fns = mix_fns(m)
    op = case["op"]
    cm = m["cm"]
    if op == "value":
        check_mix(M, fns, "mixture", cm)
    elif op == "mulg":
        g = gfn_of_spec(case["g"])
        check_mix(M.multiply(build(case["g"])), [gfn_add([f, g], [1, 1]) for f in fns], "product with a Gaussian", cm)
    elif op == "mulm":
        g2 = mix_fns(case["m2"])
        check_mix(M.multiply(bmix(case["m2"])), [gfn_add([f, g], [1, 1]) for f in fns for g in g2], "product of mixtures", cm)
    elif op in ("divg", "divm1"):
        spec = case["g"] if op == "divg" else case["m2"]["comps"][0]
        D = build(spec) if op == "divg" else bmix(case["m2"])
        g = gfn_of_spec(spec)
        R = M.divide(D)
        check_mix(R, [gfn_add([f, g], [1, -1]) for f in fns], "quotient by a Gaussian", cm)
    elif op == "marg":
        keep = case["vrs"] if case["keep"] else [v for v in fns[0].vars if v not in case["vrs"]]
        check_mix(M.marginalize(list(case["vrs"]), keep=case["keep"]), [gfn_marg(f, keep) for f in fns], "marginal", cm)
    elif op == "reduce":
        ev = dict(zip(case["vrs"], case["values"]))
        check_mix(M.reduce(list(case["vrs"]), list(case["values"])), [gfn_slice(f, ev) for f in fns], "observed mixture", cm)
    elif op == "normalize":
        z = lse([f.moments()[2] for f in fns])
        check_mix(M.normalize(), [GFn(f.vars, f.K, f.h, f.g - z) for f in fns], "normalised mixture", cm)
        need(close(float(M.get_log_weight()), z, rtol=1e-6, atol=1e-6), "total weight")
        check_mix(M, fns, "mixture after normalize")
    elif op == "copy":
        R = M.copy()
        check_mix(R, fns, "copy", cm)
        R.components[0]._add_log_weight(3.0)
        check_mix(M, fns, "mixture after changing a copy", cm)
    else:
        comps = list(m["comps"])
        if case["dup"]:
            comps = comps + [comps[0]]
        base_m = {"comps": comps, "cm": cm}
        p = list(case["perm"]) + ([len(m["comps"])] if case["dup"] else [])
        other = json.loads(json.dumps([comps[i] for i in p]))
        exp = True
        if case["mode"] == "mean":
            other[-1]["mean"][0] += 5.0
            exp = False
        elif case["mode"] == "count":
            other = other + [other[0]]
            exp = False
        got = bmix(base_m).equals(bmix({"comps": other, "cm": cm}))
        got2 = bmix({"comps": other, "cm": cm}).equals(bmix(base_m))
        need(bool(got) == exp and bool(got2) == exp, f"equality is {got}/{got2}, expected {exp} ({case['mode']})")


def gen_C22(rng, i):
    vs = rnames(rng, int(rng.integers(1, 4)))
    return {"m": rmix(rng, vs, int(rng.integers(1, 5))), "warm": i % 2 == 1}


def check_C22(case):
    fns = mix_fns(case["m"])
    M = bmix(case["m"])
    if case.get("warm"):
        warm(M)
    R = M.moment_match_to_single_gaussian()
    mo = [f.moments() for f in fns]
    w = np.array([sexp(x[2]) for x in mo])
    mean = sum(wi * x[1] for wi, x in zip(w, mo)) / w.sum()
    cov = sum(wi * (x[0] + np.outer(x[1] - mean, x[1] - mean)) for wi, x in zip(w, mo)) / w.sum()
    need(sorted(R.var_names) == sorted(fns[0].vars), f"scope {R.var_names}")
    ix = [fns[0].vars.index(v) for v in R.var_names]
    need(np.allclose(R.get_mean().ravel(), mean[ix], rtol=1e-6, atol=1e-6), f"mean {R.get_mean().tolist()} expected {mean.tolist()}")
    need(np.allclose(R.get_cov(), cov[np.ix_(ix, ix)], rtol=1e-6, atol=1e-6), f"covariance {R.get_cov().tolist()} expected {cov.tolist()}")
    need(close(float(R.get_log_weight()), math.log(w.sum()), rtol=1e-6, atol=1e-6), f"log weight {R.get_log_weight()} expected {math.log(w.sum())}")


# ---- C23
def gen_C23(rng, i):
    pool = rnames(rng, int(rng.integers(2, 6)))
    k = int(rng.integers(1, 5))
    parts = [rgauss(rng, pick(rng, pool, 1, min(3, len(pool)))) for _ in range(k)]
    vs = sorted({v for p in parts for v in p["vars"]})
    op = ["joint", "multiply", "divide", "reduce", "marginalize", "normalize", "divide_part", "chain"][i % 8]
    c = {"parts": parts, "op": op, "warm": i // 8 % 3 == 1}
    if op == "multiply" or op == "chain":
        c["g"] = rgauss(rng, pick(rng, pool + ["nw"], 1, min(3, len(pool))))
    if op == "divide":
        p = parts[int(rng.integers(0, k))]
        g = rgauss(rng, pick(rng, p["vars"], 1))
        g["cov"] = (np.array(g["cov"]) * 50).tolist()
        c["g"] = g
    if op == "divide_part":
        if k == 1:
            parts.append(rgauss(rng, pick(rng, pool, 1, 2)))
            k = 2
        c["j"] = int(rng.integers(0, k))
    if op in ("reduce", "marginalize", "chain"):
        if len(vs) < 2:
            c["parts"] = parts = parts + [rgauss(rng, ["q1", "q2"])]
            vs = sorted({v for p in parts for v in p["vars"]})
        c["vrs"] = pick(rng, vs, 1, len(vs) - 1)
        c["values"] = [float(np.round(rng.normal(), 4)) for _ in c["vrs"]]
        c["keep"] = bool(rng.random() < 0.6)
    return c


def ff_check(R, exp, what):
    """R: Gaussian or FactorizedFactor denoting exp."""
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    if isinstance(R, FactorizedFactor):
        pv = sorted({v for f in R.factors for v in f.var_names})
        need(sorted(R.var_names) == pv, f"{what}: var_names {sorted(R.var_names)} but the parts have {pv}")
        fs = [obs_gauss(f)[0] for f in R.factors]
        tot = gfn_add(fs, [1] * len(fs))
    else:
        tot = obs_gauss(R)[0]
    need(sorted(tot.vars) == sorted(exp.vars), f"{what}: scope {sorted(tot.vars)}, expected {sorted(exp.vars)}")
    ix = [exp.vars.index(v) for v in tot.vars]
    K = exp.K[np.ix_(ix, ix)]
    sc = max(1.0, float(np.max(np.abs(K))))
    need(np.allclose(tot.K, K, rtol=1e-5, atol=1e-6 * sc), f"{what}: precision {tot.K.tolist()} expected {K.tolist()} over {tot.vars}")
    need(np.allclose(tot.h, exp.h[ix], rtol=1e-5, atol=1e-5 * sc), f"{what}: h {tot.h.tolist()} expected {exp.h[ix].tolist()}")
    need(close(tot.g, exp.g, rtol=1e-5, atol=1e-4 * sc), f"{what}: g {tot.g} expected {exp.g}")
    check = R.joint_distribution
    need(sorted(check.var_names) == sorted(exp.vars), f"{what}: joint scope {check.var_names}")
    check_points(check, exp, 11, f"{what} joint", rtol=1e-5, atol=1e-4 * sc)


def check_C23(case):
    from veroku.factors.experimental.factorised_factor import FactorizedFactor
    F = FactorizedFactor([build(p) for p in case["parts"]])
    if case.get("warm"):
        for f in F.factors:
            f.get_prec(), f.get_cov()
    fs = [gfn_of_spec(p) for p in case["parts"]]
    tot = gfn_add(fs, [1] * len(fs))
    op = case["op"]
    if op == "joint":
        ff_check(F, tot, "factorised factor")
        ff_check(F.copy(), tot, "copy")
    elif op == "multiply":
        ff_check(F.multiply(build(case["g"])), gfn_add([tot, gfn_of_spec(case["g"])], [1, 1]), "product")
    elif op == "divide":
        ff_check(F.divide(build(case["g"])), gfn_add([tot, gfn_of_spec(case["g"])], [1, -1]), "quotient")
    elif op == "divide_part":
        p = case["parts"][case["j"]]
        rest = [f for i, f in enumerate(fs) if i != case["j"]]
        R = F.divide(build(p))
        if len(R.factors) == len(fs):
            ff_check(R, gfn_add([tot, gfn_of_spec(p)], [1, -1]), "quotient by a part")
        else:
            ff_check(R, gfn_add(rest, [1] * len(rest)), "quotient by a part")
    elif op == "reduce":
        ev = dict(zip(case["vrs"], case["values"]))
        ff_check(F.reduce(list(case["vrs"]), list(case["values"])), gfn_slice(tot, ev), "observed")
    elif op == "marginalize":
        keep = case["vrs"] if case["keep"] else [v for v in tot.vars if v not in case["vrs"]]
        ff_check(F.marginalize(list(case["vrs"]), keep=case["keep"]), gfn_marg(tot, keep), "marginal")
    elif op == "normalize":
        ff_check(F.normalize(), GFn(tot.vars, tot.K, tot.h, tot.g - tot.moments()[2]), "normalised")
    else:
        t2 = gfn_add([tot, gfn_of_spec(case["g"])], [1, 1])
        P = F.multiply(build(case["g"]))
        keep = case["vrs"]
        ff_check(P.marginalize(list(keep)), gfn_marg(t2, keep), "marginal of a product")
        Q = F.copy().multiply(build(case["g"]))
        ff_check(Q.normalize(), GFn(t2.vars, t2.K, t2.h, t2.g - t2.moments()[2]), "normalised product")
    ff_check(F, tot, "operand after the operation")


# ---- C24
def gen_C24(rng, i):
    d = int(rng.integers(1, 6))
    return {"f": rgauss(rng, rnames(rng, d)), "A": np.round(rng.normal(size=(int(rng.integers(1, 4)), d)), 4).tolist()}


def check_C24(case):
    from veroku.factors import _sigma_points as sp
    G = build(case["f"])
    f = gfn_of_spec(case["f"])
    S, m, _ = f.moments()
    P = sp.get_sigma_points_array(G)
    d = len(f.vars)
    need(P.shape == (d, 2 * d + 1), f"sigma points of shape {P.shape}")
    need(np.allclose(P.mean(axis=1), m, rtol=1e-6, atol=1e-6), f"sample mean {P.mean(axis=1).tolist()} expected {m.tolist()}")
    D = P - P.mean(axis=1, keepdims=True)
    sc = max(1.0, float(np.max(np.abs(S))))
    need(np.allclose(D @ D.T / (2 * d + 1), S, rtol=1e-6, atol=1e-7 * sc), "sample covariance differs")
    cov, mean = sp.sigma_point_array_to_gaussian_params(P)
    need(np.allclose(np.atleast_2d(cov), S, rtol=1e-6, atol=1e-7 * sc) and np.allclose(mean.ravel(), m, rtol=1e-6, atol=1e-6)
         and mean.shape == (d, 1), "parameters recovered from the sigma points differ")
    cov, mean = sp.sigma_points_to_gaussian_params([P[:, [j]] for j in range(P.shape[1])])
    need(np.allclose(np.atleast_2d(cov), S, rtol=1e-6, atol=1e-7 * sc) and np.allclose(mean.ravel(), m, rtol=1e-6, atol=1e-6),
         "parameters recovered from the list of sigma points differ")
    A = np.array(case["A"])
    jc, jm = sp.sigma_points_array_to_joint_params(P, lambda x, v: A @ x, f.vars)
    ec = np.block([[S, S @ A.T], [A @ S, A @ S @ A.T]])
    em = np.concatenate([m, A @ m])
    sc = max(1.0, float(np.max(np.abs(ec))))
    need(np.allclose(jc, ec, rtol=1e-6, atol=1e-7 * sc) and np.allclose(jm.ravel(), em, rtol=1e-6, atol=1e-6), "joint parameters differ")


# ---- C25
def gen_C25(rng, i):
    dx, dy = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    vs = rnames(rng, dx + dy)
    x, y = vs[:dx], vs[dx:]
    N = rcov(rng, dy, 1.0)
    c = {"x": x, "y": y, "A": np.round(rng.normal(size=(dy, dx)), 4).tolist(), "N": ((N + N.T) / 2).tolist(), "ops": []}
    full = rgauss(rng, perm(rng, x))
    c["ops"].append(["mul", full])
    if rng.random() < 0.4 and dx > 1:
        c["ops"].append(["mul", rgauss(rng, pick(rng, x, 1))])
    if rng.random() < 0.5:
        c["ops"].append(["mul", rgauss(rng, pick(rng, y, 1))])
    if rng.random() < 0.25:
        c["ops"].append(["mul", rgauss(rng, pick(rng, y, 1))])
    if rng.random() < 0.5:
        side = x if rng.random() < 0.5 else y
        g = rgauss(rng, pick(rng, side, 1))
        c["ops"].append(["mul", g])
        c["ops"].append(["div", g])
    if rng.random() < 0.5:
        ev = pick(rng, vs, 1, len(vs) - 1)
        if set(ev) >= set(y) and rng.random() < 0.8:
            ev = [v for v in ev if v in x] or [v for v in ev][:1]
        c["ev"] = {v: float(np.round(rng.normal(), 4)) for v in ev}
        if len(y) == len([v for v in ev if v in y]) and len(x) == len([v for v in ev if v in x]):
            c["ev"] = {}
    else:
        c["ev"] = {}
    if rng.random() < 0.6:
        c["ops"] = [c["ops"][j] for j in range(len(c["ops"]))]
    rest = [v for v in vs if v not in c["ev"]]
    c["marg"] = pick(rng, rest, 1)
    c["evfirst"] = bool(rng.random() < 0.3)
    c["split"] = bool(rng.random() < 0.3)
    return c


def check_C25(case):
    from veroku.factors.experimental.nonlinear_gaussian import NonLinearGaussian
    A = np.array(case["A"])
    x, y = list(case["x"]), list(case["y"])

    def transform(pts_, var_names):
        return A @ pts_[[list(var_names).index(v) for v in x], :]

    F = NonLinearGaussian(conditioning_vars=x, conditional_vars=y, transform=transform, noise_cov=np.array(case["N"]))
    exp = lin_gfn(case["A"], case["N"], x, y)
    obs = dict(case["ev"])

    def observe(f):
        if not obs:
            return f
        if case["split"] and len(obs) > 1:
            for k in obs:
                f = f.reduce([k], [obs[k]])
            return f
        return f.reduce(list(obs), list(obs.values()))

    if case["evfirst"]:
        F = observe(F)
    for op, g in case["ops"]:
        before = F
        F = F.multiply(build(g)) if op == "mul" else F.divide(build(g))
        need(F is not before, "operation returned the operand itself")
        exp = gfn_add([exp, gfn_of_spec(g)], [1, 1 if op == "mul" else -1])
    if not case["evfirst"]:
        F = observe(F)
    if obs:
        exp = gfn_slice(exp, obs)
    J = F.joint_distribution
    check_gfn(J, exp, what="joint", rtol=1e-4, atol=1e-4)
    R = F.marginalize(list(case["marg"]))
    check_gfn(R, gfn_marg(exp, case["marg"]), what="marginal", rtol=1e-4, atol=1e-4)
    check_gfn(F.joint_distribution, exp, what="joint after marginalising", rtol=1e-4, atol=1e-4)
