"""Categorical properties C01-C12."""
import operator

from base import *  # noqa: F401,F403
import base


def both(rng, kind, names=True, maxv=5, default="rand", cancel=False):
    a, b = rpair_vars(rng, maxv)
    union = a + [v for v in b if v not in a]
    cards = rcards(rng, union)
    nm = rnameslist(rng, union, cards) if (names and rng.random() < 0.5) else None
    if kind == "cat":
        return rcat(rng, a, cards, nm), rcat(rng, b, cards, nm)
    d = None if rng.random() < 0.7 else float(np.round(rng.normal(), 4))
    if default != "rand":
        d = default
    return rsparse(rng, a, cards, d), rsparse(rng, b, cards, d)


def union_of(fa, fb):
    vs = fa.vars + [v for v in fb.vars if v not in fa.vars]
    return vs, {**fa.cards, **fb.cards}


def union_names(sa, sb):
    return {**names_of_spec(sa), **names_of_spec(sb)}


def binop_check(case, ops):
    sa, sb = case["a"], case["b"]
    fa, fb = fn_of_spec(sa), fn_of_spec(sb)
    vs, cards = union_of(fa, fb)
    names = union_names(sa, sb) if sa["kind"] == "cat" else None
    op = case["op"]
    A, B = build(sa), build(sb)
    if case.get("same"):
        B, fb = A, fa
    R = {"multiply": lambda: A.multiply(B), "absorb": lambda: A.absorb(B), "mul": lambda: A * B,
         "divide": lambda: A.divide(B), "cancel": lambda: A.cancel(B)}[op]()
    need(type(R) is type(A), f"{op} returned {type(R)}")

    def exp(n):
        x, y = fa.at(n), fb.at(n)
        if op in ("multiply", "absorb", "mul"):
            return x + y
        if op == "cancel" and x == NINF and y == NINF:
            return NINF
        return x - y

    def skip(n):
        x, y = fa.at(n), fb.at(n)
        if op == "divide":
            return x == NINF and y == NINF
        if op == "cancel" and sa["kind"] == "sparse":
            return y == NINF and x != NINF
        return False

    check_fn(R, vs, cards, exp, names=names, skip=skip, what=f"{op} result", rtol=1e-9, atol=1e-9)


# ---- C01
def gen_C01(rng, i):
    a, b = both(rng, "cat")
    c = {"a": a, "b": b, "op": ["multiply", "divide", "absorb", "mul"][i % 4]}
    if rng.random() < 0.05:
        c["b"] = c["a"]
        c["same"] = True
    return c


def check_C01(case):
    binop_check(case, None)


# ---- C09
def gen_C09(rng, i):
    a, b = both(rng, "sparse")
    c = {"a": a, "b": b, "op": ["multiply", "divide", "absorb", "mul"][i % 4]}
    return c


check_C09 = check_C01


# ---- C05
def gen_C05(rng, i):
    if i % 2 == 0:
        a, b = both(rng, "cat")
        return {"a": a, "b": b, "op": "cancel"}
    a, b = both(rng, "sparse")
    if a["default"] is None:
        # make the situation of belief update likely: b zero only where a is zero
        fb = fn_of_spec(b)
        fa = fn_of_spec(a)
        bz = [dict(zip(b["vars"], t)) for t, x in fb.table.items() if x == NINF]
        keep = []
        for t, x in a["entries"]:
            n = dict(zip(a["vars"], t))
            if not any(all(n.get(v, z[v]) == z[v] for v in z) for z in bz):
                keep.append([t, x])
            elif rng.random() < 0.5:
                keep.append([t, None])
        a["entries"] = keep
    return {"a": a, "b": b, "op": "cancel"}


check_C05 = check_C01


# ---- C02 / C10
def sub_of(rng, vs):
    k = int(rng.integers(0, len(vs) + 1))
    return [vs[i] for i in rng.permutation(len(vs))[:k]]


def gen_marg(rng, kind):
    n = int(rng.integers(1, 6))
    vs = rnames(rng, n)
    cards = rcards(rng, vs)
    nm = rnameslist(rng, vs, cards) if rng.random() < 0.5 else None
    spec = rcat(rng, vs, cards, nm) if kind == "cat" else rsparse(rng, vs, cards)
    return {"f": spec, "vrs": sub_of(rng, vs), "keep": bool(rng.random() < 0.6), "op": "marginalize",
            "str": bool(rng.random() < 0.1)}


def check_marg(case):
    spec = case["f"]
    f = fn_of_spec(spec)
    F = build(spec)
    vrs = list(case["vrs"])
    keep = vrs if case["keep"] else [v for v in f.vars if v not in vrs]
    arg = vrs
    if case.get("str") and len(vrs) == 1:
        arg = vrs[0]
    R = F.marginalize(arg, keep=case["keep"]) if not (case["keep"] and len(vrs) % 2) else F.marginalize(arg)
    groups = {}
    for named in assignments(f.vars, f.cards):
        groups.setdefault(tuple(named[v] for v in keep), []).append(f.at(named))
    order = keep if (case["keep"] and spec["kind"] == "sparse") else None
    check_fn(R, keep, f.cards, lambda n: lse(groups[tuple(n[v] for v in keep)]), names=names_of_spec(spec), order=order,
             what="marginal", rtol=1e-9, atol=1e-9)


def gen_reduce(rng, kind):
    n = int(rng.integers(1, 6))
    vs = rnames(rng, n)
    cards = rcards(rng, vs)
    nm = rnameslist(rng, vs, cards) if rng.random() < 0.5 else None
    spec = rcat(rng, vs, cards, nm) if kind == "cat" else rsparse(rng, vs, cards)
    vrs = sub_of(rng, vs)
    values = [int(rng.integers(0, cards[v])) for v in vrs]
    extra = []
    if kind == "cat" and rng.random() < 0.2:
        at = int(rng.integers(0, len(vrs) + 1))
        vrs.insert(at, "not_in_scope")
        values.insert(at, 7)
    return {"f": spec, "vrs": vrs, "values": values, "op": "reduce", "tup": bool(rng.random() < 0.4),
            "npint": bool(rng.random() < 0.3), "alias": bool(rng.random() < 0.2)}


def check_reduce(case):
    spec = case["f"]
    f = fn_of_spec(spec)
    F = build(spec)
    vals = [np.int64(v) if case.get("npint") else v for v in case["values"]]
    vals = tuple(vals) if case.get("tup") else vals
    ev = dict(zip(case["vrs"], case["values"]))
    R = (F.observe if case.get("alias") else F.reduce)(list(case["vrs"]), vals)
    rest = [v for v in f.vars if v not in ev]
    check_fn(R, rest, f.cards, lambda n: f.at({**{v: ev[v] for v in ev if v in f.vars}, **n}),
             names=names_of_spec(spec), what="observed factor", rtol=1e-12, atol=1e-12)


def gen_C02(rng, i):
    return gen_marg(rng, "cat")


check_C02 = check_marg


def gen_C03(rng, i):
    return gen_reduce(rng, "cat")


check_C03 = check_reduce


def gen_C10(rng, i):
    return gen_marg(rng, "sparse") if i % 2 else gen_reduce(rng, "sparse")


def check_C10(case):
    (check_marg if case["op"] == "marginalize" else check_reduce)(case)


# ---- C04 / C11
def gen_reorder(rng, kind):
    n = int(rng.integers(0, 6)) if kind == "cat" else int(rng.integers(1, 6))
    vs = rnames(rng, n)
    cards = rcards(rng, vs)
    nm = rnameslist(rng, vs, cards) if rng.random() < 0.5 else None
    spec = rcat(rng, vs, cards, nm) if kind == "cat" else rsparse(rng, vs, cards)
    order = [vs[i] for i in rng.permutation(n)] if rng.random() < 0.9 else list(vs)
    r = rng.random()
    op = "reorder" if r < 0.4 else ("copy" if r < 0.5 else ("potential" if r < 0.9 or kind == "sparse" else "badorder"))
    case = {"f": spec, "order": order, "op": op}
    if op == "badorder":
        if n and rng.random() < 0.5:
            order = order[:-1]
        else:
            order = order + ["zz_new"]
        case["order"] = order
    if op == "potential":
        case["values"] = [int(rng.integers(0, cards[v])) for v in order]
    return case


def check_reorder(case):
    spec = case["f"]
    f = fn_of_spec(spec)
    F = build(spec)
    op = case["op"]
    names = names_of_spec(spec)
    if op == "reorder":
        R = F.reorder(list(case["order"]))
        check_fn(R, f.vars, f.cards, f.at, names=names, order=case["order"], what="reordered", rtol=1e-12, atol=1e-12)
    elif op == "copy":
        R = F.copy()
        need(R is not F, "copy returned the object itself")
        check_fn(R, f.vars, f.cards, f.at, names=names, order=f.vars, what="copy", rtol=1e-12, atol=1e-12)
        check_fn(F.joint_distribution, f.vars, f.cards, f.at, names=names, order=f.vars, what="joint_distribution",
                 rtol=1e-12, atol=1e-12)
    elif op == "badorder":
        need(raises(lambda: F.reorder(list(case["order"]))), f"reorder to {case['order']} was not refused")
    else:
        named = dict(zip(case["order"], case["values"]))
        got = float(F.potential(list(case["order"]), list(case["values"])))
        need(close(got, sexp(f.at(named)), rtol=1e-11, atol=1e-300),
             f"potential at {named} is {got}, expected exp({f.at(named)})")


def gen_C04(rng, i):
    return gen_reorder(rng, "cat")


check_C04 = check_reorder


def gen_C11(rng, i):
    return gen_reorder(rng, "sparse")


check_C11 = check_reorder


# ---- C06
def gen_C06(rng, i):
    n = int(rng.integers(1, 5))
    vs = rnames(rng, n)
    cards = rcards(rng, vs)
    spec = rcat(rng, vs, cards, rnameslist(rng, vs, cards) if rng.random() < 0.4 else None) if i % 2 == 0 \
        else rsparse(rng, vs, cards)
    if lse(list(fn_of_spec(spec).table.values())) == NINF:
        if spec["kind"] == "cat":
            spec["logv"][0] = 0.25
        else:
            spec["entries"] = [e for e in spec["entries"] if e[0] != [0] * n] + [[[0] * n, 0.25]]
    return {"f": spec}


def check_C06(case):
    spec = case["f"]
    f = fn_of_spec(spec)
    F = build(spec)
    z = lse(list(f.table.values()))
    R = F.normalize()
    check_fn(R, f.vars, f.cards, lambda n: f.at(n) - z, names=names_of_spec(spec), order=f.vars, what="normalised",
             rtol=1e-9, atol=1e-8)


# ---- C07
def gen_C07(rng, i):
    n = int(rng.integers(1, 5))
    vs = rnames(rng, n)
    cards = rcards(rng, vs, maxsize=100)
    vs2 = [vs[j] for j in rng.permutation(n)]
    sc = float(rng.choice([1.0, 3.0]))
    nm = rnameslist(rng, vs, cards) if rng.random() < 0.4 else None
    if i % 2 == 0:
        p, q = rcat(rng, vs, cards, nm, scale=sc), rcat(rng, vs2, cards, nm, scale=sc)
    else:
        p, q = rsparse(rng, vs, cards, scale=sc), rsparse(rng, vs2, cards, scale=sc)
    for s in (p, q):
        if lse(list(fn_of_spec(s).table.values())) == NINF:
            if s["kind"] == "cat":
                s["logv"] = [0.1] * len(s["logv"])
            else:
                s["default"] = 0.1
                s["entries"] = []
    r = rng.random()
    op = "kld" if r < 0.55 else ("kld_nonorm" if r < 0.7 else ("dfv" if r < 0.9 else "is_vacuous"))
    if rng.random() < 0.1:
        q = json.loads(json.dumps(p))
    if op == "kld_nonorm":
        fq = fn_of_spec(q)
        z = lse(list(fq.table.values()))
        if q["kind"] == "cat":
            q["logv"] = [None if x is None else x - z for x in q["logv"]]
            q.pop("ctor", None)
        else:
            q["entries"] = [[t, None if x is None else x - z] for t, x in q["entries"]]
            q["default"] = None if q["default"] is None else q["default"] - z
    return {"p": p, "q": q, "op": op}


def check_C07(case):
    P = build(case["p"])
    fp = fn_of_spec(case["p"])
    zp = lse(list(fp.table.values()))
    if case["op"] in ("dfv", "is_vacuous"):
        u = -math.log(len(fp.table))
        qat = lambda n: u  # noqa: E731
        got = P.distance_from_vacuous()
    else:
        Q = build(case["q"])
        fq = fn_of_spec(case["q"])
        zq = lse(list(fq.table.values())) if case["op"] == "kld" else 0.0
        qat = lambda n: fq.at(n) - zq  # noqa: E731
        got = P.kl_divergence(Q) if case["op"] == "kld" else P.kl_divergence(Q, normalize_factor=False)
    tot = []
    for n in assignments(fp.vars, fp.cards):
        lp = fp.at(n) - zp
        if lp != NINF:
            lq = qat(n)
            tot.append(math.inf if lq == NINF else sexp(lp) * (lp - lq))
    exp = math.inf if math.inf in tot else math.fsum(tot)
    got = float(got)
    need(not math.isnan(got), "KL-divergence is NaN")
    need(got >= 0.0, f"negative KL-divergence {got}")
    need(close(got, exp, rtol=1e-7, atol=1e-8), f"{case['op']} is {got}, expected {exp}")
    if case["op"] == "is_vacuous" and abs(exp - 1e-10) > 1e-11:
        need(bool(P.is_vacuous) == (exp < 1e-10), f"is_vacuous is {P.is_vacuous} with distance {exp}")


# ---- C08
def gen_C08(rng, i):
    n = int(rng.integers(0, 5)) if i % 2 == 0 else int(rng.integers(1, 5))
    vs = rnames(rng, n)
    cards = rcards(rng, vs)
    vs2 = [vs[j] for j in rng.permutation(n)]
    kind = "cat" if i % 2 == 0 else "sparse"
    a = rcat(rng, vs, cards) if kind == "cat" else rsparse(rng, vs, cards)
    a.pop("ctor", None)
    mode = str(rng.choice(["same", "perturb", "big", "other", "scope", "kind", "card", "implicit"]))
    f = fn_of_spec(a)
    tol = [None, None] if rng.random() < 0.7 else [float(rng.choice([0.0, 1e-2])), float(rng.choice([1e-9, 1e-2]))]
    rt, at = (1e-4, 1e-4) if tol[0] is None else tol
    table = dict(f.table)
    if mode in ("perturb", "big") and table:
        ks = list(table)
        k = ks[int(rng.integers(0, len(ks)))]
        if table[k] != NINF:
            lim = at + rt * abs(table[k])
            table[k] += (0.5 if mode == "perturb" else 3.0) * lim * (1 if rng.random() < 0.5 else -1) + \
                        (1e-6 if mode == "big" else 0)
        elif mode == "big":
            table[k] = -2.0
    if mode == "implicit" and table:
        ks = list(table)
        k = ks[int(rng.integers(0, len(ks)))]
        table[k] = NINF if table[k] != NINF else -1.0
    c2 = dict(cards)
    v2 = vs2
    if mode == "scope":
        if n and rng.random() < 0.5:
            v2 = vs2[:-1]
        else:
            v2 = vs2 + ["zz9"]
            c2["zz9"] = int(rng.choice([1, 2]))
    if mode == "card" and n:
        v = vs2[0]
        c2[v] = c2[v] + 1 if rng.random() < 0.6 or c2[v] == 1 else c2[v] - 1
    if mode in ("scope", "card", "other"):
        const = rng.random() < 0.4
        ks = list(itertools.product(*[range(c2[v]) for v in v2]))
        base_v = next(iter(f.table.values()))
        tb = {k: (base_v if const else float(np.round(rng.normal(), 3))) for k in ks}
        if const:
            a = json.loads(json.dumps(a))
            if kind == "cat":
                a["logv"] = [None if base_v == NINF else base_v] * len(a["logv"])
            else:
                a["entries"] = []
                a["default"] = None if base_v == NINF else base_v
    else:
        pos = [vs.index(v) for v in v2]
        tb = {tuple(k[p] for p in pos): x for k, x in table.items()}
    jv = lambda x: None if x == NINF else x  # noqa: E731
    if kind == "cat":
        b = {"kind": "cat", "vars": v2, "cards": [c2[v] for v in v2],
             "logv": [jv(tb[k]) for k in itertools.product(*[range(c2[v]) for v in v2])]}
    else:
        d = a["default"] if rng.random() < 0.6 else (None if rng.random() < 0.5 else 0.3)
        dv = NINF if d is None else d
        b = {"kind": "sparse", "vars": v2, "cards": [c2[v] for v in v2], "default": d,
             "entries": [[list(k), jv(x)] for k, x in tb.items() if x != dv or rng.random() < 0.3]}
    return {"a": a, "b": b, "tol": tol, "mode": mode, "use": int(rng.integers(0, 3))}


def check_C08(case):
    a, b = case["a"], case["b"]
    fa, fb = fn_of_spec(a), fn_of_spec(b)
    A, B = build(a), build(b)
    if case["mode"] == "kind":
        other = build({**rgauss(np.random.default_rng(1), ["a"])}) if case["use"] == 0 else \
            build({"kind": "sparse" if a["kind"] == "cat" else "cat", "vars": ["a"], "cards": [2], "logv": [0.0, 1.0],
                   "entries": [], "default": None})
        need(raises(lambda: A.equals(other), TypeError), "equals with a different factor kind did not raise TypeError")
        return
    rt, at = (1e-4, 1e-4) if case["tol"][0] is None else case["tol"]
    exp, unsure = True, False
    if sorted(fa.vars) != sorted(fb.vars) or fa.cards != fb.cards:
        exp = False
    else:
        ea = {tuple(k) for k, _ in a.get("entries", [])}
        eb = {tuple(k) for k, _ in b.get("entries", [])}
        for n in assignments(fa.vars, fa.cards):
            x, y = fa.at(n), fb.at(n)
            exact = False
            if a["kind"] == "sparse":
                ka, kb = tuple(n[v] for v in fa.vars), tuple(n[v] for v in fb.vars)
                exact = not (ka in ea and kb in eb)
            if x == y:
                continue
            if exact or math.isinf(x) or math.isinf(y):
                exp = False
                break
            lim = at + rt * abs(y)
            lim2 = at + rt * abs(x)
            dlt = abs(x - y)
            if dlt > 1.02 * max(lim, lim2):
                exp = False
                break
            if dlt > 0.98 * min(lim, lim2):
                unsure = True
        if exp and unsure:
            return
    kw = {} if case["tol"][0] is None else {"rtol": rt, "atol": at}
    if case["use"] == 0 or kw:
        got = A.equals(B, **kw)
    elif case["use"] == 1:
        got = A == B
    else:
        got = not (A != B)
    need(bool(got) == exp, f"equality is {got}, expected {exp} ({case['mode']})")


# ---- C12
def gen_C12(rng, i):
    n = int(rng.integers(1, 5))
    vs = rnames(rng, n)
    cards = rcards(rng, vs, maxsize=100)
    nm = rnameslist(rng, vs, cards) if rng.random() < 0.6 else None
    if i % 2 == 0:
        spec = rcat(rng, vs, cards, nm, scale=float(rng.choice([1.0, 20.0])))
    else:
        spec = rsparse(rng, vs, cards, scale=float(rng.choice([1.0, 20.0])),
                       default=None if rng.random() < 0.8 else -0.5)
        if not spec["entries"]:
            spec["entries"] = [[[0] * n, -0.2]]
    ops = ["argmax", "array", "names", "df", "dfnames"] if i % 2 == 0 else ["argmax", "array"]
    return {"f": spec, "op": ops[int(rng.integers(0, len(ops)))]}


def check_C12(case):
    spec = case["f"]
    f = fn_of_spec(spec)
    F = build(spec)
    op = case["op"]
    best = max(f.table.values())
    names = names_of_spec(spec)
    if op == "argmax":
        if spec["kind"] == "sparse" and spec["default"] is not None:
            return
        a = tuple(int(x) for x in F.argmax())
        need(a in f.table, f"argmax {a} is not an assignment")
        need(f.table[a] == best, f"argmax {a} has value {f.table[a]}, the maximum is {best}")
    elif op == "names":
        a = list(F.argmax_assignment_names())
        need(len(a) == len(f.vars), f"argmax names {a} for {f.vars}")
        idx = tuple(names[v].index(x) for v, x in zip(f.vars, a))
        need(f.table[idx] == best, f"argmax names {a} have value {f.table[idx]}, the maximum is {best}")
    else:
        if op == "array":
            rows = [list(r) for r in F.dense_distribution_array]
            key = lambda r: tuple(int(x) for x in r[:-1])  # noqa: E731
        else:
            df = F.get_df(named_assignments=(op == "dfnames"))
            need(list(df.columns) == f.vars + ["prob"], f"columns {list(df.columns)}")
            rows = [list(r) for r in df.values.tolist()]
            key = (lambda r: tuple(names[v].index(int(x) if not isinstance(x, str) else x)
                                   for v, x in zip(f.vars, r[:-1]))) if op == "dfnames" else \
                  (lambda r: tuple(int(x) for x in r[:-1]))
        keys = [key(r) for r in rows]
        need(sorted(keys) == sorted(f.table), f"{op} lists {len(keys)} assignments {keys[:6]}...")
        for r, k in zip(rows, keys):
            need(close(float(r[-1]), sexp(f.table[k]), rtol=1e-9, atol=1e-300),
                 f"{op}: value at {k} is {r[-1]}, expected exp({f.table[k]})")
