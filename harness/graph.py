"""Cluster graph properties C27-C33."""
from base import *  # noqa: F401,F403
import base


# ---------------------------------------------------------------- abstract reference functions for both factor families
class R:
    """Reference function over named variables, categorical (Fn) or Gaussian (GFn)."""

    @staticmethod
    def of_spec(spec):
        return gfn_of_spec(spec) if spec["kind"] == "gauss" else fn_of_spec(spec)

    @staticmethod
    def of_factor(f):
        from veroku.factors.gaussian import Gaussian
        return obs_gauss(f)[0] if isinstance(f, Gaussian) else obs_named(f)

    @staticmethod
    def combine(fs, signs):
        if fs and isinstance(fs[0], GFn):
            return gfn_add(fs, signs)
        vs, cards = [], {}
        for f in fs:
            vs += [v for v in f.vars if v not in vs]
            cards.update(f.cards)
        table = {}
        for n in assignments(vs, cards):
            table[tuple(n[v] for v in vs)] = math.fsum(s * f.at(n) for f, s in zip(fs, signs)) \
                if all(f.at(n) not in (NINF, math.inf) for f in fs) else sum((s * f.at(n) for f, s in zip(fs, signs)), 0.0)
        return Fn(vs, cards, table)

    @staticmethod
    def slice(f, ev):
        if isinstance(f, GFn):
            return gfn_slice(f, ev) if any(v in ev for v in f.vars) else f
        keep = [v for v in f.vars if v not in ev]
        table = {tuple(n[v] for v in keep): f.at({**{v: ev[v] for v in f.vars if v in ev}, **n})
                 for n in assignments(keep, f.cards)}
        return Fn(keep, f.cards, table)

    @staticmethod
    def marg(f, keep):
        keep = list(keep)
        if isinstance(f, GFn):
            # complete the square; also valid for sums that are not densities in the kept block
            k = [f.vars.index(v) for v in keep]
            o = [i for i, v in enumerate(f.vars) if v not in keep]
            if not o:
                return GFn(keep, f.K[np.ix_(k, k)], f.h[k], f.g)
            Koo = f.K[np.ix_(o, o)]
            inv = np.linalg.inv(Koo)
            C = f.K[np.ix_(k, o)] @ inv
            return GFn(keep, f.K[np.ix_(k, k)] - C @ f.K[np.ix_(o, k)], f.h[k] - C @ f.h[o],
                       f.g + 0.5 * f.h[o] @ inv @ f.h[o] + 0.5 * np.linalg.slogdet(2 * np.pi * inv)[1])
        g = {}
        for n in assignments(f.vars, f.cards):
            g.setdefault(tuple(n[v] for v in keep), []).append(f.at(n))
        return Fn(keep, f.cards, {k: lse(x) for k, x in g.items()})

    @staticmethod
    def same(got, exp, what, rtol=1e-6, atol=1e-6, upto=False):
        need(sorted(got.vars) == sorted(exp.vars), f"{what}: scope {sorted(got.vars)}, expected {sorted(exp.vars)}")
        if isinstance(exp, GFn):
            ix = [exp.vars.index(v) for v in got.vars]
            K = exp.K[np.ix_(ix, ix)]
            sc = max(1.0, float(np.max(np.abs(K))) if K.size else 1.0, float(np.max(np.abs(exp.h))) if K.size else 1.0)
            need(np.allclose(got.K, K, rtol=rtol, atol=atol * sc), f"{what}: precision {got.K.tolist()} expected {K.tolist()} over {got.vars}")
            need(np.allclose(got.h, exp.h[ix], rtol=rtol, atol=atol * sc), f"{what}: h {got.h.tolist()} expected {exp.h[ix].tolist()} over {got.vars}")
            if not upto:
                need(close(got.g, exp.g, rtol=rtol, atol=10 * atol * sc), f"{what}: g {got.g} expected {exp.g}")
            return
        need(got.cards == exp.cards, f"{what}: cardinalities {got.cards}, expected {exp.cards}")
        zg = lse(list(got.table.values())) if upto else 0.0
        ze = lse(list(exp.table.values())) if upto else 0.0
        for n in assignments(exp.vars, exp.cards):
            g, e = got.at(n) - zg, exp.at(n) - ze
            need(close(g, e, rtol=rtol, atol=atol), f"{what}: log value at {n} is {g}, expected {e}")


def snapshot(factor):
    """Everything a caller can see of a factor, without calling it."""
    from veroku.factors.gaussian import Gaussian
    if isinstance(factor, Gaussian):
        return ("g", list(factor._var_names), [(o.K.tolist(), o.h.tolist(), o.g) for o in obs_gauss(factor)][0])
    f = obs_named(factor)
    return ("c", f.vars, f.cards, f.table, getattr(factor, "vars_assignments_names_dict", None))


def same_snapshot(a, b):
    if a[0] == "g":
        return a[1] == b[1] and np.allclose(a[2][0], b[2][0], rtol=1e-7, atol=1e-9) and \
            np.allclose(a[2][1], b[2][1], rtol=1e-7, atol=1e-9) and close(a[2][2], b[2][2], rtol=1e-6, atol=1e-7)
    return a == b


# ---------------------------------------------------------------- generation
def rscopes(rng, pool, k):
    scopes = []
    for _ in range(k):
        r = rng.random()
        if scopes and r < 0.2:
            s = scopes[int(rng.integers(0, len(scopes)))]
            s = [s[i] for i in rng.permutation(len(s))]
            if rng.random() < 0.6 and len(s) > 1:
                s = s[:-1]
        else:
            m = int(rng.integers(1, min(4, len(pool)) + 1))
            s = [pool[i] for i in rng.permutation(len(pool))[:m]]
        scopes.append(s)
    return scopes


def rtree_scopes(rng, pool):
    """Scopes along a random tree: consecutive scopes share one variable with an earlier one."""
    scopes = [[pool[0]] + ([pool[1]] if len(pool) > 1 else [])]
    used = len(scopes[0])
    while used < len(pool):
        prev = scopes[int(rng.integers(0, len(scopes)))]
        m = min(int(rng.integers(1, 3)), len(pool) - used)
        s = [prev[int(rng.integers(0, len(prev)))]] + pool[used:used + m]
        used += m
        scopes.append([s[i] for i in rng.permutation(len(s))])
    return scopes


def rgraph(rng, kinds=("cat", "sparse", "gauss"), positive=True, evidence=True, special=True, tree=False, maxf=6):
    kind = str(rng.choice(list(kinds)))
    n = int(rng.integers(2, 7))
    pool = rnames(rng, n)
    cards = {v: int(rng.choice([2, 2, 3])) for v in pool}
    if rng.random() < 0.15:
        cards[pool[0]] = 1
    scopes = rtree_scopes(rng, pool) if tree else rscopes(rng, pool, int(rng.integers(1, maxf + 1)))
    if tree and rng.random() < 0.5:
        scopes.append([pool[int(rng.integers(0, n))]])
    if rng.random() < 0.3:
        scopes = [scopes[i] for i in rng.permutation(len(scopes))]
    ev, sp = {}, {}
    used = sorted({v for s in scopes for v in s})
    val = lambda v: float(np.round(rng.normal(), 4)) if kind == "gauss" else int(rng.integers(0, cards[v]))  # noqa: E731
    if evidence and rng.random() < 0.5:
        for v in used:
            if rng.random() < 0.25:
                ev[v] = val(v)
        if rng.random() < 0.2:
            ev["elsewhere"] = 0
    if special and kind != "gauss" and rng.random() < 0.25:
        for v in used:
            if v not in ev and rng.random() < 0.25:
                sp[v] = val(v)
    if kind in ("gauss", "sparse"):
        for s in scopes:
            if all(v in ev for v in s):
                ev.pop(s[0])
        if kind == "gauss":
            sp = {}
    specs = []
    for s in scopes:
        if kind == "gauss":
            g = rgauss(rng, s)
            g["cov"] = rcov(rng, len(s), 1.0).tolist()
            specs.append(g)
        elif kind == "cat":
            specs.append({**rcat(rng, s, cards, pzero=0.0 if positive else None, scale=1.0)})
        else:
            sp_ = rsparse(rng, s, cards, default=None, pzero=0.0, scale=1.0)
            if positive and sp_["default"] is None:
                n_ = math.prod(sp_["cards"])
                allx = list(itertools.product(*[range(c) for c in sp_["cards"]]))
                sp_["entries"] = [[list(a), float(np.round(rng.normal(), 4))] for a in allx]
                assert len(allx) == n_
            specs.append(sp_)
    return {"kind": kind, "factors": specs, "ev": ev, "sp": sp, "evnone": bool(not ev and rng.random() < 0.5)}


def build_graph(case):
    from veroku.cluster_graph import ClusterGraph
    factors = [build(s) for s in case["factors"]]
    kw = {}
    if not case["evnone"]:
        kw["evidence"] = dict(case["ev"])
    if case["sp"]:
        kw["special_evidence"] = dict(case["sp"])
    return factors, ClusterGraph(factors, disable_tqdm=True, **kw)


def expected_joint(case):
    fs = [R.slice(R.of_spec(s), case["ev"]) for s in case["factors"]]
    return R.combine(fs, [1] * len(fs))


def clusters_of(g):
    return [R.of_factor(c._factor) for c in g._clusters]


# ---------------------------------------------------------------- C27
def gen_C27(rng, i):
    return rgraph(rng, positive=bool(rng.random() < 0.5))


def check_C27(case):
    factors = [build(s) for s in case["factors"]]
    snaps = [snapshot(f) for f in factors]
    from veroku.cluster_graph import ClusterGraph
    lst = list(factors)
    ev = dict(case["ev"])
    kw = {} if case["evnone"] else {"evidence": ev}
    if case["sp"]:
        kw["special_evidence"] = dict(case["sp"])
    g = ClusterGraph(lst, disable_tqdm=True, **kw)
    exp = expected_joint(case)
    cl = clusters_of(g)
    R.same(R.combine(cl, [1] * len(cl)), exp, "product of the cluster potentials")
    R.same(R.of_factor(g.get_posterior_joint()), exp, "posterior joint before any message")
    need(len(lst) == len(factors) and all(a is b for a, b in zip(lst, factors)), "the list of factors was changed")
    need(ev == case["ev"], "the evidence was changed")
    for f, s in zip(factors, snaps):
        need(same_snapshot(snapshot(f), s), "a given factor was changed")
    for c in g._clusters:
        need(all(c._factor is not f for f in factors), "a cluster uses the given factor object itself")


# ---------------------------------------------------------------- C28
def gen_C28(rng, i):
    return rgraph(rng, maxf=9)


def check_C28(case):
    _, g = build_graph(case)
    cl = g._clusters
    ids = [c.cluster_id for c in cl]
    need(len(set(ids)) == len(ids), "cluster ids are not unique")
    index = {c.cluster_id: i for i, c in enumerate(cl)}
    observed = set(case["ev"]) | set(case["sp"])
    edges = {}
    for i, c in enumerate(cl):
        nb = list(c.neighbour_ids)
        need(len(set(nb)) == len(nb), "a neighbour is listed twice")
        for b in nb:
            j = index[b]
            need(i != j, "a cluster neighbours itself")
            s = c.get_sepset(b)
            need(len(s) > 0 and len(set(s)) == len(s), f"sepset {s}")
            need(set(s) <= set(c.var_names) & set(cl[j].var_names), f"sepset {s} not contained in both scopes")
            need(not (set(s) & observed), f"sepset {s} contains an observed variable")
            need(c.cluster_id in cl[j].neighbour_ids and sorted(cl[j].get_sepset(c.cluster_id)) == sorted(s),
                 f"sepset between {i} and {j} differs between its ends")
            edges[frozenset((i, j))] = set(s)
    allv = sorted({v for c in cl for v in c.var_names} - observed)
    for v in allv:
        holders = {i for i, c in enumerate(cl) if v in c.var_names}
        es = [tuple(e) for e, s in edges.items() if v in s]
        touched = {x for e in es for x in e}
        need(touched <= holders, f"sepset with {v} at a cluster without it")
        comp = {h: h for h in holders}

        def find(x):
            while comp[x] != x:
                x = comp[x]
            return x
        for a, b in es:
            ra, rb = find(a), find(b)
            need(ra != rb, f"the edges with {v} contain a cycle")
            comp[ra] = rb
        need(len({find(h) for h in holders}) <= 1, f"the clusters with {v} are not connected by sepsets with {v}")
    paths = [(index[p.sender_cluster.cluster_id], index[p.receiver_cluster.cluster_id]) for p in g.graph_message_paths]
    need(len(set(paths)) == len(paths), "a message path is repeated")
    need(set(paths) == {(a, b) for e in edges for a, b in [tuple(e), tuple(e)[::-1]]}, "message paths do not match the edges")
    for i, c in enumerate(cl):
        out = sorted(index[p.receiver_cluster.cluster_id] for p in c._outward_message_paths)
        need(out == sorted(j for (a, j) in paths if a == i), f"outward message paths of cluster {i}: {out}")
        need(all(p.sender_cluster is c for p in c._outward_message_paths), "outward path with another sender")
        need(all(any(p is q for q in g.graph_message_paths) for p in c._outward_message_paths), "outward path not in the graph")


# ---------------------------------------------------------------- C29
def positive_graph(rng, **kw):
    return rgraph(rng, positive=True, **kw)


def gen_C29(rng, i):
    c = positive_graph(rng)
    c["schedule"] = [int(rng.integers(0, 50)) for _ in range(int(rng.integers(0, 9)))]
    c["how"] = "paths" if rng.random() < 0.75 else "process"
    c["iters"] = int(rng.integers(1, 3))
    return c


def last_messages(g):
    return [R.of_factor(p.previously_sent_message._factor) for p in g.graph_message_paths if p.previously_sent_message is not None]


def joint_now(g):
    cl, ms = clusters_of(g), last_messages(g)
    return R.combine(cl + ms, [1] * len(cl) + [-1] * len(ms))


def ref_message(c, recv_id, sp):
    f = R.of_factor(c._factor)
    if sp:
        f = R.slice(f, {v: x for v, x in sp.items() if v in f.vars})
    m = R.marg(f, c.get_sepset(recv_id))
    prev = c._received_message_factors.get(recv_id)
    if prev is not None:
        m = R.combine([m, R.of_factor(prev)], [1, -1])
    return m


def check_C29(case):
    _, g = build_graph(case)
    exp = expected_joint(case)
    tol = dict(rtol=1e-5, atol=1e-5)
    sent = {}
    paths = list(g.graph_message_paths)
    if case["how"] == "process":
        g.process_graph(tol=1e-9, max_iter=case["iters"])
        if len(g._clusters) == 1 and case["sp"]:
            return
        R.same(joint_now(g), exp, "clusters over messages after process_graph", **tol)
        R.same(R.of_factor(g.get_posterior_joint()), exp, "posterior joint after process_graph", **tol)
        return
    for step, k in enumerate(case["schedule"]):
        if not paths:
            break
        p = paths[k % len(paths)]
        s, r = p.sender_cluster, p.receiver_cluster
        expm = ref_message(s, r.cluster_id, case["sp"])
        before = {id(c): R.of_factor(c._factor) for c in g._clusters}
        prev = sent.get(id(p))
        p.pass_next_message()
        got = R.of_factor(p.previously_sent_message._factor)
        R.same(got, expm, f"step {step}: message {s.cluster_id}->{r.cluster_id}", **tol)
        exp_r = R.combine([before[id(r)], expm] + ([prev] if prev is not None else []), [1, 1] + ([-1] if prev is not None else []))
        R.same(R.of_factor(r._factor), exp_r, f"step {step}: receiver potential", **tol)
        for c in g._clusters:
            if c is not r:
                R.same(R.of_factor(c._factor), before[id(c)], f"step {step}: potential of another cluster", **tol)
        sent[id(p)] = expm
        R.same(joint_now(g), exp, f"step {step}: clusters over messages", **tol)
    R.same(R.of_factor(g.get_posterior_joint()), exp, "posterior joint", **tol)
    R.same(joint_now(g), exp, "clusters over messages after the query", **tol)


# ---------------------------------------------------------------- C30
def gen_C30(rng, i):
    c = positive_graph(rng)
    c["tol"] = float(rng.choice([1e-3, 1e-6, 0.0, 0.3, 1e-9]))
    c["iters"] = int(rng.choice([1, 1, 2, 3, 6]))
    c["again"] = bool(rng.random() < 0.15)
    return c


def gain_of(p):
    if p.previously_sent_message is None:
        return p.next_message.distance_from_vacuous()
    return p.previously_sent_message.kl_divergence(p.next_message)


def fresh(g, sp, what):
    for p in g.graph_message_paths:
        exp = ref_message(p.sender_cluster, p.receiver_cluster.cluster_id, sp)
        R.same(R.of_factor(p.next_message._factor), exp,
               f"{what}: pending message {p.sender_cluster.cluster_id}->{p.receiver_cluster.cluster_id}", rtol=1e-5, atol=1e-5)
        gain, now = gain_of(p), p.next_information_gain
        need(close(float(gain), float(now), rtol=1e-6, atol=1e-7) or (gain < 1e-6 and now == 0.0),
             f"{what}: pending gain {now}, expected {gain}")


def check_C30(case):
    import veroku.cluster_graph as cgm
    _, g = build_graph(case)
    log = []
    real = cgm._GraphMessagePath.pass_next_message

    def wrapped(self):
        gains = [float(p.next_information_gain) for p in g.graph_message_paths]
        if not log:
            fresh(g, case["sp"], "before the first pass")
        log.append((float(self.next_information_gain), max(gains)))
        real(self)
        if len(log) <= 4:
            fresh(g, case["sp"], f"after pass {len(log)}")
    cgm._GraphMessagePath.pass_next_message = wrapped
    try:
        runs = [g.process_graph(tol=case["tol"], max_iter=case["iters"])]
        n1 = len(log)
        if case["again"] and len(g._clusters) > 1:
            log.clear()
            runs.append(g.process_graph(tol=case["tol"], max_iter=case["iters"]))
    finally:
        cgm._GraphMessagePath.pass_next_message = real
    npaths = len(g.graph_message_paths)
    limit = case["iters"] * npaths
    need(len(log) <= limit, f"{len(log)} messages passed, the limit is {limit}")
    for i, (gain, best) in enumerate(log):
        need(gain >= best, f"pass {i} took a path with gain {gain} although another had {best}")
    if len(g._clusters) > 1:
        total = len(log) + (n1 if len(runs) == 2 else 0)
        need(g.num_messages_passed == total, f"counted {g.num_messages_passed} messages, {total} were passed")
        d = [float(x) for x in g.sync_message_passing_max_distances]
        need(len(d) == len(log), f"{len(d)} gains recorded for {len(log)} passes")
        left = [float(p.next_information_gain) for p in g.graph_message_paths]
        if d:
            need(d[-1] == max(left), f"last recorded gain {d[-1]}, largest pending gain {max(left)}")
        if len(log) < limit:
            need(max(left) <= case["tol"], f"stopped after {len(log)} of {limit} passes with pending gain {max(left)}")
        for x in d[:-1]:
            need(x > case["tol"], f"went on although the largest pending gain {x} was within the tolerance {case['tol']}")
        if len(log) > 4:
            fresh(g, case["sp"], "at the end")


# ---------------------------------------------------------------- C31
def gen_C31(rng, i):
    return rgraph(rng, positive=True, special=False, tree=True)


def check_C31(case):
    _, g = build_graph(case)
    n = len(g._clusters)
    edges = {frozenset((p.sender_cluster.cluster_id, p.receiver_cluster.cluster_id)) for p in g.graph_message_paths}
    comp = {c.cluster_id: c.cluster_id for c in g._clusters}

    def find(x):
        while comp[x] != x:
            x = comp[x]
        return x
    for e in edges:
        a, b = tuple(e)
        if find(a) == find(b):
            return
        comp[find(a)] = find(b)
    g.process_graph(tol=1e-12, max_iter=60)
    if any(float(p.next_information_gain) > 1e-10 for p in g.graph_message_paths):
        return
    exp = expected_joint(case)
    for c in g._clusters:
        if not c.var_names:
            continue
        scope = [list(c.var_names)] + [[v] for v in c.var_names]
        for s in scope:
            got = R.of_factor(g.get_marginal(list(s)))
            R.same(got, R.marg(exp, s), f"marginal of {s}", rtol=1e-4, atol=1e-4, upto=True)
    need(n >= 1, "no clusters")


# ---------------------------------------------------------------- C32
def gen_C32(rng, i):
    c = positive_graph(rng)
    c["passes"] = [int(rng.integers(0, 50)) for _ in range(int(rng.integers(0, 4)))]
    c["pick"] = int(rng.integers(0, 100))
    c["q"] = int(rng.integers(0, 5))
    c["seed"] = int(rng.integers(0, 10 ** 6))
    return c


def gstate(g):
    return ([snapshot(c._factor) for c in g._clusters],
            [{k: snapshot(f) for k, f in c._received_message_factors.items()} for c in g._clusters],
            [(p.sender_cluster.cluster_id, p.receiver_cluster.cluster_id, float(p.next_information_gain), snapshot(p.next_message._factor))
             for p in g.graph_message_paths], dict(g.special_evidence), g.num_messages_passed)


def check_C32(case):
    _, g = build_graph(case)
    paths = list(g.graph_message_paths)
    for k in case["passes"]:
        if paths:
            paths[k % len(paths)].pass_next_message()
    rng = np.random.default_rng(case["seed"])
    allv = sorted({v for c in g._clusters for v in c.var_names})
    if case["q"] == 4:
        vrs = [allv[i] for i in rng.permutation(len(allv))[: int(rng.integers(1, len(allv) + 1))]] if allv else ["none_such"]
    else:
        c = g._clusters[case["pick"] % len(g._clusters)]
        vs = [v for v in c.var_names if v not in case["sp"]]
        vs = [vs[i] for i in rng.permutation(len(vs))]
        vrs = vs[: int(rng.integers(1, len(vs) + 1))] if vs else []
        if case["q"] == 0:
            vrs = vrs[:1]
    vrs = [v for v in vrs if v not in case["sp"]]
    if not vrs:
        vrs = ["none_such"]
    holders = [c for c in g._clusters if set(vrs) <= set(c.var_names)]
    before = gstate(g)
    arg = vrs[0] if (len(vrs) == 1 and case["q"] in (0, 1)) else list(vrs)
    if not holders:
        need(raises(lambda: g.get_marginal(arg), ValueError), f"no cluster contains {vrs} but get_marginal did not raise ValueError")
    else:
        got = R.of_factor(g.get_marginal(arg))
        msgs = []
        for c in holders:
            f = R.of_factor(c._factor)
            f = R.slice(f, {v: x for v, x in case["sp"].items() if v in f.vars})
            try:
                R.same(got, R.marg(f, vrs), f"marginal of {vrs}", rtol=1e-6, atol=1e-6)
                msgs = []
                break
            except Fail as e:
                msgs.append(str(e))
        need(not msgs, msgs[0] if msgs else "")
    after = gstate(g)
    need(all(same_snapshot(a, b) for a, b in zip(before[0], after[0])), "get_marginal changed a cluster potential")
    need(all(a.keys() == b.keys() and all(same_snapshot(a[k], b[k]) for k in a) for a, b in zip(before[1], after[1])),
         "get_marginal changed a received message")
    need(all(a[:3] == b[:3] and same_snapshot(a[3], b[3]) for a, b in zip(before[2], after[2])), "get_marginal changed a message path")
    need(before[3:] == after[3:], "get_marginal changed the graph")


# ---------------------------------------------------------------- C33
def gen_C33(rng, i):
    c = rgraph(rng, kinds=("cat",), positive=True, evidence=False, special=False)
    c["ops"] = [[str(rng.choice(["node", "edge", "badnode", "badedge"])), int(rng.integers(0, 100)), str(rng.choice(["red", "blue", "white"])),
                 bool(rng.random() < 0.5)] for _ in range(int(rng.integers(1, 4)))]
    return c


def split_body(line):
    import re
    m = re.match(r'^\t(?P<lhs>"[^"]*"|[^\s"]+)(\s--\s(?P<rhs>"[^"]*"|[^\s"]+))?\s\[(?P<attr>.*)\]\s*$', line)
    need(m is not None, f"unexpected graph line {line!r}")
    attr = dict(re.findall(r'(\w+)=("[^"]*"|[^\s\]]+)', m.group("attr")))
    strip = lambda x: None if x is None else x.strip('"')  # noqa: E731
    return strip(m.group("lhs")), strip(m.group("rhs")), attr


def check_C33(case):
    from veroku._cg_helpers import _animation as an
    _, g = build_graph(case)
    graph = g._graph
    ids = [c.cluster_id for c in g._clusters]
    edges = sorted({tuple(sorted((p.sender_cluster.cluster_id, p.receiver_cluster.cluster_id))) for p in g.graph_message_paths})
    for op, k, color, flip in case["ops"]:
        exp = [split_body(x) for x in graph.body]
        exp = [(a, b, dict(c)) for a, b, c in exp]
        if op == "node":
            name = ids[k % len(ids)]
            an.change_graph_node_color(graph, name, color)
            for a, b, attr in exp:
                if b is None and a == name:
                    attr["fillcolor"] = color
        elif op == "edge" and edges:
            a0, b0 = edges[k % len(edges)]
            if flip:
                a0, b0 = b0, a0
            s = an.make_sepset_node_name(a0, b0)
            an.change_cluster_graph_edge_color(graph, a0, b0, color)
            for a, b, attr in exp:
                if b is not None and {a, b} in ({a0, s}, {s, b0}):
                    attr["color"] = color
        elif op == "badnode":
            need(raises(lambda: an.change_graph_node_color(graph, "no_such_node", color), ValueError), "missing node accepted")
        else:
            nonedge = [(a, b) for a in ids for b in ids if a < b and (a, b) not in edges]
            a0, b0 = nonedge[k % len(nonedge)] if nonedge else ("no_such", ids[0])
            need(raises(lambda: an.change_cluster_graph_edge_color(graph, a0, b0, color), ValueError), f"missing edge {a0} {b0} accepted")
        got = [split_body(x) for x in graph.body]
        need(got == exp, f"{op} {color}: graph lines differ: " + str([(x, y) for x, y in zip(got, exp) if x != y][:2]))
