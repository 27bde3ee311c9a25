"""Core of the verification-condition generator: sorts, facts, path exploration, sequences, tensors, obligations.

Everything symbolic is a Z3 term; lists, dictionaries, sets and arrays of unbounded size are (length/rank, closure) pairs
whose closures build Z3 terms on demand.  Nothing here knows about /repo; the interpreter in interp.py reads the real
source and drives these classes."""
import hashlib
import contextlib
import itertools
import time
import z3

z3.set_param("warning", False)
z3.set_param("smt.auto_config", False)
z3.set_param("smt.mbqi", False)

Name = z3.DeclareSort("Name")
Opq = z3.DeclareSort("Opq")
Tup = z3.DeclareSort("Tup")                 # tuples of integers used as dictionary keys
tlen = z3.Function("tlen", Tup, z3.IntSort())
tat = z3.Function("tat", Tup, z3.IntSort(), z3.IntSort())
_XR = z3.Datatype("XR")
_XR.declare("fin", ("r", z3.RealSort()))
_XR.declare("ninf")
_XR.declare("pinf")
_XR.declare("nan")
XR = _XR.create()
Int, Real, Bool = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PH = z3.Int("ph!axis")                      # placeholder for "axis number" in recorded index closures


class Unsupported(Exception):
    """The code uses something outside the verified subset: undecided, never a violation."""


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    """A Python exception raised by the interpreted code."""

    def __init__(self, exc, note=""):
        super().__init__(f"{getattr(exc, '__name__', exc)} {note}")
        self.exc, self.note = exc, note


def isz(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and v.sort() == Int)


def is_bool(v):
    return isinstance(v, bool) or (isz(v) and v.sort() == Bool)


def is_name(v):
    return isinstance(v, str) or (isz(v) and v.sort() == Name)


def is_xr(v):
    return isz(v) and v.sort() == XR


def is_real(v):
    return isz(v) and v.sort() == Real


def is_opq(v):
    return isz(v) and v.sort() == Opq


def is_tup(v):
    return isz(v) and v.sort() == Tup


def is_num(v):
    return isinstance(v, (int, float)) or (isz(v) and v.sort() in (Int, Real, XR))


def And(*xs):
    ys = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        ys.append(x)
    return True if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        ys.append(x)
    return False if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b) if isinstance(a, bool) or isinstance(b, bool) else z3.Implies(a, b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and type(a) is type(b) and a == b:
        return a
    if isz(a) and isz(b) and a.eq(b):
        return a
    if isinstance(a, bool) or isinstance(b, bool):
        return Or(And(c, a), And(Not(c), b))
    return z3.If(c, a, b)


def zb(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def Lt(a, b):
    return a < b


def InR(lo, x, hi):
    """lo <= x < hi"""
    return And(lo <= x, x < hi)


# ------------------------------------------------------------------ extended reals
_x = {}
for _n in ("xadd", "xsub", "xmul", "xdiv"):
    _x[_n] = z3.Function(_n, XR, XR, XR)
for _n in ("xneg", "xexp", "xlog", "xabs", "xsqrt"):
    _x[_n] = z3.Function(_n, XR, XR)
for _n in ("xlt", "xle"):
    _x[_n] = z3.Function(_n, XR, XR, Bool)
xadd, xsub, xmul, xdiv = (_x[n] for n in ("xadd", "xsub", "xmul", "xdiv"))
xneg, xexp, xlog, xabs, xsqrt = (_x[n] for n in ("xneg", "xexp", "xlog", "xabs", "xsqrt"))
xlt, xle = _x["xlt"], _x["xle"]
rexp = z3.Function("rexp", Real, Real)
rlog = z3.Function("rlog", Real, Real)
rsqrt = z3.Function("rsqrt", Real, Real)
isfin, isnan = XR.is_fin, XR.is_nan


def xr_axioms():
    a, b = z3.Consts("xa xb", XR)
    r = z3.Real("xr")
    f = XR.fin
    A = lambda vs, body, pat: z3.ForAll(vs, body, patterns=[pat])  # noqa: E731
    both = z3.And(isfin(a), isfin(b))
    nn = z3.Or(isnan(a), isnan(b))
    ax = [
        A([a, b], xadd(a, b) == z3.If(nn, XR.nan, z3.If(both, f(XR.r(a) + XR.r(b)), z3.If(isfin(a), b, z3.If(isfin(b), a,
          z3.If(a == b, a, XR.nan))))), xadd(a, b)),
        A([a, b], xsub(a, b) == z3.If(nn, XR.nan, z3.If(both, f(XR.r(a) - XR.r(b)), z3.If(isfin(b), a, z3.If(isfin(a),
          z3.If(XR.is_pinf(b), XR.ninf, XR.pinf), z3.If(a == b, XR.nan, a))))), xsub(a, b)),
        A([a], xneg(a) == z3.If(isnan(a), XR.nan, z3.If(isfin(a), f(-XR.r(a)), z3.If(XR.is_pinf(a), XR.ninf, XR.pinf))), xneg(a)),
        A([a], xabs(a) == z3.If(isnan(a), XR.nan, z3.If(isfin(a), f(z3.If(XR.r(a) < 0, -XR.r(a), XR.r(a))), XR.pinf)), xabs(a)),
        A([a], xexp(a) == z3.If(isnan(a), XR.nan, z3.If(isfin(a), f(rexp(XR.r(a))), z3.If(XR.is_pinf(a), XR.pinf, f(0)))), xexp(a)),
        A([a], xlog(a) == z3.If(z3.Or(isnan(a), XR.is_ninf(a)), XR.nan, z3.If(isfin(a), z3.If(XR.r(a) > 0, f(rlog(XR.r(a))),
          z3.If(XR.r(a) == 0, XR.ninf, XR.nan)), XR.pinf)), xlog(a)),
        A([a, b], xlt(a, b) == z3.And(z3.Not(nn), z3.If(both, XR.r(a) < XR.r(b),
          z3.And(a != b, z3.Or(XR.is_ninf(a), XR.is_pinf(b))))), xlt(a, b)),
        A([a, b], xle(a, b) == z3.And(z3.Not(nn), z3.If(both, XR.r(a) <= XR.r(b), z3.Or(XR.is_ninf(a), XR.is_pinf(b)))), xle(a, b)),
        A([a, b], z3.Implies(both, xmul(a, b) == f(XR.r(a) * XR.r(b))), xmul(a, b)),
        A([a, b], z3.Implies(z3.And(isfin(a), XR.r(a) > 0, XR.is_pinf(b)), xmul(a, b) == XR.pinf), xmul(a, b)),
        A([a, b], z3.Implies(z3.And(both, XR.r(b) != 0), xdiv(a, b) == f(XR.r(a) / XR.r(b))), xdiv(a, b)),
        A([r], z3.And(rexp(r) > 0, rlog(rexp(r)) == r), rexp(r)),
        A([r], z3.Implies(r > 0, rexp(rlog(r)) == r), rlog(r)),
    ]
    return ax


XR_AX = None


def to_xr(v):
    if is_xr(v):
        return v
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, (int, float)):
        if v != v:
            return XR.nan
        if v == float("inf"):
            return XR.pinf
        if v == float("-inf"):
            return XR.ninf
        return XR.fin(rv(v))
    if is_real(v):
        return XR.fin(v)
    if is_int(v):
        return XR.fin(z3.ToReal(v))
    if is_bool(v):
        return XR.fin(z3.If(v, z3.RealVal(1), z3.RealVal(0)))
    raise Unsupported(f"not a number: {v!r}")


def rv(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.RealVal(v)
    from fractions import Fraction
    fr = Fraction(v)
    if fr.denominator > 10 ** 6:              # decimal literal such as 1e-8: take the decimal the programmer wrote
        fr = Fraction(repr(v))
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def to_real(v):
    if is_real(v):
        return v
    if isinstance(v, (int, float)):
        return rv(v)
    if is_int(v):
        return z3.ToReal(v)
    raise Unsupported(f"not a real number: {v!r}")


# ------------------------------------------------------------------ facts
class Fact:
    __slots__ = ("vars", "body", "pats", "guard", "_z")

    def __init__(self, body, vars=(), pats=None, guard=False):
        self.vars, self.body, self.pats, self.guard, self._z = list(vars), zb(body), pats, guard, None

    def z(self):
        if self._z is None:
            if not self.vars:
                self._z = self.body
            else:
                body = self.body
                while z3.is_quantifier(body) and body.is_forall() and not body.num_patterns():
                    break
                pats = [p if isinstance(p, (list, tuple)) else [p] for p in (self.pats or pick_patterns(self.vars, body))]
                pats = [p for p in pats if all(any(occurs(v, t) for t in p) for v in self.vars)]
                zp = [z3.MultiPattern(*p) if isinstance(p, (list, tuple)) and len(p) > 1 else
                      (p[0] if isinstance(p, (list, tuple)) else p) for p in pats]
                try:
                    self._z = z3.ForAll(self.vars, body, patterns=zp) if zp else z3.ForAll(self.vars, body)
                except z3.Z3Exception:
                    self._z = z3.ForAll(self.vars, body)
        return self._z


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        u = stack.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_quantifier(u):
            stack.append(u.body())
            continue
        yield u
        stack.extend(u.children())


def occurs(v, t):
    i = v.get_id()
    return any(u.get_id() == i for u in subterms(t))


def _pat_ok(t):
    """no interpreted symbols inside a pattern (except constants)"""
    for u in subterms(t):
        if z3.is_app(u) and u.num_args() > 0 and u.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_DT_ACCESSOR):
            return False
        if z3.is_var(u):
            return False
    return True


def pick_patterns(vs, body):
    cands = []
    for u in subterms(body):
        if z3.is_app(u) and u.num_args() > 0 and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and _pat_ok(u):
            inc = frozenset(v.get_id() for v in vs if occurs(v, u))
            if inc:
                cands.append((u, inc))
    full = [u for u, inc in cands if len(inc) == len(vs)]
    if full:
        # smallest terms only: drop candidates having a smaller full candidate inside
        ids = {u.get_id() for u in full}
        mins = [u for u in full if not any(w.get_id() in ids and w.get_id() != u.get_id() for w in subterms(u))]
        return [[u] for u in mins]
    chosen, left = [], {v.get_id() for v in vs}
    for u, inc in sorted(cands, key=lambda c: (-len(c[1]), len(str(c[0])))):
        if inc & left:
            chosen.append(u)
            left -= inc
    return [] if left or not chosen else [chosen]


# ------------------------------------------------------------------ the engine state
class Run:
    def __init__(self, guards, defs, kind, value, effects, env=None):
        self.guards, self.defs, self.kind, self.value, self.effects, self.env = guards, defs, kind, value, effects, env

    @property
    def guard(self):
        return And(*[g for g in self.guards]) if self.guards else True


class Frame:
    def __init__(self, dec, stack):
        self.dec, self.stack, self.pos = dec, stack, 0


class LoopFrame:
    def __init__(self, start):
        self.start, self.effects, self.reads, self.pending = start, [], {}, {}


class Obl:
    def __init__(self, name, status, detail="", backend="", seconds=0.0):
        self.name, self.status, self.detail, self.backend, self.seconds = name, status, detail, backend, seconds


class Engine:
    def __init__(self):
        self.reset_all()

    matlib = None

    def reset_all(self):
        self.only = None
        self.matlib = None
        self.counter = 0
        self.nsids = {"": 0}
        self.set_ns("")
        self.seq_no = 0
        self.facts, self.gfacts = [], []
        self.frames = []
        self.loops = []
        self.bound = []
        self.inv_starts = []
        self.apps = {}          # decl id -> (decl, tensor, bound, Kexpr)
        self.bigops = {}        # decl id -> BigOp
        self.enums = []
        self.labels = []        # candidate axis labellings (name sequences)
        self.names = {}
        self.obls = []
        self.cache = {}
        self.keep = []
        self.solver_s = 0.0
        self.backends = {}
        self.deadline = None
        self.trusted = set()
        self.functions = set()
        self.prefix = ""
        self.pre_objs = []
        self.effects_on_pre = []
        self.query_timeout = 12000
        self.feas_timeout = 400
        self.hooks_equal = []
        self.n_query = 0
        self.closers = []       # callbacks that add instances of lemmas for a query
        self.canaries = []
        self.memo = {}
        self.in_setup = False
        self.world, self.mutlog, self.query_now, self.sums = None, None, [], None

    def new_run(self):
        """state reset at the start of each top-level path"""
        self.counter = 0
        self.nsids = {"": 0}
        self.set_ns("")
        self.seq_no = 0
        self.facts, self.gfacts = [], []
        self.loops, self.bound, self.inv_starts = [], [], []
        self.apps, self.bigops, self.enums, self.labels = {}, {}, [], []
        self.pre_objs, self.effects_on_pre = [], []
        self.closers = []
        self.bases = []
        self.memo = {}
        self.in_setup = False
        self.world, self.mutlog, self.sums = None, None, None
        if self.matlib is not None:
            self.matlib.reset()

    # -------- fresh symbols
    def tick(self):
        """a new symbol number: position within the decisions taken so far, so that the runs of one exploration share the symbols
        they create before their decisions differ"""
        self.counter += 1
        return f"{self.nsid}_{self.counter}" if self.nsid else str(self.counter)

    def decided(self, d):
        self.set_ns(self.ns + ("T" if d is True else "F" if d is False else f"c{d}"))

    def set_ns(self, ns):
        self.ns = ns
        self.nsid = self.nsids.setdefault(ns, len(self.nsids))

    def fresh_decl(self, base, dom, rng):
        return z3.Function(f"{base}!{self.tick()}", *[b.sort() for b in self.bound], *dom, rng)

    def fresh_fn(self, base, dom, rng):
        bs = list(self.bound)
        if not bs and not dom:
            c = z3.Const(f"{base}!{self.tick()}", rng)
            return lambda: c
        f = self.fresh_decl(base, dom, rng)
        return lambda *a: f(*bs, *[zi(x) if isinstance(x, int) else x for x in a])

    def fresh(self, base, sort):
        return self.fresh_fn(base, [], sort)()

    def const(self, base, sort):
        """fresh constant not depending on bound variables"""
        return z3.Const(f"{base}!{self.tick()}", sort)

    def name_const(self, s):
        if s not in self.names:
            self.names[s] = z3.Const("str:" + s, Name)
        return self.names[s]

    @contextlib.contextmanager
    def local(self):
        """facts added inside are forgotten afterwards (they only help the goals inside)"""
        n, memo = len(self.facts), self.memo
        self.memo = dict(memo)
        try:
            yield
        finally:
            self.memo = memo
            del self.facts[n:]

    @contextlib.contextmanager
    def fewer(self, keep):
        """only the facts that `keep` accepts are used inside (a goal that follows from fewer facts follows from all of them)"""
        facts, memo, closers = self.facts, self.memo, self.closers
        self.memo = dict(memo)
        self.facts = [f for f in facts if keep(f)]
        self.closers = list(closers)
        try:
            yield
        finally:
            self.memo, self.facts, self.closers = memo, facts, closers

    def hint(self, *ts):
        """make ground terms known to E-matching"""
        for t in ts:
            h = z3.Function("hint!" + str(t.sort()), t.sort(), Bool)
            self.facts.append(Fact(h(t)))

    def axis_hints(self, k):
        """names an axis number may carry"""
        for s in self.bases:
            if s.sort == Name:
                self.hint(s.at(k))
                for en in self.enums:
                    self.hint(s.at(en.sel(k)))

    # -------- facts
    def assume(self, body, vars=(), pats=None, guard=False):
        if body is True:
            return
        if body is False:
            body = z3.BoolVal(False)
        self.facts.append(Fact(body, vars, pats, guard))

    def forall(self, vars, body, *pats):
        """assume forall vars. body with alternative patterns"""
        if body is True:
            return
        self.facts.append(Fact(body, vars, [list(p) if isinstance(p, (list, tuple)) else [p] for p in pats] or None))

    def gforall(self, vars, body, *pats):
        """the same for a fact about a symbol that does not depend on the current path or loop"""
        self.gfacts.append(Fact(body, vars, [list(p) if isinstance(p, (list, tuple)) else [p] for p in pats] or None))

    def global_decl(self, base, dom, rng):
        return z3.Function(f"{base}!{self.tick()}", *dom, rng)

    # -------- solving
    def base_solver(self, timeout):
        global XR_AX
        if XR_AX is None:
            XR_AX = xr_axioms()
        s = z3.Solver()
        # the budget is counted in solver steps, so that a busy machine gives the same answers; the wall time is a backstop
        s.set("rlimit", int(timeout * 2500))
        s.set("timeout", int(timeout * 6))
        s.set("mbqi", False)
        return s

    def string_axioms(self):
        ns = list(self.names.values())
        return [z3.Distinct(*ns)] if len(ns) > 1 else []

    def feasible(self, cond):
        zs = [f.z() for f in self.gfacts + self.facts] + [zb(cond)]
        if self.apps or self.enums or self.closers:
            zs += self.lemma_instances(zs, set())
        key = tuple(sorted({z.get_id() for z in zs}))
        if key in self.cache:
            return self.cache[key]
        t = time.time()
        s = self.base_solver(self.feas_timeout)
        for z in zs:
            s.add(z)
        for z in XR_AX + self.string_axioms():
            s.add(z)
        r = s.check()
        self.solver_s += time.time() - t
        self.keep.append(zs)
        self.cache[key] = r != z3.unsat
        return self.cache[key]

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        fr = self.frames[-1]
        if fr.pos < len(fr.dec):
            d, forced = fr.dec[fr.pos]
        else:
            forced = False
            if not self.feasible(cond):
                if not self.feasible(Not(cond)):
                    raise Infeasible()
                d, forced = False, True
            else:
                d = True
                if self.feasible(Not(cond)):
                    fr.stack.append(fr.dec[:fr.pos] + [(False, False)])
                else:
                    forced = True
            fr.dec = fr.dec[:fr.pos] + [(d, forced)]
        fr.pos += 1
        self.decided(d)
        # an outcome implied by the facts is not part of the path's guard
        self.assume(cond if d else Not(cond), guard=not forced)
        return d

    def choose(self, n):
        """nondeterministic choice among n alternatives (all explored)"""
        fr = self.frames[-1]
        if n == 1:
            return 0
        if fr.pos < len(fr.dec):
            d = fr.dec[fr.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                fr.stack.append(fr.dec[:fr.pos] + [k])
            fr.dec = fr.dec[:fr.pos] + [0]
        fr.pos += 1
        self.decided(d)
        return d

    def explore(self, thunk, limit=200):
        stack, runs, base, n = [[]], [], len(self.facts), 0
        self.counter += 1
        ns0, count0 = self.ns, self.counter
        while stack:
            n += 1
            self.set_ns(f"{ns0}({count0})")
            self.counter = count0
            if n > limit:
                raise Unsupported("too many paths")
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time limit of the path exploration")
            fr = Frame(stack.pop(), stack)
            self.frames.append(fr)
            loop0, bound0, memo0 = len(self.loops), list(self.bound), self.memo
            self.memo = dict(memo0)
            kind, value = "normal", None
            dead = False
            try:
                value = thunk()
            except PyRaise as e:
                kind, value = "raise", e
            except Infeasible:
                dead = True
            except FlowSignal as s:
                kind, value = s.kind, s.value
            finally:
                self.frames.pop()
                new = self.facts[base:]
                del self.facts[base:]
                del self.loops[loop0:]
                self.bound, self.memo = bound0, memo0
            if not dead:
                runs.append(Run([f.z() for f in new if f.guard], [f for f in new if not f.guard], kind, value, None))
        self.set_ns(ns0)
        self.counter = count0
        return runs

    # -------- bound variables
    def binding(self, *vs, given=True):
        """vs are arbitrary (satisfying `given`) inside; facts found inside hold for all of them"""
        return _Binding(self, vs, given)

    # -------- obligations
    def oblige(self, goal, label):
        """Record and discharge one obligation on the current path."""
        if self.only is not None and not self.only.search(label):
            return True             # another property's obligation
        name = f"{self.prefix}{label}"
        if goal is True:
            self.obls.append(Obl(name, "proved", backend="syntactic"))
            return True
        t = time.time()
        st, detail, be = self.prove(goal)
        dt = time.time() - t
        self.obls.append(Obl(name, st, detail, be, dt))
        return st == "proved"

    def query_terms(self, goal):
        zs = [f.z() for f in self.gfacts + self.facts] + [z3.Not(zb(goal))]
        extra = []
        done = set()
        for rnd in range(4):
            new = self.lemma_instances(zs + extra, done)
            if not new:
                break
            extra += new
        return zs + extra

    def lemma_instances(self, zs, done):
        """ground instances of tensor extensionality, big-operator congruence and enumeration uniqueness"""
        self.query_now = zs
        out = []
        apps, bigs = {}, {}
        seen = set()
        for z in zs:
            for u in subterms(z, seen):
                if not z3.is_app(u):
                    continue
                did = u.decl().get_id()
                if did in self.apps and u.get_id() not in apps and not has_var(u):
                    apps[u.get_id()] = u
                elif did in self.bigops and not has_var(u):
                    bigs[u.get_id()] = u
        byT = {}
        for u in apps.values():
            decl, T, bound, K = self.apps[u.decl().get_id()]
            byT.setdefault(id(T), []).append(u)
        for us in byT.values():
            for u, v in itertools.combinations(sorted(us, key=lambda t: t.get_id()), 2):
                key = ("app", u.get_id(), v.get_id())
                if key in done:
                    continue
                done.add(key)
                out.append(self.app_clause(u, v))
        for u, v in itertools.combinations(sorted(bigs.values(), key=lambda t: t.get_id()), 2):
            key = ("big", u.get_id(), v.get_id())
            if key in done:
                continue
            done.add(key)
            out += self.big_clauses(u, v)
        for c in self.closers:
            out += c(done)
        for (i, e1), (j, e2) in itertools.combinations(list(enumerate(self.enums)), 2):
            key = ("enum", i, j)
            if key in done:
                continue
            done.add(key)
            out += e1.unique(e2)
        return out

    def app_args(self, u):
        decl, T, bound, K = self.apps[u.decl().get_id()]
        pairs = list(zip(bound, u.children()))
        return T, lambda d: z3.substitute(K, *pairs, (PH, zi(d)))

    def app_clause(self, u, v):
        T, K1 = self.app_args(u)
        _, K2 = self.app_args(v)
        d = self.const("dax", Int)
        return z3.Or(u == v, z3.And(d >= 0, d < zi(T.rank), K1(d) != K2(d)))

    def big_clauses(self, u, v):
        a, b = self.bigops[u.decl().get_id()], self.bigops[v.decl().get_id()]
        if a.kind != b.kind or a.bound or b.bound:
            return []
        return a.congruence(b)

    def prove(self, goal):
        self.n_query += 1
        if goal is False:
            goal = z3.BoolVal(False)
        zs = self.query_terms(goal)
        res = "unknown"
        t0 = time.time()
        tmo = self.query_timeout
        for attempt, (seed, to) in enumerate(((0, tmo // 4), (7, tmo // 2), (23, tmo))):
            s = self.base_solver(to)
            if seed:
                s.set("random_seed", seed)
            if attempt == 1:
                s.set("case_split", 3)
            if attempt == 2 and "incomplete" in res:        # E-matching over all terms, relevant or not
                s.set("relevancy", 0)
            for z in zs:
                s.add(z)
            for z in XR_AX + self.string_axioms():
                s.add(z)
            r = s.check()
            if r == z3.unsat:
                self.backends["z3"] = self.backends.get("z3", 0) + 1
                self.solver_s += time.time() - t0
                return "proved", "", "z3"
            res = str(r) + (": " + s.reason_unknown() if r == z3.unknown else "")
        # second back end
        r2 = cvc5_check(zs + XR_AX + self.string_axioms(), 4000)
        self.solver_s += time.time() - t0
        if r2 == "unsat":
            self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
            return "proved", "", "cvc5"
        return "failed", f"z3: {res}; cvc5: {r2}; goal: {str(goal)[:300]}", "z3+cvc5"

    def holds(self, goal, timeout=3000, case_split=None, seed=0):
        """is the goal provable now (used for side conditions inside library models)?"""
        if isinstance(goal, bool):
            if goal:
                return True
        key = ("h", timeout, case_split, seed) + tuple(sorted({f.z().get_id() for f in self.gfacts + self.facts})) + (zb(goal).get_id(),)
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        zs = self.query_terms(goal)
        s = self.base_solver(timeout)
        if case_split is not None:
            s.set("case_split", case_split)
        if seed:
            s.set("random_seed", seed)
        for z in zs:
            s.add(z)
        for z in XR_AX + self.string_axioms():
            s.add(z)
        r = s.check() == z3.unsat
        self.solver_s += time.time() - t0
        self.cache[key] = r
        self.keep.append((zs, zb(goal)))
        return r

    def canary(self, what):
        """the facts so far must not be contradictory (as far as the solver can tell)"""
        t0 = time.time()
        s = self.base_solver(1500)
        for z in [f.z() for f in self.gfacts + self.facts] + XR_AX + self.string_axioms():
            s.add(z)
        r = s.check()
        self.solver_s += time.time() - t0
        self.canaries.append({"what": what, "result": "vacuous" if r == z3.unsat else "not refuted"})

    def require(self, goal, exc, note=""):
        """The operation raises exc unless goal holds."""
        if isinstance(goal, bool):
            ok = goal
        elif self.holds(goal):
            return
        else:
            ok = self.branch(goal)
        if not ok:
            raise PyRaise(exc, note)


def generalise(f, vs, premise):
    """the fact f, recorded while the constants vs were arbitrary, for all vs satisfying the premise"""
    vs = [v for v in vs if occurs(v, f.body) or any(occurs(v, t) for p in (f.pats or []) for t in p)]
    if not vs:
        # the premise may still restrict when the fact is available; facts not mentioning vs are definitional
        return f if premise is True else Fact(f.body, f.vars, f.pats)
    pats = None
    if f.pats:
        pats = [p for p in f.pats if all(any(occurs(v, t) for t in p) for v in vs)] or None
    return Fact(Implies(premise, f.body), vs + f.vars, pats)


def has_var(u):
    return any(z3.is_var(w) for w in subterms(u))


class _Binding:
    def __init__(self, e, vs, given=True):
        self.e, self.vs, self.given = e, list(vs), given

    def __enter__(self):
        self.old = list(self.e.bound)
        self.n0 = len(self.e.facts)
        self.e.bound = self.old + self.vs
        self.own = None
        if self.given is not True:
            self.e.assume(self.given)
            self.own = self.e.facts[-1]

    def __exit__(self, *a):
        e = self.e
        e.bound = self.old
        new = [f for f in e.facts[self.n0:] if f is not self.own]
        bad = [f for f in new if f.guard and any(occurs(v, f.body) for v in self.vs)]
        e.facts[self.n0:] = [generalise(f, self.vs, self.given) for f in new if not any(f is b for b in bad)]
        if bad and a[0] is None:
            raise Unsupported("a case distinction that depends on a bound variable")


class FlowSignal(Exception):
    def __init__(self, kind, value=None):
        super().__init__(kind)
        self.kind, self.value = kind, value


X = Engine()


def cvc5_check(zs, timeout_ms):
    try:
        import cvc5
    except ImportError:
        return "absent"
    try:
        s = z3.Solver()
        for z in zs:
            s.add(z)
        txt = s.to_smt2()
        txt = txt.replace("(set-info :status unknown)", "")
        slv = cvc5.Solver()
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        out = ""
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            out = c.invoke(slv, sm) or out
        return out.strip().split("\n")[-1] or "unknown"
    except Exception as e:  # noqa: BLE001
        return f"error {str(e)[:80]}"


# ------------------------------------------------------------------ enumerations of index sets
class Enum:
    """increasing enumeration of {i in [0,n) : p(i)}"""

    def __init__(self, n, p, base="en", trig=None):
        self.n, self.p = n, p
        self.sel = X.fresh_fn(base + "_sel", [Int], Int)
        self.rk = X.fresh_fn(base + "_rk", [Int], Int)
        self.cnt = X.fresh(base + "_cnt", Int)
        k, k2, i = z3.Int("k"), z3.Int("k2"), z3.Int("i")
        X.assume(And(self.cnt >= 0, self.cnt <= zi(n)))
        s = self.sel(k)
        X.forall([k], Implies(InR(0, k, self.cnt), And(InR(0, s, n), p(s), self.rk(s) == k)), s)
        r = self.rk(i)
        pats = [[r]]
        if trig is not None:
            t = trig(i)
            pats += [q for q in (pick_patterns([i], t) if isz(t) else []) if len(q) == 1]
        X.forall([i], Implies(And(InR(0, i, n), p(i)), And(InR(0, r, self.cnt), self.sel(r) == i)), *pats)
        X.forall([k, k2], Implies(And(0 <= k, k < k2, k2 < self.cnt), self.sel(k) < self.sel(k2)), [self.sel(k), self.sel(k2)])
        self.full = X.fresh(base + "_full", Bool)          # all indices selected => identity
        w = X.fresh(base + "_w", Int)
        X.assume(Or(self.full, And(InR(0, w, n), Not(p(w)))))
        X.assume(Implies(self.full, self.cnt == zi(n)))
        X.forall([k], Implies(And(self.full, InR(0, k, n)), s == k), s)
        self.bound = list(X.bound)
        if not self.bound:
            X.enums.append(self)

    def unique(self, o):
        q = X.const("enq", Bool)
        d = X.const("end", Int)
        k = z3.Int("k")
        out = [z3.Or(q, zi(self.n) != zi(o.n), zb(And(InR(0, d, self.n), Not(Iff(self.p(d), o.p(d))))))]
        out.append(z3.Implies(q, self.cnt == o.cnt))
        out.append(z3.ForAll([k], z3.Implies(z3.And(q, k >= 0, k < self.cnt), self.sel(k) == o.sel(k)), patterns=[self.sel(k), o.sel(k)]))
        out.append(z3.ForAll([k], z3.Implies(z3.And(q, zb(InR(0, k, self.n)), zb(self.p(k))), self.rk(k) == o.rk(k)), patterns=[self.rk(k), o.rk(k)]))
        return out


# ------------------------------------------------------------------ sequences (immutable views)
class Seq:
    """length(), get(i), mem(v), pos(v); elements are values of one kind"""
    def mem(self, v):
        return self._member()[0](self._key(v))

    def pos(self, v):
        """first position of v (only meaningful when v is a member)"""
        return self._member()[1](self._key(v))

    def _key(self, v):
        s = self.esort()
        if s == Int:
            return zi(v) if is_int(v) else None
        if s == Name and isinstance(v, str):
            return X.name_const(v)
        return v

    def esort(self):
        v = self.get(z3.Int("es!"))
        if isz(v):
            return v.sort()
        if isinstance(v, bool):
            return Bool
        if isinstance(v, int):
            return Int
        if isinstance(v, str):
            return Name
        raise Unsupported(f"membership in a list of {type(v).__name__}")

    def _member(self):
        key = ("mem", id(self), tuple(b.get_id() for b in X.bound))
        m = X.memo.get(key)
        if m is None:
            s = self.esort()
            f = X.fresh_fn("smem", [s], Bool)
            w = X.fresh_fn("swit", [s], Int)
            j, x = z3.Int("j"), z3.Const("x", s)
            n = self.length()
            gj = self.get(j)
            gj = zi(gj) if isinstance(gj, int) else gj
            pats = pick_patterns([j], gj) if isz(gj) else []
            X.forall([j], Implies(InR(0, j, n), And(f(gj), w(gj) <= j)), *pats)
            gw = self.get(w(x))
            X.forall([x], Implies(f(x), And(InR(0, w(x), n), eq(gw, x))), f(x), w(x))
            m = X.memo[key] = (f, w, self)      # keeps self alive, so that id(self) stays unique
            X.memo[("keep", id(self))] = self
        return m

    def distinct(self):
        i, j = X.const("di", Int), X.const("dj", Int)
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(self.length())), zb(Not(eq(self.get(i), self.get(j))))))

    def distinct_goal(self):
        """skolemised form, to be proved"""
        i, j = X.const("di", Int), X.const("dj", Int)
        return Implies(And(0 <= i, i < j, j < zi(self.length())), Not(eq(self.get(i), self.get(j))))

    def items(self):
        n = self.length()
        if isinstance(n, int):
            return [self.get(i) for i in range(n)]
        n = z3.simplify(n)
        if z3.is_int_value(n):
            return [self.get(i) for i in range(n.as_long())]
        return None


class CSeq(Seq):
    def __init__(self, items):
        self._items = list(items)

    def length(self):
        return len(self._items)

    def get(self, i):
        if isz(i):
            i2 = z3.simplify(i)
            if z3.is_int_value(i2):
                i = i2.as_long()
        if isinstance(i, int):
            return self._items[i]
        if not self._items:
            raise Unsupported("symbolic index into an empty literal list")
        v = self._items[-1]
        for k in range(len(self._items) - 2, -1, -1):
            v = merge(i == k, self._items[k], v)
        return v

    def mem(self, v):
        return Or(*[eq(x, v) for x in self._items])

    def pos(self, v):
        if not self._items:
            return -1
        r = len(self._items) - 1
        for k in range(len(self._items) - 2, -1, -1):
            r = If(eq(self._items[k], v), k, r) if not isinstance(r, int) or not isinstance(eq(self._items[k], v), bool) else (k if eq(self._items[k], v) else r)
        return r

    def distinct_goal(self):
        return And(*[Not(eq(a, b)) for a, b in itertools.combinations(self._items, 2)])

    def distinct(self):
        return self.distinct_goal()

    def items(self):
        return list(self._items)


class BaseSeq(Seq):
    """an arbitrary list of elements of an uninterpreted/arithmetical sort"""

    def __init__(self, base, sort=Name, length=None, distinct=False):
        self.sort = sort
        self.label = base
        self._len = X.fresh(base + "_len", Int) if length is None else length
        self.at = X.fresh_fn(base + "_at", [Int], sort)
        self._pos = X.fresh_fn(base + "_pos", [sort], Int)
        self._mem = X.fresh_fn(base + "_mem", [sort], Bool)
        self.is_distinct = distinct
        if not X.bound:
            X.bases.append(self)
        X.assume(zi(self._len) >= 0)
        x, i = z3.Const("x", sort), z3.Int("i")
        X.forall([x], Implies(self._mem(x), And(InR(0, self._pos(x), self._len), self.at(self._pos(x)) == x)), self._mem(x), self._pos(x))
        a = self.at(i)
        if distinct:
            X.forall([i], Implies(InR(0, i, self._len), And(self._mem(a), self._pos(a) == i)), a)
        else:
            X.forall([i], Implies(InR(0, i, self._len), And(self._mem(a), self._pos(a) <= i)), a)

    def esort(self):
        return self.sort

    def length(self):
        return self._len

    def get(self, i):
        return self.at(zi(i))

    def mem(self, v):
        k = self._key(v)
        return False if k is None or not isz(k) or k.sort() != self.sort else self._mem(k)

    def pos(self, v):
        return self._pos(self._key(v))

    def distinct_goal(self):
        return True if self.is_distinct else super().distinct_goal()


class FnSeq(Seq):
    def __init__(self, n, fn):
        self._n, self.fn = n, fn

    def length(self):
        return self._n

    def get(self, i):
        return self.fn(i)


class RangeSeq(Seq):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def length(self):
        if isinstance(self.lo, int) and isinstance(self.hi, int):
            return max(0, self.hi - self.lo)
        d = self.hi - self.lo
        if isinstance(self.lo, int) and self.lo == 0 and X.memo.get(("nonneg", zi(self.hi).get_id())):
            return d
        return If(d >= 0, d, 0)

    def get(self, i):
        return self.lo + i

    def mem(self, v):
        return InR(self.lo, v, self.hi)

    def pos(self, v):
        return v - self.lo

    def distinct_goal(self):
        return True

    def distinct(self):
        return True


class ConcatSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b

    def length(self):
        return self.a.length() + self.b.length()

    def get(self, i):
        n = self.a.length()
        c = i < n
        if isinstance(c, bool):
            return self.a.get(i) if c else self.b.get(i - n)
        if isinstance(n, int) and n == 0:
            return self.b.get(i)
        if isinstance(self.b.length(), int) and self.b.length() == 0:
            return self.a.get(i)
        return merge(c, self.a.get(i), self.b.get(i - n))

    def mem(self, v):
        return Or(self.a.mem(v), self.b.mem(v))

    def pos(self, v):
        return If(self.a.mem(v), self.a.pos(v), self.a.length() + self.b.pos(v))


class FilterSeq(Seq):
    """elements of base (in order) at positions selected by p; elementwise predicate q over values when it is one"""

    def __init__(self, base, p, q=None, trig=None):
        self.base, self.p, self.q = base, p, q
        self.en = Enum(base.length(), p, "fl", trig=trig or (lambda i: base.get(i)))

    def length(self):
        return self.en.cnt

    def get(self, i):
        return self.base.get(self.en.sel(zi(i)))

    def mem(self, v):
        if self.q is None:
            return super().mem(v)
        return And(self.base.mem(v), self.q(v))

    def pos(self, v):
        if self.q is None:
            return super().pos(v)
        return self.en.rk(zi(self.base.pos(v)))


class MapSeq(Seq):
    """[f(i) for i in range(len(base))] where the i-th element is computed from base.get(i)"""

    def __init__(self, base, fn):
        self.base, self.fn = base, fn

    def length(self):
        return self.base.length()

    def get(self, i):
        return self.fn(i)


class SubSeq(Seq):
    """base[lo:lo+n]"""

    def __init__(self, base, lo, n):
        self.base, self.lo, self.n = base, lo, n

    def length(self):
        return self.n

    def get(self, i):
        return self.base.get(self.lo + i)


class SubstSeq(Seq):
    """a sequence built under a bound variable, seen at a particular value of it"""

    def __init__(self, base, pairs):
        self.base, self.pairs = base, pairs

    def length(self):
        return under(self.pairs, lambda: self.base.length())

    def get(self, i):
        return under(self.pairs, lambda: self.base.get(i))

    def mem(self, v):
        return under(self.pairs, lambda: self.base.mem(v))

    def pos(self, v):
        return under(self.pairs, lambda: self.base.pos(v))


# ------------------------------------------------------------------ heap objects
class Heap:
    derived = False

    def __init__(self):
        X.seq_no += 1
        self.birth = X.seq_no
        self.pre = X.in_setup
        if self.pre:
            X.pre_objs.append(self)

    def touch(self):
        """called before any read of mutable state"""
        for lf in X.loops:
            if self.birth <= lf.start:
                if id(self) in lf.pending:
                    raise Unsupported("a loop reads an object it also changes")
                lf.reads[id(self)] = self

    def effect(self, *eff):
        """returns True when the mutation was recorded as a loop effect instead of being applied"""
        if self.derived:
            raise Unsupported("a change of an object taken out of a container a loop filled")
        if self.pre and not X.in_setup:
            X.effects_on_pre.append((self, eff[0], eff[1] if len(eff) > 1 else None))
        if X.mutlog is not None:
            X.mutlog.append(self)
        if X.loops and self.birth <= X.loops[-1].start:
            lf = X.loops[-1]
            lf.effects.append((self,) + eff)
            lf.pending[id(self)] = self
            return True
        return False


class PList(Heap):
    def __init__(self, seq, kind="list"):
        super().__init__()
        self._seq = seq if isinstance(seq, Seq) else CSeq(seq)
        self.kind = kind

    family = None       # shared by all views of the lists one loop created: after a change of any of them no contents are known

    @property
    def scrambled(self):
        return self.family is not None and self.family[0] == "changed"

    def effect(self, *eff):
        if self.family is not None:
            self.family[0] = "changed"
            super().effect(*eff)
            return True
        return super().effect(*eff)

    @property
    def seq(self):
        if self.scrambled:
            raise Unsupported("contents of a list changed through a container")
        if self.kind == "list":
            self.touch()
        return self._seq

    def set_seq(self, s):
        self._seq = s


class CondValue:
    """one of several values depending on conditions (used where Z3's if-then-else cannot merge)"""

    def __init__(self, cases):
        self.cases = cases          # [(cond, value)]


class SDict(Heap):
    """dom(k), get(k) closures; keys: Seq of the keys in insertion order, without duplicates (or None when unknown)"""

    def __init__(self, dom, get, keys=None, ksort=None, conc=None):
        super().__init__()
        self._dom, self._get, self._keys, self.ksort = dom, get, keys, ksort
        self._conc = conc            # concrete python dict for literal keys

    @property
    def st(self):
        self.touch()
        return self

    def dom(self, k):
        self.touch()
        if self._conc is not None:
            return Or(*[eq(a, k) for a, _ in self._conc])
        return self._dom(k)

    def get(self, k):
        self.touch()
        if self._conc is not None:
            if not self._conc:
                raise Unsupported("lookup in an empty dictionary")
            v = self._conc[-1][1]
            for a, b in reversed(self._conc[:-1]):
                v = merge(eq(a, k), b, v)
            return v
        return self._get(k)

    def keys(self):
        self.touch()
        if self._conc is not None:
            return CSeq([a for a, _ in self._conc])
        return self._keys

    def clone(self):
        self.touch()
        return SDict(self._dom, self._get, self._keys, self.ksort, list(self._conc) if self._conc is not None else None)


class SSet(Heap):
    def __init__(self, mem, seq=None, card=None, ksort=Name):
        super().__init__()
        self._mem, self.seq, self._card, self.ksort = mem, seq, card, ksort

    def mem(self, v):
        self.touch()
        if isinstance(v, str) and self.ksort == Name:
            v = X.name_const(v)
        return self._mem(v)


class Obj(Heap):
    def __init__(self, cls):
        super().__init__()
        self.cls, self.attrs = cls, {}

    def __repr__(self):
        return f"<{self.cls.name}>"


class Arr(Heap):
    """n-dimensional array: rank, dim(k), val(K) with K an index closure"""

    def __init__(self, rank, dim, val, es, buf=None, label=None):
        super().__init__()
        self.rank, self._dim, self._val, self.es = rank, dim, val, es
        self.buf = buf if buf is not None else self
        self.views = 0
        self.label = label
        if buf is not None:
            root = buf
            root.views += 1
            self.ver = root.ver
        else:
            self.ver = 0
        self.mx = None

    def root(self):
        b = self
        while b.buf is not b:
            b = b.buf
        return b

    def dim(self, k):
        return self._dim(k)

    def val(self, K):
        self.touch()
        r = self.root()
        if r is not self and self.ver != r.ver:
            raise Unsupported("reading an array view after its base array changed")
        return self._val(K)

    def view(self, rank, dim, val, label=None):
        return Arr(rank, dim, val, self.es, buf=self.root(), label=label)

    def at(self, *ix):
        return self.val(lambda k: ix[k] if isinstance(k, int) else CSeq(list(ix)).get(k))


def base_arr(name, rank, dim, es=XR, inv=None):
    """an arbitrary array"""
    if isinstance(rank, int):
        f = X.fresh_fn(name, [Int] * rank, es)

        def val(K):
            return f(*[zi(K(k)) for k in range(rank)])
        if inv is not None:
            vs = [z3.Int(f"a{k}") for k in range(rank)]
            if rank:
                X.forall(vs, inv(f(*vs)), f(*vs))
            else:
                X.assume(inv(f()))
        return Arr(rank, dim, val, es)
    A = Arr(rank, dim, None, es)

    def val2(K):
        Kx = zi(K(PH))
        key = ("app", id(A), Kx.get_id(), tuple(b.get_id() for b in X.bound))
        if key in X.memo:
            return X.memo[key][0]
        bs = list(X.bound)
        decl = X.fresh_decl(name + "_v", [], es)
        t = decl(*bs)
        X.apps[decl.get_id()] = (decl, A, bs, Kx)
        X.memo[key] = (t, Kx)
        if inv is not None:
            if bs:
                X.forall(bs, inv(t), t)
            else:
                X.assume(inv(t))
        return t
    A._val = val2
    return A


class BigOp:
    """op over all J in the box of the axes selected by S: body(index) with index(k) = J(k) on S"""

    def __init__(self, kind, rank, dims, body, es=XR, label=None, base="big"):
        self.kind, self.rank, self.dims, self.body, self.label = kind, rank, dims, body, label
        self.bound = list(X.bound)
        decl = X.fresh_decl(base, [], es)
        self.term = decl(*self.bound)
        X.bigops[decl.get_id()] = self

    # `dims(k)` is None-free; axes not reduced have S(k) False
    S = staticmethod(lambda k: True)

    def congruence(self, o):
        out = self._cong(o, None, None)
        labs1 = [self.label] if self.label is not None else X.labels
        labs2 = [o.label] if o.label is not None else X.labels
        for a in labs1:
            for b in labs2:
                if a is not b:
                    out += self._cong(o, a, b)
        return out

    def _cong(self, o, la, lb):
        J = X.fresh_fn("bigJ", [Int], Int)
        d = X.const("bigd", Int)
        alts = [self.term == o.term]
        k = z3.Int("k")
        if la is None:
            alts.append(zi(self.rank) != zi(o.rank))
            alts.append(zb(And(InR(0, d, self.rank), Or(zi(self.dims(d)) != zi(o.dims(d)), Not(Iff(self.S(d), o.S(d)))))))
            J2 = lambda k: J(zi(k))  # noqa: E731
        else:
            w = X.const("bigw", Name)
            alts.append(zi(self.rank) != zi(la.length()))
            alts.append(zi(o.rank) != zi(lb.length()))
            alts.append(zb(Not(Iff(la.mem(w), lb.mem(w)))))
            alts.append(zb(Not(la.distinct_goal())))
            alts.append(zb(Not(lb.distinct_goal())))
            d2 = lb.pos(la.get(d))
            alts.append(zb(And(InR(0, d, self.rank), Or(zi(self.dims(d)) != zi(o.dims(d2)), Not(Iff(self.S(d), o.S(d2)))))))
            J2 = lambda k: J(zi(la.pos(lb.get(k))))  # noqa: E731
        n0 = len(X.facts)
        b1, b2 = self.body(lambda k: J(zi(k))), o.body(J2)
        side = [f.z() for f in X.facts[n0:]]
        inbox = z3.ForAll([k], z3.Implies(zb(And(InR(0, k, self.rank), self.S(k))), z3.And(J(k) >= 0, J(k) < zi(self.dims(k)))), patterns=[J(k)])
        alts.append(z3.And(inbox, zb(Not(same(b1, b2)))))
        return [z3.Or(*alts)] + side


def same(a, b):
    """semantic identity of two scalars (not the float == operator: nan is identical to nan)"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool):
        return a == b or (a != a and b != b)
    if is_xr(a) or is_xr(b):
        return to_xr(a) == to_xr(b)
    if is_real(a) or is_real(b):
        return to_real(a) == to_real(b)
    return eq(a, b)


# ------------------------------------------------------------------ equality, merging, substitution
def eq(a, b):
    """Python == as a formula (for containers: elementwise)"""
    if a is b and not is_xr(a):
        return True
    if isinstance(a, Obj) and getattr(a, "sym", None) is not None:
        a = a.sym
    if isinstance(b, Obj) and getattr(b, "sym", None) is not None:
        b = b.sym
    if isinstance(a, SymObj) and isinstance(b, SymObj):
        return a.ref == b.ref
    if a is None or b is None:
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, str) and isz(b) and b.sort() == Name:
        return X.name_const(a) == b
    if isinstance(b, str) and isz(a) and a.sort() == Name:
        return a == X.name_const(b)
    if isinstance(a, (bool, int, float)) and isinstance(b, (bool, int, float)):
        return a == b
    if is_bool(a) and is_bool(b):
        return Iff(a, b)
    if is_int(a) and is_int(b):
        return a == b
    if is_num(a) and is_num(b):
        if is_xr(a) or is_xr(b):
            x, y = to_xr(a), to_xr(b)
            return And(x == y, Not(isnan(x)))
        return to_real(a) == to_real(b)
    if isz(a) and isz(b):
        if a.sort() == b.sort():
            return a == b
        return False
    if is_tup(a) and isinstance(b, PList) or is_tup(b) and isinstance(a, PList):
        t, l = (a, b) if is_tup(a) else (b, a)
        if l.kind != "tuple":
            return False
        from .tuplib import tupterm
        return t == tupterm(l)
    if isinstance(a, PList) and isinstance(b, PList):
        if a.kind != b.kind:
            return False
        return seq_eq(a.seq, b.seq)
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_eq(a, b)
    if isinstance(a, SSet) and isinstance(b, SSet):
        x = X.const("sx", a.ksort)
        return z3.ForAll([x], zb(Iff(a.mem(x), b.mem(x))))
    if isinstance(a, (SDict,)) and isinstance(b, SDict):
        x = X.const("dx", Name if a.ksort is None else a.ksort)
        return z3.ForAll([x], zb(And(Iff(a.dom(x), b.dom(x)), Implies(a.dom(x), eq(a.get(x), b.get(x))))))
    if type(a) is not type(b) and not (isz(a) and isz(b)):
        if any(isinstance(v, (PList, SDict, SSet)) or isz(v) or isinstance(v, (int, float, str)) for v in (a, b)) and \
                not any(isinstance(v, (CondValue, Arr, Obj)) for v in (a, b)):
            return False
    raise Unsupported(f"equality of {type(a).__name__} and {type(b).__name__}")


def seq_eq(a, b):
    if a is b:
        return True
    la, lb = a.length(), b.length()
    if isinstance(la, int) and isinstance(lb, int):
        if la != lb:
            return False
        return And(*[eq(a.get(i), b.get(i)) for i in range(la)])
    if isinstance(la, int) and la == 0 or isinstance(lb, int) and lb == 0:
        return la == lb
    i = X.const("qi", Int)
    body = Implies(InR(0, i, la), eq(a.get(i), b.get(i)))
    extra = True
    if isinstance(a, BaseSeq) and isinstance(b, BaseSeq) and a.sort == b.sort:
        # equal lists have equal members and positions (a consequence, added so that E-matching finds it)
        x = X.const("qx", a.sort)
        extra = z3.ForAll([x], z3.And(a._mem(x) == b._mem(x), z3.Implies(a._mem(x), a._pos(x) == b._pos(x))), patterns=[a._mem(x), b._mem(x), a._pos(x), b._pos(x)])
        pos = z3.And(zi(la) == zi(lb), z3.ForAll([i], zb(body), patterns=[a.at(i), b.at(i)]))
        q = X.const("seqeq", Bool)
        X.assume(z3.Implies(q, z3.And(pos, extra)))
        j = X.const("qj", Int)
        X.assume(z3.Implies(z3.Not(q), z3.Or(zi(la) != zi(lb), z3.And(0 <= j, j < zi(la), a.at(j) != b.at(j)))))
        return q
    q = X.const("seqeq", Bool)
    pats = pick_patterns([i], zb(body))
    zp = [p[0] if len(p) == 1 else z3.MultiPattern(*p) for p in pats]
    X.assume(z3.Implies(q, z3.And(zi(la) == zi(lb), z3.ForAll([i], zb(body), patterns=zp) if zp else z3.ForAll([i], zb(body)))))
    j = X.const("qj", Int)
    X.assume(z3.Implies(z3.Not(q), zb(Or(zi(la) != zi(lb), And(InR(0, j, la), Not(eq(a.get(j), b.get(j))))))))
    if X.bound:
        raise Unsupported("comparison of lists inside a loop")
    return q


def merge(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isz(a) and isz(b) and a.sort() == b.sort():
        return If(c, a, b)
    if is_bool(a) and is_bool(b):
        return If(c, a, b)
    if is_int(a) and is_int(b):
        return If(c, zi(a), zi(b)) if not (isinstance(a, int) and isinstance(b, int) and a == b) else a
    if is_name(a) and is_name(b):
        f = lambda v: X.name_const(v) if isinstance(v, str) else v  # noqa: E731
        return If(c, f(a), f(b))
    if is_num(a) and is_num(b):
        if is_xr(a) or is_xr(b) or (isinstance(a, float) and not is_real(b)) or (isinstance(b, float) and not is_real(a)):
            return If(c, to_xr(a), to_xr(b))
        return If(c, to_real(a), to_real(b))
    if (isinstance(a, SymObj) or isinstance(b, SymObj)) and isinstance(a, (SymObj, Obj)) and isinstance(b, (SymObj, Obj)):
        cls = a.cls if isinstance(a, SymObj) else b.cls
        from .heaplib import reify
        return SymObj(cls, If(c, reify(a, cls), reify(b, cls)))
    if isinstance(a, CondValue) or isinstance(b, CondValue) or True:
        ca = a.cases if isinstance(a, CondValue) else [(True, a)]
        cb = b.cases if isinstance(b, CondValue) else [(True, b)]
        return CondValue([(And(c, x), v) for x, v in ca] + [(And(Not(c), x), v) for x, v in cb])


def under(pairs, thunk):
    """evaluate thunk with the bound constants of pairs arbitrary, then replace them"""
    with X.binding(*[p[0] for p in pairs]):
        v = thunk()
    return subst(v, pairs)


def subst(v, pairs):
    """value v with bound constants replaced"""
    if isz(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, (int, float, str, bool, type(None), slice)):
        return v
    if isinstance(v, PList):
        w = PList(SubstSeq(v._seq, pairs) if not isinstance(v._seq, CSeq) else CSeq([subst(x, pairs) for x in v._seq._items]), v.kind)
        w.birth = v.birth
        if v.kind == "list":
            if v.family is None:
                v.family = ["known"]
            w.family = v.family
        return w
    if isinstance(v, Seq):
        return SubstSeq(v, pairs)
    if isinstance(v, CondValue):
        return CondValue([(subst(c, pairs), subst(x, pairs)) for c, x in v.cases])
    if isinstance(v, SSet):
        w = SSet(lambda k: under(pairs, lambda: v._mem(k)), None, subst(v._card, pairs) if v._card is not None else None, v.ksort)
        w.birth = v.birth
        w.derived = True
        return w
    if isinstance(v, Arr):
        w = Arr(subst(v.rank, pairs), lambda k: under(pairs, lambda: v._dim(k)), lambda K: under(pairs, lambda: v._val(K)), v.es)
        w.birth = v.birth
        w.derived = True
        return w
    if isinstance(v, Obj) and getattr(v, "sym", None) is not None:
        v = v.sym
    if isinstance(v, SymObj):
        return SymObj(v.cls, z3.substitute(v.ref, *pairs), v.nullable)
    if isinstance(v, tuple(IMMUTABLE)):
        return v
    raise Unsupported(f"a loop builds values of kind {type(v).__name__}")


class SymObj:
    """an object reached through a symbolic reference (see heaplib)"""

    def __init__(self, cls, ref, nullable=False):
        self.cls, self.ref, self.nullable = cls, ref, nullable

    def __repr__(self):
        return f"<{self.cls.name} {self.ref}>"


IMMUTABLE = []
