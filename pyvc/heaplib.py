"""Abstract factors, heap objects with symbolic identity, loop invariants and finite sums.

Fac      immutable abstract factors: terms of an uninterpreted sort.  val(f) is the log of f's value at one fixed but arbitrary
         assignment sigma at which every factor is non-zero; the operations are described by the factor-interface contracts
         (proved for the dense and the Gaussian classes under C01-C17).
SymObj   an object reached through a symbolic reference; its attributes live in field maps (World), so that the real methods of
         the class run on it.
LoopInv  loop invariants supplied by a contract, checked by the usual three obligations (initially, preserved, used after)."""
import ast
from . import core
from .core import *  # noqa: F401,F403
from .core import X
from . import interp as I
from . import lib
from .interp import Builtin, Lib, Opaque, OpaqueStr, Poison, EXC

Ref = z3.DeclareSort("Ref")
Fac = z3.DeclareSort("Fac")
Lst = z3.DeclareSort("Lst")          # immutable lists of names
VLst = z3.DeclareSort("VLst")        # immutable lists of evidence values
Ev = z3.DeclareSort("Ev")            # immutable evidence dictionaries
NULL = z3.Const("null", Ref)
F = z3.Function
fval = F("fval", Fac, Real)
fscope = F("fscope", Fac, Lst)
fmul = F("fmul", Fac, Fac, Fac)
fdiv = F("fdiv", Fac, Fac, Fac)
fcancel = F("fcancel", Fac, Fac, Fac)
fred = F("fred", Fac, Lst, VLst, Fac)
fmarg = F("fmarg", Fac, Lst, Fac)
fmargout = F("fmargout", Fac, Lst, Fac)
fjoint = F("fjoint", Fac, Fac)
fnorm = F("fnorm", Fac, Fac)
fkl = F("fkl", Fac, Fac, Real)
fdv = F("fdv", Fac, Real)
feq = F("feq", Fac, Fac, Bool)
llen = F("llen", Lst, Int)
lat = F("lat", Lst, Int, Name)
lmem = F("lmem", Lst, Name, Bool)
lpos = F("lpos", Lst, Name, Int)
ljoin = F("ljoin", Lst, Name)
vlen = F("vlen", VLst, Int)
vat = F("vat", VLst, Int, Opq)
evdom = F("evdom", Ev, Name, Bool)
evget = F("evget", Ev, Name, Opq)
evkeys = F("evkeys", Ev, Lst)
evvals = F("evvals", Ev, VLst)
agree = F("agree", Lst, VLst, Bool)
agreew = F("agreew", Lst, VLst, Int)
sigma = F("sigma", Name, Opq)
alloc = F("alloc", Ref, Int)
HEAPSORTS = {}


def axioms():
    f, g = z3.Consts("f g", Fac)
    l = z3.Const("l", Lst)
    v = z3.Const("v", VLst)
    e = z3.Const("e", Ev)
    x = z3.Const("x", Name)
    i = z3.Int("i")
    A = X.gforall
    A([l], llen(l) >= 0, llen(l))
    A([l, x], z3.Implies(lmem(l, x), z3.And(0 <= lpos(l, x), lpos(l, x) < llen(l), lat(l, lpos(l, x)) == x)), lmem(l, x), lpos(l, x))
    A([l, i], z3.Implies(z3.And(0 <= i, i < llen(l)), z3.And(lmem(l, lat(l, i)), lpos(l, lat(l, i)) <= i)), lat(l, i))
    A([f, i], z3.Implies(z3.And(0 <= i, i < llen(fscope(f))), lpos(fscope(f), lat(fscope(f), i)) == i), lat(fscope(f), i))
    A([f, g], z3.And(fval(fmul(f, g)) == fval(f) + fval(g)), fmul(f, g))
    A([f, g], z3.And(fval(fdiv(f, g)) == fval(f) - fval(g)), fdiv(f, g))
    A([f, g], z3.And(fval(fcancel(f, g)) == fval(f) - fval(g)), fcancel(f, g))
    for op in (fmul, fdiv, fcancel):
        A([f, g, x], lmem(fscope(op(f, g)), x) == z3.Or(lmem(fscope(f), x), lmem(fscope(g), x)), lmem(fscope(op(f, g)), x))
    A([f, l, v], z3.Implies(agree(l, v), fval(fred(f, l, v)) == fval(f)), fred(f, l, v))
    A([f, l, v, x], lmem(fscope(fred(f, l, v)), x) == z3.And(lmem(fscope(f), x), z3.Not(lmem(l, x))), lmem(fscope(fred(f, l, v)), x))
    w = agreew(l, v)
    A([l, v], z3.Or(agree(l, v), z3.And(0 <= w, w < llen(l), sigma(lat(l, w)) != vat(v, w))), agree(l, v))
    A([l, v, i], z3.Implies(z3.And(agree(l, v), 0 <= i, i < llen(l)), sigma(lat(l, i)) == vat(v, i)), [agree(l, v), lat(l, i)], [agree(l, v), vat(v, i)])
    A([f, l, x], lmem(fscope(fmarg(f, l)), x) == z3.And(lmem(fscope(f), x), lmem(l, x)), lmem(fscope(fmarg(f, l)), x))
    A([f, l, x], lmem(fscope(fmargout(f, l)), x) == z3.And(lmem(fscope(f), x), z3.Not(lmem(l, x))), lmem(fscope(fmargout(f, l)), x))
    A([f], z3.And(fval(fjoint(f)) == fval(f)), fjoint(f))
    A([f, x], lmem(fscope(fjoint(f)), x) == lmem(fscope(f), x), lmem(fscope(fjoint(f)), x))
    A([f, x], lmem(fscope(fnorm(f)), x) == lmem(fscope(f), x), lmem(fscope(fnorm(f)), x))
    A([f], fkl(f, f) == 0, fkl(f, f))
    A([e, x], lmem(evkeys(e), x) == evdom(e, x), lmem(evkeys(e), x), evdom(e, x))
    A([e], vlen(evvals(e)) == llen(evkeys(e)), evvals(e))
    A([e, i], z3.Implies(z3.And(0 <= i, i < llen(evkeys(e))), z3.And(vat(evvals(e), i) == evget(e, lat(evkeys(e), i)), lpos(evkeys(e), lat(evkeys(e), i)) == i)),
      vat(evvals(e), i), lat(evkeys(e), i))
    X.closers.append(ext_closer)


def ext_closer(done):
    """extensionality of immutable lists, for the ground list terms that occur in the facts"""
    out = []
    ts = {}
    seen = set()
    for z in X.query_now:
        for u in subterms(z, seen):
            if z3.is_app(u) and u.sort() in (Lst, VLst) and u.num_args() == 0 and u.decl().name().startswith("lst!") and not has_var(u):
                ts[u.get_id()] = u
    for a, b in itertools.combinations(sorted(ts.values(), key=lambda t: t.get_id()), 2):
        k = ("ext", a.get_id(), b.get_id())
        if a.sort() != b.sort() or k in done:
            continue
        done.add(k)
        d = X.const("extd", Int)
        L, AT = (llen, lat) if a.sort() == Lst else (vlen, vat)
        out.append(z3.Or(a == b, L(a) != L(b), z3.And(0 <= d, d < L(a), AT(a, d) != AT(b, d))))
    return out


class LSeq(Seq):
    """an immutable list term"""

    def __init__(self, term):
        self.term = term
        self.n = term.sort() == Lst
        self.is_distinct = self.n and z3.is_app(term) and term.decl().name() in ("fscope", "evkeys")

    def esort(self):
        return Name if self.n else Opq

    def length(self):
        return llen(self.term) if self.n else vlen(self.term)

    def get(self, i):
        return lat(self.term, zi(i)) if self.n else vat(self.term, zi(i))

    def mem(self, v):
        if not self.n:
            return super().mem(v)
        return lmem(self.term, self._key(v)) if is_name(v) else False

    def pos(self, v):
        if not self.n:
            return super().pos(v)
        return lpos(self.term, self._key(v))

    def distinct_goal(self):
        return True if self.is_distinct else super().distinct_goal()


def listterm(seq, sort=Lst):
    """the term of a list value"""
    if isinstance(seq, PList):
        seq = seq.seq
    if isinstance(seq, LSeq) and seq.term.sort() == sort:
        return seq.term
    key = ("lst", id(seq), tuple(b.get_id() for b in X.bound))
    if key in X.memo:
        return X.memo[key][0]
    t = X.fresh_fn("lst", [], sort)()
    X.memo[key] = (t, seq)
    L, AT = (llen, lat) if sort == Lst else (vlen, vat)
    n = seq.length()
    X.assume(L(t) == zi(n))
    its = seq.items()
    cv = (lambda v: X.name_const(v) if isinstance(v, str) else v) if sort == Lst else lib.to_opq
    if its is not None:
        for k, v in enumerate(its):
            X.assume(AT(t, z3.IntVal(k)) == cv(v))
        if sort == Lst:
            x = z3.Const("x", Name)
            X.forall([x], lmem(t, x) == zb(Or(*[eq(v, x) for v in its])), lmem(t, x))
        return t
    i = z3.Int("i")
    gi = seq.get(i)
    X.forall([i], Implies(InR(0, i, n), AT(t, i) == cv(gi)), AT(t, i), *[p for p in pick_patterns([i], cv(gi)) if len(p) == 1])
    if sort == Lst:
        x = z3.Const("x", Name)
        m = seq.mem(x)
        X.forall([x], Iff(lmem(t, x), m), lmem(t, x), *([p for p in pick_patterns([x], m)] if isz(m) else []))
    return t


class EvDict(SDict):
    """an immutable evidence dictionary given by a term"""

    def __init__(self, term):
        self.term = term
        super().__init__(lambda k: evdom(term, k), lambda k: evget(term, k), LSeq(evkeys(term)), Name)
        self.values_seq = LSeq(evvals(term))

    def effect(self, *a):
        raise Unsupported("a change of an evidence dictionary held by an object")

    def clone(self):
        return EvDict(self.term)


def evterm(d):
    """the term of a dictionary of evidence"""
    if isinstance(d, EvDict):
        return d.term
    key = ("ev", id(d), tuple(b.get_id() for b in X.bound))
    if key in X.memo:
        return X.memo[key][0]
    t = X.fresh_fn("ev", [], Ev)()
    X.memo[key] = (t, d)
    x = z3.Const("x", Name)
    dm = d.dom(x)
    if d._conc is not None and not d._conc:
        X.forall([x], z3.Not(evdom(t, x)), evdom(t, x))
        return t
    X.forall([x], Iff(evdom(t, x), dm), evdom(t, x), *([p for p in pick_patterns([x], dm)] if isz(dm) else []))
    X.forall([x], Implies(dm, evget(t, x) == lib.to_opq(d.get(x))), evget(t, x))
    return t


# ------------------------------------------------------------------ abstract factors
def fac_attr(it, f, name):
    def m(fn):
        return Builtin("Factor." + name, fn)

    def args(names, a, k, n=None):
        out = list(a)
        for nm in names[len(a):]:
            if nm in k:
                out.append(k[nm])
        if len(out) < (len(names) if n is None else n):
            raise PyRaise(EXC["TypeError"], f"arguments of {name}")
        return out

    def other(v):
        v = to_term(v, FacK)
        return v
    if name == "var_names":
        return PList(LSeq(fscope(f)), "list")
    if name == "joint_distribution":
        return fjoint(f)
    if name == "copy":
        return m(lambda i, a, k: f)
    if name in ("multiply", "absorb"):
        return m(lambda i, a, k: fmul(f, other(args(["factor"], a, k)[0])))
    if name == "divide":
        return m(lambda i, a, k: fdiv(f, other(args(["factor"], a, k)[0])))
    if name == "cancel":
        return m(lambda i, a, k: fcancel(f, other(args(["factor"], a, k)[0])))
    if name in ("reduce", "observe"):
        def red(i, a, k):
            vrs, vals = args(["vrs", "values"], a, k)
            return fred(f, listterm(vrs), listterm(vals, VLst))
        return m(red)
    if name == "marginalize":
        def marg(i, a, k):
            kw = dict(k)
            keep = kw.pop("keep", a[1] if len(a) > 1 else True)
            vrs = args(["vrs"], a[:1], kw)[0]
            if not isinstance(keep, bool):
                raise Unsupported("keep")
            if is_name(vrs):
                vrs = PList(CSeq([vrs]))
            return fmarg(f, listterm(vrs)) if keep else fmargout(f, listterm(vrs))
        return m(marg)
    if name == "normalize":
        return m(lambda i, a, k: fnorm(f))
    if name == "kl_divergence":
        return m(lambda i, a, k: fkl(f, other(a[0])) if len(a) == 1 and not k else _u("kl options"))
    if name == "distance_from_vacuous":
        return m(lambda i, a, k: fdv(f))
    if name == "equals":
        return m(lambda i, a, k: feq(f, other(a[0])))
    if name == "__repr__":
        return m(lambda i, a, k: OpaqueStr())
    raise Unsupported(f"abstract factor attribute {name}")


def _u(w):
    raise Unsupported(w)


# ------------------------------------------------------------------ kinds of attribute values
class Kind:
    def __init__(self, name, sort, wrap, unwrap):
        self.name, self.sort, self.wrap, self.unwrap = name, sort, wrap, unwrap


def _expect(sort):
    def f(v):
        if isz(v) and v.sort() == sort:
            return v
        raise Unsupported(f"a value of kind {type(v).__name__} where {sort} is expected")
    return f


FacK = Kind("Fac", Fac, lambda t: t, _expect(Fac))
NameK = Kind("Name", Name, lambda t: t, lambda v: X.name_const(v) if isinstance(v, str) else _expect(Name)(v))
RealK = Kind("Real", Real, lambda t: t, lambda v: to_real(v))
IntK = Kind("Int", Int, lambda t: t, lambda v: zi(v) if is_int(v) else _expect(Int)(v))
LstK = Kind("Lst", Lst, lambda t: PList(LSeq(t), "list"), lambda v: listterm(v))
EvK = Kind("Ev", Ev, lambda t: EvDict(t), lambda v: evterm(v))


def RefK(cls, nullable=False):
    return Kind("Ref", Ref, lambda t: SymObj(cls, t, nullable), lambda v: reify(v, cls))


def to_term(v, kind):
    return kind.unwrap(v)


def reify(v, cls):
    """the reference of an object; an object created by the code under verification gets a new one"""
    if v is None:
        return NULL
    if isinstance(v, Obj) and getattr(v, "sym", None) is not None:
        v = v.sym
    if isinstance(v, SymObj):
        if v.cls is not cls:
            raise Unsupported(f"{v.cls.name} where {cls.name} is expected")
        return v.ref
    if isinstance(v, Obj) and v.cls is cls:
        W = X.world
        k = W.clock = W.clock + 1
        r = X.fresh_fn("new", [], Ref)()
        bs = list(X.bound)
        t = X.tick()
        idx = [z3.Function(f"newix!{t}!{j}", Ref, Int) for j in range(len(bs))]
        X.assume(And(alloc(r) == k, r != NULL, *[ix(r) == b for ix, b in zip(idx, bs)]))
        sub = lambda s: [(b, ix(s)) for b, ix in zip(bs, idx)]  # noqa: E731
        isnew = (lambda s: alloc(s) == k) if bs else (lambda s: s == r)  # noqa: E731
        for (c, a), fs in W.fields.items():
            if c == cls.name and a in v.attrs:
                W.written.add((c, a))
                fs.init(r, isnew, sub, v.attrs[a])
        v.sym = SymObj(cls, r)
        return r
    raise Unsupported(f"{type(v).__name__} where {cls.name} is expected")


# ------------------------------------------------------------------ fields
def wsub(v, pairs):
    return z3.substitute(v, *pairs) if pairs and isz(v) else v


class ValField:
    def __init__(self, name, kind, get):
        self.name, self.kind, self.get = name, kind, get

    def read(self, r):
        return self.kind.wrap(self.get(r))

    def write(self, r, v):
        t, old = self.kind.unwrap(v), self.get
        self.get = lambda s: If(s == r, t, old(s))

    def init(self, r, isnew, sub, v):
        t, old = self.kind.unwrap(v), self.get
        self.get = lambda s: If(isnew(s), wsub(t, sub(s)), old(s))

    def snap(self):
        return (self.get,)

    def restore(self, s):
        (self.get,) = s

    def fresh(self, tag):
        f = X.fresh_fn(tag, [Ref], self.kind.sort)
        self.get = lambda s: f(s)
        return f


class DictField:
    """name-keyed dictionaries owned by their object"""

    def __init__(self, name, kind, dom, get, ksort=Name):
        self.name, self.kind, self.dom, self.get, self.ksort = name, kind, dom, get, ksort
        self.version = 0

    def read(self, r):
        return DictView(self, r)

    def write(self, r, v):
        self.init(r, lambda s: s == r, lambda s: [], v)

    def init(self, r, isnew, sub, v):
        if isinstance(v, DictView):
            raise Unsupported("two objects sharing a dictionary")
        self.version += 1
        od, og = self.dom, self.get
        if v._conc is not None and not v._conc:
            self.dom = lambda s, k: And(Not(isnew(s)), od(s, k))
            return
        vd = lambda k: v._dom(k) if v._conc is None else Or(*[eq(a, k) for a, _ in v._conc])  # noqa: E731
        vg = lambda k: self.kind.unwrap(v.get(k))  # noqa: E731
        self.dom = lambda s, k: If(isnew(s), wsub(zb(vd(k)), sub(s)), od(s, k))
        self.get = lambda s, k: If(isnew(s), wsub(vg(k), sub(s)), og(s, k))

    def snap(self):
        return (self.dom, self.get)

    def restore(self, s):
        self.dom, self.get = s
        self.version += 1

    def fresh(self, tag):
        d = X.fresh_fn(tag + "_dom", [Ref, self.ksort], Bool)
        g = X.fresh_fn(tag + "_get", [Ref, self.ksort], self.kind.sort)
        self.dom, self.get = (lambda s, k: d(s, k)), (lambda s, k: g(s, k))
        self.version += 1
        return d, g


class ListField:
    """lists owned by their object"""

    def __init__(self, name, kind, length, at):
        self.name, self.kind, self.len, self.at = name, kind, length, at
        self.version = 0

    def read(self, r):
        return ListView(self, r)

    def write(self, r, v):
        self.init(r, lambda s: s == r, lambda s: [], v)

    def init(self, r, isnew, sub, v):
        if isinstance(v, ListView):
            raise Unsupported("two objects sharing a list")
        self.version += 1
        self.set_seq(isnew, sub, v._seq)

    def set_seq(self, isnew, sub, seq):
        ol, oa = self.len, self.at
        n = seq.length()
        its = seq.items()
        if its is not None:
            ts = [self.kind.unwrap(x) for x in its]

            def at(s, i):
                v = oa(s, i)
                for k in range(len(ts) - 1, -1, -1):
                    v = If(And(isnew(s), i == k), wsub(ts[k], sub(s)), v)
                return v
            self.at = at
        else:
            self.at = lambda s, i: If(isnew(s), wsub(self.kind.unwrap(seq.get(i)), sub(s)), oa(s, i))
        self.len = lambda s: If(isnew(s), wsub(zi(n), sub(s)), ol(s))

    def append(self, r, v):
        t = self.kind.unwrap(v)
        ol, oa = self.len, self.at
        n = ol(r)
        self.at = lambda s, i: If(And(s == r, i == n), t, oa(s, i))
        self.len = lambda s: If(s == r, n + 1, ol(s))

    def snap(self):
        return (self.len, self.at)

    def restore(self, s):
        self.len, self.at = s
        self.version += 1

    def fresh(self, tag):
        n = X.fresh_fn(tag + "_len", [Ref], Int)
        a = X.fresh_fn(tag + "_at", [Ref, Int], self.kind.sort)
        r = z3.Const("r", Ref)
        X.forall([r], n(r) >= 0, n(r))
        self.len, self.at = (lambda s: n(s)), (lambda s, i: a(s, i))
        self.version += 1
        return n, a


class DictView(SDict):
    def __init__(self, field, ref):
        self.field, self.ref, self.ver = field, ref, field.version
        Heap.__init__(self)
        self.ksort, self._conc = field.ksort, None
        self._kk = None

    def _chk(self):
        if self.ver != self.field.version:
            raise Unsupported("a dictionary kept across its replacement")

    @property
    def _dom(self):
        self._chk()
        d, r = self.field.dom, self.ref
        return lambda k: d(r, k)

    @_dom.setter
    def _dom(self, fn):
        self._chk()
        X.world.write_log(self.field)
        d, r = self.field.dom, self.ref
        self.field.dom = lambda s, k: If(s == r, zb(fn(k)), d(s, k))

    @property
    def _get(self):
        self._chk()
        g, r, kind = self.field.get, self.ref, self.field.kind
        return lambda k: kind.wrap(g(r, k))

    @_get.setter
    def _get(self, fn):
        self._chk()
        X.world.write_log(self.field)
        g, r, kind = self.field.get, self.ref, self.field.kind
        self.field.get = lambda s, k: If(s == r, kind.unwrap(fn(k)), g(s, k))

    @property
    def _keys(self):
        return None

    @_keys.setter
    def _keys(self, v):
        pass

    def touch(self):
        pass

    def effect(self, *a):
        if X.loops:
            raise Unsupported("a loop without invariant changes a dictionary held by an object")
        if a[0] == "set":           # one update of both maps
            k, v = a[1], a[2]
            self._chk()
            X.world.write_log(self.field)
            t = self.field.kind.unwrap(v)
            d, g, r = self.field.dom, self.field.get, self.ref
            self.field.dom = lambda s, q: Or(And(s == r, eq(q, k)), d(s, q))
            self.field.get = lambda s, q: If(And(s == r, eq(q, k)), t, g(s, q))
            return True
        return False

    def clone(self):
        d, g = self._dom, self._get
        return SDict(d, g, None, self.ksort)


class ViewSeq(Seq):
    def __init__(self, n, at, kind):
        self.n, self.at, self.kind = n, at, kind

    def length(self):
        return self.n

    def get(self, i):
        return self.kind.wrap(self.at(zi(i)))


class ListView(PList):
    def __init__(self, field, ref):
        self.field, self.ref, self.ver = field, ref, field.version
        Heap.__init__(self)
        self.kind = "list"

    def _chk(self):
        if self.ver != self.field.version:
            raise Unsupported("a list kept across its replacement")

    @property
    def _seq(self):
        self._chk()
        l, a, r = self.field.len, self.field.at, self.ref
        return ViewSeq(l(r), lambda i: a(r, i), self.field.kind)

    @_seq.setter
    def _seq(self, s):
        self._chk()
        X.world.write_log(self.field)
        r = self.ref
        self.field.set_seq(lambda q: q == r, lambda q: [], s)

    def touch(self):
        pass

    def effect(self, *a):
        if X.loops:
            raise Unsupported("a loop without invariant changes a list held by an object")
        if a[0] == "append":
            self._chk()
            X.world.write_log(self.field)
            self.field.append(self.ref, a[1])
            return True
        return False


class World:
    def __init__(self):
        self.fields, self.written = {}, set()
        self.clock = z3.IntVal(0)        # allocation time: existing objects have alloc <= clock

    def tick(self):
        """an unknown number of objects has been created meanwhile"""
        c = X.const("clock", Int)
        X.assume(c >= self.clock)
        self.clock = c

    def val(self, cls, attr, kind):
        f = X.fresh_fn(f"{cls}.{attr}", [Ref], kind.sort)
        self.fields[(cls, attr)] = ValField(f"{cls}.{attr}", kind, lambda s: f(s))
        if kind.sort == Ref:
            r = z3.Const("r", Ref)
            X.forall([r], alloc(f(r)) <= 0, f(r))
        self.fields[(cls, attr)].key = (cls, attr)
        return f

    def dict(self, cls, attr, kind):
        fd = DictField(f"{cls}.{attr}", kind, None, None)
        fd.key = (cls, attr)
        self.fields[(cls, attr)] = fd
        return fd.fresh(f"{cls}.{attr}")

    def list(self, cls, attr, kind):
        fd = ListField(f"{cls}.{attr}", kind, None, None)
        fd.key = (cls, attr)
        self.fields[(cls, attr)] = fd
        n, a = fd.fresh(f"{cls}.{attr}")
        if kind.sort == Ref:
            r, i = z3.Const("r", Ref), z3.Int("i")
            X.forall([r, i], alloc(a(r, i)) <= 0, a(r, i))
        return n, a

    def write_log(self, field):
        self.written.add(field.key)

    def f(self, cls, attr):
        return self.fields[(cls, attr)]

    def snap(self):
        return {k: f.snap() for k, f in self.fields.items()}

    def getattr(self, it, o, name):
        fs = self.fields.get((o.cls.name, name))
        if fs is not None:
            if o.nullable:
                X.require(o.ref != NULL, EXC["AttributeError"], name)
            return fs.read(o.ref)
        if name == "__class__":
            return o.cls
        c, m = o.cls.find(name)
        if m is None:
            raise Unsupported(f"attribute {o.cls.name}.{name}")
        if o.nullable:
            X.require(o.ref != NULL, EXC["AttributeError"], name)
            o = SymObj(o.cls, o.ref)
        return it.bind_member(m, o, o.cls)

    def setattr(self, it, o, name, v):
        c, m = o.cls.find(name + ".setter")
        if m is not None:
            it.call_func(m, [o, v], {})
            return
        fs = self.fields.get((o.cls.name, name))
        if fs is None:
            raise Unsupported(f"attribute {o.cls.name}.{name}")
        if X.loops:
            raise Unsupported("a loop without invariant changes an object")
        self.written.add((o.cls.name, name))
        fs.write(o.ref, v)


# ------------------------------------------------------------------ finite sums
class Sums:
    """sum of body(k) for lo <= k < hi, as a term.  Any two sums are related by the point-update lemma (two sums over functions
    that differ in at most one position differ by the difference there; functions are zero outside their range); a sum over
    an increasing enumeration of {i : p(i)} is the sum of the terms with p(i) (lemma of finite sums)."""

    def __init__(self):
        self.all = []
        X.closers.append(self.close)

    def sum(self, n, body, label="sum", lo=0, companion=True):
        if X.bound:
            raise Unsupported("a sum under a bound variable")
        t = X.const(label, Real)
        hi = z3.simplify(zi(lo) + zi(n)) if not (isinstance(lo, int) and lo == 0) else zi(n)
        self.all.append((t, zi(lo), hi, body))
        X.assume(Implies(zi(n) <= 0, t == 0))
        if companion:
            self.filtered(n, body, lo)
        return t

    def over(self, seq, f, label="sum"):
        """sum of f over a list; a concatenation splits (lemma of finite sums)"""
        its = seq.items()
        if its is not None:
            ts = [f(v) for v in its]
            return z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)
        if isinstance(seq, ConcatSeq):
            return self.over(seq.a, f, label) + self.over(seq.b, f, label)
        key = ("sumover", id(seq), label)
        if key not in X.memo:
            X.memo[key] = (self.sum(seq.length(), lambda k: f(seq.get(k)), label), seq)
        return X.memo[key][0]

    def filtered(self, n, body, lo):
        k = z3.Int("fk")
        b = body(k)
        for en in X.enums:
            s = en.sel(k)
            v = X.const("fi", Int)
            b2 = z3.substitute(b, (s, v))
            if occurs(k, b2) or b2.eq(b):
                continue
            p = lambda i: zb(en.p(i))  # noqa: E731
            h = lambda i: z3.substitute(b2, (v, zi(i)))  # noqa: E731
            tf = self.sum(en.cnt, body, "sumF", companion=False)
            ti = self.sum(en.n, lambda i: z3.If(p(i), h(i), z3.RealVal(0)), "sumI", companion=False)
            X.assume(tf == ti)
            return

    def close(self, done):
        out = []
        used = set()
        seen = set()
        for z in X.query_now:
            for u in subterms(z, seen):
                used.add(u.get_id())
        S = [s for s in self.all if s[0].get_id() in used]
        for t, l, n, b in S:      # a sum that is not zero has a term that is not zero
            k = ("sum0", t.get_id())
            if k not in done:
                done.add(k)
                d = X.const("sumz", Int)
                n0 = len(X.facts)
                out.append(z3.Or(t == 0, z3.And(l <= d, d < n, b(d) != 0)))
                out += [f.z() for f in X.facts[n0:]]
        for (t1, l1, n1, b1), (t2, l2, n2, b2) in itertools.combinations(S, 2):
            k = ("sum", t1.get_id(), t2.get_id())
            if k in done:
                continue
            done.add(k)
            d, e = X.const("sumd", Int), X.const("sume", Int)
            n0 = len(X.facts)
            g1 = lambda i: z3.If(z3.And(l1 <= i, i < n1), b1(i), z3.RealVal(0))  # noqa: E731
            g2 = lambda i: z3.If(z3.And(l2 <= i, i < n2), b2(i), z3.RealVal(0))  # noqa: E731
            # d is a position at which the terms differ, if there is one; either it is the only one, or e is another
            out.append(z3.Or(t1 - t2 == g1(d) - g2(d), z3.And(d != e, g1(d) != g2(d), g1(e) != g2(e))))
            kk = z3.Int("sumk")
            pats = pick_patterns([kk], z3.And(b1(kk) == 0, b2(kk) == 0))
            pats = [p[0] if len(p) == 1 else z3.MultiPattern(*p) for p in pats]
            body = z3.Implies(g1(kk) != g2(kk), g1(d) != g2(d))
            out.append(z3.ForAll([kk], body, patterns=pats) if pats else z3.ForAll([kk], body))
            out += [f.z() for f in X.facts[n0:]]
        return out


def fac_accumulator(it, a, v0, c, norm, vals, seq, i0, n):
    """p = p.multiply(f(i)) over a loop: the value is the product, the scope the union"""
    if getattr(X, "sums", None) is None or X.bound:
        return Poison(f"{a} is accumulated by a loop")

    def contrib(v):
        if v.eq(c):
            return [], []
        nm = v.decl().name() if z3.is_app(v) else ""
        if nm in ("fmul", "fdiv", "fcancel"):
            x, y = v.children()
            if nm == "fmul" and occurs(c, y) and not occurs(c, x):
                x, y = y, x
            if occurs(c, x) and not occurs(c, y):
                ts, sc = contrib(x)
                return ts + [fval(y) if nm == "fmul" else -fval(y)], sc + [y]
        raise Unsupported("not a product")
    try:
        cs = [(lib.run_guard(r), contrib(v)) for r, v in zip(norm, vals)]
    except Unsupported:
        return Poison(f"{a} is accumulated by a loop in a way that is not summarised")
    delta = z3.RealVal(0)
    memb = []
    for g, (ts, sc) in cs:
        delta = If(g, z3.Sum(*ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0), delta)
        memb += [(g, f) for f in sc]
    lo, s = 0, seq
    while isinstance(s, SubSeq):
        lo, s = lo + s.lo, s.base
    body = lambda k: z3.substitute(zb(delta) if isinstance(delta, bool) else delta, (i0, z3.simplify(zi(k) - lo) if not (isinstance(lo, int) and lo == 0) else zi(k)))  # noqa: E731
    bodys = lambda k: z3.simplify(body(k))  # noqa: E731
    p = X.const("prod", Fac)
    X.assume(fval(p) == fval(v0) + X.sums.sum(n, bodys, "sumL", lo))
    x, i = z3.Const("x", Name), z3.Int("i")
    w = X.fresh_fn("scw", [Name], Int)
    M = lambda k: Or(*[And(subst(g, [(i0, k)]) if isz(g) else g, lmem(fscope(z3.substitute(f, (i0, k))), x)) for g, f in memb])  # noqa: E731
    X.forall([x], Implies(lmem(fscope(p), x), Or(lmem(fscope(v0), x), And(InR(0, w(x), n), M(w(x))))), lmem(fscope(p), x))
    X.forall([x], Implies(lmem(fscope(v0), x), lmem(fscope(p), x)), lmem(fscope(v0), x))
    X.forall([x, i], Implies(And(InR(0, i, n), M(i)), lmem(fscope(p), x)))
    return p


# ------------------------------------------------------------------ loop invariants
class LoopInv:
    """havoc(it, env, i): make everything the loop changes arbitrary; clauses(c, it, env, i): the invariant after i iterations"""

    def __init__(self, label, havoc, clauses, after_body=None, loops=1):
        """loops: the number of loops of the function the invariant was written for; other code gets no invariant"""
        self.label, self.havoc, self.clauses, self.after_body, self.loops = label, havoc, clauses, after_body, loops


class Clauses:
    def __init__(self, mode, label):
        self.mode, self.label = mode, label

    def add(self, what, goal):
        if self.mode == "assume":
            X.assume(goal)
        else:
            X.oblige(goal, f"{self.label}: {what}")

    def forall(self, what, sorts, fn, pats=None):
        if self.mode == "assume":
            vs = [z3.Const(f"q{k}", s) for k, s in enumerate(sorts)]
            X.forall(vs, fn(*vs), *(pats(*vs) if pats else []))
        else:
            vs = [X.const(f"q{k}", s) for k, s in enumerate(sorts)]
            X.oblige(fn(*vs), f"{self.label}: {what}")


def loop_key(env, st):
    e = env
    while e is not None and not hasattr(e, "func"):
        e = e.parent
    if e is None:
        return None
    f = e.func
    fors = sorted((n for n in ast.walk(f.node) if isinstance(n, (ast.For, ast.While))), key=lambda n: (n.lineno, n.col_offset))
    for k, n in enumerate(fors):
        if n is st:
            return (f.qual, k, len(fors))
    return None


def run_inv(it, inv, st, seq, env, assigned):
    """for target in seq: body, by invariant"""
    if X.loops or X.bound:
        raise Unsupported("an invariant loop inside a summarised loop")
    n = seq.length()
    inv.seq = seq
    inv.clauses(Clauses("check", f"{inv.label} holds initially"), it, env, z3.IntVal(0))
    pre = dict(env.vars)
    W = X.world
    start = X.seq_no
    X.seq_no += 1
    i = X.const("it", Int)
    which = X.choose(2)
    snap0 = {k: f.snap() for k, f in W.fields.items()} if W else {}
    hav = inv.havoc(it, env, i if which == 0 else n)
    for a in assigned:
        if a in env.vars and env.vars[a] is pre.get(a) and not isinstance(env.vars[a], PList):
            env.vars[a] = Poison(f"{a} is changed by a loop and not described by its invariant")
    havset = {id(o) for o in (hav or [])}
    hfields = {k for k, f in W.fields.items() if any(x is not y for x, y in zip(f.snap(), snap0[k]))} if W else set()
    if which == 1:
        inv.clauses(Clauses("assume", inv.label), it, env, zi(n))
        X.assume(zi(n) >= 0)
        return
    X.assume(InR(0, i, n))
    inv.clauses(Clauses("assume", inv.label), it, env, i)
    X.canary(f"{inv.label}: the invariant")
    written0 = set(W.written) if W else set()
    if W:
        W.written = set()
    old_log, X.mutlog = X.mutlog, []
    kept = {a: env.vars.get(a) for a in pre if a not in assigned}
    ghost = inv.before_body(it, env, i) if hasattr(inv, "before_body") else None
    it.assign(st.target, seq.get(i), env)
    kind = "normal"
    X.inv_starts = X.inv_starts + [start]
    try:
        it.exec_block(st.body, env)
    except FlowSignal as s:
        if s.kind == "return":
            X.mutlog = old_log
            raise
        kind = s.kind
    except PyRaise:
        X.mutlog = old_log
        raise
    X.inv_starts = X.inv_starts[:-1]
    log, X.mutlog = X.mutlog, old_log
    for o in log:
        if o.birth <= start and id(o) not in havset and not getattr(o, "scrambled", False):
            raise Unsupported(f"{inv.label}: the loop changes a {type(o).__name__} the invariant does not describe")
    if W:
        extra = {k for k in W.written if k not in hfields}
        W.written |= written0
        if extra:
            raise Unsupported(f"{inv.label}: the loop changes {sorted(extra)}, which the invariant does not describe")
    if kind == "break":
        return
    if inv.after_body:
        inv.after_body(it, env, i)
    inv.clauses(Clauses("check", f"{inv.label} is preserved"), it, env, i + 1)
    raise Infeasible()


def perm_sorted(it, a, k):
    """sorted(list, key=..., reverse=...): a permutation of the list, ordered by the key"""
    seq = lib.iter_seq(it, a[0])
    rev = k.get("reverse", False)
    kf = k.get("key")
    if not isinstance(rev, bool) or set(k) - {"key", "reverse"}:
        raise Unsupported("sorted options")
    n = seq.length()
    p = X.fresh_fn("perm", [Int], Int)
    q = X.fresh_fn("permi", [Int], Int)
    i, j = z3.Int("i"), z3.Int("j")
    X.forall([i], Implies(InR(0, i, n), And(InR(0, p(i), n), q(p(i)) == i)), p(i))
    X.forall([i], Implies(InR(0, i, n), And(InR(0, q(i), n), p(q(i)) == i)), q(i))
    s0 = X.const("sk", Int)
    with X.binding(s0):
        e = seq.get(s0)
        t = it.call(kf, [e]) if kf is not None else e
    if not is_num(t):
        raise Unsupported("sorting by a key that is not a number")
    ky = lambda s: z3.substitute(t, (s0, s)) if isz(t) else t  # noqa: E731
    cmp = "GtE" if rev else "LtE"
    X.forall([i, j], Implies(And(0 <= i, i <= j, j < zi(n)), lib.num_cmp(cmp, ky(p(i)), ky(p(j)))), [p(i), p(j)])
    ends = lib.num_cmp(cmp, ky(p(z3.IntVal(0))), ky(i))          # the first element of the sorted list is extremal
    pats = [q for q in pick_patterns([i], ky(i)) if len(q) == 1] if isz(ky(i)) else []
    X.forall([i], Implies(InR(0, i, n), And(ends, InR(0, q(i), n), p(q(i)) == i)), *pats)
    X.hint(p(z3.IntVal(0)))
    return PList(PermSeq(seq, p, q), "list")


class PermSeq(Seq):
    def __init__(self, base, p, q):
        self.base, self.p, self.q = base, p, q

    def esort(self):
        return self.base.esort()

    def length(self):
        return self.base.length()

    def get(self, i):
        return self.base.get(self.p(zi(i)))

    def mem(self, v):
        return self.base.mem(v)

    def pos(self, v):
        return self.q(zi(self.base.pos(v)))


class ObjSeq(Seq):
    """a list of objects given by a sequence of references"""

    def __init__(self, base, cls):
        self.base, self.cls = base, cls

    def length(self):
        return self.base.length()

    def get(self, i):
        return SymObj(self.cls, self.base.get(i))

    def mem(self, v):
        return self.base.mem(reify(v, self.cls))

    def pos(self, v):
        return self.base.pos(reify(v, self.cls))


# ------------------------------------------------------------------ names built by formatting
name_int = F("name_int", Int, Name)


def install(it):
    it.loop_invs = {}
    it.sort_attrs = {"Fac": fac_attr}
    it.libs["tqdm.auto"] = Lib("tqdm.auto", {"tqdm": Builtin("tqdm", lambda i, a, k: a[0])})
    it.libs["tqdm"] = it.libs["tqdm.auto"]
    it.libs["collections"] = Lib("collections", {"deque": Builtin("deque", lambda i, a, k: PList(lib.iter_seq(i, a[0]) if a else CSeq([]), "list"))})
    it.libs["uuid"] = Lib("uuid", {n: Builtin(n, lambda i, a, k: OpaqueStr()) for n in ("uuid1", "uuid4")})
    it.libs["graphviz"] = Lib("graphviz", {"Graph": Builtin("Graph", lambda i, a, k: Opaque("graphviz")), "Source": Builtin("Source", lambda i, a, k: Opaque("graphviz"))})
