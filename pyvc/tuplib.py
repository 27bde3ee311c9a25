"""Tuples of integers as dictionary keys, dictionaries of dictionaries, Cartesian products and sums over sparse tables.

Tup      an uninterpreted sort of integer tuples: tlen, tat, extensionality for the tuples marked with tk.
NDict    a dictionary whose values are dictionaries it owns (idom(o, i), iget(o, i)); InnerDict is a view of one of them.
Box      the tuples of a Cartesian product of ranges; Product models itertools.product.
The lemmas of finite sums used here are listed in TRUSTED and in DESIGN.md (ML9-ML12)."""
from . import core
from .core import *  # noqa: F401,F403
from .core import X
from . import lib
from .interp import Builtin, Lib, EXC, StarSeq

F = z3.Function
tk = F("tk", Tup, Bool)
tdiff = F("tdiff", Tup, Tup, Int)
tsub = F("tsub", Tup, Int, Int, Tup)
tcat = F("tcat", Tup, Tup, Tup)


def axioms():
    """facts about tuples; added once per path"""
    if "tup-axioms" in X.memo:
        return
    X.memo["tup-axioms"] = True
    a, b = z3.Consts("ta tb", Tup)
    k, l, n = z3.Ints("tkk tl tn")
    A = X.gforall
    A([a], z3.And(tlen(a) >= 0, tk(a)), tlen(a))
    d = tdiff(a, b)
    A([a, b], z3.Implies(z3.And(tk(a), tk(b)), z3.Or(a == b, tlen(a) != tlen(b), z3.And(0 <= d, d < tlen(a), tat(a, d) != tat(b, d)))), [tk(a), tk(b)])
    A([a, b], z3.And(tk(tcat(a, b)), tlen(tcat(a, b)) == tlen(a) + tlen(b)), tcat(a, b))
    A([a, b, k], z3.And(z3.Implies(z3.And(0 <= k, k < tlen(a)), tat(tcat(a, b), k) == tat(a, k)),
                        z3.Implies(z3.And(tlen(a) <= k, k < tlen(a) + tlen(b)), tat(tcat(a, b), k) == tat(b, k - tlen(a)))), tat(tcat(a, b), k))
    s = tsub(a, l, n)
    A([a, l, n], z3.And(tk(s), z3.Implies(n >= 0, tlen(s) == n)), s)
    A([a, l, n, k], z3.Implies(z3.And(0 <= k, k < n), tat(s, k) == tat(a, l + k)), tat(s, k))


class TupSeq(Seq):
    """the elements of a tuple term"""

    def __init__(self, t):
        self.t = t

    def esort(self):
        return Int

    def length(self):
        return tlen(self.t)

    def get(self, i):
        return tat(self.t, zi(i))


def as_int(v):
    """the integer a list element is known to be"""
    if is_int(v):
        return zi(v)
    if isinstance(v, CondValue):
        ints = [(c, x) for c, x in v.cases if is_int(x)]
        if ints:
            r = zi(ints[-1][1])
            for c, x in reversed(ints[:-1]):
                r = If(c, zi(x), r)
            return r, Or(*[c for c, _ in ints])
    raise Unsupported("a tuple of values other than integers")


def tupterm(v):
    """the term of a tuple value"""
    axioms()
    if isz(v) and v.sort() == Tup:
        return v
    seq = v.seq if isinstance(v, PList) else v
    if isinstance(seq, TupSeq):
        return seq.t
    if isinstance(seq, SubSeq) and isinstance(seq.base, TupSeq):
        return tsub(seq.base.t, zi(seq.lo), zi(seq.n))
    if isinstance(seq, ConcatSeq):
        parts = []
        for s in (seq.a, seq.b):
            parts.append(tupterm(s))
        return tcat(*parts)
    key = ("tup", id(seq), tuple(b.get_id() for b in X.bound))
    if key in X.memo:
        return X.memo[key][0]
    t = X.fresh_fn("tup", [], Tup)()
    X.memo[key] = (t, seq)
    n = zi(seq.length())
    X.assume(tk(t), pats=[[t]])
    X.assume(tlen(t) == n, pats=[[t]])
    its = seq.items()
    if its is not None:
        for j, x in enumerate(its):
            X.assume(tat(t, z3.IntVal(j)) == as_int(x), pats=[[t]])
        return t
    k = z3.Int("k")
    gi, cond = as_int(seq.get(k)), True
    if isinstance(gi, tuple):           # a list element that is an integer under a condition: it must hold everywhere
        gi, cond = gi
        j = X.const("tj", Int)
        X.axis_hints(j)
        if not X.holds(Implies(InR(0, j, n), z3.substitute(cond, (k, j)))):
            raise Unsupported("a tuple of values other than integers")
    X.forall([k], Implies(InR(0, k, n), And(cond, tat(t, k) == gi)), tat(t, k))
    return t


class Box:
    """the integer tuples t of length n with 0 <= t[k] < card(k)"""

    def __init__(self, n, card):
        axioms()
        self.n, self.card = n, card
        self.p = X.fresh_fn("box", [Tup], Bool)
        w = X.fresh_fn("boxw", [Tup], Int)
        t, k = z3.Const("t", Tup), z3.Int("k")
        p = self.p(t)
        X.forall([t], Implies(p, tlen(t) == zi(n)), p)
        X.forall([t, k], Implies(And(p, InR(0, k, n)), InR(0, tat(t, k), card(k))), [p, tat(t, k)])
        X.forall([t], Or(p, tlen(t) != zi(n), And(InR(0, w(t), n), Not(InR(0, tat(t, w(t)), card(w(t)))))), p)

    def has(self, t):
        return self.p(t)


def within(dom, n, card, what, pre=None):
    """oblige: every key is a tuple of the box"""
    t, k = X.const("key", Tup), X.const("kax", Int)
    X.oblige(Implies(dom(t), tlen(t) == zi(n)), what + ": key length")
    X.oblige(Implies(And(dom(t), InR(0, k, n)), InR(0, tat(t, k), card(k))), what + ": key range")


# ------------------------------------------------------------------ dictionaries of dictionaries
class Nest:
    def __init__(self, idom, iget, olen=None, ilen=None):
        self.idom, self.iget, self.olen, self.ilen = idom, iget, olen, ilen


class NDict(SDict):
    def __init__(self, dom, nest):
        super().__init__(dom, None, None, Tup)
        self.nest = nest
        self._get = lambda k: InnerDict(self, k)

    def nest_setitem(self, it, k, v):
        k = tupterm(k)
        if not isinstance(v, SDict) or isinstance(v, (NDict, InnerDict)):
            raise Unsupported("a dictionary of values other than fresh dictionaries")
        if self.effect("nset", k, v):
            return
        v.derived = True                # owned by this dictionary from now on
        old, od = self.nest, self._dom
        if v._conc is not None and not v._conc:
            vd, vg = (lambda i: False), lambda o: (lambda i: old.iget(o, i))
        elif v._conc is not None:
            raise Unsupported("literal inner dictionary")
        else:
            vd, vg = v._dom, lambda o: v._get
        self._dom = lambda q: Or(q == k, od(q))
        self.nest = Nest(lambda o, i: If(o == k, zb(vd(i)), zb(old.idom(o, i))), lambda o, i: merge(o == k, vg(o)(i), old.iget(o, i)))
        self.nest.iget_at = self.iget_at
        self._keys = None

    def iget_at(self, o):
        return lambda i: self.nest.iget(o, i)

    def has(self, o, i):
        return And(self.dom(o), self.nest.idom(o, i))

    def clone(self):
        raise Unsupported("shallow copy of a dictionary of dictionaries")


def make_nested(d, dom, nest):
    """turn the (empty) dictionary object d into a dictionary of dictionaries"""
    d.__class__ = NDict
    d._conc, d.ksort, d._keys, d._dom, d.nest = None, Tup, None, dom, nest
    nest.iget_at = d.iget_at
    d._get = lambda k: InnerDict(d, k)


def make_table(d, dom, get, ksort=None):
    d._conc, d.ksort, d._keys, d._dom, d._get = None, ksort if ksort is not None else Tup, None, dom, get


class InnerDict(SDict):
    """the dictionary stored under one key of an NDict"""

    def __init__(self, parent, key):
        super().__init__(None, None, None, Tup)
        self.birth, self.pre = parent.birth, parent.pre
        self.parent, self.key = parent, key
        self._dom = lambda i: parent.nest.idom(key, i)
        self._get = lambda i: parent.nest.iget(key, i)
        self._kn = None

    @property
    def _keys(self):
        return self._kn[1] if getattr(self, "_kn", None) is not None and self._kn[0] is self.parent.nest else None

    @_keys.setter
    def _keys(self, v):
        self._kn = (self.parent.nest, v) if v is not None else None

    def touch(self):
        if hasattr(self, "parent"):
            self.parent.touch()

    def effect(self, *a):
        raise Unsupported("this change of an inner dictionary")

    def clone(self):
        nest, key = self.parent.nest, self.key
        return SDict(lambda i: nest.idom(key, i), lambda i: nest.iget(key, i), None, Tup)

    def nest_setitem(self, it, k, v):
        p, o, k = self.parent, self.key, tupterm(k)
        if p.effect("nset", o, k, v):
            return
        p.last_inner = getattr(p, "last_inner", []) + [k]
        old = p.nest
        p.nest = Nest(lambda a, b: Or(And(a == o, b == k), old.idom(a, b)), lambda a, b: merge(And(a == o, b == k), v, old.iget(a, b)))
        p.nest.iget_at = p.iget_at


def look(d, t, default):
    """the value a table gives to a key: the stored one or the default"""
    if isinstance(d, SDict) and d._conc is not None and not d._conc:
        return to_xr(default)
    return If(d.dom(t), to_xr(d.get(t)), to_xr(default))


def look2(n, o, i, default):
    return If(And(n.dom(o), n.nest.idom(o, i)), to_xr(n.nest.iget(o, i)), to_xr(default))


def fresh_nested(tag, vsort=XR):
    d, i, g = X.fresh_fn(tag + "_dom", [Tup], Bool), X.fresh_fn(tag + "_idom", [Tup, Tup], Bool), X.fresh_fn(tag + "_iget", [Tup, Tup], vsort)
    N = NDict(lambda o: d(o), Nest(lambda o, t: i(o, t), lambda o, t: g(o, t)))
    N.nest.iget_at = N.iget_at
    N.fns = (d, i, g)
    return N


def fresh_table(tag, vsort=XR):
    d, g = X.fresh_fn(tag + "_dom", [Tup], Bool), X.fresh_fn(tag + "_get", [Tup], vsort)
    D = SDict(lambda t: d(t), lambda t: g(t), None, Tup)
    D.fns = (d, g)
    return D


# ------------------------------------------------------------------ itertools.product
def int_ranges(seq):
    """card(k) when the sequence's elements are all range(c)"""
    k = X.const("pk", Int)
    with X.binding(k):
        e = seq.get(k)
    if not isinstance(e, PList):
        return None
    s = e._seq
    while isinstance(s, SubstSeq):
        s = s.base
    if not isinstance(s, RangeSeq) or not (isinstance(s.lo, int) and s.lo == 0):
        return None

    def card(i):
        with X.binding(k):
            h = seq.get(k)._seq.length()
        return subst(h, [(k, zi(i))])
    return card


def box_product(n, card):
    b = Box(n, card)
    s = BaseSeq("prod", Tup, distinct=True)
    t, i = z3.Const("t", Tup), z3.Int("i")
    X.forall([t], s._mem(t) == b.p(t), s._mem(t), b.p(t))
    X.forall([i], tk(s.at(i)), s.at(i))
    s.box = b
    X.memo.setdefault("prods", []).append(s)
    return s


def product(it, a, k):
    if k:
        raise Unsupported("product options")
    args = list(a)
    if len(args) == 1 and isinstance(args[0], StarSeq):
        card = int_ranges(args[0].seq)
        if card is None:
            raise Unsupported("product of an unknown number of lists")
        r = PList(box_product(args[0].seq.length(), card), "list")
    elif len(args) == 2 and not any(isinstance(x, StarSeq) for x in args):
        s = [lib.iter_seq(it, x) for x in args]
        n = X.fresh("pairs", Int)
        p = [X.fresh_fn("pairi", [Int], Int) for _ in s]
        q = X.fresh_fn("pairq", [Int, Int], Int)
        i, j = z3.Int("i"), z3.Int("j")
        X.assume(n >= 0)
        X.forall([i], Implies(InR(0, i, n), And(q(p[0](i), p[1](i)) == i, *[InR(0, f(i), x.length()) for f, x in zip(p, s)])), p[0](i), p[1](i))
        X.forall([i, j], Implies(And(InR(0, i, s[0].length()), InR(0, j, s[1].length())),
                                 And(InR(0, q(i, j), n), p[0](q(i, j)) == i, p[1](q(i, j)) == j)), q(i, j))
        ts = lib.TupleSeq([FnSeq(n, lambda i, x=x, f=f: x.get(f(zi(i)))) for x, f in zip(s, p)], n)
        ts.pairs = (s, p, q)
        r = PList(ts, "list")
    else:
        raise Unsupported("product of these arguments")
    r.generator = True
    r.consumed = False
    return r


# ------------------------------------------------------------------ counting
COUNT = "finite sets: a set of tuples of a box has at most as many elements as the product of the box's cardinalities, and as many only when it holds all of them"


def count_lemma(mem, c):
    """c is the number of elements of the set of tuples: relate it to every product of cardinalities in sight"""
    axioms()
    X.trusted.add(COUNT)
    decl = c.decl()

    def close(done):
        out, seen = [], set()
        us = {}
        found = False
        for z in X.query_now:
            for u in subterms(z, seen):
                if z3.is_app(u) and not has_var(u):
                    if u.decl().eq(decl):
                        found = True
                    B = X.bigops.get(u.decl().get_id())
                    if B is not None and B.kind == "seqprod" and not B.bound:
                        us[u.get_id()] = (u, B)
        if not found:
            return out
        for u, P in us.values():
            key = ("count", decl.get_id(), u.get_id())
            if key in done:
                continue
            done.add(key)
            n0 = len(X.facts)
            n, card = P.dims(0), lambda k: zi(P.body(lambda q: zi(k)))
            box = Box(n, card)
            w, v, k, t = X.const("cntw", Tup), X.const("cntv", Tup), X.const("cntk", Int), z3.Const("t", Tup)
            m = zb(mem(t))
            pats = [p[0] if len(p) == 1 else z3.MultiPattern(*p) for p in pick_patterns([t], m)]
            full = z3.ForAll([t], z3.Implies(box.p(t), m), patterns=pats + [box.p(t)])
            outside = z3.And(zb(mem(v)), z3.Or(tlen(v) != zi(n), z3.And(0 <= k, k < zi(n), z3.Not(zb(InR(0, tat(v, k), card(k)))))))
            fits = z3.And(c <= u, z3.Or(z3.And(c == u, full), z3.And(c < u, box.p(w), z3.Not(zb(mem(w))))))
            out.append(z3.Or(outside, fits))
            out += [f.z() for f in X.facts[n0:]]
            del X.facts[n0:]
        return out
    close.counts = True
    X.closers.append(close)


# ------------------------------------------------------------------ sums over sparse tables
ML = ("finite sums: the tuples of a box are finitely many, a table with keys in the box holds at most that many entries, and "
      "the log-sum-exp over the box of (stored value or default) is the log-sum-exp of the stored values and of default + log(number of missing entries)")


def install(it):
    it.libs["itertools"] = Lib("itertools", {"product": Builtin("product", product)})
