"""Matrix algebra over the reals: a free (noncommutative) normal form for products, sums, transposes, inverses and index
selections, used to give entries of matrix expressions canonical names.  The rules used here are the trusted lemmas
ML1-ML7 listed in DESIGN.md (associativity/distributivity/transposition, cancellation with an inverse, selection matrices,
block inversion of a symmetric positive definite matrix, determinants, closure of positive definiteness, Cholesky)."""
import itertools
import math
from fractions import Fraction
import z3
from .core import *  # noqa: F401,F403
from .core import X, rlog, Arr, Unsupported, PyRaise, FnSeq, InR
from . import lib

I0, J0, K0 = z3.Int("mat!i"), z3.Int("mat!j"), z3.Int("mat!k")


def simp(t):
    return z3.simplify(t) if isz(t) else t


def dimeq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    a, b = simp(zi(a)), simp(zi(b))
    if a.eq(b):
        return True
    return X.holds(a == b)


class Mat:
    """a matrix symbol; fn(i, j) are its entries"""

    def __init__(self, lib_, name, rows, cols, fn=None, sym=False, pd=False):
        self.id = len(lib_.mats)
        self.name, self.rows, self.cols, self.sym, self.pd = name, rows, cols, sym, pd
        self.fn = fn if fn is not None else X.global_decl("mat_" + name, [Int, Int], Real)
        self.inv = None         # the Mat of its inverse
        self.inv_of = None      # normal form it inverts
        self.chol_of = None
        lib_.mats.append(self)
        lib_.by_decl[self.fn.get_id()] = self
        if sym:
            X.gforall([I0, J0], self.fn(I0, J0) == self.fn(J0, I0), self.fn(I0, J0))


class IMap:
    """an index map [0,m) -> [0,n), as the 0/1 matrix S with S[i, x(i)] = 1"""

    def __init__(self, lib_, m, n, x):
        self.id = len(lib_.maps)
        self.m, self.n, self.x = m, n, x
        self.at = lambda i: z3.substitute(x, (I0, zi(i)))
        self.flags = {}
        lib_.maps.append(self)


class NF:
    """rows x cols linear combination {word: coefficient}"""

    def __init__(self, rows, cols, terms):
        self.rows, self.cols = rows, cols
        self.t = {w: c for w, c in terms.items() if not (isinstance(c, (int, Fraction)) and c == 0)}

    def key(self):
        return tuple(sorted((w, str(c)) for w, c in self.t.items()))


def cadd(a, b):
    if isz(a) or isz(b):
        return z3.simplify(to_real(_cz(a)) + to_real(_cz(b)))
    return a + b


def cmul(a, b):
    if not isz(a) and a == 1:
        return b
    if not isz(b) and b == 1:
        return a
    if isz(a) or isz(b):
        return z3.simplify(to_real(_cz(a)) * to_real(_cz(b)))
    return a * b


def _cz(c):
    return z3.RealVal(f"{c.numerator}/{c.denominator}") if isinstance(c, Fraction) else (z3.RealVal(c) if isinstance(c, int) else c)


def flip(f):
    return (f[0], f[1], 1 - f[2])


class MatLib:
    def __init__(self, it):
        self.it = it
        self.reset()

    def reset(self):
        self.mats, self.maps, self.by_decl = [], [], {}
        self.words = {}         # canonical core word -> z3 function
        self.word_of = {}       # decl id -> (word, rows, cols)
        self.invs, self.dets, self.lds, self.trs = {}, {}, {}, {}
        self.blocks = []        # (K, x, y)
        self.nocc = {}
        self.rec_cache = {}
        self.det_decl = {}
        self.parts = {}
        self.leaves = []
        self.keep = []

    # ------------------------------------------------------------ factors
    def mat(self, name, rows, cols, sym=False, pd=False, fn=None):
        return Mat(self, name, rows, cols, fn, sym, pd)

    def M(self, f):
        return self.mats[f[1]]

    def lrdims(self, f):
        """(rows, cols) of a factor"""
        if f[0] == "M":
            m = self.mats[f[1]]
            d = (m.rows, m.cols)
        else:
            s = self.maps[f[1]]
            d = (s.m, s.n)
        return d if not f[2] else (d[1], d[0])

    def norm_f(self, f):
        if f[0] == "M" and f[2] and self.mats[f[1]].sym:
            return ("M", f[1], 0)
        if f[0] == "S" and f[2] and self.bij(self.maps[f[1]]) and False:
            return f
        return f

    # ------------------------------------------------------------ index maps
    def imap(self, m, n, x):
        """the (canonical) index map i -> x(i); None for the identity"""
        x = simp(zi(x))
        if x.eq(I0) and dimeq(m, n):
            return None
        for s in self.maps:
            if s.x.eq(x) and dimeq(s.m, m) and dimeq(s.n, n):
                return s
        if dimeq(m, n) and self.H(Implies(InR(0, I0, m), x == I0), x):
            return None
        for s in self.maps:
            if dimeq(s.m, m) and dimeq(s.n, n) and self.H(Implies(InR(0, I0, m), x == s.x), x, s.x):
                return s
        s = IMap(self, m, n, x)
        return s

    def H(self, goal, *terms):
        n0 = len(X.facts)
        for t in terms:
            X.hint(t)
        X.axis_hints(I0)
        for t in terms:
            self.chain_hints(t)
        r = X.holds(goal)
        del X.facts[n0:]
        return r

    def chain_hints(self, t):
        for s in X.bases:
            if s.sort == Name:
                X.hint(s.at(t))

    def inj(self, s):
        if "inj" not in s.flags:
            a, b = s.at(I0), s.at(J0)
            s.flags["inj"] = self.H(Implies(And(0 <= I0, I0 < J0, J0 < zi(s.m)), a != b), a, b)
        return s.flags["inj"]

    def bij(self, s):
        if "bij" not in s.flags:
            s.flags["bij"] = dimeq(s.m, s.n) and self.inj(s)
        return s.flags["bij"]

    def disjoint(self, s, t):
        k = ("dis", t.id)
        if k not in s.flags:
            a, b = s.at(I0), t.at(J0)
            s.flags[k] = dimeq(s.n, t.n) and self.H(Implies(And(InR(0, I0, s.m), InR(0, J0, t.m)), a != b), a, b)
            t.flags[("dis", s.id)] = s.flags[k]
        return s.flags[k]

    def seq(self, s):
        if "seq" not in s.flags:
            s.flags["seq"] = FnSeq(s.m, lambda i: s.at(i))
        return s.flags["seq"]

    def covers(self, s, t):
        """every index of the target is hit by s or by t (both injective and disjoint)"""
        k = ("cov", t.id)
        if k not in s.flags:
            r = dimeq(s.n, t.n) and self.inj(s) and self.inj(t) and self.disjoint(s, t)
            if r:
                r = self.H(zi(s.m) + zi(t.m) == zi(s.n)) or self.cover_by_members(s, t)
            s.flags[k] = t.flags[("cov", s.id)] = r
        return s.flags[k]

    def cover_by_members(self, s, t):
        a, b = self.seq(s), self.seq(t)
        ma, mb = a.mem(K0), b.mem(K0)
        n0 = len(X.facts)
        X.hint(K0)
        names = [q.at(K0) for q in X.bases if q.sort == Name]
        for v in names:
            for q in X.bases:
                if q.sort == Name:
                    X.hint(q._mem(v))
                    p = q._pos(v)
                    X.hint(p)
                    for u in (s, t):
                        X.hint(u.at(p))
                        X.hint(q.at(p))
        for e in X.enums:
            X.hint(e.rk(K0))
            for v in names:
                for q in X.bases:
                    if q.sort == Name:
                        X.hint(e.rk(q._pos(v)))
                        for u in (s, t):
                            X.hint(u.at(e.rk(q._pos(v))))
            for u in (s, t):
                X.hint(u.at(e.rk(K0)))
        r = X.holds(Implies(InR(0, K0, s.n), Or(ma, mb)), 8000)
        del X.facts[n0:]
        return r

    def same_range(self, s, t):
        """t enumerates the same indices as s, in another order"""
        k = ("rng", t.id)
        if k not in s.flags:
            s.flags[k] = False
            if s is t:
                s.flags[k] = True
            elif dimeq(s.n, t.n) and dimeq(s.m, t.m) and self.inj(s) and self.inj(t):
                a = self.seq(s)
                v = t.at(I0)
                m = a.mem(v)
                n0 = len(X.facts)
                for q in X.bases:
                    if q.sort == Name:
                        nm = q.at(v)
                        for q2 in X.bases:
                            if q2.sort == Name:
                                X.hint(q2._mem(nm))
                                X.hint(s.at(q2._pos(nm)))
                s.flags[k] = X.holds(Implies(InR(0, I0, t.m), m), 6000)
                del X.facts[n0:]
            t.flags[("rng", s.id)] = s.flags[k]
        return s.flags[k]

    # ------------------------------------------------------------ words
    def simp_word(self, fs):
        """normalise a list of factors; returns None for the zero word"""
        out = []
        todo = [self.norm_f(f) for f in fs]
        while todo:
            f = todo.pop(0)
            if f[0] == "I":
                continue
            if not out:
                out.append(f)
                continue
            g = out[-1]
            if g[0] == "M" and f[0] == "M":
                a, b = self.M(g), self.M(f)
                if a.inv is b and (g[2] == f[2] or a.sym):
                    out.pop()
                    continue
                if a is b and a.chol_of is not None and g[2] == 0 and f[2] == 1:
                    out.pop()
                    (w, c), = a.chol_of.t.items()
                    if c == 1:
                        todo = list(w) + todo
                        continue
                    raise Unsupported("Cholesky factor of a combination")
            elif g[0] == "S" and f[0] == "S":
                s, t = self.maps[g[1]], self.maps[f[1]]
                if g[2] == 0 and f[2] == 1:
                    if s is t and self.inj(s):
                        out.pop()
                        continue
                    if self.disjoint(s, t):
                        return None
                elif g[2] == 1 and f[2] == 0:
                    if s is t and self.bij(s):
                        out.pop()
                        continue
                elif g[2] == 0 and f[2] == 0:
                    out.pop()
                    c = self.imap(s.m, t.n, z3.substitute(t.x, (I0, s.x)))
                    if c is not None:
                        todo = [("S", c.id, 0)] + todo
                    continue
                elif g[2] == 1 and f[2] == 1:
                    out.pop()
                    c = self.imap(t.m, s.n, z3.substitute(s.x, (I0, t.x)))
                    if c is not None:
                        todo = [("S", c.id, 1)] + todo
                    continue
            out.append(f)
        return tuple(out)

    def tr_word(self, w):
        return tuple(self.norm_f(flip(f)) for f in reversed(w))

    # ------------------------------------------------------------ normal forms
    def zero(self, r, c):
        return NF(r, c, {})

    def ident(self, n):
        return NF(n, n, {(): Fraction(1)})

    def of_mat(self, m):
        return NF(m.rows, m.cols, {(("M", m.id, 0),): Fraction(1)})

    def add(self, a, b, s=1):
        t = dict(a.t)
        for w, c in b.t.items():
            t[w] = cadd(t.get(w, Fraction(0)), cmul(Fraction(s), c))
        return NF(a.rows, a.cols, t)

    def scale(self, a, c):
        return NF(a.rows, a.cols, {w: cmul(c, d) for w, d in a.t.items()})

    def scalar_dim(self, d):
        return isinstance(d, int) and d == 1

    def mul(self, a, b):
        # a 1x1 matrix times anything is a scalar multiple: keep as a product of words only when dimensions chain
        t = {}
        for w, c in a.t.items():
            for v, d in b.t.items():
                u = self.simp_word(list(w) + list(v))
                if u is None:
                    continue
                if self.scalar_dim(a.rows) and self.scalar_dim(b.cols):
                    u = self.canon_scalar(u)
                t[u] = cadd(t.get(u, Fraction(0)), cmul(c, d))
        return NF(a.rows, b.cols, t)

    def canon_scalar(self, u):
        v = self.tr_word(u)
        return min(u, v)

    def T(self, a):
        return NF(a.cols, a.rows, {self.tr_word(w): c for w, c in a.t.items()})

    def select(self, a, s):
        """rows s of a"""
        return a if s is None else self.mul(NF(s.m, s.n, {(("S", s.id, 0),): Fraction(1)}), a)

    def sub(self, a, s, t):
        r = self.select(a, s)
        return r if t is None else self.T(self.select(self.T(r), t))

    def is_ident(self, a):
        return dimeq(a.rows, a.cols) and self.eq(a, self.ident(a.rows))

    def eq(self, a, b):
        d = self.add(a, b, -1)
        return all(self.zero_c(c) for c in d.t.values())

    def zero_c(self, c):
        if isinstance(c, (int, Fraction)):
            return c == 0
        c = z3.simplify(c)
        if z3.is_rational_value(c):
            return c.as_fraction() == 0
        return X.holds(c == 0)

    def is_sym(self, a):
        return self.eq(a, self.T(a))

    # ------------------------------------------------------------ entries
    def entry(self, a, i, j):
        if self.scalar_dim(a.rows):
            i = 0
        if self.scalar_dim(a.cols):
            j = 0
        r = None
        for w, c in a.t.items():
            e = self.word_entry(w, a.rows, a.cols, zi(i), zi(j))
            if isinstance(c, Fraction) and c == 1:
                t = e
            elif isinstance(c, Fraction) and isinstance(e, z3.ExprRef):
                t = _cz(c) * e
            else:
                t = _cz(c) * e
            r = t if r is None else r + t
        return z3.RealVal(0) if r is None else r

    def word_entry(self, w, rows, cols, i, j):
        w = list(w)
        while w and w[0][0] == "S" and w[0][2] == 0:
            s = self.maps[w[0][1]]
            i, rows = s.at(i), s.n
            w.pop(0)
        while w and w[-1][0] == "S" and w[-1][2] == 1:
            s = self.maps[w[-1][1]]
            j, cols = s.at(j), s.n
            w.pop()
        if not w:
            if self.scalar_dim(rows) and self.scalar_dim(cols):
                return z3.RealVal(1)
            return z3.If(i == j, z3.RealVal(1), z3.RealVal(0))
        if len(w) == 1 and w[0][0] == "M":
            m = self.M(w[0])
            if self.scalar_dim(m.rows):
                i, j = (z3.IntVal(0), j) if not w[0][2] else (i, z3.IntVal(0))
            if self.scalar_dim(m.cols):
                i, j = (i, z3.IntVal(0)) if not w[0][2] else (z3.IntVal(0), j)
            return m.fn(j, i) if w[0][2] else m.fn(i, j)
        w = tuple(w)
        v = self.tr_word(w)
        if v < w:
            w, i, j, rows, cols = v, j, i, cols, rows
        f = self.words.get(w)
        if f is None:
            f = X.global_decl("word", [Int, Int], Real)
            self.words[w] = f
            self.word_of[f.get_id()] = (w, rows, cols)
            if v == w:
                X.gforall([I0, J0], f(I0, J0) == f(J0, I0), f(I0, J0))
        if self.scalar_dim(rows):
            i = z3.IntVal(0)
        if self.scalar_dim(cols):
            j = z3.IntVal(0)
        return f(i, j)

    def arr(self, a, rank=2):
        if rank == 2:
            return Arr(2, lambda k: (a.rows, a.cols)[k] if isinstance(k, int) else If(k == 0, zi(a.rows), zi(a.cols)),
                       lambda K: self.entry(a, K(0), K(1)), Real)
        if rank == 1:
            if self.scalar_dim(a.cols):
                return Arr(1, lambda k: a.rows, lambda K: self.entry(a, K(0), 0), Real)
            return Arr(1, lambda k: a.cols, lambda K: self.entry(a, 0, K(0)), Real)
        return self.entry(a, 0, 0)

    # ------------------------------------------------------------ recognition
    def recognise(self, A, col=True):
        """the normal form of a real array (rank 2, or rank 1 taken as a column / row)"""
        if not isinstance(A, Arr) or not isinstance(A.rank, int) or A.rank not in (1, 2):
            raise Unsupported("matrix operation on an array of unknown shape")
        if X.bound or len(X.frames) > 1:
            raise Unsupported("matrix algebra inside a loop")
        if A.es not in (Real, Int):
            raise Unsupported("matrix algebra on possibly infinite entries")
        if A.rank == 2:
            r, c = A.dim(0), A.dim(1)
            r, c = self.lit(r), self.lit(c)
            i, j = (0 if r == 1 and isinstance(r, int) else I0), (0 if c == 1 and isinstance(c, int) else J0)
            t = A.val(lambda k: (i, j)[k])
        else:
            n = self.lit(A.dim(0))
            r, c = (n, 1) if col else (1, n)
            i, j = (I0, 0) if col else (0, J0)
            t = A.val(lambda k: I0 if col else J0)
        t = z3.simplify(to_real(t))
        key = (t.get_id(), str(r), str(c))
        if key in self.rec_cache:
            return self.rec_cache[key]
        self.keep.append(t)
        ctx = And(InR(0, I0, r) if not (isinstance(r, int) and r == 1) else True, InR(0, J0, c) if not (isinstance(c, int) and c == 1) else True)
        nf = self.parse(t, r, c, ctx)
        self.rec_cache[key] = nf
        return nf

    def lit(self, d):
        d = simp(d)
        if isz(d) and z3.is_int_value(d):
            return d.as_long()
        return d

    def thresholds(self, t, v, n):
        """constants c with 0 < c < n at which a condition on the index v in t changes"""
        out = []
        seen = set()
        for u in subterms(t, seen):
            if not (z3.is_app(u) and u.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and u.arg(0).sort() == Int and occurs(v, u)):
                continue
            d = u.arg(0) - u.arg(1)
            at = lambda k: z3.substitute(d, (v, z3.IntVal(k)))  # noqa: E731
            co = z3.simplify(at(1) - at(0))
            if not z3.is_int_value(co) or abs(co.as_long()) != 1:
                continue
            k = u.decl().kind()
            c0 = at(0)
            if not self.free(c0):
                continue
            if co.as_long() == 1:       # v + c0 op 0
                c = {z3.Z3_OP_LE: 1 - c0, z3.Z3_OP_LT: -c0, z3.Z3_OP_GE: -c0, z3.Z3_OP_GT: 1 - c0}[k]
            else:                       # c0 op v
                c = {z3.Z3_OP_LE: c0, z3.Z3_OP_LT: c0 + 1, z3.Z3_OP_GE: c0 + 1, z3.Z3_OP_GT: c0}[k]
            c = z3.simplify(c)
            if any(dimeq(c, o) for o in out) or not X.holds(And(0 < c, c < zi(n))):
                continue
            out.append(c)
        if len(out) == 2 and X.holds(out[1] < out[0]):
            out.reverse()
        return out if len(out) <= 1 or (len(out) == 2 and X.holds(out[0] < out[1])) else []

    def split(self, t, r, c, ctx):
        """a matrix given by cases on index ranges: the sum of its embedded blocks"""
        parts = []
        for v, n in ((I0, r), (J0, c)):
            cs = [] if self.scalar_dim(n) else self.thresholds(t, v, n)
            pts = [0] + cs + [n]
            parts.append([(simp(zi(lo)), self.lit(zi(hi) - zi(lo))) for lo, hi in zip(pts, pts[1:])])
        if len(parts[0]) == 1 and len(parts[1]) == 1:
            return None
        out = NF(r, c, {})
        for lo, h in parts[0]:
            for lo2, w in parts[1]:
                i, j = (I0 + lo, J0 + lo2)
                u = z3.simplify(z3.substitute(t, (I0, z3.IntVal(0) + lo if self.scalar_dim(h) else i), (J0, z3.IntVal(0) + lo2 if self.scalar_dim(w) else j)))
                cx = And(True if self.scalar_dim(h) else InR(0, I0, h), True if self.scalar_dim(w) else InR(0, J0, w))
                b = self.parse(u, h, w, cx)
                s = self.imap(h, r, I0 + lo) if len(parts[0]) > 1 else None
                q = self.imap(w, c, I0 + lo2) if len(parts[1]) > 1 else None
                if s is not None:
                    b = self.mul(NF(r, h, {(("S", s.id, 1),): Fraction(1)}), b)
                if q is not None:
                    b = self.mul(b, NF(w, c, {(("S", q.id, 0),): Fraction(1)}))
                out = self.add(out, b)
        return out

    def parse(self, t, r, c, ctx):
        if any(z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE for u in subterms(t, set())):
            b = self.split(t, r, c, ctx)
            if b is not None:
                return b
        terms = self.try_parse(t, r, c, ctx)
        if terms is None:
            terms = self.leaf(t, r, c, ctx)
        return NF(r, c, terms)

    def leaf(self, t, r, c, ctx):
        """an array given only by its entries: a matrix symbol defined by them"""
        swap = lambda u: z3.substitute(u, (I0, J0), (J0, I0))  # noqa: E731
        for u, m in self.leaves:
            if u.eq(t) and dimeq(m.rows, r) and dimeq(m.cols, c):
                return {(("M", m.id, 0),): Fraction(1)}
            if u.eq(swap(t)) and dimeq(m.rows, c) and dimeq(m.cols, r):
                return {(self.norm_f(("M", m.id, 1)),): Fraction(1)}
        for u, m in self.leaves:
            if dimeq(m.rows, r) and dimeq(m.cols, c) and self.H(Implies(ctx, t == u), t, u):
                return {(("M", m.id, 0),): Fraction(1)}
            if dimeq(m.rows, c) and dimeq(m.cols, r) and self.H(Implies(ctx, t == swap(u)), t, swap(u)):
                return {(self.norm_f(("M", m.id, 1)),): Fraction(1)}
        m = self.mat("anon", r, c)
        self.leaves.append((t, m))
        X.forall([I0, J0], Implies(ctx, m.fn(I0, J0) == t), m.fn(I0, J0))
        if not self.scalar_dim(r) and not self.scalar_dim(c) and dimeq(r, c) and X.holds(Implies(ctx, t == swap(t))):
            m.sym = True
            X.forall([I0, J0], m.fn(I0, J0) == m.fn(J0, I0), m.fn(I0, J0))
        return {(("M", m.id, 0),): Fraction(1)}

    def free(self, t):
        return not occurs(I0, t) and not occurs(J0, t)

    def try_parse(self, t, r, c, ctx):
        if z3.is_rational_value(t):
            v = t.as_fraction()
            if v == 0:
                return {}
            if self.scalar_dim(r) and self.scalar_dim(c):
                return {(): v}
            return None
        if z3.is_add(t):
            out = NF(r, c, {})
            for u in t.children():
                p = self.try_parse(u, r, c, ctx)
                if p is None:
                    p = self.leaf(u, r, c, ctx)
                out = self.add(out, NF(r, c, p))
            return out.t
        if z3.is_mul(t):
            ch = t.children()
            # numerals first; then exactly one factor may carry the matrix
            coef, rest = Fraction(1), []
            for u in ch:
                if z3.is_rational_value(u):
                    coef *= u.as_fraction()
                else:
                    rest.append(u)
            if not rest:
                return None
            if self.scalar_dim(r) and self.scalar_dim(c):
                if len(rest) == 1:
                    p = self.try_parse(rest[0], r, c, ctx)
                    return None if p is None else self.scale(NF(r, c, p), coef).t
                e = rest[0]
                for u in rest[1:]:
                    e = e * u
                return {(): cmul(coef, e)}
            var = [u for u in rest if not self.free(u)]
            if len(var) != 1:
                return None
            p = self.try_parse(var[0], r, c, ctx)
            if p is None:
                p = self.leaf(var[0], r, c, ctx)
            cf = coef
            for u in rest:
                if self.free(u):
                    cf = cmul(cf, u)
            return self.scale(NF(r, c, p), cf).t
        if z3.is_sub(t):
            ch = t.children()
            out = NF(r, c, self.try_parse(ch[0], r, c, ctx) or {}) if self.try_parse(ch[0], r, c, ctx) is not None else None
            for u in ch[1:]:
                p = self.try_parse(u, r, c, ctx)
                if out is None or p is None:
                    return None
                out = self.add(out, NF(r, c, p), -1)
            return out.t
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
            a, b = t.children()
            if self.free(b):
                p = self.try_parse(a, r, c, ctx)
                return None if p is None else self.scale(NF(r, c, p), 1 / b).t
            return None
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            q, a, b = t.children()
            if self.H(Implies(ctx, q)):
                return self.try_parse(a, r, c, ctx)
            if self.H(Implies(ctx, z3.Not(q))):
                return self.try_parse(b, r, c, ctx)
            if z3.is_rational_value(a) and z3.is_rational_value(b) and b.as_fraction() == 0 and dimeq(r, c) and \
                    self.H(Implies(ctx, q == (I0 == J0))):
                return {(): a.as_fraction()}
            return None
        if z3.is_app(t):
            d = t.decl().get_id()
            if d in self.by_decl or d in self.word_of:
                if d in self.by_decl:
                    m = self.by_decl[d]
                    w, rows, cols = (("M", m.id, 0),), m.rows, m.cols
                else:
                    w, rows, cols = self.word_of[d]
                a, b = t.children()
                tr = False
                if occurs(J0, a) or occurs(I0, b):
                    a, b, w, rows, cols, tr = b, a, self.tr_word(w), cols, rows, True
                if occurs(J0, a) or occurs(I0, b):
                    return None
                if not occurs(I0, a) and not (isinstance(r, int) and r == 1):
                    return None
                if not occurs(J0, b) and not (isinstance(c, int) and c == 1):
                    return None
                fs = list(w)
                if not (self.scalar_dim(rows) and self.scalar_dim(r)):
                    s = self.imap(r, rows, a)
                    if s is not None:
                        fs = [("S", s.id, 0)] + fs
                if not (self.scalar_dim(cols) and self.scalar_dim(c)):
                    s = self.imap(c, cols, z3.substitute(b, (J0, I0)))
                    if s is not None:
                        fs = fs + [("S", s.id, 1)]
                u = self.simp_word(fs)
                if u is None:
                    return {}
                if self.scalar_dim(r) and self.scalar_dim(c):
                    u = self.canon_scalar(u)
                return {u: Fraction(1)}
        if self.scalar_dim(r) and self.scalar_dim(c) and self.free(t):
            return {(): t}
        return None

    # ------------------------------------------------------------ operations on arrays
    def matmul(self, it, a, b):
        if not isinstance(a, Arr) or not isinstance(b, Arr):
            a = lib.np_array(it, a) if not isinstance(a, Arr) else a
            b = lib.np_array(it, b) if not isinstance(b, Arr) else b
        if a.rank == 0 or b.rank == 0 or not isinstance(a.rank, int) or not isinstance(b.rank, int):
            raise Unsupported("matmul of scalars")
        x, y = self.recognise(a, col=False), self.recognise(b, col=True)
        if not dimeq(x.cols, y.rows):
            X.require(eq(x.cols, y.rows), lib.EXC["ValueError"], "matmul dimensions")
        X.trusted.add("ML1 matrix product is associative, bilinear and (AB)^T = B^T A^T (real arithmetic, no rounding)")
        r = self.mul(x, y)
        return self.arr(r, (1 if a.rank == 2 else 0) + (1 if b.rank == 2 else 0)) if not (a.rank == 2 and b.rank == 2) else self.arr(r)

    def square(self, a):
        X.require(eq(a.rows, a.cols) if not dimeq(a.rows, a.cols) else True, lib.EXC["LinAlgError"], "square matrix")

    # ------------------------------------------------------------ positive definiteness and inverses
    def pd(self, a):
        """is the matrix known to be symmetric positive definite?"""
        if not a.t:
            return False
        if self.block_pivot(a) is not None:
            return True
        some = False
        for w, c in a.t.items():
            if not self.pos_c(c):
                return self.schur_of(a) is not None
            k = self.psd_word(w)
            if k is None:
                return self.schur_of(a) is not None
            some = some or k == "pd"
        return some

    def pos_c(self, c):
        if isinstance(c, (int, Fraction)):
            return c > 0
        return X.holds(c > 0)

    def psd_word(self, w):
        """'pd' or 'psd' for words of the form B B^T or B M B^T with M positive definite"""
        if w == ():
            return "pd"
        n = len(w)
        if self.tr_word(w) != w:
            return None
        if n % 2 == 1:
            mid = w[n // 2]
            if mid[0] != "M" or not self.M(mid).pd:
                return None
            half = w[:n // 2]
        else:
            half = w[:n // 2]
        ok = all(f[0] == "S" and f[2] == 0 and self.inj(self.maps[f[1]]) or
                 (f[0] == "M" and (self.M(f).inv is not None)) or (f[0] == "S" and self.bij(self.maps[f[1]])) for f in half)
        return "pd" if ok else "psd"

    def inverse(self, a):
        """normal form of the inverse of a (which must be known to be invertible)"""
        if not dimeq(a.rows, a.cols):
            raise Unsupported("inverse of a matrix that is not provably square")
        key = a.key()
        if key in self.invs:
            return self.invs[key]
        r = self._inverse(a)
        self.invs[key] = r
        # symmetric bookkeeping: the inverse of r is a
        self.invs.setdefault(r.key(), a)
        return r

    def _inverse(self, a):
        X.trusted.add("ML2 inverses: A A^-1 = A^-1 A = I for invertible A, (AB)^-1 = B^-1 A^-1, inverses of symmetric matrices are symmetric")
        if len(a.t) == 1:
            (w, c), = a.t.items()
            if self.zero_c(c):
                raise Unsupported("inverse of zero")
            ic = Fraction(1) / c if isinstance(c, Fraction) else 1 / c
            if not isinstance(c, Fraction) and not X.holds(c != 0):
                raise Unsupported("inverse of a matrix with a possibly zero factor")
            fs, ok = [], True
            for f in reversed(w):
                if f[0] == "M":
                    m = self.M(f)
                    if m.inv is None and (m.pd or m.inv_of is not None):
                        self.mk_inv(m)
                    if m.inv is None:
                        ok = False
                        break
                    fs.append(("M", m.inv.id, f[2]))
                else:
                    if not self.bij(self.maps[f[1]]):
                        ok = False
                        break
                    fs.append(flip(f))
            if ok:
                u = self.simp_word(fs)
                return NF(a.rows, a.cols, {u: ic})
        # strip a common permutation  P X P^T
        ws = list(a.t)
        if all(len(w) >= 2 and w[0][0] == "S" and w[0][2] == 0 and self.bij(self.maps[w[0][1]]) and w[-1] == flip(w[0]) for w in ws) and len({w[0] for w in ws}) == 1:
            p = ws[0][0]
            core = NF(a.rows, a.cols, {self.simp_word(list(w[1:-1])): c for w, c in a.t.items()})
            ic = self.inverse(core)
            P = NF(a.rows, a.rows, {(p,): Fraction(1)})
            return self.mul(self.mul(P, ic), self.T(P))
        piv = self.block_pivot(a)
        if piv is not None:
            return self.block_inverse(a, piv)
        s = self.schur_of(a)
        if s is not None:
            return s
        if not self.pd(a):
            raise Unsupported("inverse of a matrix not known to be invertible")
        # another enumeration of the same principal sub-block: P inv(block) P^T
        alt = self.principal_alias(a)
        if alt is not None:
            return alt
        m = self.mat("inv", a.rows, a.cols, sym=True, pd=True)
        m.inv_of = a
        return self.of_mat(m)

    def mk_inv(self, m):
        if m.inv is None:
            n = self.mat(m.name + "_inv", m.rows, m.cols, sym=m.sym, pd=m.pd)
            m.inv, n.inv = n, m
        return m.inv

    def principal_alias(self, a):
        if len(a.t) != 1:
            return None
        (w, c), = a.t.items()
        if not (len(w) >= 3 and w[0][0] == "S" and w[0][2] == 0):
            return None
        s = self.maps[w[0][1]]
        for t in self.maps:
            if t is s or not self.same_range(s, t):
                continue
            v = (("S", t.id, 0),) + w[1:-1] + (("S", t.id, 1),)
            k = NF(a.rows, a.cols, {v: c}).key()
            if k in self.invs:
                # S_s = Q S_t with Q the permutation carrying one enumeration to the other
                q = self.perm_between(s, t)
                P = NF(a.rows, a.rows, {(("S", q.id, 0),): Fraction(1)}) if q is not None else self.ident(a.rows)
                return self.mul(self.mul(P, self.invs[k]), self.T(P))
        return None

    def perm_between(self, s, t):
        """the map q with s(i) = t(q(i)), for maps with the same range"""
        sq = self.seq(t)
        return self.imap(s.m, t.m, sq.pos(s.at(I0)))

    # ------------------------------------------------------------ blocks of a positive definite matrix
    def complement(self, s):
        """a registered map enumerating exactly the indices s does not, or None"""
        for t in self.maps:
            if t is not s and dimeq(t.n, s.n) and not (isinstance(t.m, int) and t.m == 1) and self.covers(s, t):
                return t
        return None

    def blocks2(self, a):
        """(x, y, blocks) when a is given as embedded blocks of a partition of its indices into two ranges"""
        ids = {f[1] for w in a.t for f in (w[:1] + w[-1:]) if len(w) >= 1}
        if not a.t or not all(len(w) >= 2 and w[0][0] == "S" and w[0][2] == 1 and w[-1][0] == "S" and w[-1][2] == 0 for w in a.t) or len(ids) != 2:
            return None
        x, y = (self.maps[i] for i in sorted(ids))
        if not self.covers(x, y):
            return None
        B = {}
        for p in (x, y):
            for q in (x, y):
                B[p.id, q.id] = NF(p.m, q.m, {w[1:-1]: c for w, c in a.t.items() if w[0][1] == p.id and w[-1][1] == q.id})
        return x, y, B

    def block_pivot(self, a):
        """pivot block, its complement, and the Schur complement, when both are known to be positive definite"""
        b = self.blocks2(a)
        if b is None:
            return None
        x, y, B = b
        for p, q in ((x, y), (y, x)):
            if not self.pd(B[p.id, p.id]) or not self.eq(B[p.id, q.id], self.T(B[q.id, p.id])):
                continue
            P = self.inverse(B[p.id, p.id])
            S = self.add(B[q.id, q.id], self.mul(self.mul(B[q.id, p.id], P), B[p.id, q.id]), -1)
            if self.pd(S):
                X.trusted.add("ML4 block inversion of a symmetric positive definite matrix (Schur complement)")
                return p, q, B, P, S
        return None

    def block_inverse(self, a, piv):
        p, q, B, P, S = piv
        Si = self.inverse(S)
        U = self.mul(P, B[p.id, q.id])
        V = self.mul(B[q.id, p.id], P)
        neg = lambda m: self.scale(m, Fraction(-1))  # noqa: E731
        blk = {(p, p): self.add(P, self.mul(self.mul(U, Si), V)), (p, q): neg(self.mul(U, Si)), (q, p): neg(self.mul(Si, V)), (q, q): Si}
        out = NF(a.rows, a.cols, {})
        for (u, v), m in blk.items():
            out = self.add(out, self.mul(self.mul(NF(a.rows, u.m, {(("S", u.id, 1),): Fraction(1)}), m), NF(v.m, a.cols, {(("S", v.id, 0),): Fraction(1)})))
        return out

    def schur_of(self, a):
        """if a = (S_x M^-1 S_x^T)^-1 for a known positive definite M, the sub-block S_x M^-1 S_x^T"""
        if len(a.t) < 2:
            return None
        cands = set()
        for w in a.t:
            if len(w) == 3 and w[0][0] == "S" and w[0][2] == 0 and w[2] == flip(w[0]) and w[1][0] == "M" and self.M(w[1]).pd:
                cands.add((w[0], w[1]))
        for s, mf in sorted(cands):
            m = self.M(mf)
            self.mk_inv(m)
            x = self.maps[s[1]]
            y = self.complement(x)
            if y is None:
                continue
            sub = NF(a.rows, a.cols, {(s, ("M", m.inv.id, 0), flip(s)): Fraction(1)})
            if self.is_ident(self.blockform(self.mul(a, sub), m, x, y)):
                X.trusted.add("ML4 block inversion of a symmetric positive definite matrix (Schur complement)")
                return sub
        return None

    def blockform(self, a, m, x, y):
        """rewrite words over m, m^-1 into the generators  m_xx, m_xy, m_yy, (m_yy)^-1, (m^-1)_xx  of the partition (x, y)"""
        X.trusted.add("ML3 selection matrices: S_x S_x^T = I, S_x S_y^T = 0 for disjoint x, y, S_x^T S_x + S_y^T S_y = I for a partition")
        X.trusted.add("ML4 block inversion of a symmetric positive definite matrix (Schur complement)")
        mi = self.mk_inv(m)
        n = m.rows
        W = self.inverse(NF(y.m, y.m, {(("S", y.id, 0), ("M", m.id, 0), ("S", y.id, 1)): Fraction(1)}))
        (ww, wc), = W.t.items()
        out = NF(a.rows, a.cols, {})
        for w, c in a.t.items():
            # 1. insert the partition of unity at interior contractions over the n-space
            alts = [[]]
            for k, f in enumerate(w):
                if k > 0:
                    g = w[k - 1]
                    facing = (g[0] == "S" and g[2] == 1 and self.maps[g[1]] in (x, y)) or (f[0] == "S" and f[2] == 0 and self.maps[f[1]] in (x, y))
                    if not facing and dimeq(self.lrdims(g)[1], n) and (self.is_nspace(g, m) or self.is_nspace(f, m)):
                        alts = [al + [("S", s.id, 1), ("S", s.id, 0)] for al in alts for s in (x, y)]
                for al in alts:
                    al.append(f)
            for al in alts:
                out = self.add(out, self.scale(self.rewrite(al, m, mi, x, y, ww, wc, a.rows, a.cols), c))
        return out

    def is_nspace(self, f, m):
        return f[0] == "M" or (f[0] == "S")

    def rewrite(self, fs, m, mi, x, y, ww, wc, rows, cols):
        """apply the block rules until none applies"""
        sx, sy, tx, ty = ("S", x.id, 0), ("S", y.id, 0), ("S", x.id, 1), ("S", y.id, 1)
        K, G = ("M", m.id, 0), ("M", mi.id, 0)
        xx = [sx, G, tx]
        rules = [
            # (m^-1)_xy -> -(m^-1)_xx m_xy W ; (m^-1)_yx ; (m^-1)_yy
            ([sx, G, ty], [(Fraction(-1) * wc, xx + [sx, K, ty] + list(ww))]),
            ([sy, G, tx], [(Fraction(-1) * wc, list(ww) + [sy, K, tx] + xx)]),
            ([sy, G, ty], [(wc, list(ww)), (wc * wc, list(ww) + [sy, K, tx] + xx + [sx, K, ty] + list(ww))]),
            # m_xx (m^-1)_xx -> I + m_xy W m_yx (m^-1)_xx
            ([sx, K, tx] + xx, [(Fraction(1), []), (wc, [sx, K, ty] + list(ww) + [sy, K, tx] + xx)]),
            (xx + [sx, K, tx], [(Fraction(1), []), (wc, xx + [sx, K, ty] + list(ww) + [sy, K, tx])]),
            (list(ww) + [sy, K, ty], [(1 / wc, [])]),
            ([sy, K, ty] + list(ww), [(1 / wc, [])]),
        ]
        res = NF(rows, cols, {})
        todo = [(Fraction(1), list(fs))]
        steps = 0
        while todo:
            steps += 1
            if steps > 4000:
                raise Unsupported("matrix rewriting did not finish")
            c, w = todo.pop()
            # cancel K G pairs only through S: G facing K is already simplified by simp_word
            w2 = self.simp_word(w)
            if w2 is None:
                continue
            w2 = list(w2)
            hit = False
            for lhs, rhs in rules:
                L = len(lhs)
                for p in range(len(w2) - L + 1):
                    if w2[p:p + L] == lhs:
                        for cc, r in rhs:
                            todo.append((c * cc, w2[:p] + r + w2[p + L:]))
                        hit = True
                        break
                if hit:
                    break
            if not hit:
                u = tuple(w2)
                if self.scalar_dim(rows) and self.scalar_dim(cols):
                    u = self.canon_scalar(u)
                res = self.add(res, NF(rows, cols, {u: c}))
        return res

    # ------------------------------------------------------------ determinants
    def dimlog(self, n):
        """n * log(2 pi)"""
        f = self.parts.get("f")
        if f is None:
            f = self.parts["f"] = X.global_decl("dimlog", [Int], Real)
            X.gforall([], f(z3.IntVal(0)) == 0)
        return f(zi(n))

    def dimsum(self, a, b, n):
        X.assume(self.dimlog(n) == self.dimlog(a) + self.dimlog(b))

    def ld(self, a):
        """log determinant of a positive definite matrix"""
        X.trusted.add("ML5 determinants: det(cA) = c^n det A, det(A^-1) = 1/det A, det(P A P^T) = det A, det of a Schur complement")
        if self.is_ident(a):
            return z3.RealVal(0)
        piv = self.block_pivot(a)
        if piv is not None:
            p, q, B, _, S = piv
            self.dimsum(p.m, q.m, p.n)
            return self.ld(B[p.id, p.id]) + self.ld(S)
        if len(a.t) == 1:
            (w, c), = a.t.items()
            while len(w) >= 3 and w[0][0] == "S" and w[0][2] == 0 and self.bij(self.maps[w[0][1]]) and w[-1] == flip(w[0]):
                w = self.simp_word(list(w[1:-1]))
            a = NF(a.rows, a.cols, {w: c})
            if w == () and c == 1:
                return z3.RealVal(0)
            if len(w) == 1 and c == 1:
                m = self.M(w[0])
                if m.inv_of is not None:
                    return -self.ld(m.inv_of)
                if m.inv is not None and m.inv.id < m.id:
                    return -self.ld(self.of_mat(m.inv))
            # S_x M S_x^T with M = N^-1: log det = log det M + log det N_yy
            if c == 1 and len(w) == 3 and w[0][0] == "S" and w[1][0] == "M" and w[2] == flip(w[0]):
                m = self.M(w[1])
                if m.inv is not None and m.inv.id < m.id:
                    x = self.maps[w[0][1]]
                    y = self.complement(x)
                    if y is not None:
                        yy = NF(y.m, y.m, {(("S", y.id, 0), ("M", m.inv.id, 0), ("S", y.id, 1)): Fraction(1)})
                        self.dimsum(x.m, y.m, x.n)
                        return self.ld(self.of_mat(m)) + self.ld(yy)
        key = a.key()
        if key not in self.lds:
            self.lds[key] = X.const("logdet", Real)
        return self.lds[key]

    def det(self, it, args, kw):
        a = self.recognise(args[0])
        self.square(a)
        # a common scalar factor
        cs = list(a.t.values())
        if not cs:
            raise Unsupported("determinant of zero")
        c = cs[0]
        two_pi = None
        if isinstance(c, Fraction) and len(cs) >= 1:
            for k in (1, 2):
                pass
        base, logc = a, None
        tp = rv(2.0 * math.pi).as_fraction()
        if all(isinstance(q, Fraction) for q in cs):
            for mult in (tp,):
                b = NF(a.rows, a.cols, {w: q / mult for w, q in a.t.items()})
                if all(q.denominator < 10 ** 6 for q in b.t.values()):
                    base, logc = b, self.dimlog(a.rows)
                    break
        if not self.pd(base):
            raise Unsupported("determinant of a matrix not known to be positive definite")
        key = (base.key(), logc is not None)
        if key not in self.dets:
            d = X.const("det", Real)
            l = self.ld(base)
            X.assume(And(d > 0, rlog(d) == (l if logc is None else l + logc)))
            self.dets[key] = d
            self.det_decl[d.get_id()] = (d, l if logc is None else l + logc)
        return self.dets[key]

    def log(self, x):
        """log of a product / quotient of known positive quantities, or None"""
        x = z3.simplify(x)
        def go(t):
            if t.get_id() in self.det_decl:
                return self.det_decl[t.get_id()][1]
            if z3.is_mul(t):
                rs = [go(u) for u in t.children()]
                return None if any(r is None for r in rs) else sum(rs[1:], rs[0])
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_DIV:
                a, b = go(t.arg(0)), go(t.arg(1))
                return None if a is None or b is None else a - b
            if z3.is_rational_value(t) and t.as_fraction() > 0:
                return z3.RealVal(0) if t.as_fraction() == 1 else rlog(t)
            return None
        return go(x)

    def trace(self, it, args, kw):
        a = self.recognise(args[0])
        self.square(a)
        X.trusted.add("ML7 the trace is linear, invariant under transposition and cyclic shifts")
        r = z3.RealVal(0)
        for w, c in a.t.items():
            r = r + _cz(c) * self.tr_of(w, a.rows)
        return r

    def tr_of(self, w, n):
        # cancel across the seam, then take the least rotation of the word or of its transpose
        w = list(w)
        while len(w) >= 2:
            rot = self.simp_word([w[-1]] + w[:-1])
            if rot is not None and len(rot) < len(w):
                w = list(rot)
                continue
            break
        if not w:
            return z3.ToReal(zi(n))
        cands = []
        for v in (tuple(w), self.tr_word(tuple(w))):
            for k in range(len(v)):
                cands.append(v[k:] + v[:k])
        k = min(cands)
        if k not in self.trs:
            self.trs[k] = X.const("trace", Real)
        return self.trs[k]

    def np_inv(self, it, args, kw):
        a = self.recognise(args[0])
        self.square(a)
        return self.arr(self.inverse(a))

    def eigvals(self, it, args, kw):
        a = self.recognise(args[0])
        self.square(a)
        X.trusted.add("ML6 the eigenvalues of a symmetric positive definite matrix are positive; sums, inverses, principal blocks and Schur complements of such matrices are positive definite")
        pd = self.pd(a)
        return base_arr("eig", 1, lambda k: a.rows, Real, inv=(lambda t: t > 0) if pd else None)

    def cholesky(self, it, args, kw):
        a = self.recognise(args[0])
        self.square(a)
        if not self.pd(a):
            raise Unsupported("Cholesky factor of a matrix not known to be positive definite")
        key = ("chol", a.key())
        if key not in self.invs:
            m = self.mat("chol", a.rows, a.cols)
            m.chol_of = a
            self.invs[key] = m
        X.trusted.add("ML6 numpy's cholesky(A) is L with L L^T = A")
        return self.arr(self.of_mat(self.invs[key]))

    def block(self, it, args, kw):
        """np.block of a list of rows of 2-dimensional arrays"""
        rows = [list(lib.iter_seq(it, r).items() or []) for r in lib.iter_seq(it, args[0]).items() or []]
        if not rows or any(not r for r in rows):
            raise Unsupported("np.block argument")
        for r in rows:
            for v in r:
                if not isinstance(v, Arr) or v.rank != 2:
                    raise Unsupported("np.block of other than matrices")
        from functools import reduce
        hs = [self.cat(it, r, 1) for r in rows]
        return reduce(lambda a, b: self.cat(it, [a, b], 0), hs)

    def cat(self, it, vs, axis):
        vs = [v if isinstance(v, Arr) else lib.np_array(it, v) for v in vs]
        if len(vs) == 1:
            return vs[0]
        rank = vs[0].rank
        if any(v.rank != rank for v in vs) or not isinstance(rank, int):
            raise Unsupported("concatenation of arrays of different ranks")
        axis = axis if axis >= 0 else axis + rank
        if axis >= rank:
            raise PyRaise(lib.EXC["ValueError"], "axis out of bounds")
        for v in vs[1:]:
            for k in range(rank):
                if k != axis:
                    X.require(eq(v.dim(k), vs[0].dim(k)) if not dimeq(v.dim(k), vs[0].dim(k)) else True, lib.EXC["ValueError"], "concatenation")
        fr = [lib.freeze(v) for v in vs]
        offs = [0]
        for v in vs:
            offs.append(simp(zi(offs[-1]) + zi(v.dim(axis))))
        es = lib.join_sort([v.es for v in vs])

        def val(K):
            r = None
            for q in range(len(vs) - 1, -1, -1):
                o = offs[q]
                e = lib.coerce(fr[q](lambda k: (simp(zi(K(k)) - zi(o)) if q else K(k)) if k == axis else K(k)), es)
                r = e if r is None else If(zi(K(axis)) < zi(offs[q + 1]), e, r)
            return r
        dims = [vs[0].dim(k) if k != axis else self.lit(offs[-1]) for k in range(rank)]
        return Arr(rank, lambda k: dims[k] if isinstance(k, int) else lib.CSeq(dims).get(k), val, es)


def install(it):
    ml = it.matlib = X.matlib = MatLib(it)
    np = it.libs["numpy"].attrs
    B = lib.Builtin
    la = it.libs["numpy.linalg"].attrs
    la["inv"] = B("inv", ml.np_inv)
    la["det"] = B("det", ml.det)
    la["eigvals"] = B("eigvals", ml.eigvals)
    la["eigvalsh"] = la["eigvals"]
    la["cholesky"] = B("cholesky", ml.cholesky)
    np["trace"] = B("trace", ml.trace)
    np["block"] = B("block", ml.block)
    np["matmul"] = B("matmul", lambda i, a, k: ml.matmul(i, a[0], a[1]))
    np["dot"] = np["matmul"]
    np["concatenate"] = B("concatenate", lambda i, a, k: ml.cat(i, lib.iter_seq(i, a[0]).items(), k.get("axis", a[1] if len(a) > 1 else 0)))
    np["hstack"] = B("hstack", lambda i, a, k: ml.cat(i, lib.iter_seq(i, a[0]).items(), 1))
    np["vstack"] = B("vstack", lambda i, a, k: ml.cat(i, lib.iter_seq(i, a[0]).items(), 0))
    it.libs["cmath"] = lib.Lib("cmath", {"log": np["log"], "exp": np["exp"]})


def block_facts(ml, terms, m, x, y):
    """instances of the block lemmas for the matrix-product entries occurring in the terms"""
    seen, done = set(), set()
    for t in terms:
        if not isz(t):
            continue
        for u in subterms(t, seen):
            if z3.is_app(u) and u.decl().get_id() in ml.word_of and u.get_id() not in done:
                done.add(u.get_id())
                w, r, c = ml.word_of[u.decl().get_id()]
                b = ml.blockform(NF(r, c, {w: Fraction(1)}), m, x, y)
                i, j = u.children()
                X.assume(u == ml.entry(b, i, j))
