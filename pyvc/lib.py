"""Models of the Python builtins and of the numpy / scipy / copy / operator functions used by veroku.

These models are assumptions of the proofs (listed in the evidence as trusted) and are compared with the real libraries by
tools/difftest.py."""
import builtins as _bi
import z3
_pyga = _bi.getattr
from . import core
from .core import *  # noqa: F401,F403
from .core import X
from . import interp as I
from .interp import EXC, Builtin, Lib, TypeRef, Obj, Cls, Func, Bound, OpaqueStr, Opaque, StarSeq, ExcValue  # noqa: F401


class TupleSeq(Seq):
    """zip / enumerate / dict.items(): tuples of the components' elements"""

    def __init__(self, comps, n=None):
        self.comps, self._n = comps, n

    def length(self):
        return self._n if self._n is not None else self.comps[0].length()

    def get(self, i):
        return PList(CSeq([c.get(i) for c in self.comps]), "tuple")

    def mem(self, v):
        raise Unsupported("membership in a zipped sequence")

    def items(self):
        n = self.length()
        if isz(n):
            n = z3.simplify(n)
            n = n.as_long() if z3.is_int_value(n) else n
        return [self.get(i) for i in range(n)] if isinstance(n, int) else None


class SetSeq:
    pass


# ------------------------------------------------------------------ sets
def set_of_seq(seq, sort=None):
    s = SSet(lambda v: seq.mem(v), seq=seq)
    try:
        s.ksort = seq.esort()
    except Unsupported:
        s.ksort = Name
    except Exception:  # noqa: BLE001
        s.ksort = Name
    return s


def distinct_flag(seq):
    """a formula equivalent to: the elements of seq are pairwise different"""
    key = ("distinct", id(seq))
    if key in X.memo:
        return X.memo[key][0]
    if isinstance(seq, BaseSeq) and seq.is_distinct or isinstance(seq, RangeSeq):
        return True
    if X.holds(seq.distinct_goal()):
        X.memo[key] = (True, seq)
        return True
    if seq.items() is not None:
        q = seq.distinct_goal()
    else:
        if X.bound:
            raise Unsupported("uniqueness of a list inside a loop")
        q = X.const("distinct", Bool)
        X.assume(Implies(q, seq.distinct()))
        i, j = X.const("di", Int), X.const("dj", Int)
        X.assume(Implies(Not(q), And(0 <= i, i < j, j < zi(seq.length()), eq(seq.get(i), seq.get(j)))))
        if isinstance(seq, BaseSeq):
            k = z3.Int("k")
            a = seq.at(k)
            X.forall([k], Implies(And(q, InR(0, k, seq.length())), seq.pos(a) == k), a)
    X.memo[key] = (q, seq)
    return q


def set_card(s):
    if s._card is not None:
        return s._card
    if s.seq is None:
        c = X.fresh("card", Int)
        X.assume(c >= 0)
        x = z3.Const("x", s.ksort)
        X.forall([x], Implies(s.mem(x), c >= 1), *[p for p in pick_patterns([x], zb(s.mem(x)))] or [])
        s._card = c
        if s.ksort == Tup:
            from .tuplib import count_lemma
            count_lemma(s._mem, c)
        return c
    items = s.seq.items()
    q = distinct_flag(s.seq)
    n = s.seq.length()
    if q is True:
        s._card = n
        return n
    c = X.fresh("card", Int)
    X.assume(And(c >= 0, c <= zi(n), Iff(c == zi(n), q), Implies(zi(n) >= 1, c >= 1)))
    s._card = c
    return c


def set_seq(s):
    """an enumeration of the set in arbitrary order"""
    if s.seq is not None and distinct_flag(s.seq) is True and s.seq.items() is not None and len(s.seq.items()) <= 1:
        return s.seq
    if X.bound and s.ksort != Name:
        raise Unsupported("iteration over a set inside a loop")
    b = BaseSeq("setord", s.ksort, distinct=True)
    x = z3.Const("x", s.ksort)
    m = s.mem(x)
    X.forall([x], Iff(b.mem(x), m), *([b._mem(x)] + ([p for p in pick_patterns([x], m)] if isz(m) else [])))
    return b


def set_op(op, a, b):
    for s in (a, b):
        if not isinstance(s, SSet):
            raise Unsupported("set operation on a non-set")
    k = a.ksort
    if op == "Sub":
        return SSet(lambda v: And(a.mem(v), Not(b.mem(v))), ksort=k)
    if op == "BitAnd":
        return SSet(lambda v: And(a.mem(v), b.mem(v)), ksort=k)
    if op == "BitOr":
        return SSet(lambda v: Or(a.mem(v), b.mem(v)), ksort=k)
    if op == "BitXor":
        return SSet(lambda v: Not(Iff(a.mem(v), b.mem(v))), ksort=k)
    raise Unsupported(f"set operator {op}")


def as_set(it, v):
    if isinstance(v, SSet):
        return v
    return set_of_seq(iter_seq(it, v))


def subset(a, b):
    if a.seq is not None and a.seq.items() is not None:
        return And(*[b.mem(x) for x in a.seq.items()])
    q = X.fresh("subset", Bool)
    x = z3.Const("x", a.ksort)
    ma, mb = a.mem(x), b.mem(x)
    if X.bound:
        w = X.fresh_fn("subw", [], a.ksort)()
    else:
        w = X.const("subw", a.ksort)
    X.forall([x], Implies(And(q, ma), mb), *([p for p in pick_patterns([x], ma)] if isz(ma) else []))
    X.assume(Implies(Not(q), And(a.mem(w), Not(b.mem(w)))))
    if isinstance(a.seq, BaseSeq) and a.seq.is_distinct and isinstance(b.seq, BaseSeq) and b.seq.is_distinct:
        # counting: lists without duplicates, one contained in the other
        na, nb = zi(a.seq.length()), zi(b.seq.length())
        X.assume(Implies(q, na <= nb))
        if isz(mb):
            X.forall([x], Implies(And(q, na == nb, mb), ma), *[p for p in pick_patterns([x], mb)])
    return q


def set_eq(a, b):
    return And(subset(a, b), subset(b, a))


# ------------------------------------------------------------------ iteration
def consume(it, v):
    """the elements an iteration over v goes through (a generator gives its elements only once)"""
    if isinstance(v, PList) and _pyga(v, "generator", False) and hasattr(v, "consumed"):
        if any(v.birth <= lf.start for lf in X.loops):
            raise Unsupported("a generator shared by the iterations of a loop")
        if any(v.birth <= s for s in X.inv_starts):
            # it may or may not have been used by an earlier iteration of the enclosing loop
            return v.seq if X.branch(X.const("unused", Bool)) else CSeq([])
        if v.consumed:
            return CSeq([])
        v.consumed = True
    return iter_seq(it, v)


def iter_seq(it, v):
    if is_tup(v):
        from .tuplib import TupSeq
        return TupSeq(v)
    if isinstance(v, NdElem):
        return v.seq()
    if isinstance(v, Seq):
        return v
    if isinstance(v, PList):
        return v.seq
    if isinstance(v, SSet):
        return set_seq(v)
    if isinstance(v, SDict):
        k = v.keys()
        if k is None:
            raise Unsupported("iteration over a dictionary with unknown key order")
        return k
    if isinstance(v, Arr):
        if isinstance(v.rank, int) and v.rank >= 1:
            return FnSeq(v.dim(0), lambda i: arr_index(it, v, [i], inside=True))
    if isinstance(v, str):
        return CSeq(list(v))
    if isinstance(v, NdIndex):
        return v
    if isinstance(v, CondValue) and all(isinstance(x, PList) for _, x in v.cases):
        ss = [x.seq for _, x in v.cases]
        n = ss[0].length()
        if all(X.holds(zi(s.length()) == zi(n)) for s in ss[1:]):
            return FnSeq(n, lambda i: merged([(c, s.get(i)) for (c, _), s in zip(v.cases, ss)]))
    raise Unsupported(f"iteration over {type(v).__name__}")


def as_list(it, v):
    return PList(iter_seq(it, v), "list")


# ------------------------------------------------------------------ truth and comparison
def truth_cond(it, v):
    if isinstance(v, bool):
        return v
    if v is None:
        return False
    if isinstance(v, (int, float, str)):
        return bool(v)
    if isz(v):
        if v.sort() == Bool:
            return v
        if v.sort() == Int:
            return v != 0
        if v.sort() in (Real, XR):
            return Not(eq(v, 0.0))
        raise Unsupported("truth of an opaque value")
    if isinstance(v, PList):
        n = v.seq.length()
        return n != 0
    if isinstance(v, SDict):
        if v._conc is not None:
            return len(v._conc) > 0
        if v._keys is not None:
            return v.keys().length() != 0
        q = X.fresh("nonempty", Bool)
        w = X.fresh("nonemptyw", v.ksort)
        x = z3.Const("x", v.ksort)
        X.assume(Implies(q, v.dom(w)))
        X.forall([x], Implies(v.dom(x), q), *[p for p in pick_patterns([x], zb(v.dom(x)))])
        return q
    if isinstance(v, SSet):
        return set_card(v) != 0
    if isinstance(v, SymObj) and v.nullable:
        from .heaplib import NULL
        return v.ref != NULL
    if isinstance(v, (Obj, Func, Cls, SymObj)):
        return True
    if isinstance(v, Arr):
        if v.rank == 0 or (isinstance(v.rank, int) and all(isinstance(v.dim(k), int) and v.dim(k) == 1 for k in range(v.rank))):
            return truth_cond(it, v.val(lambda k: 0))
    raise Unsupported(f"truth value of {type(v).__name__}")


def num_cmp(op, a, b):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]
    if is_int(a) and is_int(b):
        pass
    elif is_xr(a) or is_xr(b):
        x, y = to_xr(a), to_xr(b)
        return {"Lt": xlt(x, y), "LtE": xle(x, y), "Gt": xlt(y, x), "GtE": xle(y, x)}[op]
    else:
        if isinstance(a, float) and a in (float("inf"), float("-inf")) or isinstance(b, float) and b in (float("inf"), float("-inf")):
            return num_cmp(op, to_xr(a), to_xr(b))
        a, b = to_real(a), to_real(b)
    return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[op]


def compare(it, op, a, b):
    if op in ("Is", "IsNot"):
        if a is None or b is None or isinstance(a, (bool,)) or isinstance(b, bool):
            if a is None or b is None:
                v = b if a is None else a
                if isinstance(v, SymObj) and v.nullable:
                    from .heaplib import NULL
                    r = v.ref == NULL
                else:
                    r = a is b
            elif is_bool(a) and is_bool(b):
                r = eq(a, b)
            else:
                r = False
        elif isinstance(a, SymObj) or isinstance(b, SymObj):
            r = eq(a, b)
        elif isinstance(a, (Heap, Cls, TypeRef)) or isinstance(b, (Heap, Cls, TypeRef)):
            r = a is b
        else:
            raise Unsupported("is on values")
        return Not(r) if op == "IsNot" else r
    if op in ("In", "NotIn"):
        r = contains(it, a, b)
        return Not(r) if op == "NotIn" else r
    if op in ("Eq", "NotEq"):
        r = py_eq(it, a, b, op)
        return r
    if isinstance(a, SSet) and isinstance(b, SSet):
        if op == "LtE":
            return subset(a, b)
        if op == "GtE":
            return subset(b, a)
        if op == "Lt":
            return And(subset(a, b), Not(subset(b, a)))
        if op == "Gt":
            return And(subset(b, a), Not(subset(a, b)))
    if is_num(a) and is_num(b):
        return num_cmp(op, a, b)
    if isinstance(a, Arr) or isinstance(b, Arr):
        return arr_map2(it, lambda x, y: num_cmp(op, x, y), a, b, Bool)
    raise Unsupported(f"comparison {op} of {type(a).__name__} and {type(b).__name__}")


def py_eq(it, a, b, op):
    neg = op == "NotEq"
    if isinstance(a, Obj):
        _, m = a.cls.find("__ne__" if neg else "__eq__")
        if m is not None:
            return it.call_func(m, [a, b], {})
        r = a is b
    elif isinstance(b, Obj):
        _, m = b.cls.find("__ne__" if neg else "__eq__")
        if m is not None:
            return it.call_func(m, [b, a], {})
        r = a is b
    elif isinstance(a, Arr) or isinstance(b, Arr):
        if a is None or b is None:
            return neg
        return arr_map2(it, lambda x, y: Not(eq(x, y)) if neg else eq(x, y), a, b, Bool)
    elif isinstance(a, SSet) and isinstance(b, SSet):
        r = set_eq(a, b)
    elif isinstance(a, (Cls, TypeRef, Func)) or isinstance(b, (Cls, TypeRef, Func)):
        r = a is b
    elif isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
        raise Unsupported("comparison of message strings")
    elif isinstance(a, SDict) and isinstance(b, SDict):
        r = dict_eq(it, a, b)
    else:
        r = eq(a, b)
    return Not(r) if neg else r


def dict_eq(it, a, b):
    if a._conc is not None and b._conc is not None and all(not isz(k) for k, _ in a._conc + b._conc):
        if {k for k, _ in a._conc} != {k for k, _ in b._conc}:
            return False
        return And(*[py_eq(it, v, dict(b._conc)[k], "Eq") for k, v in a._conc])
    ks = a.ksort if a.ksort is not None else b.ksort if b.ksort is not None else Name
    q = X.fresh("dicteq", Bool)
    x = z3.Const("x", ks)
    w = X.fresh("dictw", ks)
    body = And(Iff(a.dom(x), b.dom(x)), Implies(a.dom(x), eq(a.get(x), b.get(x))))
    X.forall([x], Implies(q, body))
    X.assume(Implies(Not(q), Or(Not(Iff(a.dom(w), b.dom(w))), And(a.dom(w), Not(eq(a.get(w), b.get(w)))))))
    return q


def contains(it, a, b):
    if isinstance(b, PList):
        if b.seq.items() == []:
            return False
        return b.seq.mem(a)
    if isinstance(b, SSet):
        return b.mem(a)
    if isinstance(b, SDict):
        if b._conc is None and not key_ok(b, a):
            return False
        return b.dom(key(a))
    if isinstance(b, Seq):
        return b.mem(a)
    if is_opq(b):
        return omem(b, to_opq(a))
    if isinstance(a, str) and isinstance(b, str):
        return a in b
    raise Unsupported(f"in {type(b).__name__}")


def key(k):
    if isinstance(k, PList) and k.kind == "tuple":
        from .tuplib import tupterm
        return tupterm(k)
    return X.name_const(k) if isinstance(k, str) else zi(k) if is_int(k) else k


def key_ok(d, k):
    k = key(k)
    return isz(k) and (d.ksort is None or k.sort() == d.ksort)


# ------------------------------------------------------------------ opaque sequences of assignment names
olen = z3.Function("olen", Opq, Int)          # length
ocard = z3.Function("ocard", Opq, Int)        # number of different elements
oat = z3.Function("oat", Opq, Int, Opq)
omem = z3.Function("omem", Opq, Opq, Bool)
opq_int = z3.Function("opq_int", Int, Opq)
opq_name = z3.Function("opq_name", Name, Opq)
opq_range = z3.Function("opq_range", Int, Opq)


def to_opq(v):
    if is_opq(v):
        return v
    if is_int(v):
        return opq_int(zi(v))
    if is_name(v):
        return opq_name(key(v))
    raise Unsupported("opaque value")


# ------------------------------------------------------------------ arithmetic
rmul_ = z3.Function("rmul", Real, Real, Real)


def is_const_num(v):
    return isinstance(v, (int, float)) or (isz(v) and (z3.is_rational_value(v) or z3.is_int_value(v)))


def num_op(op, a, b):
    if isinstance(a, (bool,)):
        a = int(a)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
                    "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b}[op]()
        except ZeroDivisionError:
            raise PyRaise(EXC["ZeroDivisionError"])
    if is_bool(a):
        a = If(a, z3.IntVal(1), z3.IntVal(0))
    if is_bool(b):
        b = If(b, z3.IntVal(1), z3.IntVal(0))
    if is_int(a) and is_int(b):
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op == "FloorDiv":
            return a / b if isinstance(b, int) and b > 0 else _unsup("floor division")
        if op == "Mod":
            return zi(a) % b if isinstance(b, int) and b > 0 else _unsup("modulo")
        if op == "Div":
            a = z3.ToReal(zi(a))
        elif op == "Pow":
            if isinstance(b, int) and 0 <= b <= 4:
                r = 1
                for _ in range(b):
                    r = r * a
                return r
            _unsup("power")
    inf = (float("inf"), float("-inf"))
    if is_xr(a) or is_xr(b) or (isinstance(a, float) and (a in inf or a != a)) or (isinstance(b, float) and (b in inf or b != b)):
        x, y = to_xr(a), to_xr(b)
        f = {"Add": xadd, "Sub": xsub, "Mult": xmul, "Div": xdiv}.get(op)
        if f is None:
            _unsup(f"float operator {op}")
        return f(x, y)
    x, y = to_real(a), to_real(b)
    if op == "Add":
        return x + y
    if op == "Sub":
        return x - y
    if op == "Mult":
        return x * y
    if op == "Div":
        return x / y
    if op == "Pow" and isinstance(b, (int, float)) and b == int(b) and 0 <= b <= 4:
        r = z3.RealVal(1)
        for _ in range(int(b)):
            r = r * x
        return r
    _unsup(f"float operator {op}")


def _unsup(w):
    raise Unsupported(w)


def binop(it, op, a, b):
    if is_tup(a):
        a = PList(iter_seq(it, a), "tuple")
    if is_tup(b):
        b = PList(iter_seq(it, b), "tuple")
    if isinstance(a, Arr) or isinstance(b, Arr):
        h = _pyga(it, "mat_binop", None)
        if op == "MatMult":
            return it.matlib.matmul(it, a, b)
        if isinstance(a, PList):
            a = np_array(it, a)
        if isinstance(b, PList):
            b = np_array(it, b)
        r = arr_map2(it, lambda x, y: num_or_bool(op, x, y), a, b)
        return r
    if is_num(a) and is_num(b) or (is_bool(a) and is_num(b)) or (is_num(a) and is_bool(b)):
        if op in ("BitAnd", "BitOr"):
            return num_or_bool(op, a, b)
        return num_op(op, a, b)
    if is_bool(a) and is_bool(b):
        return num_or_bool(op, a, b)
    if isinstance(a, PList) and isinstance(b, PList):
        if op == "Add":
            if a.kind != b.kind:
                raise PyRaise(EXC["TypeError"], "list + tuple")
            return PList(concat(a.seq, b.seq), a.kind)
    if isinstance(a, PList) and is_int(b) and op == "Mult" or isinstance(b, PList) and is_int(a) and op == "Mult":
        l, n = (a, b) if isinstance(a, PList) else (b, a)
        items = l.seq.items()
        if isinstance(n, int) and items is not None:
            return PList(CSeq(items * n), l.kind)
        if items is not None and len(items) == 1:
            v = items[0]
            return PList(FnSeq(If(n >= 0, n, 0), lambda i: v), l.kind)
    if isinstance(a, (SSet,)) and isinstance(b, SSet):
        return set_op(op, a, b)
    if isinstance(a, (str, OpaqueStr)) and op in ("Add", "Mod"):
        if isinstance(a, str) and isinstance(b, str) and op == "Add":
            return a + b
        return OpaqueStr()
    if isinstance(b, (str, OpaqueStr)) and op in ("Add", "Mod"):
        return OpaqueStr()
    if isinstance(a, str) and op == "Mult":
        return OpaqueStr()
    if isinstance(a, Obj):
        nm = {"Mult": "__mul__", "Div": "__truediv__", "Add": "__add__", "Sub": "__sub__"}.get(op)
        _, m = a.cls.find(nm) if nm else (None, None)
        if m is not None:
            return it.call_func(m, [a, b], {})
    raise Unsupported(f"operator {op} on {type(a).__name__} and {type(b).__name__}")


def num_or_bool(op, x, y):
    if op in ("BitAnd", "BitOr"):
        if is_bool(x) and is_bool(y):
            return And(x, y) if op == "BitAnd" else Or(x, y)
        _unsup("bit operator")
    return num_op(op, x, y)


def concat(a, b):
    ia, ib = a.items(), b.items()
    if ia is not None and ib is not None:
        return CSeq(ia + ib)
    if ia == []:
        return b
    if ib == []:
        return a
    return ConcatSeq(a, b)


def unary(it, op, v):
    if op == "USub":
        if isinstance(v, (int, float)):
            return -v
        if is_xr(v):
            return xneg(v)
        if isz(v) and v.sort() in (Int, Real):
            return -v
        if isinstance(v, Arr):
            return arr_map(it, lambda x: unary(it, "USub", x), v)
    if op == "UAdd":
        return v
    if op == "Invert":
        if is_bool(v):
            return Not(v)
        if isinstance(v, Arr):
            return arr_map(it, lambda x: Not(x), v)
    raise Unsupported(f"unary {op} on {type(v).__name__}")


# ------------------------------------------------------------------ lists
def list_append(it, l, v):
    if not isinstance(l, PList) or l.kind != "list":
        raise Unsupported("append")
    if l.effect("append", v):
        return None
    s = l._seq
    if isinstance(s, CSeq):
        l.set_seq(CSeq(s._items + [v]))
    else:
        l.set_seq(ConcatSeq(s, CSeq([v])))
    return None


def list_extend(it, l, v):
    if l.effect("extend", v):
        return None
    l.set_seq(concat(l._seq, iter_seq(it, v)))
    return None


def run_guard(r):
    """guard of a loop path without the iteration range"""
    return And(*r.guards[1:]) if len(r.guards) > 1 else True


def comps_of(seq):
    return seq.comps if isinstance(seq, TupleSeq) else [seq]


def merged(cases):
    """[(guard, value)] -> value"""
    v = cases[-1][1]
    for g, x in reversed(cases[:-1]):
        v = merge(g, x, v)
    return v


def apply_loop_effects(it, o, effs, norm, seq, i0, n):
    if isinstance(o, PList):
        if all(e[1] == "setitem" for _, e in effs):
            return apply_list_set(it, o, effs, i0, n)
        return apply_append(it, o, effs, norm, seq, i0, n)
    bulk = []
    if isinstance(o, SDict) and all(e[1] == "del" for _, e in effs):
        return apply_del(o, effs, norm, i0, n)
    for r, eff in effs:
        op = eff[1]
        if op == "set":
            bulk.append(([(i0, n)], run_guard(r), eff[2], eff[3]))
        elif op == "bulk":
            for vs, g, k, v in eff[2]:
                bulk.append(([(i0, n)] + vs, And(run_guard(r), g), k, v))
        else:
            raise Unsupported(f"loop effect {op} on {type(o).__name__}")
    if o.effect("bulk", bulk):
        return
    if isinstance(o, Arr):
        apply_bulk_arr(it, o, bulk)
    elif isinstance(o, SDict):
        apply_bulk_dict(it, o, bulk, seq, i0, n)
    else:
        raise Unsupported(f"loop effects on {type(o).__name__}")


def apply_append(it, o, effs, norm, seq, i0, n):
    if any(e[1] == "bulkappend" for _, e in effs) or X.loops and o.birth <= X.loops[-1].start:
        # appending to a list created outside an enclosing loop
        raise Unsupported("appending to a list from nested loops")
    by = {}
    for r, e in effs:
        by.setdefault(id(r), []).append(e)
    if any(len(v) > 1 for v in by.values()):
        raise Unsupported("several appends in one iteration")
    if any(e[1] != "append" for _, e in effs):
        raise Unsupported("extending a list in a loop")
    cases = [(run_guard(r), e[2]) for r, e in effs]
    P = True if len(by) == len(norm) else Or(*[g for g, _ in cases])
    with X.binding(i0, given=InR(0, i0, n)):
        elems = []
        e0 = seq.get(i0) if not isinstance(seq, TupleSeq) else None
        v = merged(cases)
        ident = None
        for c in comps_of(seq):
            ce = c.get(i0)
            if isz(ce) and isz(v) and ce.eq(v):
                ident = c
                break
    if P is True:
        new = ident if ident is not None else MapSeq(seq, lambda i: subst(v, [(i0, zi(i))]))
        if ident is not None and isinstance(seq, TupleSeq) and not same_len(ident, n):
            new = SubSeq(ident, 0, n)
    else:
        p = lambda i: subst(P, [(i0, zi(i))]) if isz(P) else P  # noqa: E731
        if ident is not None:
            with X.binding(i0, given=InR(0, i0, n)):
                el = ident.get(i0)
            xv = z3.Const("xv!f", el.sort())
            Pq = z3.substitute(P, (el, xv)) if isz(P) else P
            q = None
            if not (isz(Pq) and occurs(i0, Pq)):
                q = lambda x: z3.substitute(Pq, (xv, key(x))) if isz(Pq) else Pq  # noqa: E731
            new = FilterSeq(ident, p, q)
        else:
            f = FilterSeq(RangeSeq(0, n), p, trig=elem_trig(seq))
            new = MapSeq(f, lambda i: subst(v, [(i0, f.en.sel(zi(i)))]))
            new.origin = (seq, f)
    o.set_seq(concat(o._seq, new))


def apply_list_set(it, o, effs, i0, n):
    """l[f(i)] = v(i) over a loop: every position holds the last value written to it"""
    if X.loops and o.birth <= X.loops[-1].start or len(effs) != 1:
        raise Unsupported("list item assignments in nested loops or on several paths")
    r, e = effs[0]
    g, p, v = run_guard(r), zi(e[2]), e[3]
    h, last = X.fresh_fn("lhit", [Int], Bool), X.fresh_fn("llast", [Int], Int)
    x = z3.Int("x")
    sub = [(i0, last(x))]
    X.forall([x], Implies(h(x), And(InR(0, last(x), n), subst(g, sub) if isz(g) else g, subst(p, sub) == x)), h(x), last(x))
    X.facts.append(Fact(Implies(And(InR(0, i0, n), g), And(h(p), i0 <= last(p))), [i0]))
    s = o._seq
    o.set_seq(FnSeq(s.length(), lambda k: merge(h(zi(k)), subst(v, [(i0, last(zi(k)))]), s.get(k))))


def elem_trig(seq):
    def trig(i):
        for c in comps_of(seq):
            e = c.get(i)
            e = e.ref if isinstance(e, SymObj) else e
            if isz(e) and occurs(i, e) and not e.eq(i):
                return e
        return None
    return trig


def same_len(c, n):
    m = c.length()
    if isz(m) and isz(n):
        return z3.simplify(m).eq(z3.simplify(n))
    return isinstance(m, int) and isinstance(n, int) and m == n


def apply_bulk_dict(it, d, bulk, seq=None, i0=None, n=None):
    if d._conc is not None and d._conc:
        raise Unsupported("loop insertion into a non-empty literal dictionary")
    ks = None
    for vs, g, k, v in bulk:
        ks = key(k).sort() if isz(key(k)) else None
        if ks is None:
            raise Unsupported("dictionary key kind in a loop")
    empty = d._conc is not None
    old_dom, old_get, old_keys = d._dom, d._get, d._keys
    # all insertions of one loop with the same key expression over one variable?
    vs0, k0 = bulk[0][0], key(bulk[0][2])
    single = len(vs0) == 1 and all(len(b[0]) == 1 and key(b[2]).eq(k0) for b in bulk)
    if single:
        (iv, nn) = vs0[0]
        G = Or(*[b[1] for b in bulk]) if not all(b[1] is True for b in bulk) else True
        # exhaustive over the loop's paths?
        with X.binding(iv):
            val = merged([(b[1], b[3]) for b in bulk])
        comp = None
        if seq is not None and iv is i0:
            for c in comps_of(seq):
                with X.binding(iv):
                    ce = c.get(iv)
                if isz(ce) and ce.eq(k0):
                    comp = c
        if comp is not None and distinct_flag(comp) is True:
            Gs = z3.simplify(zb(G)) if isz(G) else G
            allg = G is True or X.holds(Implies(InR(0, iv, nn), G))
            whole = same_len(comp, nn)
            hit = lambda k: And(comp.mem(k), True if whole else comp.pos(k) < nn,  # noqa: E731
                                True if allg else subst(G, [(iv, zi(comp.pos(k)))]))
            get = lambda k: subst(val, [(iv, zi(comp.pos(k)))])  # noqa: E731
            if ks == Tup and isz(val):      # comp.get(comp.pos(k)) is k for the keys k of the dictionary
                get = lambda k: subst(z3.substitute(val, (k0, key(k))), [(iv, zi(comp.pos(k)))])  # noqa: E731
            keys = None
            if empty and allg:
                keys = comp if whole else SubSeq(comp, 0, nn)
            elif empty:
                xv = z3.Const("xv!d", k0.sort())
                Pq = z3.substitute(zb(G), (k0, xv))
                q = None if occurs(iv, Pq) else (lambda x: z3.substitute(Pq, (xv, key(x))))
                keys = FilterSeq(comp, lambda i: subst(G, [(iv, zi(i))]), q)
            finish_dict(d, hit, get, keys, empty, old_dom, old_get, ks)
            return
    # general case: some iteration (the last one) wrote the entry
    hits = []
    for vs, g, k, v in bulk:
        h = X.fresh_fn("dhit", [ks], Bool)
        last = [X.fresh_fn("dlast", [ks], Int) for _ in vs]
        x = z3.Const("x", ks)
        pairs = [(b, l(x)) for (b, _), l in zip(vs, last)]
        kk = key(k)
        rng = lambda sub: And(*[InR(0, subst(b, sub) if sub else b, subst(nn, sub) if isz(nn) and sub else nn) for b, nn in vs])  # noqa: E731
        gx = subst(g, pairs) if isz(g) else g
        X.forall([x], Implies(h(x), And(rng(pairs), gx, subst(kk, pairs) == x)), h(x), *[l(x) for l in last])
        bvs = [b for b, _ in vs]
        X.facts.append(Fact(Implies(And(rng(None), g), h(kk)), bvs))
        if len(vs) == 1:
            X.facts.append(Fact(Implies(And(rng(None), g), bvs[0] <= last[0](kk)), bvs))
        elif X.holds(inj_goal(vs, g, [kk])):
            for b, l in zip(bvs, last):
                X.facts.append(Fact(Implies(And(rng(None), g), l(kk) == b), bvs))
        hits.append((h, last, vs, v))
        X.memo.setdefault("dfills", []).append((bvs, kk, h, last))
    if len(hits) > 1 and not single:
        raise Unsupported("several insertions per iteration with different keys")

    def hit(k):
        return Or(*[h(k) for h, _, _, _ in hits])

    def get(k):
        if len(hits) == 1:
            h, last, vs, v = hits[0]
            return subst(v, [(b, l(k)) for (b, _), l in zip(vs, last)])
        # same key expression, guards exclusive: the last writer is the one with the largest index
        r = None
        for h, last, vs, v in hits:
            val_ = subst(v, [(vs[0][0], last[0](k))])
            if r is None:
                r, best, hb = val_, last[0](k), h(k)
            else:
                c = And(h(k), Or(Not(hb), last[0](k) > best))
                r = merge(c, val_, r)
                best, hb = If(c, last[0](k), best), Or(hb, h(k))
        return r
    finish_dict(d, hit, get, None, empty, old_dom, old_get, ks)


def finish_dict(d, hit, get, keys, empty, old_dom, old_get, ks):
    d._conc = None
    d.ksort = ks
    d._keys = keys
    if empty:
        d._dom, d._get = hit, get
    else:
        d._dom = lambda k: Or(hit(k), old_dom(k))
        d._get = lambda k: merge(hit(k), get(k), old_get(k))


def inj_goal(vs, g, ks):
    """different iterations write different keys"""
    a = [(b, X.const("ia", Int)) for b, _ in vs]
    c = [(b, X.const("ib", Int)) for b, _ in vs]
    rng = lambda sub: And(*[InR(0, v, subst(n, sub) if isz(n) else n) for (b, n), (_, v) in zip(vs, sub)])  # noqa: E731
    gs = lambda sub: subst(g, sub) if isz(g) else g  # noqa: E731
    same_key = And(*[eq(subst(k, a), subst(k, c)) for k in ks])
    return Implies(And(rng(a), rng(c), gs(a), gs(c), same_key), And(*[x == y for (_, x), (_, y) in zip(a, c)]))


def apply_bulk_arr(it, o, bulk):
    if not isinstance(o.rank, int):
        raise Unsupported("loop writes into an array of unknown rank")
    r = o.rank
    for vs, g, ix, v in bulk:
        bvs = [b for b, _ in vs]
        ix = [zi(x) for x in ix]
        if len(ix) != r:
            raise Unsupported("partial index in a loop write")
        rngv = And(*[InR(0, b, n) for b, n in vs])
        # index inside the array (else IndexError)
        goal = Implies(And(rngv, g), And(*[InR(0, ix[k], o.dim(k)) for k in range(r)]))
        if not X.holds(goal):
            raise Unsupported("loop writes whose indices are not provably inside the array")
        conv = lambda w: to_sort(w, o.es)  # noqa: E731
        plain = {}
        for k, x in enumerate(ix):
            for b in bvs:
                if x.eq(b) and b.get_id() not in [q.get_id() for q in plain.values()]:
                    plain[k] = b
        old = o._val
        if len({b.get_id() for b in plain.values()}) == len(bvs):
            # the loop variables are themselves indices
            def val(K, vs=vs, g=g, ix=ix, v=v, old=old, plain=plain):
                pairs = [(b, zi(K(k))) for k, b in plain.items()]
                cond = [InR(0, p[1], subst(dict_n(vs, p[0]), pairs)) for p in pairs]
                cond += [subst(ix[k], pairs) == zi(K(k)) for k in range(r) if k not in plain]
                c = And(*cond, subst(g, pairs) if isz(g) else g)
                return merge(c, conv(subst(v, pairs)), old(K))
        elif separable(bvs, vs, g, ix):
            # every axis is addressed by its own injective function of one loop variable
            axes = {}
            for k, x in enumerate(ix):
                b = [q for q in bvs if occurs(q, x)]
                if not b or k in plain:
                    continue
                n = dict_n(vs, b[0])
                P = FnSeq(n, lambda i, x=x, b=b[0]: subst(x, [(b, zi(i))]))
                onto = X.holds(zi(n) == zi(o.dim(k)))        # injective into a range of the same size: onto
                pm, pp = P._member()[:2]
                axes[k] = (b[0], pm, pp, onto)
                if onto:
                    q = z3.Int("onto!q")
                    X.forall([q], Implies(InR(0, q, n), pm(q)), pm(q), pp(q))

            def val(K, vs=vs, ix=ix, v=v, old=old, plain=plain, axes=axes, g=g):
                pairs = [(b, zi(K(k))) for k, b in plain.items()]
                pairs += [(b, pp(zi(K(k)))) for k, (b, _, pp, _) in axes.items()]
                cond = [InR(0, zi(K(k)), dict_n(vs, b)) for k, b in plain.items()]
                cond += [pm(zi(K(k))) for k, (_, pm, _, onto) in axes.items() if not onto]
                cond += [ix[k] == zi(K(k)) for k in range(r) if k not in plain and k not in axes and not (z3.is_int_value(ix[k]) and o.dim(k) == 1)]
                return merge(And(*cond, g), conv(subst(v, pairs)), old(K))
        else:
            ks = [Int] * r
            h = X.fresh_fn("ahit", ks, Bool)
            last = [X.fresh_fn("alast", ks, Int) for _ in vs]
            xs = [z3.Int(f"x{k}") for k in range(r)]
            pairs = [(b, l(*xs)) for b, l in zip(bvs, last)]
            rs = And(*[InR(0, p[1], subst(n, pairs) if isz(n) else n) for p, (_, n) in zip(pairs, vs)])
            X.forall(xs, Implies(h(*xs), And(rs, subst(g, pairs) if isz(g) else g, *[subst(ix[k], pairs) == xs[k] for k in range(r)])), h(*xs))
            pre = And(rngv, g)
            X.facts.append(Fact(Implies(pre, h(*ix)), bvs, idx_pats(bvs, ix)))
            if X.holds(inj_goal(vs, g, ix)):
                for b, l in zip(bvs, last):
                    X.facts.append(Fact(Implies(pre, l(*ix) == b), bvs, idx_pats(bvs, ix)))

            def val(K, vs=vs, g=g, v=v, old=old, h=h, last=last):
                a = [zi(K(k)) for k in range(r)]
                prs = [(b, l(*a)) for (b, _), l in zip(vs, last)]
                return merge(h(*a), conv(subst(v, prs)), old(K))
        arr_store(o, val)


def separable(bvs, vs, g, ix):
    used = []
    for x in ix:
        b = [q for q in bvs if occurs(q, x)]
        if len(b) > 1:
            return False
        if b:
            used.append((b[0], x))
    if len(used) != len(bvs) or len({b.get_id() for b, _ in used}) != len(bvs):
        return False
    if isz(g) and any(occurs(b, g) for b in bvs) or any(isz(n) and occurs(b, n) for _, n in vs for b in bvs):
        return False
    return all(x.eq(b) or X.holds(FnSeq(dict_n(vs, b), lambda i, x=x, b=b: subst(x, [(b, zi(i))])).distinct_goal()) for b, x in used)


def idx_pats(bvs, ix):
    """multi-pattern made of one term per loop variable taken from the index expressions"""
    out = []
    for b in bvs:
        c = None
        for x in ix:
            for p in pick_patterns([b], x):
                if len(p) == 1:
                    c = p[0]
                    break
            if c is not None:
                break
        if c is None:
            return None
        out.append(c)
    return [out]


def dict_n(vs, b):
    for x, n in vs:
        if x.eq(b):
            return n


def to_sort(v, es):
    if es == XR:
        return to_xr(v)
    if es == Real:
        if is_xr(v):
            raise Unsupported("a possibly infinite value stored into a real array")
        return to_real(v)
    if es == Int:
        return zi(v)
    return v


def arr_store(o, val):
    r = o.root()
    if r is not o:
        raise Unsupported("writing through an array view")
    o._val = val
    o.ver += 1
    o.mx = None


def arr_assign_all(it, o, new):
    """o[...] = new (same shape)"""
    if o.effect("assign"):
        raise Unsupported("whole-array update in a loop")
    if isinstance(new.rank, int) and isinstance(o.rank, int) and new.rank != o.rank:
        raise Unsupported("in-place broadcasting")
    r = o.root()
    if r is not o:
        raise Unsupported("in-place update of an array view")
    o._val = new._val if new.es == o.es else (lambda K: to_sort(new._val(K), o.es))
    o.es = o.es if new.es == o.es else o.es
    o.mx = new.mx
    o.ver += 1


def accumulator(it, a, v0, c, norm, vals, seq, i0, n):
    """x = x + f(i) over a loop"""
    if isz(c) and c.sort().name() == "Fac":
        from .heaplib import fac_accumulator
        return fac_accumulator(it, a, v0, c, norm, vals, seq, i0, n)
    if is_bool(v0):
        # ok = ok and p(i)   /   found = found or p(i)
        cases = [(run_guard(r), zb(v)) for r, v in zip(norm, vals)]
        f = merged(cases)
        t0, t1 = z3.simplify(z3.substitute(f, (c, z3.BoolVal(True)))), z3.simplify(z3.substitute(f, (c, z3.BoolVal(False))))
        if z3.is_false(t1):          # conjunction
            q = X.fresh("allq", Bool)
            w = X.fresh("allw", Int)
            X.facts.append(Fact(Implies(And(q, InR(0, i0, n)), t0), [i0]))
            X.assume(Implies(Not(q), And(InR(0, w, n), Not(z3.substitute(t0, (i0, w))))))
            return And(v0, q)
        if z3.is_true(t0):           # disjunction
            q = X.fresh("anyq", Bool)
            w = X.fresh("anyw", Int)
            X.facts.append(Fact(Implies(And(Not(q), InR(0, i0, n)), Not(t1)), [i0]))
            X.assume(Implies(q, And(InR(0, w, n), z3.substitute(t1, (i0, w)))))
            return Or(v0, q)
    return I.Poison(f"{a} is accumulated by a loop in a way that is not summarised")


# ------------------------------------------------------------------ subscripts
def norm_index(it, i, n, what="index"):
    """python index -> position, IndexError when out of range"""
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n:
            raise PyRaise(EXC["IndexError"], what)
        return i if i >= 0 else i + n
    if isinstance(i, int):
        if i >= 0:
            X.require(zi(n) > i, EXC["IndexError"], what)
            return i
        X.require(zi(n) >= -i, EXC["IndexError"], what)
        return n + i
    X.require(And(-zi(n) <= i, i < zi(n)), EXC["IndexError"], what)
    if X.holds(i >= 0, 1000):
        return i
    return If(i >= 0, i, i + n)


def slice_bounds(it, s, n):
    if s.step is not None and s.step != 1:
        raise Unsupported("slice step")
    lo = 0 if s.start is None else s.start
    hi = n if s.stop is None else s.stop

    def clip(x):
        if isinstance(x, int) and isinstance(n, int):
            return max(0, min(n, x if x >= 0 else n + x))
        if isinstance(x, int) and x == 0:
            return 0
        if x is n:
            return n
        if isinstance(x, int) and x < 0:
            y = n + x
            return If(y >= 0, y, 0)
        if isinstance(x, int):
            return If(zi(n) >= x, x, n) if not X.holds(zi(n) >= x, 1000) else x
        y = If(x >= 0, x, x + n)
        y = If(y >= 0, y, 0)
        return If(y <= n, y, n)
    lo, hi = clip(lo), clip(hi)
    if isinstance(lo, int) and isinstance(hi, int):
        return lo, max(0, hi - lo)
    d = hi - lo if not (isinstance(lo, int) and lo == 0) else hi
    if not (isinstance(lo, int) and lo == 0) and not X.holds(zi(d) >= 0, 1000):
        d = If(d >= 0, d, 0)
    return lo, d


def getitem(it, o, ix):
    if is_tup(o):
        o = PList(iter_seq(it, o), "tuple")
    if isinstance(o, PList):
        if isinstance(ix, slice):
            lo, n = slice_bounds(it, ix, o.seq.length())
            items = o.seq.items()
            if items is not None and isinstance(lo, int) and isinstance(n, int):
                return PList(CSeq(items[lo:lo + n]), o.kind)
            return PList(SubSeq(o.seq, lo, n), o.kind)
        if is_int(ix):
            return o.seq.get(norm_index(it, ix, o.seq.length(), "list index"))
    if isinstance(o, SDict):
        k = key(ix)
        if not isinstance(ix, PList) and o._conc is not None and not isz(ix) and all(not isz(a) for a, _ in o._conc):
            for a, b in o._conc:
                if a == ix:
                    return b
            raise PyRaise(EXC["KeyError"], str(ix))
        if o._conc is not None and not o._conc:
            raise PyRaise(EXC["KeyError"])
        X.require(contains(it, ix, o), EXC["KeyError"], "dictionary lookup")
        return o.get(k)
    if isinstance(o, Arr):
        return arr_getitem(it, o, ix)
    if is_opq(o) and is_int(ix):
        X.require(InR(0, ix, olen(o)), EXC["IndexError"], "tuple index")
        return oat(o, zi(ix))
    if isinstance(o, CondValue):
        return merged([(c, getitem(it, v, ix)) for c, v in o.cases])
    h = _pyga(it, "getitem_hooks", {}).get(type(o))
    if h:
        return h(it, o, ix)
    if isinstance(o, Obj):
        _, m = o.cls.find("__getitem__")
        if m is not None:
            return it.call_func(m, [o, ix], {})
    raise Unsupported(f"subscript of {type(o).__name__}")


def setitem(it, o, ix, v):
    if hasattr(o, "nest_setitem"):
        return o.nest_setitem(it, ix, v)
    if isinstance(o, SDict):
        if isinstance(ix, PList) and ix.kind == "tuple":
            ix = key(ix)
        if o.effect("set", key(ix) if not isinstance(ix, PList) else ix, v):
            return
        if o._conc is not None:
            if not isz(ix) and not isinstance(ix, PList) and all(not isz(a) and not isinstance(a, PList) for a, _ in o._conc):
                o._conc = [(a, b) for a, b in o._conc if a != ix] + [(ix, v)] if ix not in [a for a, _ in o._conc] else \
                    [(a, v if a == ix else b) for a, b in o._conc]
                return
            k = key(ix)
            if isinstance(ix, PList):
                raise Unsupported("tuple keys")
            conc = list(o._conc)
            o._conc = None
            o.ksort = k.sort()
            o._dom = lambda q: Or(*[eq(a, q) for a, _ in conc])
            o._get = (lambda q: merged([(eq(a, q), b) for a, b in reversed(conc)])) if conc else (lambda q: v)
            o._keys = CSeq([a for a, _ in conc]) if conc else CSeq([])
        k = key(ix)
        od, og, okeys = o._dom, o._get, o._keys
        isin = od(k)
        o._dom = lambda q: Or(eq(q, k), od(q))
        o._get = lambda q: merge(eq(q, k), v, og(q))
        o._keys = None
        if okeys is not None:
            if isin is False or X.holds(Not(isin), 1000):
                o._keys = concat(okeys, CSeq([ix]))
            elif isin is True or X.holds(isin, 1000):
                o._keys = okeys
        return
    if isinstance(o, PList):
        if o.kind == "tuple":
            raise PyRaise(EXC["TypeError"], "tuple assignment")
        if isinstance(ix, slice):
            raise Unsupported("slice assignment")
        n = o._seq.length()
        p = norm_index(it, ix, n)
        if o.effect("setitem", p, v):
            return
        s = o._seq
        items = s.items()
        if items is not None and isinstance(p, int):
            o.set_seq(CSeq(items[:p] + [v] + items[p + 1:]))
        else:
            o.set_seq(FnSeq(n, lambda i: merge(zi(i) == p, v, s.get(i))))
        return
    if isinstance(o, Arr):
        return arr_setitem(it, o, ix, v)
    raise Unsupported(f"item assignment on {type(o).__name__}")


# ------------------------------------------------------------------ arrays
def shape_tuple(a):
    if isinstance(a.rank, int):
        return PList(CSeq([a.dim(k) for k in range(a.rank)]), "tuple")
    return PList(FnSeq(a.rank, lambda i: a.dim(i)), "tuple")


def arr_map(it, f, a, es=None):
    if not isinstance(a, Arr):
        return f(a)
    av = freeze(a)
    if es is None:
        with_probe = f(av(lambda k: z3.Int("probe")) if isinstance(a.rank, int) else z3.Const("probe!v", a.es))
        es = with_probe.sort() if isz(with_probe) else XR
    return Arr(a.rank, a.dim, lambda K: coerce(f(av(K)), es), es)


def freeze(a):
    """the current contents of a, unaffected by later in-place changes"""
    a.touch()
    r = a.root()
    if r is not a and a.ver != r.ver:
        raise Unsupported("reading an array view after its base array changed")
    return a._val


def coerce(v, es):
    if es == XR:
        return to_xr(v)
    if es == Real:
        return to_real(v)
    if es == Int:
        return zi(v)
    if es == Bool:
        return zb(v)
    return v


def const_of(a):
    return a


def arr_map2(it, f, a, b, es=None):
    if isinstance(a, PList):
        a = np_array(it, a)
    if isinstance(b, PList):
        b = np_array(it, b)
    A, B = isinstance(a, Arr), isinstance(b, Arr)
    if not A and not B:
        return f(a, b)
    if es is None:
        pa = z3.Const("probe!a", a.es) if A else a
        pb = z3.Const("probe!b", b.es) if B else b
        p = f(pa, pb)
        es = p.sort() if isz(p) else Bool if isinstance(p, bool) else Int if isinstance(p, int) else XR
    if A and not B:
        if not (is_num(b) or is_bool(b)):
            raise Unsupported(f"array operator with {type(b).__name__}")
        av = freeze(a)
        return Arr(a.rank, a.dim, lambda K: coerce(f(av(K), b), es), es)
    if B and not A:
        if not (is_num(a) or is_bool(a)):
            raise Unsupported(f"array operator with {type(a).__name__}")
        bv = freeze(b)
        return Arr(b.rank, b.dim, lambda K: coerce(f(a, bv(K)), es), es)
    av, bv = freeze(a), freeze(b)
    rank, dim, ka, kb = broadcast(it, a, b)
    return Arr(rank, dim, lambda K: coerce(f(av(ka(K)), bv(kb(K))), es), es)


def one(d):
    return eq(d, 1)


def broadcast(it, a, b):
    """numpy broadcasting: result rank, dims, index maps"""
    ra, rb = a.rank, b.rank
    da, db = a.dim, b.dim
    if isinstance(ra, int) and isinstance(rb, int):
        r = max(ra, rb)
        oa, ob = r - ra, r - rb
        dims = []
        for k in range(r):
            x = da(k - oa) if k >= oa else 1
            y = db(k - ob) if k >= ob else 1
            X.require(Or(eq(x, y), one(x), one(y)), EXC["ValueError"], "broadcast")
            dims.append(x if (isz(x) and isz(y) and x.eq(y)) or x is y else If(one(x), y, x))
        mk = lambda off, rr, dd: (lambda K: (lambda k: K(k + off) if same_dim(dd(k), dims[k + off]) else If(one(dd(k)), 0, K(k + off))))  # noqa: E731
        return r, (lambda k: dims[k] if isinstance(k, int) else CSeq(dims).get(k)), mk(oa, ra, da), mk(ob, rb, db)
    if not X.holds(zi(ra) == zi(rb)):
        raise Unsupported("broadcasting of arrays whose numbers of dimensions are not provably equal")
    d = X.const("bcd", Int)
    g = Implies(InR(0, d, ra), Or(eq(da(d), db(d)), one(da(d)), one(db(d))))
    if not X.holds(g):
        q = X.const("bcok", Bool)
        e = z3.Int("e")
        x, y = zi(da(e)), zi(db(e))
        X.forall([e], Implies(And(q, InR(0, e, ra)), Or(x == y, x == 1, y == 1)))
        X.assume(Implies(Not(q), Not(g)))
        X.require(q, EXC["ValueError"], "broadcast")
    dim = lambda k: If(one(da(k)), db(k), da(k))  # noqa: E731
    same = X.holds(Implies(InR(0, d, ra), eq(da(d), db(d))))
    if same:
        return ra, da, (lambda K: K), (lambda K: K)
    mk = lambda dd: (lambda K: (lambda k: If(one(dd(k)), 0, K(k))))  # noqa: E731
    return ra, dim, mk(da), mk(db)


def same_dim(x, y):
    return x is y or (isinstance(x, int) and isinstance(y, int) and x == y) or (isz(x) and isz(y) and x.eq(y))


def arr_index(it, a, ixs, inside=False):
    """a[i, j, ...] with integer indices for the first axes of an array of known rank (inside: 0 <= i < length is known)"""
    m = len(ixs)
    if not isinstance(a.rank, int):
        raise Unsupported("indexing an array of unknown rank")
    if m > a.rank:
        raise PyRaise(EXC["IndexError"], "too many indices")
    pos = list(ixs) if inside else [norm_index(it, i, a.dim(k), "array index") for k, i in enumerate(ixs)]
    if m == a.rank:
        return a.val(lambda k: pos[k])
    av = freeze(a)
    return a.view(a.rank - m, lambda k: a.dim(k + m), lambda K: av(lambda k: pos[k] if k < m else K(k - m)))


class Ix:
    """np.ix_ result"""

    def __init__(self, seqs):
        self.seqs = seqs


core.IMMUTABLE.append(Ix)


def arr_getitem(it, a, ix):
    if isinstance(ix, NdElem):
        a.touch()
        return a.val(lambda k: ix.at(k))
    if isinstance(ix, Ix):
        return arr_ix(it, a, ix.seqs)
    if isinstance(ix, PList) and ix.kind == "tuple":
        items = ix.seq.items()
        if items is None or not isinstance(a.rank, int):
            return arr_symbolic_index(it, a, ix.seq)
        if all(is_int(i) for i in items):
            return arr_index(it, a, items)
        if all(is_int(i) or isinstance(i, slice) or i is None for i in items):
            return arr_basic(it, a, items)
        if len(items) == 2 and isinstance(items[0], slice) and items[0] == slice(None, None, None) and isinstance(items[1], PList):
            return arr_take(it, a, 1, items[1].seq)
        raise Unsupported("array index kind")
    if is_int(ix):
        return arr_index(it, a, [ix])
    if isinstance(ix, slice):
        return arr_basic(it, a, [ix])
    if isinstance(ix, PList) and ix.kind == "list":
        return arr_take(it, a, 0, ix.seq)
    if isinstance(ix, Arr) and ix.es == Bool:
        raise Unsupported("boolean array index")
    raise Unsupported("array index kind")


def arr_basic(it, a, items):
    if not isinstance(a.rank, int):
        raise Unsupported("slicing an array of unknown rank")
    if sum(i is not None for i in items) > a.rank:
        raise PyRaise(EXC["IndexError"], "too many indices")
    items = list(items) + [slice(None)] * (a.rank - sum(i is not None for i in items))
    maps, dims, src = [], [], 0
    plan = []
    for s in items:
        if s is None:
            dims.append(1)
        elif isinstance(s, slice):
            lo, n = slice_bounds(it, s, a.dim(src))
            plan.append(("s", lo, len(dims)))
            dims.append(n)
            src += 1
        else:
            plan.append(("i", norm_index(it, s, a.dim(src), "array index"), None))
            src += 1
    av = freeze(a)

    def val(K):
        def KK(k):
            t, x, j = plan[k]
            return x if t == "i" else (K(j) if isinstance(x, int) and x == 0 else x + K(j))
        return av(KK)
    if not dims:
        return val(lambda k: 0)
    r = a.view(len(dims), lambda k: dims[k] if isinstance(k, int) else CSeq(dims).get(k), val)
    return r


def arr_take(it, a, axis, seq):
    """a.take(list, axis): a copy"""
    if not isinstance(a.rank, int):
        raise Unsupported("list index into an array of unknown rank")
    check_indices(it, seq, a.dim(axis))
    av = freeze(a)
    n = seq.length()
    dims = [n if k == axis else a.dim(k) for k in range(a.rank)]
    r = Arr(a.rank, lambda k: dims[k] if isinstance(k, int) else CSeq(dims).get(k),
            lambda K: av(lambda k: seq.get(K(k)) if k == axis else K(k)), a.es)
    if a.mx is not None and hasattr(it, "matlib"):
        it.matlib.take(it, a, axis, seq, r)
    return r


def check_indices(it, seq, n):
    items = seq.items()
    if items is not None:
        for i in items:
            X.require(And(0 <= zi(i), zi(i) < zi(n)) if not (isinstance(i, int) and isinstance(n, int)) else 0 <= i < n, EXC["IndexError"], "array index")
        return
    j = X.const("cij", Int)
    g = seq.get(j)
    if not is_int(g):
        raise Unsupported("index list of non-integers")
    if not X.holds(Implies(InR(0, j, seq.length()), InR(0, g, n))):
        raise Unsupported("index list not provably inside the array")


def arr_ix(it, a, seqs):
    if a.rank != len(seqs):
        raise Unsupported("ix_ rank")
    for k, s in enumerate(seqs):
        check_indices(it, s, a.dim(k))
    av = freeze(a)
    dims = [s.length() for s in seqs]
    r = Arr(a.rank, lambda k: dims[k] if isinstance(k, int) else CSeq(dims).get(k),
            lambda K: av(lambda k: seqs[k].get(K(k))), a.es)
    if a.mx is not None and hasattr(it, "matlib"):
        it.matlib.ix(it, a, seqs, r)
    return r


def arr_symbolic_index(it, a, seq):
    """index tuple of symbolic length whose entries are integers or full slices"""
    n = seq.length()
    X.require(zi(n) <= zi(a.rank), EXC["IndexError"], "too many indices")
    if not X.holds(zi(n) == zi(a.rank)):
        raise Unsupported("index tuple not provably as long as the number of dimensions")

    def cases(k):
        v = seq.get(k)
        cs = v.cases if isinstance(v, CondValue) else [(True, v)]
        isl, val = [], None
        for c, x in cs:
            if isinstance(x, slice):
                if x != slice(None, None, None):
                    raise Unsupported("partial slices in a symbolic index")
                isl.append(c)
            elif is_int(x):
                val = zi(x) if val is None else If(c, zi(x), val)
            else:
                raise Unsupported(f"index entries of kind {type(x).__name__}")
        return Or(*isl), val
    d = X.const("sxd", Int)
    sl, val = cases(d)
    if val is not None:
        # integer entries must be inside the axis
        g = Implies(And(InR(0, d, n), Not(sl)), InR(0, val, a.dim(d)))
        if not X.holds(g):
            q = X.const("inrange", Bool)
            e = X.const("e", Int)
            s2, v2 = cases(e)
            X.facts.append(Fact(Implies(And(q, InR(0, e, n), Not(s2)), InR(0, v2, a.dim(e))), [e]))
            X.assume(Implies(Not(q), Not(g)))
            X.require(q, EXC["IndexError"], "array index")
    av = freeze(a)
    en = Enum(a.rank, lambda k: cases(k)[0], "ax")

    def val_(K):
        def KK(k):
            s, v = cases(k)
            if v is None:
                return K(en.rk(zi(k)))
            return If(s, zi(K(en.rk(zi(k)))), v)
        return av(KK)
    if sl is False:
        return av(lambda k: cases(k)[1])
    if X.holds(en.cnt == 0, 1500):
        return av(lambda k: cases(k)[1])
    # numpy returns a scalar when every entry is an integer; as an operand both behave alike
    r = a.view(en.cnt, lambda k: a.dim(en.sel(zi(k))), val_)
    return r


def arr_setitem(it, o, ix, v):
    if isinstance(ix, PList) and ix.kind == "tuple":
        items = ix.seq.items()
    else:
        items = [ix]
    if isinstance(ix, NdElem) or items is None or not isinstance(o.rank, int):
        raise Unsupported("array assignment")
    if all(is_int(i) for i in items) and len(items) == o.rank:
        if X.loops and o.birth <= X.loops[-1].start:
            o.effect("set", [zi(i) for i in items], v if not isinstance(v, Arr) else scalar_of(it, v))
            return
        pos = [norm_index(it, i, o.dim(k), "array index") for k, i in enumerate(items)]
        if o.effect("set"):
            return
        w = to_sort(scalar_of(it, v) if isinstance(v, Arr) else v, o.es)
        old = o._val
        arr_store(o, lambda K: merge(And(*[eq(K(k), pos[k]) for k in range(o.rank)]), w, old(K)))
        return
    if all(is_int(i) or isinstance(i, slice) for i in items):
        # a[..., i, lo:hi] = array or scalar
        items = items + [slice(None)] * (o.rank - len(items))
        plan, nd = [], 0
        for k, s in enumerate(items):
            if isinstance(s, slice):
                lo, n = slice_bounds(it, s, o.dim(k))
                plan.append(("s", lo, n, nd))
                nd += 1
            else:
                plan.append(("i", norm_index(it, s, o.dim(k), "array index"), None, None))
        if isinstance(v, Arr):
            if not isinstance(v.rank, int) or v.rank > nd:
                raise Unsupported("array assignment of higher rank")
            off = nd - v.rank
            sl = [p for p in plan if p[0] == "s"]
            for q in range(v.rank):
                X.require(Or(eq(v.dim(q), sl[q + off][2]), one(v.dim(q))), EXC["ValueError"], "could not broadcast")
            vv = freeze(v)
            vd = v.dim
            val = lambda idx: vv(lambda q: 0 if isinstance(vd(q), int) and vd(q) == 1 else If(one(vd(q)), 0, idx[q + off]))  # noqa: E731
        else:
            val = lambda idx: v  # noqa: E731
        if o.effect("setslice"):
            raise Unsupported("slice assignment in a loop")
        old = o._val

        def new(K):
            cond, idx = [], []
            for k, p in enumerate(plan):
                if p[0] == "i":
                    cond.append(eq(K(k), p[1]))
                else:
                    cond.append(InR(p[1], zi(K(k)), p[1] + p[2]))
                    idx.append(K(k) - p[1])
            return merge(And(*cond), to_sort(val(idx), o.es), old(K))
        arr_store(o, new)
        return
    raise Unsupported("array assignment index")


def scalar_of(it, v):
    if isinstance(v, Arr):
        if isinstance(v.rank, int):
            for k in range(v.rank):
                X.require(eq(v.dim(k), 1), EXC["ValueError"], "only size-1 arrays can be converted")
            return v.val(lambda k: 0)
        raise Unsupported("array used as a scalar")
    return v


def np_array(it, v):
    if isinstance(v, Arr):
        av = freeze(v)
        r = Arr(v.rank, v.dim, av, v.es, label=v.label)
        r.mx = v.mx
        return r
    if is_num(v) or is_bool(v):
        es = v.sort() if isz(v) else Bool if isinstance(v, bool) else Int if isinstance(v, int) else XR
        w = coerce(v, es)
        return Arr(0, lambda k: None, lambda K: w, es)
    if isinstance(v, (PList, Seq)):
        s = v.seq if isinstance(v, PList) else v
        items = s.items()
        if items is not None:
            if not items:
                return Arr(1, lambda k: 0, lambda K: XR.fin(0), XR)
            subs = [np_array(it, x) for x in items]
            r0 = subs[0].rank
            if any(x.rank != r0 for x in subs) or not isinstance(r0, int):
                raise Unsupported("ragged array literal")
            es = join_sort([x.es for x in subs])
            for x in subs[1:]:
                for k in range(r0):
                    X.require(eq(x.dim(k), subs[0].dim(k)), EXC["ValueError"], "inhomogeneous array")
            vals = [freeze(x) for x in subs]
            dims = [len(items)] + [subs[0].dim(k) for k in range(r0)]
            return Arr(r0 + 1, lambda k: dims[k] if isinstance(k, int) else CSeq(dims).get(k),
                       lambda K: merged_idx(K(0), [coerce(f(lambda k: K(k + 1)), es) for f in vals]), es)
        e = s.get(z3.Int("probe"))
        if is_num(e):
            es = e.sort() if isz(e) else XR
            return Arr(1, lambda k: s.length(), lambda K: coerce(s.get(K(0)), es), es)
        if isinstance(e, PList):
            pr = z3.Int("probe")
            with X.binding(pr):
                n1 = s.get(pr)._seq.length()
            if not X.branch(zi(s.length()) > 0):
                return Arr(1, lambda k: 0, lambda K: XR.fin(0), XR)
            if isz(n1) and occurs(pr, n1):  # rows of one provably equal length
                first = s.get(z3.IntVal(0))._seq.length()
                c = X.const("row", Int)
                with X.local():
                    X.assume(InR(0, c, s.length()))
                    if not X.holds(zi(s.get(c)._seq.length()) == zi(first)):
                        raise Unsupported("ragged array literal")
                n1 = first
            return Arr(2, lambda k: (s.length(), n1)[k] if isinstance(k, int) else If(k == 0, zi(s.length()), zi(n1)),
                       lambda K: to_xr(s.get(K(0))._seq.get(K(1))), XR)
    raise Unsupported("np.array argument")


def merged_idx(i, vals):
    if isinstance(i, int):
        return vals[i]
    v = vals[-1]
    for k in range(len(vals) - 2, -1, -1):
        v = merge(i == k, vals[k], v)
    return v


def join_sort(ss):
    for s in (XR, Real, Int, Bool):
        if any(x == s for x in ss):
            return s


# ------------------------------------------------------------------ attributes and methods of modelled values
def method(name):
    def deco(f):
        METHODS[name] = f
        return f
    return deco


METHODS = {}


def getattr_(it, o, name):
    if isinstance(o, Arr):
        if name == "shape":
            return shape_tuple(o)
        if name == "ndim":
            return o.rank
        if name == "T":
            return np_transpose(it, [o], {})
        if name == "size":
            if isinstance(o.rank, int):
                r = 1
                for k in range(o.rank):
                    r = r * o.dim(k)
                return r
        return Builtin("ndarray." + name, lambda i, a, k: arr_method(i, name, o, a, k))
    if isinstance(o, PList):
        return Builtin("list." + name, lambda i, a, k: list_method(i, name, o, a, k))
    if isinstance(o, SDict):
        return Builtin("dict." + name, lambda i, a, k: dict_method(i, name, o, a, k))
    if isinstance(o, SSet):
        return Builtin("set." + name, lambda i, a, k: set_method(i, name, o, a, k))
    if is_name(o):
        return Builtin("str." + name, lambda i, a, k: str_method(i, name, o, a, k))
    if isz(o) and o.sort().name() in it.sort_attrs:
        return it.sort_attrs[o.sort().name()](it, o, name)
    if isinstance(o, OpaqueStr):
        return Builtin("str." + name, lambda i, a, k: OpaqueStr())
    if isinstance(o, ExcValue) and name == "args":
        return PList(CSeq([OpaqueStr()]), "tuple")
    if (is_xr(o) or is_real(o) or isinstance(o, (int, float))) and name in ("item", "copy"):
        return Builtin(name, lambda i, a, k: o)
    if isinstance(o, Opaque):
        return Builtin(name, lambda i, a, k: Opaque("opaque"))
    if isinstance(o, TypeRef) and name in _pyga(o, "attrs", {}):
        return o.attrs[name]
    h = _pyga(it, "getattr_hooks", {}).get(type(o))
    if h:
        return h(it, o, name)
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


def arr_method(it, name, o, a, k):
    if name == "copy":
        return np_array(it, o)
    if name == "transpose":
        return np_transpose(it, [o] + list(a), k)
    if name in ("sum", "max", "min", "argmax", "squeeze", "ravel", "all", "any", "mean", "flatten", "dot"):
        f = it.libs["numpy"].attrs.get(name)
        if f is not None:
            return it.call(f, [o] + list(a), k)
    if name == "astype":
        return o
    if name == "item":
        return scalar_of(it, o)
    if name == "tolist" and o.rank == 1:
        return PList(FnSeq(o.dim(0), lambda i: o.val(lambda k: i)))
    raise Unsupported(f"ndarray.{name}")


def list_method(it, name, o, a, k):
    if name == "append":
        return list_append(it, o, a[0])
    if name == "extend":
        return list_extend(it, o, a[0])
    if name == "copy":
        return PList(o.seq, "list")
    if name == "index":
        v = a[0]
        if isz(v) or isinstance(v, (str, int)):
            m = o.seq.mem(v)
            X.require(m, EXC["ValueError"], "not in list")
            return o.seq.pos(v)
    if name == "sort" or name == "reverse":
        s = o.seq
        if o.effect(name):
            raise Unsupported("sorting in a loop")
        o.set_seq(sorted_seq(s))
        return None
    if name == "count":
        raise Unsupported("list.count")
    if name == "pop":
        items = o.seq.items()
        s = o.seq
        n = s.length()
        ix = a[0] if a else -1
        p = norm_index(it, ix, n)
        if o.effect("pop"):
            raise Unsupported("pop in a loop")
        v = s.get(p)
        if items is not None and isinstance(p, int):
            o.set_seq(CSeq(items[:p] + items[p + 1:]))
        else:
            o.set_seq(FnSeq(n - 1, lambda i: merge(zi(i) < p, s.get(i), s.get(i + 1))))
        return v
    raise Unsupported(f"list.{name}")


def sorted_seq(s):
    """a sorted permutation of s (the order itself is not modelled)"""
    if s.items() is not None and len(s.items()) <= 1:
        return s
    if distinct_flag(s) is not True:
        raise Unsupported("sorting a list with duplicates")
    b = BaseSeq("sorted", s.esort(), length=s.length(), distinct=True)
    x = z3.Const("x", s.esort())
    m = s.mem(x)
    X.forall([x], Iff(b.mem(x), m), *([b._mem(x)] + ([p for p in pick_patterns([x], m)] if isz(m) else [])))
    return b


def dict_method(it, name, o, a, k):
    if name == "keys":
        return PList(need_keys(o), "list")
    if name == "values":
        s = need_keys(o)
        if o._conc is not None:
            return PList(CSeq([v for _, v in o._conc]))
        if hasattr(o, "values_seq"):
            return PList(o.values_seq)
        return PList(MapSeq(s, lambda i: o.get(s.get(i))))
    if name == "items":
        s = need_keys(o)
        if o._conc is not None:
            return PList(CSeq([PList(CSeq([kk, v]), "tuple") for kk, v in o._conc]))
        r = PList(TupleSeq([s, MapSeq(s, lambda i: o.get(s.get(i)))]))
        r.items_of = (o, s)
        return r
    if name == "get":
        d = a[1] if len(a) > 1 else None
        if o._conc is not None and not isz(a[0]):
            for kk, v in o._conc:
                if kk == a[0]:
                    return v
            return d
        if X.branch(contains(it, a[0], o)):
            return o.get(key(a[0]))
        return d
    if name == "copy":
        return o.clone()
    if name == "update":
        return dict_update(it, o, a[0] if a else SDict(None, None, None, None, conc=list(k.items())))
    if name == "pop":
        raise Unsupported("dict.pop")
    raise Unsupported(f"dict.{name}")


def need_keys(o):
    s = o.keys()
    if s is None:
        # any enumeration of the keys
        b = BaseSeq("dkeys", o.ksort, distinct=True)
        x = z3.Const("x", o.ksort)
        m = o.dom(x)
        X.forall([x], Iff(b.mem(x), m), *([b._mem(x)] + ([p for p in pick_patterns([x], m)] if isz(m) else [])))
        o._keys = b
        s = b
    return s


def dict_delete(it, o, k):
    """del d[k]"""
    if not isinstance(o, SDict) or o._conc is not None or not hasattr(o, "_dom") or o.__class__ is not SDict:
        raise Unsupported("del")
    k = key(k)
    X.require(o._dom(k), EXC["KeyError"], "del")        # inside a loop: of the original keys; see apply_del
    if o.effect("del", k):
        return
    od, ok = o._dom, o._keys
    o._dom = lambda q: And(od(q), Not(eq(q, k)))
    o._keys = FilterSeq(ok, lambda i: Not(eq(ok.get(i), k)), lambda x: Not(eq(x, k))) if ok is not None else None


def apply_del(d, effs, norm, i0, n):
    """del d[k(i)] once in every iteration, for different keys"""
    if len(effs) != 1 or len(norm) != 1 or X.loops and d.birth <= X.loops[-1].start:
        raise Unsupported("deletions on several paths of a loop")
    k = effs[0][1][2]
    if not X.holds(inj_goal([(i0, n)], True, [k])):
        raise Unsupported("deletions of keys that may be equal")
    ks = k.sort()
    h, at = X.fresh_fn("delhit", [ks], Bool), X.fresh_fn("delat", [ks], Int)
    x = z3.Const("x", ks)
    X.forall([x], Implies(h(x), And(InR(0, at(x), n), subst(k, [(i0, at(x))]) == x)), h(x), at(x))
    X.facts.append(Fact(Implies(InR(0, i0, n), And(h(k), at(k) == i0)), [i0]))
    od, ok = d._dom, d._keys
    d._dom = lambda q: And(od(q), Not(h(q)))
    d._keys = FilterSeq(ok, lambda i: Not(h(ok.get(i))), lambda v: Not(h(key(v)))) if ok is not None else None


def dict_update(it, o, other):
    if other._conc is not None:
        for kk, v in other._conc:
            setitem(it, o, kk, v)
        return None
    if o.effect("update"):
        raise Unsupported("update in a loop")
    od, og = other.dom, other.get
    ok = other._keys
    if o._conc is not None and not o._conc:
        o._conc = None
        o._dom, o._get, o._keys, o.ksort = od, og, ok, other.ksort
        return None
    if o._conc is not None:
        conc = list(o._conc)
        o._conc = None
        d0, g0 = (lambda q: Or(*[eq(x, q) for x, _ in conc])), (lambda q: merged([(eq(x, q), y) for x, y in conc]))
        o.ksort = other.ksort
    else:
        d0, g0 = o._dom, o._get
    o._dom = lambda q: Or(od(q), d0(q))
    o._get = lambda q: merge(od(q), og(q), g0(q))
    o._keys = None
    return None


def set_method(it, name, o, a, k):
    if name in ("union", "intersection", "difference"):
        b = as_set(it, a[0]) if a else SSet(lambda v: False)
        return set_op({"union": "BitOr", "intersection": "BitAnd", "difference": "Sub"}[name], o, b)
    if name == "issubset":
        return subset(o, as_set(it, a[0]))
    if name == "issuperset":
        return subset(as_set(it, a[0]), o)
    if name == "copy":
        return SSet(o._mem, o.seq, o._card, o.ksort)
    if name == "add":
        if o.effect("add", a[0]):
            raise Unsupported("set.add in a loop")
        om, v = o._mem, key(a[0])
        o._mem = lambda x: Or(eq(x, v), om(x))
        o.seq, o._card = None, None
        return None
    raise Unsupported(f"set.{name}")


name_fmt = z3.Function("name_fmt", Name, Opq, Name)
name_cat = z3.Function("name_cat", Name, Name, Name)


def str_method(it, name, o, a, k):
    if name == "format":
        if "**" in k and len(k) == 1 and _pyga(k["**"], "tag", None) is not None:
            return name_fmt(key(o), k["**"].tag)
        return OpaqueStr()
    if isinstance(o, str) and name in ("join", "upper", "lower", "strip", "ljust", "replace"):
        return OpaqueStr()
    raise Unsupported(f"str.{name}")


# ------------------------------------------------------------------ builtins
def b_len(it, a, k):
    v = a[0]
    if isinstance(v, PList):
        return v.seq.length()
    if isinstance(v, str):
        return len(v)
    if isinstance(v, SSet):
        return set_card(v)
    if isinstance(v, SDict):
        if v._conc is not None:
            return len(v._conc)
        return need_keys(v).length()
    if is_tup(v):
        return iter_seq(it, v).length()
    if isinstance(v, Arr):
        if isinstance(v.rank, int) and v.rank >= 1:
            return v.dim(0)
        raise Unsupported("len of an array of unknown rank")
    if is_opq(v):
        return olen(v)
    if isinstance(v, NdIndex):
        raise Unsupported("len of ndindex")
    if isinstance(v, Obj):
        _, m = v.cls.find("__len__")
        if m is not None:
            return it.call_func(m, [v], {})
    if is_num(v) or v is None:
        raise PyRaise(EXC["TypeError"], "len of a number")
    raise Unsupported(f"len of {type(v).__name__}")


def b_set(it, a, k):
    if not a:
        return SSet(lambda v: False, seq=CSeq([]))
    v = a[0]
    if is_opq(v):
        s = SSet(lambda x: omem(v, to_opq(x)), card=ocard(v), ksort=Opq)
        return s
    if isinstance(v, SSet):
        return SSet(v._mem, v.seq, v._card, v.ksort)
    if isinstance(v, SDict):
        if v._conc is None:
            return SSet(v._dom, v._keys, None, Name if v.ksort is None else v.ksort)
    return set_of_seq(consume(it, v))


def b_list(it, a, k):
    if not a:
        return PList(CSeq([]))
    if is_opq(a[0]):
        return a[0]
    return PList(consume(it, a[0]), "list")


def b_tuple(it, a, k):
    if not a:
        return PList(CSeq([]), "tuple")
    if is_opq(a[0]) or is_tup(a[0]):
        return a[0]
    s = consume(it, a[0])
    if isinstance(s, RangeSeq) and isz(s.hi) and isinstance(s.lo, int) and s.lo == 0 and X.bound:
        return opq_range(s.hi)
    return PList(s, "tuple")


def b_dict(it, a, k):
    if not a:
        return SDict(None, None, None, None, conc=list(k.items()))
    v = a[0]
    if isinstance(v, SDict):
        return v.clone()
    s = iter_seq(it, v)
    d = SDict(None, None, None, None, conc=[])
    items = s.items()
    if items is not None:
        for x in items:
            kk, vv = it.unpack(x, 2)
            setitem(it, d, kk, vv)
        return d

    def body(elem, e2):
        kk, vv = it.unpack(elem, 2)
        setitem(it, d, kk, vv)
    it.loop(s, body, I.Env({}, None, None), ())
    return d


def b_zip(it, a, k):
    comps, star = [], None
    for v in a:
        if isinstance(v, StarSeq):
            raise Unsupported("zip(*...)")
        comps.append(iter_seq(it, v))
    its = [c.items() for c in comps]
    if all(x is not None for x in its):
        return PList(CSeq([PList(CSeq(list(t)), "tuple") for t in zip(*its)]))
    lens = [c.length() for c in comps]
    n = lens[0]
    for m in lens[1:]:
        if isz(n) and isz(m) and z3.simplify(n).eq(z3.simplify(m)):
            continue
        if X.holds(zi(n) == zi(m), 2500):
            continue
        n = If(zi(n) <= zi(m), n, m)
    return PList(TupleSeq(comps, n))


def b_enumerate(it, a, k):
    s = iter_seq(it, a[0])
    if len(a) > 1 or k:
        raise Unsupported("enumerate start")
    items = s.items()
    if items is not None:
        return PList(CSeq([PList(CSeq([i, x]), "tuple") for i, x in enumerate(items)]))
    return PList(TupleSeq([RangeSeq(0, s.length()), s], s.length()))


def b_range(it, a, k):
    if len(a) == 1:
        lo, hi = 0, a[0]
    elif len(a) == 2:
        lo, hi = a
    else:
        raise Unsupported("range step")
    if not is_int(lo) or not is_int(hi):
        raise Unsupported("range of non-integers")
    if isz(hi) and isinstance(lo, int) and lo == 0 and X.holds(hi >= 0, 1000):
        X.memo[("nonneg", hi.get_id())] = True
        return PList(FnRange(0, hi, hi))
    if isinstance(lo, int) and isinstance(hi, int):
        return PList(CSeq(list(range(lo, hi))))
    if X.holds(zi(hi) >= zi(lo), 1000):
        return PList(FnRange(lo, hi, hi - lo))
    return PList(RangeSeq(lo, hi))


class FnRange(RangeSeq):
    """range(lo, hi) with lo <= hi known"""

    def __init__(self, lo, hi, n):
        super().__init__(lo, hi)
        self.n = n

    def length(self):
        return self.n


def b_isinstance(it, a, k):
    v, t = a
    ts = t.seq.items() if isinstance(t, PList) else [t]
    return Or(*[isinst(v, x) for x in ts])


def isinst(v, t):
    if isinstance(t, Cls):
        return isinstance(v, (Obj, SymObj)) and t in v.cls.mro()
    if isinstance(t, TypeRef):
        return t.test(v)
    raise Unsupported("isinstance target")


def b_all(it, a, k, any_=False):
    s = iter_seq(it, a[0])
    items = s.items()
    if items is not None:
        cs = [truth_cond(it, x) for x in items]
        return Or(*cs) if any_ else And(*cs)
    j = X.const("aj", Int)
    with X.binding(j):
        c = truth_cond(it, s.get(j))
    c = zb(c)
    n = s.length()
    q = X.fresh("any" if any_ else "all", Bool)
    w = X.fresh("allw", Int)
    if any_:
        X.facts.append(Fact(Implies(And(Not(q), InR(0, j, n)), Not(c)), [j]))
        X.assume(Implies(q, And(InR(0, w, n), z3.substitute(c, (j, w)))))
    else:
        X.facts.append(Fact(Implies(And(q, InR(0, j, n)), c), [j]))
        X.assume(Implies(Not(q), And(InR(0, w, n), Not(z3.substitute(c, (j, w))))))
    return q


def b_sum(it, a, k):
    s = iter_seq(it, a[0])
    items = s.items()
    if items is not None:
        r = a[1] if len(a) > 1 else 0
        for x in items:
            r = binop(it, "Add", r, x)
        return r
    v = s.get(z3.Int("probe"))
    if is_num(v):
        es = v.sort() if isz(v) else XR
        es = Real if es == Int else es
        B = BigOp("seqsum", 1, lambda kk: s.length(), lambda J: coerce(s.get(J(0)), es), es, base="ssum")
        return B.term
    raise Unsupported("sum of a symbolic list")


def b_minmax(it, a, k, mx):
    if len(a) == 1:
        s = iter_seq(it, a[0])
        items = s.items()
        if items is None:
            return symbolic_minmax(it, s, k.get("key"), mx)
        a = items
    if k:
        raise Unsupported("max key")
    if not a:
        raise PyRaise(EXC["ValueError"], "max of an empty sequence")
    r = a[0]
    for x in a[1:]:
        r = merge(num_cmp("Gt" if mx else "Lt", x, r), x, r)
    return r


def symbolic_minmax(it, s, key, mx):
    """max/min of a list of unknown length: the first element whose key no other element exceeds."""
    n = s.length()
    if not X.branch(zi(n) > 0):
        raise PyRaise(EXC["ValueError"], "max of an empty sequence")
    kf = (lambda v: it.call(key, [v])) if key is not None else (lambda v: v)
    i = X.const("mi", Int)
    X.assume(InR(0, i, n))
    w = X.const("argmax", Int)
    X.assume(InR(0, w, n))
    op, strict = ("LtE", "Lt") if mx else ("GtE", "Gt")
    best = kf(s.get(w))
    if not is_num(best):
        raise Unsupported("max over keys that are not numbers")
    q = z3.Int("mq")
    with X.binding(q):
        kq = kf(s.get(q))
        body = And(num_cmp(op, kq, best), Implies(q < w, num_cmp(strict, kq, best)))
        if is_xr(kq):
            c = X.const("mc", Int)
            with X.local():
                X.assume(InR(0, c, n))
                if not X.holds(Not(isnan(kf(s.get(c))))):
                    raise Unsupported("max over keys that may be nan")
        pats = pick_patterns([q], zb(num_cmp(op, kq, 0)))
    X.forall([q], Implies(InR(0, q, n), body), *pats)
    return s.get(w)


def b_abs(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return abs(v)
    if is_xr(v):
        return xabs(v)
    if isinstance(v, Arr):
        return arr_map(it, lambda x: b_abs(it, [x], {}), v)
    return If(v >= 0, v, -v)


def b_float(it, a, k):
    v = a[0]
    if isinstance(v, str):
        return float(v)
    if isinstance(v, Arr):
        v = scalar_of(it, v)
    if isinstance(v, int) and not isinstance(v, bool):
        return float(v)
    return v if not is_int(v) else z3.ToReal(v)


def b_int(it, a, k):
    v = a[0]
    if isinstance(v, (int, float)):
        return int(v)
    if is_int(v):
        return v
    if isinstance(v, Arr):
        v = scalar_of(it, v)
        if is_int(v):
            return v
    if is_xr(v) or is_real(v):
        x = to_xr(v)
        y = z3.simplify(XR.r(x))
        if X.holds(And(isfin(x), XR.r(x) >= 0)):
            return y.arg(0) if z3.is_app_of(y, z3.Z3_OP_TO_REAL) else z3.ToInt(XR.r(x))
    raise Unsupported("int() of a float")


def b_type(it, a, k):
    if isinstance(a[0], Obj):
        return a[0].cls
    if isinstance(a[0], ExcValue):
        return a[0].cls
    return Opaque("type")


def b_sorted(it, a, k):
    if k:
        from .heaplib import perm_sorted
        return perm_sorted(it, a, k)
    return PList(sorted_seq(iter_seq(it, a[0])))


def b_reversed(it, a, k):
    s = iter_seq(it, a[0])
    items = s.items()
    if items is not None:
        return PList(CSeq(items[::-1]))
    n = s.length()
    return PList(FnSeq(n, lambda i: s.get(n - 1 - i)))


# ------------------------------------------------------------------ copy
def deepcopy(it, v, memo=None):
    memo = {} if memo is None else memo
    if id(v) in memo:
        return memo[id(v)]
    if isz(v) or isinstance(v, (int, float, str, bool, type(None), OpaqueStr, slice, Cls, Func, Builtin, Lib, TypeRef, ExcValue, CondValue)):
        return v
    if isinstance(v, PList):
        s = v.seq
        if isinstance(s, CSeq):
            r = PList(CSeq([deepcopy(it, x, memo) for x in s._items]), v.kind)
        else:
            r = PList(s, v.kind)
    elif hasattr(v, "nest"):
        v.touch()
        r = type(v)(v._dom, v.nest)
    elif isinstance(v, SDict):
        r = v.clone()
        if r._conc is not None:
            r._conc = [(a, deepcopy(it, b, memo)) for a, b in r._conc]
        elif any(isinstance(v.get(z3.Const("probe", v.ksort)), t) for t in (Arr, Obj, SDict)):
            raise Unsupported("deepcopy of nested containers")
    elif isinstance(v, SSet):
        v.touch()
        r = SSet(v._mem, v.seq, v._card, v.ksort)
    elif isinstance(v, Arr):
        r = np_array(it, v)
    elif isinstance(v, Obj):
        v.touch()
        r = Obj(v.cls)
        memo[id(v)] = r
        r.attrs = {kk: deepcopy(it, x, memo) for kk, x in v.attrs.items()}
        r.__dict__.update({kk: x for kk, x in v.__dict__.items() if kk not in ("attrs", "cls", "birth", "pre")})
    else:
        h = _pyga(it, "deepcopy_hooks", {}).get(type(v))
        if h is None:
            raise Unsupported(f"deepcopy of {type(v).__name__}")
        r = h(it, v)
    memo[id(v)] = r
    return r


def shallowcopy(it, v):
    if isinstance(v, PList):
        return PList(v.seq, v.kind) if v.kind == "list" else v
    if isinstance(v, SDict):
        return v.clone()
    if isinstance(v, Obj):
        v.touch()
        r = Obj(v.cls)
        r.attrs = dict(v.attrs)
        return r
    return deepcopy(it, v)


# ------------------------------------------------------------------ numpy
class NdIndex(Seq):
    """np.ndindex(shape): every index vector of the box exactly once"""

    def __init__(self, rank, dim):
        self.rank, self.dim = rank, dim
        self.n = X.fresh("ndn", Int)
        X.assume(self.n >= 0)
        self.dig = X.fresh_fn("dig", [Int, Int], Int)
        i, k = z3.Int("i"), z3.Int("k")
        X.forall([i, k], Implies(And(InR(0, i, self.n), InR(0, k, rank)), InR(0, self.dig(i, k), dim(k))), self.dig(i, k))
        # different steps give different vectors
        self.diff = X.fresh_fn("digdiff", [Int, Int], Int)

    def length(self):
        return self.n

    def get(self, i):
        return NdElem(self, zi(i))

    def items(self):
        return None

    def step_of(self, K):
        """the step at which the index vector K (inside the box) is produced"""
        s = X.fresh("ndstep", Int)
        k = z3.Int("k")
        X.assume(InR(0, s, self.n))
        X.forall([k], Implies(InR(0, k, self.rank), self.dig(s, k) == zi(K(k))), self.dig(s, k))
        return s

    def separate(self, i, j):
        """i != j -> the vectors differ at axis diff(i, j)"""
        d = self.diff(i, j)
        X.assume(Implies(And(InR(0, i, self.n), InR(0, j, self.n), i != j), And(InR(0, d, self.rank), self.dig(i, d) != self.dig(j, d))))


class NdElem:
    def __init__(self, nd, i):
        self.nd, self.i = nd, i

    def at(self, k):
        return self.nd.dig(self.i, zi(k))

    def seq(self):
        return FnSeq(self.nd.rank, lambda k: self.at(k))


def np_transpose(it, a, k):
    o = a[0]
    axes = k.get("axes")
    if len(a) > 2:
        axes = PList(CSeq(a[1:]), "tuple")
    elif len(a) == 2:
        axes = a[1]
    if axes is None:
        if not isinstance(o.rank, int):
            raise Unsupported("transpose of unknown rank")
        r = o.rank
        av = freeze(o)
        t = o.view(r, lambda kk: o.dim(r - 1 - kk), lambda K: av(lambda kk: K(r - 1 - kk)))
        if o.mx is not None and hasattr(it, "matlib"):
            it.matlib.transpose(it, o, t)
        return t
    P = iter_seq(it, axes)
    rank = o.rank
    n = P.length()
    items = P.items()
    if items is not None and isinstance(rank, int) and all(isinstance(x, int) for x in items):
        if sorted(items) != list(range(rank)):
            raise PyRaise(EXC["ValueError"], "axes don't match array")
        av = freeze(o)
        inv = {p: q for q, p in enumerate(items)}
        return o.view(rank, lambda kk: o.dim(items[kk]), lambda K: av(lambda kk: K(inv[kk])))
    perm_ok(it, P, n, rank)
    av = freeze(o)
    return o.view(n, lambda kk: o.dim(P.get(kk)), lambda K: av(lambda kk: K(P.pos(kk))))


def perm_ok(it, P, n, rank):
    """P must be a permutation of range(rank); ValueError otherwise"""
    j = X.const("pj", Int)
    k = X.const("pk", Int)
    X.axis_hints(k)
    inr = X.holds(Implies(InR(0, j, n), InR(0, P.get(j), rank)))
    inj = X.holds(P.distinct_goal()) if inr else False
    surj = X.holds(Implies(InR(0, k, rank), P.mem(k))) if inr else False
    if inr and inj and surj:
        # pigeonhole: an injective list onto range(rank) has rank entries
        X.assume(zi(n) == zi(rank))
        return
    lens = X.holds(zi(n) == zi(rank)) if inr else False
    if inr and lens and (inj or surj):
        X.forall([z3.Int("pk2")], Implies(InR(0, z3.Int("pk2"), rank), P.mem(z3.Int("pk2"))))
        return
    if X.holds(zi(n) != zi(rank)):
        raise PyRaise(EXC["ValueError"], "axes don't match array")
    raise Unsupported(f"transpose axes not provably a permutation (in range: {inr}, injective: {inj}, onto: {surj}, length: {lens})")


def np_expand_dims(it, a, k):
    o = a[0]
    axis = k["axis"] if "axis" in k else a[1]
    av = freeze(o)
    if is_int(axis):
        axis = PList(CSeq([axis]), "tuple")
    s = iter_seq(it, axis)
    items = s.items()
    if items is not None and isinstance(o.rank, int):
        r = o.rank + len(items)
        ax = sorted(i if i >= 0 else i + r for i in items)
        if len(set(ax)) != len(ax) or any(not 0 <= i < r for i in ax):
            raise PyRaise(EXC["ValueError"], "expand_dims axis")
        rest = [i for i in range(r) if i not in ax]
        return o.view(r, lambda kk: 1 if kk in ax else o.dim(rest.index(kk)), lambda K: av(lambda kk: K(rest[kk])))
    if items is not None and not items:
        return o.view(o.rank, o.dim, av)
    if isinstance(s, RangeSeq):
        lo, n = s.lo, s.length()
        hi = lo + n
        r = o.rank + n
        # numpy needs every axis position inside the result: hi <= rank + n
        X.require(Or(eq(n, 0), zi(lo) <= zi(o.rank)), EXC["ValueError"], "expand_dims axis")
        return o.view(r, lambda kk: If(InR(lo, zi(kk), hi), 1, If(zi(kk) < lo, zi(o.dim(kk)), zi(o.dim(kk - n)))),
                      lambda K: av(lambda kk: K(kk) if X.bound is None else If(zi(kk) < lo, zi(K(kk)), zi(K(kk + n)))))
    raise Unsupported("expand_dims axes")


def np_apply_over_axes(it, a, k):
    f, o = a[0], a[1]
    axes = k["axes"] if "axes" in k else a[2]
    if _pyga(f, "name", "") not in ("logsumexp", "sum"):
        raise Unsupported("apply_over_axes with another function")
    s = iter_seq(it, axes) if not is_int(axes) else CSeq([axes])
    kind = "lse" if f.name == "logsumexp" else "sum"
    return reduce_axes(it, o, kind, s, keepdims=True)


def reduce_axes(it, o, kind, s, keepdims):
    items = s.items()
    if items is not None and not items:
        return o            # numpy returns the same array
    j = X.const("raj", Int)
    if not X.holds(Implies(InR(0, j, s.length()), InR(0, s.get(j), o.rank))):
        raise Unsupported("reduced axes not provably inside the array")
    av = freeze(o)
    S = lambda kk: s.mem(kk)  # noqa: E731
    rank, dim = o.rank, o.dim

    def val(K):
        def body(J):
            return av(lambda kk: If(S(kk), zi(J(kk)), zi(K(kk))))
        B = BigOp(kind, rank, dim, body, o.es, base=kind)
        B.S = S
        return B.term
    r = Arr(rank, lambda kk: If(S(kk), 1, dim(kk)), val, o.es)
    r.reduced = (S, s)
    if not keepdims:
        raise Unsupported("reduction without keepdims")
    return r


def np_squeeze(it, a, k):
    o = a[0]
    axis = k.get("axis", a[1] if len(a) > 1 else None)
    av = freeze(o)
    if axis is None:
        if isinstance(o.rank, int):
            ones = [X.holds(eq(o.dim(q), 1)) for q in range(o.rank)]
            for q in range(o.rank):
                if not ones[q] and not X.holds(Not(eq(o.dim(q), 1))):
                    ones[q] = X.branch(eq(o.dim(q), 1))
            rest = [q for q in range(o.rank) if not ones[q]]
            return o.view(len(rest), lambda kk: o.dim(rest[kk]), lambda K: av(lambda kk: K(rest.index(kk)) if kk in rest else 0))
        S = lambda kk: eq(o.dim(kk), 1)  # noqa: E731
    else:
        s = iter_seq(it, axis) if not is_int(axis) else CSeq([axis])
        items = s.items()
        if items is not None and isinstance(o.rank, int) and all(isinstance(x, int) for x in items):
            ax = [x if x >= 0 else x + o.rank for x in items]
            for x in ax:
                X.require(eq(o.dim(x), 1), EXC["ValueError"], "squeeze")
            rest = [q for q in range(o.rank) if q not in ax]
            return o.view(len(rest), lambda kk: o.dim(rest[kk]), lambda K: av(lambda kk: K(rest.index(kk)) if kk in rest else 0))
        j = X.const("sqj", Int)
        if not X.holds(Implies(InR(0, j, s.length()), And(InR(0, s.get(j), o.rank), eq(o.dim(s.get(j)), 1)))):
            raise Unsupported("squeezed axes not provably of length one")
        if distinct_flag(s) is not True:
            raise Unsupported("squeezed axes not provably different")
        S = lambda kk: s.mem(kk)  # noqa: E731
    en = Enum(o.rank, lambda kk: Not(S(kk)), "sq")
    return o.view(en.cnt, lambda kk: o.dim(en.sel(zi(kk))), lambda K: av(lambda kk: If(S(kk), 0, zi(K(en.rk(zi(kk)))))))


def np_zeros(it, a, k, fill=0.0):
    shp = k.get("shape", a[0] if a else None)
    v = XR.fin(rv(fill)) if REALS[0] is False else rv(fill)
    es = XR if REALS[0] is False else Real
    if is_int(shp):
        return Arr(1, lambda kk: shp, lambda K: v, es)
    s = iter_seq(it, shp)
    items = s.items()
    if items is not None:
        return Arr(len(items), lambda kk: items[kk] if isinstance(kk, int) else CSeq(items).get(kk), lambda K: v, es)
    return Arr(s.length(), lambda kk: s.get(kk), lambda K: v, es)


REALS = [False]          # True while verifying code whose floats are finite reals


def np_like(it, a, k, fill):
    o = a[0]
    return Arr(o.rank, o.dim, lambda K: XR.fin(rv(fill)) if o.es == XR else coerce(fill, o.es), o.es)


def ufunc(name):
    def model(it, a, k):
        v = a[0]
        if isinstance(v, PList):
            v = np_array(it, v)
        return arr_map(it, lambda x: scal_ufunc(name, x), v)
    return Builtin(name, model)


import math  # noqa: E402


def scal_ufunc(name, x):
    if is_int(x) and isz(x):
        x = z3.ToReal(x)
    if isinstance(x, bool):
        x = int(x)
    if is_xr(x):
        return {"exp": xexp, "log": xlog, "sqrt": xsqrt, "abs": xabs}[name](x) if name in ("exp", "log", "sqrt", "abs") else \
            {"isnan": isnan(x), "isfinite": isfin(x), "isinf": Or(XR.is_pinf(x), XR.is_ninf(x)),
             "isneginf": XR.is_ninf(x), "isposinf": XR.is_pinf(x)}[name]
    if isinstance(x, (int, float)):
        if name in ("isnan", "isfinite", "isinf"):
            return {"isnan": math.isnan, "isfinite": math.isfinite, "isinf": math.isinf}[name](x)
        if name == "abs":
            return abs(x)
        if name == "exp" and x == 0:
            return 1.0
        if name == "log" and x == 1:
            return 0.0
        if x in (float("inf"), float("-inf")):
            return scal_ufunc(name, to_xr(x))
        x = rv(x)
    if is_real(x):
        if name in ("isnan", "isinf"):
            return False
        if name == "isfinite":
            return True
        if name == "exp":
            return rexp(x)
        if name == "log":
            if X.matlib is not None:
                r = X.matlib.log(x)
                if r is not None:
                    return r
            X.trusted.add("numpy log of a positive number is the real logarithm (no rounding)")
            return rlog(x)
        if name == "sqrt":
            return rsqrt(x)
        if name == "abs":
            return If(x >= 0, x, -x)
    raise Unsupported(f"np.{name}")


def np_where(it, a, k):
    if len(a) != 3:
        raise Unsupported("np.where with one argument")
    c, x, y = a
    if not any(isinstance(v, Arr) for v in a):
        return merge(c, x, y)
    xs = [v for v in (x, y) if isinstance(v, Arr)]
    es = join_sort([v.es for v in xs]) if xs else XR
    if any(isinstance(v, float) for v in (x, y)) and es == Int:
        es = XR
    t = arr_map2(it, lambda p, q: (p, q), x, y, es="pair") if False else None
    # combine condition and first branch, then the second branch, with broadcasting
    shape_src = [v for v in (c, x, y) if isinstance(v, Arr)]
    if len(shape_src) == 1:
        o = shape_src[0]
        g = lambda v, K: freeze(v)(K) if isinstance(v, Arr) else v  # noqa: E731
        return Arr(o.rank, o.dim, lambda K: coerce(merge(g(c, K), coerce(g(x, K), es), coerce(g(y, K), es)), es), es)
    o = shape_src[0]
    fr = {id(v): freeze(v) for v in shape_src}
    maps = {id(o): (lambda K: K)}
    rank, dim = o.rank, o.dim
    for v in shape_src[1:]:
        tmp = Arr(rank, dim, lambda K: None, es)
        rank, dim, ka, kb = broadcast(it, tmp, v)
        for q in list(maps):
            old = maps[q]
            maps[q] = (lambda K, old=old, ka=ka: old(ka(K)))
        maps.setdefault(id(v), kb)
    g = lambda v, K: fr[id(v)](maps[id(v)](K)) if isinstance(v, Arr) else v  # noqa: E731
    return Arr(rank, dim, lambda K: merge(zb(g(c, K)), coerce(g(x, K), es), coerce(g(y, K), es)), es)


def np_reduce(kind):
    def model(it, a, k):
        o = a[0]
        if isinstance(o, PList):
            if kind == "prod" and o.seq.items() is None:
                s = o.seq
                B = BigOp("seqprod", 1, lambda kk: s.length(), lambda J: s.get(J(0)), Int, base="sprod")
                B.seq = s
                return B.term
            o = np_array(it, o)
        axis = k.get("axis", a[1] if len(a) > 1 else None)
        if not isinstance(o, Arr):
            return o
        if axis is not None:
            if k.get("keepdims") is True or is_int(axis) and isinstance(o.rank, int):
                return reduce_one_axis(it, o, kind, axis, k.get("keepdims", False))
            raise Unsupported(f"np.{kind} over an axis")
        av = freeze(o)
        if o.rank == 0:
            return av(lambda kk: 0)
        es = o.es
        if isinstance(o.rank, int) and kind in ("min", "max", "sum", "prod") and all(isinstance(o.dim(q), int) and o.dim(q) == 1 for q in range(o.rank)):
            return av(lambda kk: 0)
        if es == Bool:
            if kind in ("all", "any"):
                return box_quant(it, o, kind == "any")
            raise Unsupported("sum of booleans")
        B = BigOp(kind, o.rank, o.dim, lambda J: av(J), es, base=kind)
        return B.term
    return Builtin({"lse": "logsumexp"}.get(kind, kind), model)


def reduce_one_axis(it, o, kind, axis, keepdims):
    axis = axis if axis >= 0 else axis + o.rank
    av = freeze(o)
    dims = [o.dim(q) for q in range(o.rank)]

    def val(K):
        def body(J):
            return av(lambda kk: J(0) if kk == axis else (K(kk) if keepdims or kk < axis else K(kk - 1)))
        return BigOp(kind, 1, lambda q: dims[axis], body, o.es, base=kind).term
    if keepdims:
        d2 = [1 if q == axis else dims[q] for q in range(o.rank)]
    else:
        d2 = [dims[q] for q in range(o.rank) if q != axis]
    if not d2:
        return val(lambda k: 0)
    return Arr(len(d2), lambda kk: d2[kk] if isinstance(kk, int) else CSeq(d2).get(kk), val, o.es)


def box_quant(it, o, any_):
    """all / any over every index vector of an array of booleans"""
    av = freeze(o)
    q = X.const("boxq", Bool)
    Wf = X.fresh_fn("boxw", [Int], Int)
    W = lambda k: Wf(zi(k))  # noqa: E731
    k = z3.Int("k")
    X.forall([k], Implies(InR(0, k, o.rank), InR(0, W(k), o.dim(k))), W(k))
    # an empty box cannot provide a witness; cardinalities are positive (precondition on factors)
    b = zb(av(W))
    X.assume(Implies(q, b) if any_ else Implies(Not(q), Not(b)))
    X.memo.setdefault(("boxquants",), []).append((q, o.rank, o.dim, av, any_))
    X.memo.setdefault(("boxwit",), []).append(W)
    return q


def instantiate_boxquants(K):
    """instances of recorded all()/any() results at the index closure K (K must be inside the box)"""
    for q, rank, dim, av, any_ in X.memo.get(("boxquants",), []):
        d = X.const("bqd", Int)
        b = zb(av(K))
        out = And(InR(0, d, rank), Not(InR(0, K(d), dim(d))))
        X.assume(Or(out, Implies(Not(q), Not(b)) if any_ else Implies(q, b)))


def isclose(x, y, rtol, atol, equal_nan=False):
    if is_xr(x) or is_xr(y):
        x, y = to_xr(x), to_xr(y)
        r, t = to_real(rtol), to_real(atol)
        fx, fy = XR.r(x), XR.r(y)
        d = z3.If(fx - fy < 0, fy - fx, fx - fy)
        ay = z3.If(fy < 0, -fy, fy)
        return z3.If(z3.And(isfin(x), isfin(y)), d <= t + r * ay,
                     z3.And(x == y, z3.Not(isnan(x))) if not equal_nan else x == y)
    x, y = to_real(x), to_real(y)
    d = z3.If(x - y < 0, y - x, x - y)
    ay = z3.If(y < 0, -y, y)
    return d <= to_real(atol) + to_real(rtol) * ay


def np_isclose(it, a, k):
    names = ["a", "b", "rtol", "atol", "equal_nan"]
    v = dict(zip(names, a))
    v.update(k)
    rtol, atol, en = v.get("rtol", 1e-5), v.get("atol", 1e-8), v.get("equal_nan", False)
    return arr_map2(it, lambda x, y: isclose(x, y, rtol, atol, en), v["a"], v["b"], Bool)


def np_allclose(it, a, k):
    r = np_isclose(it, a, k)
    if isinstance(r, Arr):
        return box_quant(it, r, False)
    return r


def np_array_equal(it, a, k):
    x, y = a[0], a[1]
    if isinstance(x, PList):
        x = np_array(it, x)
    if isinstance(y, PList):
        y = np_array(it, y)
    if isinstance(x.rank, int) and isinstance(y.rank, int):
        if x.rank != y.rank:
            return False
        c = And(*[eq(x.dim(q), y.dim(q)) for q in range(x.rank)])
        if not X.branch(c):
            return False
        return box_quant(it, arr_map2(it, lambda p, q: eq(p, q), x, y, Bool), False)
    raise Unsupported("array_equal of unknown ranks")


class FlatArgmax:
    """position of a maximal entry of an array, as an index vector"""

    def __init__(self, arr, W):
        self.arr, self.W = arr, W


def np_argmax(it, a, k):
    o = a[0]
    if len(a) > 1 or k:
        raise Unsupported("argmax axis")
    if isinstance(o, PList):
        o = np_array(it, o)
    av = freeze(o)
    Wf = X.fresh_fn("amax", [Int], Int)
    W = lambda kk: Wf(zi(kk))  # noqa: E731
    k_ = z3.Int("k")
    X.forall([k_], Implies(InR(0, k_, o.rank), InR(0, W(k_), o.dim(k_))), W(k_))
    X.memo.setdefault(("argmax",), []).append((o.rank, o.dim, av, W))
    if o.rank == 1:
        return W(0)
    return FlatArgmax(o, W)


def instantiate_argmax(K):
    for rank, dim, av, W in X.memo.get(("argmax",), []):
        d = X.const("amd", Int)
        out = And(InR(0, d, rank), Not(InR(0, K(d), dim(d))))
        X.assume(Or(out, xle(to_xr(av(K)), to_xr(av(W)))))


def np_unravel(it, a, k):
    v, shp = a[0], a[1]
    if isinstance(v, FlatArgmax):
        s = iter_seq(it, shp)
        d = X.const("urd", Int)
        if not X.holds(And(zi(s.length()) == zi(v.arr.rank), Implies(InR(0, d, v.arr.rank), eq(s.get(d), v.arr.dim(d))))):
            raise Unsupported("unravel_index with another shape")
        return PList(FnSeq(v.arr.rank, lambda i: v.W(i)), "tuple")
    raise Unsupported("unravel_index")


def np_ndindex(it, a, k):
    if len(a) == 1 and isinstance(a[0], PList):
        s = a[0].seq
    else:
        s = CSeq(a)
    nd = NdIndex(s.length(), lambda q: s.get(q))
    if not X.bound:
        X.memo.setdefault(("ndindex",), []).append(nd)
    return nd


def np_ravel(it, a, k):
    o = a[0]
    if o.rank == 1:
        return o
    if isinstance(o.rank, int) and o.rank == 2:
        av = freeze(o)
        if X.branch(eq(o.dim(1), 1)):
            return Arr(1, lambda q: o.dim(0), lambda K: av(lambda q: K(0) if q == 0 else 0), o.es)
        if X.branch(eq(o.dim(0), 1)):
            return Arr(1, lambda q: o.dim(1), lambda K: av(lambda q: K(0) if q == 1 else 0), o.es)
    if o.rank == 0:
        av = freeze(o)
        return Arr(1, lambda q: 1, lambda K: av(lambda q: 0), o.es)
    raise Unsupported("ravel")


def np_eye(it, a, k):
    n = a[0]
    es = Real if REALS[0] else XR
    r = Arr(2, lambda q: n, lambda K: merge(eq(K(0), K(1)), coerce(1, es), coerce(0, es)), es)
    return r


def opfn(op):
    return lambda it, a, k: binop(it, op, a[0], a[1])


def install(it):
    it.lib = __import__("sys").modules[__name__]
    B = it.builtins
    for n, f in dict(len=b_len, set=b_set, list=b_list, tuple=b_tuple, dict=b_dict, zip=b_zip, enumerate=b_enumerate,
                     range=b_range, isinstance=b_isinstance, sum=b_sum, abs=b_abs, type=b_type, sorted=b_sorted,
                     reversed=b_reversed, int=b_int, float=b_float).items():
        B[n] = Builtin(n, f)
    B["all"] = Builtin("all", lambda i, a, k: b_all(i, a, k))
    B["any"] = Builtin("any", lambda i, a, k: b_all(i, a, k, True))
    B["max"] = Builtin("max", lambda i, a, k: b_minmax(i, a, k, True))
    B["min"] = Builtin("min", lambda i, a, k: b_minmax(i, a, k, False))
    B["str"] = TypeRef("str", is_name, lambda i, a, k: a[0] if a and is_name(a[0]) else OpaqueStr())
    B["slice"] = Builtin("slice", lambda i, a, k: slice(*a))
    B["repr"] = Builtin("repr", lambda i, a, k: OpaqueStr())
    B["print"] = Builtin("print", lambda i, a, k: None)
    B["bool"] = TypeRef("bool", is_bool, lambda i, a, k: truth_cond(i, a[0]))
    B["frozenset"] = B["set"]
    B["object"] = TypeRef("object", lambda v: True)
    for n, t in (("int", lambda v: is_int(v) or is_bool(v)), ("float", lambda v: isinstance(v, float) or is_xr(v) or is_real(v)),
                 ("list", lambda v: isinstance(v, PList) and v.kind == "list"), ("tuple", lambda v: isinstance(v, PList) and v.kind == "tuple" or is_tup(v)),
                 ("dict", lambda v: isinstance(v, SDict)), ("set", lambda v: isinstance(v, SSet))):
        B[n] = TypeRef(n, t, B[n].model)
    for n, t in EXC.items():
        B[n] = t
    B["KeyError"] = EXC["KeyError"]
    np = {"inf": float("inf"), "nan": float("nan"), "pi": None}
    np["pi"] = math.pi
    for n in ("exp", "log", "sqrt", "isnan", "isfinite", "isinf", "abs", "isneginf", "isposinf"):
        np[n] = ufunc(n)
    np["absolute"] = np["abs"]
    for n, f in dict(zeros=np_zeros, expand_dims=np_expand_dims, apply_over_axes=np_apply_over_axes, squeeze=np_squeeze,
                     transpose=np_transpose, where=np_where, isclose=np_isclose, allclose=np_allclose, argmax=np_argmax,
                     unravel_index=np_unravel, ndindex=np_ndindex, ravel=np_ravel, array_equal=np_array_equal, eye=np_eye).items():
        np[n] = Builtin(n, f)
    np["identity"] = np["eye"]
    np["ones"] = Builtin("ones", lambda i, a, k: np_zeros(i, a, k, 1.0))
    np["array"] = Builtin("array", lambda i, a, k: np_array(i, a[0]))
    np["asarray"] = Builtin("asarray", lambda i, a, k: a[0] if isinstance(a[0], Arr) else np_array(i, a[0]))
    np["zeros_like"] = Builtin("zeros_like", lambda i, a, k: np_like(i, a, k, 0.0))
    np["ones_like"] = Builtin("ones_like", lambda i, a, k: np_like(i, a, k, 1.0))
    np["sum"] = np_reduce("sum")
    np["prod"] = np_reduce("prod")
    np["product"] = np["prod"]
    np["max"] = np_reduce("max")
    np["min"] = np_reduce("min")
    np["all"] = np_reduce("all")
    np["any"] = np_reduce("any")
    np["ix_"] = Builtin("ix_", lambda i, a, k: Ix([iter_seq(i, x) for x in a]))
    np["ndarray"] = TypeRef("ndarray", lambda v: isinstance(v, Arr))
    np["add"] = Builtin("add", opfn("Add"))
    np["subtract"] = Builtin("subtract", opfn("Sub"))
    np["multiply"] = Builtin("multiply", opfn("Mult"))
    np["errstate"] = Builtin("errstate", lambda i, a, k: Opaque("errstate"))
    np["float64"] = B["float"]
    np["equal"] = Builtin("equal", lambda i, a, k: compare(i, "Eq", a[0], a[1]))
    np["logical_and"] = Builtin("logical_and", opfn("BitAnd"))
    np["logical_or"] = Builtin("logical_or", opfn("BitOr"))
    np["negative"] = Builtin("negative", lambda i, a, k: unary(i, "USub", a[0]))
    np["isin"] = Builtin("isin", lambda i, a, k: _unsup("isin"))
    np["linalg"] = Lib("numpy.linalg", {"LinAlgError": EXC["LinAlgError"]})
    it.libs["numpy.linalg"] = np["linalg"]
    it.libs["numpy"] = Lib("numpy", np)
    it.libs["scipy"] = Lib("scipy", {"special": Lib("scipy.special", {"logsumexp": np_reduce("lse")})})
    it.libs["scipy.special"] = it.libs["scipy"].attrs["special"]
    it.libs["copy"] = Lib("copy", {"copy": Builtin("copy", lambda i, a, k: shallowcopy(i, a[0])),
                                   "deepcopy": Builtin("deepcopy", lambda i, a, k: deepcopy(i, a[0]))})
    it.libs["operator"] = Lib("operator", {n: Builtin("operator." + n, opfn(o)) for n, o in
                                           (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("truediv", "Div"))})
    it.libs["operator"].attrs["itemgetter"] = Builtin("itemgetter", lambda i, a, k: Builtin("itemgetter()", lambda i2, a2, k2: getitem(i2, a2[0], a[0]))
                                                      if len(a) == 1 else _unsup("itemgetter"))
    it.libs["warnings"] = Lib("warnings", {"catch_warnings": Builtin("catch_warnings", lambda i, a, k: Opaque("catch_warnings")),
                                           "simplefilter": Builtin("simplefilter", lambda i, a, k: None),
                                           "warn": Builtin("warn", lambda i, a, k: None),
                                           "filterwarnings": Builtin("filterwarnings", lambda i, a, k: None)})
    it.libs["abc"] = Lib("abc", {"ABCMeta": TypeRef("ABCMeta", lambda v: False), "abstractmethod": Opaque("abstractmethod")})
    mt = {n: ufunc(n) for n in ("exp", "log", "sqrt")}
    mt["pi"] = math.pi
    mt["inf"] = float("inf")
    it.libs["math"] = Lib("math", mt)


getattr = getattr_  # noqa: A001

