"""Building blocks of the contracts: arbitrary operands, the functions they denote, and goals about results."""
from .core import *  # noqa: F401,F403
from .core import X
from .interp import Interp, EXC, Cls  # noqa: F401
from . import lib
from .lib import ocard, set_of_seq, instantiate_boxquants, instantiate_argmax  # noqa: F401

REGISTRY = {}


class Contract:
    def __init__(self, prop, name, fn, targets, tier):
        self.prop, self.name, self.fn, self.targets, self.tier = prop, name, fn, targets, tier
        self.only = None        # regular expression over the labels of the obligations that count


def contract(prop, name, targets=(), tier="quick"):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(Contract(prop, name, fn, list(targets), tier))
        return fn
    return deco


CALLEE = {}


def callee(qual, handler):
    """calls of this function are replaced by its contract, applied by handler(it, func, args, kwargs) (NotImplemented: the
    precondition is not known to hold here, the body is executed).  The contract itself is proved from the body by the
    contracts registered under LEMMA:<qual>, which run with every property that uses it."""
    CALLEE[qual] = handler


CATMOD = "veroku.factors.categorical"


class Ghost:
    """an operand together with the function it denotes"""

    def __init__(self, f, names, val, card):
        self.f, self.names, self.val, self.card = f, names, val, card


def setup():
    X.in_setup = True


def start():
    """end of the set-up: the precondition must be satisfiable (vacuity canary)"""
    X.in_setup = False
    X.canary("precondition")


def fn(name, dom, rng):
    return X.fresh_fn(name, dom, rng)


def cat(it, tag, names=None, an=None, cardf=None, inv=None, kwnames=True):
    """an arbitrary dense categorical factor, built by the real constructor"""
    C = it.get_class(CATMOD, "Categorical")
    ns = names if names is not None else BaseSeq(tag + "_n", Name, distinct=True)
    if cardf is None:
        cf = X.fresh_fn(tag + "_card", [Name], Int)
        cardf = lambda x: cf(x)  # noqa: E731
    if an is None:
        af = X.fresh_fn(tag + "_an", [Name], Opq)
        an = lambda x: af(x)  # noqa: E731
    x = z3.Const("x", Name)
    if isinstance(ns, BaseSeq):
        X.forall([x], Implies(ns.mem(x), And(cardf(x) >= 1, ocard(an(x)) == cardf(x), lib.olen(an(x)) == cardf(x))), cardf(x), an(x))
    if inv is None:
        inv = lambda t: z3.Or(XR.is_fin(t), XR.is_ninf(t))  # noqa: E731
    T = base_arr(tag + "_T", ns.length(), lambda k: cardf(ns.get(k)), XR, inv=inv)
    kw = {"log_probs_tensor": T}
    if kwnames:
        kw["variables_assignment_names"] = PList(FnSeq(ns.length(), lambda i: an(ns.get(i))), "list")
    f = it.call(C, [PList(ns, "list")], kw)
    g = Ghost(f, ns, lambda sig: T._val(lambda k: sig(ns.get(k))), cardf)
    g.an, g.T = an, T
    return g


def sigma(name, *ghosts):
    """an arbitrary named assignment inside every operand's range"""
    sf = X.fresh_fn(name, [Name], Int)
    x = z3.Const("x", Name)
    for g in ghosts:
        X.forall([x], Implies(g.names.mem(x), InR(0, sf(x), g.card(x))), sf(x), g.card(x))
    return lambda v: sf(X.name_const(v) if isinstance(v, str) else v)


def names_of(it, f):
    return it.getattr(f, "var_names").seq


def tensor_of(it, f):
    return it.getattr(f, "log_probs_tensor")


def value(it, f, sig):
    """log value of a dense categorical at a named assignment"""
    ns, T = names_of(it, f), tensor_of(it, f)
    return T.val(lambda k: sig(ns.get(k)))


def ob(goal, label):
    X.oblige(goal, label)


def check_class(f, cname):
    ok = isinstance(f, Obj) and f.cls.name == cname
    ob(bool(ok), f"the result is a {cname}")
    return ok


def check_scope(it, f, mem, label="scope"):
    """the result's variables are exactly {x : mem(x)}, without duplicates"""
    ns = names_of(it, f)
    x = X.const("x", Name)
    ob(Iff(ns.mem(x), mem(x)), label)
    ob(ns.distinct_goal(), label + " has no duplicates")


def check_names_order(it, f, seq, label="variable order"):
    ns = names_of(it, f)
    ob(zi(ns.length()) == zi(seq.length()), label + ": length")
    i = X.const("i", Int)
    ob(Implies(InR(0, i, seq.length()), eq(ns.get(i), seq.get(i))), label)


def check_cat_inv(it, f, card, an, label="class invariant"):
    """tensor rank/dimensions, var_cards and assignment names agree with the variables"""
    ns, T = names_of(it, f), tensor_of(it, f)
    ob(zi(T.rank) == zi(ns.length()), label + ": tensor rank")
    d = X.const("d", Int)
    ob(Implies(InR(0, d, ns.length()), zi(T.dim(d)) == card(ns.get(d))), label + ": tensor dimensions")
    vc = it.getattr(f, "var_cards")
    x = X.const("x", Name)
    ob(Iff(vc.dom(x), ns.mem(x)), label + ": var_cards keys")
    ob(Implies(ns.mem(x), eq(vc.get(x), card(x))), label + ": var_cards values")
    vn = it.getattr(f, "vars_assignments_names_dict")
    ob(Iff(vn.dom(x), ns.mem(x)), label + ": assignment-name keys")
    ob(Implies(ns.mem(x), eq(vn.get(x), an(x))), label + ": assignment names")


def check_frame(label="frame: operands unchanged"):
    """nothing that existed before the call was modified"""
    bad = []
    for e in X.effects_on_pre:
        o, kind = e[0], e[1]
        bad.append(f"{kind} on {type(o).__name__}")
    ob(not bad, label + ("" if not bad else f" [{', '.join(bad[:3])}]"))


def fresh_roots(it, f, pres, label="independence: the result shares no mutable state with the operands"):
    """no list, dictionary, set or array buffer is reachable both from the result and from what existed before"""
    shared = reach(f) & set(id(o) for o in X.pre_objs) if True else set()
    kinds = sorted({type(o).__name__ for o in X.pre_objs if id(o) in shared and not getattr(o, "kind", "") == "tuple"})
    ob(not kinds, label + (f" [{kinds}]" if kinds else ""))


def reach(v, seen=None):
    seen = set() if seen is None else seen
    if isinstance(v, Arr):
        v = v.root()
    if id(v) in seen:
        return seen
    if isinstance(v, Heap):
        if isinstance(v, PList) and v.kind == "tuple":
            pass
        else:
            seen.add(id(v))
    if isinstance(v, Obj):
        for a in v.attrs.values():
            reach(a, seen)
    elif isinstance(v, PList) and isinstance(v._seq, CSeq):
        for a in v._seq._items:
            reach(a, seen)
    elif isinstance(v, SDict) and v._conc is not None:
        for _, a in v._conc:
            reach(a, seen)
    return seen


def expect_raise(it, thunk, label, exc=None):
    """every path of the call raises (an exception of the given kinds)"""
    try:
        thunk()
    except PyRaise as e:
        name = getattr(e.exc, "name", "?")
        ob(exc is None or name in exc, label)
        return
    ob(False, label)
