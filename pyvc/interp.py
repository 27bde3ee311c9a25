"""Symbolic interpreter for the Python subset used by veroku, over the AST of the files in the repository."""
import ast
import os
from .core import *  # noqa: F401,F403
from . import core
from .core import X, _Binding  # noqa: F401


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = {}
        self.pending = {}      # name -> thunk nodes


class Func:
    def __init__(self, node, env, module, cls=None, name=None, kind="function"):
        self.node, self.env, self.module, self.cls, self.kind = node, env, module, cls, kind
        self.name = name or getattr(node, "name", "<lambda>")

    @property
    def qual(self):
        return f"{self.module.name}:{self.cls.name + '.' if self.cls else ''}{self.name}"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class Cls:
    def __init__(self, name, module, bases, members):
        self.name, self.module, self.bases, self.members = name, module, bases, members

    def mro(self):
        out = [self]
        for b in self.bases:
            for c in (b.mro() if isinstance(b, Cls) else [b]):
                if c not in out:
                    out.append(c)
        return out

    def find(self, attr):
        for c in self.mro():
            if isinstance(c, Cls) and attr in c.members:
                return c, c.members[attr]
        return None, None

    def __repr__(self):
        return f"<class {self.name}>"


class Builtin:
    """a modelled library function; model(args, kwargs) -> value"""

    def __init__(self, name, model):
        self.name, self.model = name, model

    def __repr__(self):
        return f"<builtin {self.name}>"


class Lib:
    """a modelled library module: attribute -> value"""

    def __init__(self, name, attrs):
        self.name, self.attrs = name, attrs


class TypeRef:
    """a modelled type (for isinstance and construction)"""

    def __init__(self, name, test, make=None):
        self.name, self.test, self.make = name, test, make


class OpaqueStr:
    """a string whose content is not modelled (messages)"""


class Super:
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_


class Env:
    def __init__(self, vars, parent=None, module=None):
        self.vars, self.parent, self.module = vars, parent, module

    def lookup(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return True, e.vars[n]
            e = e.parent
        return False, None


class Poison:
    def __init__(self, why):
        self.why = why


class Opaque(Heap):
    """an object of a library whose behaviour is not modelled"""

    def __init__(self, what):
        super().__init__()
        self.what = what


core.IMMUTABLE += [Cls, Func, Builtin, Bound, OpaqueStr, TypeRef, Opaque]


class Interp:
    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.libs = {}
        self.contracts = {}        # qualname -> handler(interp, args, kwargs, self_) or None
        self.active = set()        # contracts switched off while verifying the function itself
        self.builtins = {}
        self.executed = set()      # functions whose bodies were executed
        self.used_contracts = set()
        self.inline_claims = set()
        self.depth = 0
        from . import lib
        lib.install(self)
        from . import matlib
        matlib.install(self)
        from . import heaplib
        heaplib.install(self)
        from . import tuplib
        tuplib.install(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        base = os.path.join(self.repo, *name.split("."))
        path = base + ".py"
        if not os.path.exists(path):
            path = os.path.join(base, "__init__.py")
        if not os.path.exists(path):
            raise Unsupported(f"module {name}")
        m = Module(name, path)
        self.modules[name] = m
        tree = ast.parse(open(path).read())
        m.tree = tree
        for st in tree.body:
            self.exec_module_stmt(m, st)
        return m

    def exec_module_stmt(self, m, st):
        if isinstance(st, ast.Import):
            for a in st.names:
                if a.asname:
                    m.env[a.asname] = self.import_name(a.name)
                else:
                    m.env[a.name.split(".")[0]] = self.import_name(a.name.split(".")[0])
        elif isinstance(st, ast.ImportFrom):
            for a in st.names:
                m.env[a.asname or a.name] = self.import_from(st.module, a.name)
        elif isinstance(st, ast.FunctionDef):
            m.env[st.name] = Func(st, Env(m.env, None, m), m)
        elif isinstance(st, ast.ClassDef):
            m.env[st.name] = self.make_class(m, st)
        elif isinstance(st, ast.Expr):
            pass
        elif isinstance(st, (ast.Assign, ast.AnnAssign)):
            tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
            for t in tgts:
                if isinstance(t, ast.Name):
                    m.env[t.id] = LazyConst(m, st.value)
        elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
            for t in ast.walk(st):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store):
                    m.env[t.id] = Poison("module-level control flow")

    def import_name(self, name):
        if name in self.libs:
            return self.libs[name]
        if name.split(".")[0] == "veroku":
            return self.module(name)
        return Lib(name, {})

    def import_from(self, mod, name):
        if mod in self.libs:
            l = self.libs[mod]
            if name in l.attrs:
                return l.attrs[name]
            if f"{mod}.{name}" in self.libs:
                return self.libs[f"{mod}.{name}"]
            return Poison(f"{mod}.{name} is not modelled")
        if mod and mod.split(".")[0] == "veroku":
            sub = f"{mod}.{name}"
            base = os.path.join(self.repo, *sub.split("."))
            if os.path.exists(base + ".py"):
                return self.module(sub)
            return LazyAttr(mod, name)
        return Poison(f"{mod}.{name} is not modelled")

    def make_class(self, m, st):
        bases = []
        for b in st.bases:
            if isinstance(b, ast.Name) and b.id in m.env:
                v = m.env[b.id]
                if isinstance(v, LazyAttr):
                    v = self.module(v.mod).env[v.name]
                bases.append(v)
            elif isinstance(b, ast.Name) and b.id in self.builtins:
                bases.append(self.builtins[b.id])
        members = {}
        cls = Cls(st.name, m, bases, members)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                kind = "function"
                for d in s.decorator_list:
                    dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
                    if dn in ("staticmethod", "classmethod", "property"):
                        kind = dn
                    elif dn == "setter":
                        kind = "setter"
                    elif dn == "abstractmethod":
                        pass
                    else:
                        kind = "decorated"
                f = Func(s, Env(m.env, None, m), m, cls, kind=kind)
                if kind == "setter":
                    members[s.name + ".setter"] = f
                else:
                    members[s.name] = f
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        members[t.id] = LazyConst(m, s.value)
        return cls

    def get_class(self, modname, clsname):
        v = self.module(modname).env.get(clsname)
        if not isinstance(v, Cls):
            raise Unsupported(f"class {modname}.{clsname} not found")
        return v

    def get_func(self, modname, qual):
        m = self.module(modname)
        if "." in qual:
            c, f = qual.split(".")
            _, v = self.get_class(modname, c).find(f)
        else:
            v = m.env.get(qual)
        if not isinstance(v, Func):
            raise Unsupported(f"function {modname}.{qual} not found")
        return v

    def resolve(self, v):
        if isinstance(v, LazyConst):
            return self.eval(v.node, Env({}, Env(v.m.env, None, v.m), v.m))
        if isinstance(v, LazyAttr):
            m = self.module(v.mod)
            if v.name not in m.env:
                raise Unsupported(f"{v.mod}.{v.name} not found")
            return self.resolve(m.env[v.name])
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return v

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        f = self.resolve(f)
        if isinstance(f, Builtin):
            return f.model(self, args, kwargs)
        if isinstance(f, Bound):
            if isinstance(f.func, Builtin):
                return f.func.model(self, [f.self_] + list(args), kwargs)
            return self.call_func(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, TypeRef) and f.make is not None:
            return f.make(self, args, kwargs)
        if isinstance(f, PyFn):
            return f.fn(*args, **kwargs)
        if isinstance(f, Obj):
            _, m = f.cls.find("__call__")
            if isinstance(m, Func):
                return self.call_func(m, [f] + list(args), kwargs)
        raise Unsupported(f"call of {f!r}")

    def instantiate(self, cls, args, kwargs):
        if any(isinstance(c, TypeRef) and c.name in EXC for c in cls.mro()):
            return ExcValue(cls)
        h = self.contracts.get(f"{cls.module.name}:{cls.name}.__init__")
        o = Obj(cls)
        _, init = cls.find("__init__")
        if init is not None:
            self.call_func(init, [o] + list(args), kwargs)
        return o

    def call_func(self, f, args, kwargs):
        q = f.qual
        h = self.contracts.get(q)
        if f.name == "__repr__" and q not in self.active:
            return OpaqueStr()          # text for people, not part of any property
        if h is not None and q not in self.active:
            r = h(self, f, args, kwargs)
            if r is not NotImplemented:
                if q not in self.inline_claims:
                    self.used_contracts.add(q)
                return r
        return self.exec_func(f, args, kwargs)

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names) and not a.vararg:
            raise PyRaise(EXC["TypeError"], f"too many arguments for {f.name}")
        for n, v in zip(names, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = PList(CSeq(args[len(names):]), "tuple")
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [p.arg for p in a.kwonlyargs]:
                if k in env:
                    raise PyRaise(EXC["TypeError"], f"multiple values for {k}")
                env[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                raise PyRaise(EXC["TypeError"], f"unexpected keyword {k} for {f.name}")
        if a.kwarg:
            env[a.kwarg.arg] = SDict(None, None, None, None, conc=list(extra.items()))
        defs = a.defaults
        for n, d in zip(names[len(names) - len(defs):], defs):
            if n not in env:
                env[n] = self.eval(d, f.env)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env and d is not None:
                env[p.arg] = self.eval(d, f.env)
        for n in names + [p.arg for p in a.kwonlyargs]:
            if n not in env:
                raise PyRaise(EXC["TypeError"], f"missing argument {n} of {f.name}")
        return env

    def exec_func(self, f, args, kwargs):
        if f.kind == "decorated":
            raise Unsupported(f"decorated function {f.qual}")
        env = Env(self.bind(f, args, kwargs), f.env, f.module)
        env.func = f
        env.vars["__class_cell__"] = f.cls
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, env)
        if f.cls or not getattr(f, "nested", False):
            self.executed.add(f.qual)
        if has_yield(f.node):
            raise Unsupported(f"generator {f.qual}")
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unsupported("recursion")
        try:
            self.exec_block(f.node.body, env)
        except FlowSignal as s:
            if s.kind == "return":
                return s.value
            raise
        finally:
            self.depth -= 1
        return None

    # ------------------------------------------------------------ statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__} (line {st.lineno})")
        return m(st, env)

    def st_Pass(self, st, env):
        pass

    def st_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split(".")[0]] = self.import_name(a.name if a.asname else a.name.split(".")[0])

    def st_ImportFrom(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name] = self.import_from(st.module, a.name)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred assignment")
            vals = self.unpack(v, n)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.setitem(o, self.eval_index(t.slice, env), v)
        else:
            raise Unsupported(f"assignment to {type(t).__name__}")

    def unpack(self, v, n):
        if core.is_tup(v):
            v = PList(self.lib.iter_seq(self, v), "tuple")
        if isinstance(v, PList):
            L = v.seq.length()
            X.require(eq(L, n), EXC["ValueError"], "unpack")
            return [v.seq.get(i) for i in range(n)]
        if isinstance(v, CondValue):
            parts = [(c, self.unpack(x, n)) for c, x in v.cases]
            out = []
            for i in range(n):
                r = parts[-1][1][i]
                for c, xs in reversed(parts[:-1]):
                    r = merge(c, xs[i], r)
                out.append(r)
            return out
        raise Unsupported(f"unpacking {type(v).__name__}")

    def setattr(self, o, name, v):
        if isinstance(o, Obj) and getattr(o, "sym", None) is not None:
            o = o.sym
        if isinstance(o, core.SymObj):
            X.world.setattr(self, o, name, v)
            return
        if isinstance(o, Obj):
            c, m = o.cls.find(name + ".setter")
            if m is not None:
                self.call_func(m, [o, v], {})
                return
            if o.effect("setattr", name, v):
                raise Unsupported("attribute assignment inside a loop")
            o.attrs[name] = v
            return
        raise Unsupported(f"attribute assignment on {type(o).__name__}")

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            env_set = lambda v: env.vars.__setitem__(t.id, v)  # noqa: E731
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            env_set = lambda v: self.setattr(o, t.attr, v)  # noqa: E731
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            ix = self.eval_index(t.slice, env)
            cur = self.getitem(o, ix)
            env_set = lambda v: self.setitem(o, ix, v)  # noqa: E731
        else:
            raise Unsupported("augmented assignment")
        rhs = self.eval(st.value, env)
        if isinstance(cur, PList) and cur.kind == "list" and isinstance(st.op, ast.Add):
            self.lib.list_extend(self, cur, rhs)
            env_set(cur)
            return
        if isinstance(cur, Arr) and not isinstance(t, ast.Subscript):
            new = self.lib.binop(self, type(st.op).__name__, cur, rhs)
            self.lib.arr_assign_all(self, cur, new)
            env_set(cur)
            return
        env_set(self.lib.binop(self, type(st.op).__name__, cur, rhs))

    def st_Return(self, st, env):
        raise FlowSignal("return", self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise FlowSignal("break")

    def st_Continue(self, st, env):
        raise FlowSignal("continue")

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            raise PyRaise(EXC["AssertionError"], f"assert line {st.lineno}")

    def st_Raise(self, st, env):
        if st.exc is None:
            raise PyRaise(EXC["Exception"], "re-raise")
        v = st.exc
        e = self.eval_exc(v, env)
        raise PyRaise(e, f"raise line {st.lineno}")

    def eval_exc(self, node, env):
        if isinstance(node, ast.Call):
            f = self.eval(node.func, env)
        else:
            f = self.eval(node, env)
        if isinstance(f, ExcValue):
            return f.cls
        if isinstance(f, (Cls, TypeRef)):
            return f
        return EXC["Exception"]

    def exc_match(self, exc, spec):
        if isinstance(spec, PList):
            return any(self.exc_match(exc, s) for s in spec.seq.items())
        if isinstance(exc, Cls):
            return spec in exc.mro() or (isinstance(spec, TypeRef) and spec.name in ("Exception", "BaseException"))
        if isinstance(exc, TypeRef) and isinstance(spec, TypeRef):
            return spec.name in EXC_PARENTS.get(exc.name, ()) or exc.name == spec.name
        return False

    def st_Try(self, st, env):
        try:
            self.exec_block(st.body, env)
        except PyRaise as e:
            for h in st.handlers:
                spec = self.eval(h.type, env) if h.type is not None else EXC["BaseException"]
                if self.exc_match(e.exc, spec):
                    if h.name:
                        env.vars[h.name] = ExcValue(e.exc)
                    self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(st.finalbody, env)
                raise
            self.exec_block(st.finalbody, env)
            return
        except FlowSignal:
            self.exec_block(st.finalbody, env)
            raise
        self.exec_block(st.orelse, env)
        self.exec_block(st.finalbody, env)

    def st_With(self, st, env):
        for it in st.items:
            v = self.eval(it.context_expr, env)
            if not (isinstance(v, Opaque) and v.what in ("catch_warnings", "errstate")):
                raise Unsupported("with statement")
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(st.body, env)

    def st_FunctionDef(self, st, env):
        f = Func(st, env, env.module or self.env_module(env))
        f.nested = True
        if st.decorator_list:
            f.kind = "decorated"
        env.vars[st.name] = f

    def env_module(self, env):
        while env is not None:
            if env.module is not None:
                return env.module
            env = env.parent
        return None

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                env.vars[t.id] = Poison("deleted")
            elif isinstance(t, ast.Subscript):
                self.lib.dict_delete(self, self.eval(t.value, env), self.eval(t.slice, env))
            else:
                raise Unsupported("del")

    def st_Global(self, st, env):
        raise Unsupported("global")

    def st_While(self, st, env):
        n = 0
        while self.truth(self.eval(st.test, env)):
            n += 1
            if n > 12:
                raise Unsupported("while loop without a bound")
            try:
                self.exec_block(st.body, env)
            except FlowSignal as s:
                if s.kind == "break":
                    return
                if s.kind != "continue":
                    raise
        self.exec_block(st.orelse, env)

    # ------------------------------------------------------------ loops
    def st_For(self, st, env):
        it = self.eval(st.iter, env)
        seq = self.lib.consume(self, it)
        own = getattr(it, "items_of", None)
        if own is not None and own[0]._conc is None and seq.items() is None:
            own = self.items_snapshot(own[0], own[1])
            seq = own[2]
        else:
            own = None
        items = seq.items()
        if items is not None:
            for x in items:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except FlowSignal as s:
                    if s.kind == "break":
                        return
                    if s.kind != "continue":
                        raise
            self.exec_block(st.orelse, env)
            return
        if st.orelse:
            raise Unsupported("for-else")
        assigned = {n.id for b in st.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        assigned |= {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}

        def body(elem, e2):
            self.assign(st.target, elem, e2)
            self.exec_block(st.body, e2)
        if self.loop_invs:
            from . import heaplib
            lk = heaplib.loop_key(env, st)
            inv = self.loop_invs.get(lk[:2]) if lk else None
            if inv is not None and inv.loops == lk[2]:
                heaplib.run_inv(self, inv, st, seq, env, assigned)
                return
        self.loop(seq, body, env, assigned, own)

    def items_snapshot(self, d, ks):
        """d.items() as iterated by a for loop that may overwrite the value of the key being visited (only)"""
        get = d._get
        return (d, ks, self.lib.TupleSeq([ks, core.MapSeq(ks, lambda i: get(ks.get(i)))]))

    def loop(self, seq, body, env, assigned=(), own=None):
        """summarise `for elem in seq: body(elem)`; see DESIGN.md (loop rules)"""
        n = seq.length()
        i0 = X.const("i", Int)
        accs = {}
        start = X.seq_no
        lists = {}
        carried = set()         # variables whose value changes from one iteration to the next

        def thunk():
            X.loops.append(LoopFrame(X.seq_no))
            X.bound = X.bound + [i0]
            X.assume(InR(0, i0, n), guard=True)
            vars2 = dict(env.vars)
            for a in assigned:
                if a in vars2 and a in carried:
                    v = vars2[a]
                    if a in lists:      # becomes a list of one length in every iteration
                        if not X.branch(i0 == 0):
                            vars2[a] = PList(core.FnSeq(lists[a], lambda i: self.unsup("elements carried from one iteration to the next")), "list")
                    elif is_num(v) or is_bool(v) or (isz(v) and v.sort().name() == "Fac"):
                        sort = v.sort() if isz(v) and v.sort().name() == "Fac" else Bool if is_bool(v) else Int if is_int(v) else Real if is_real(v) else XR
                        if isinstance(v, float):
                            sort = XR
                        key = (a, sort)
                        if key not in accs:
                            accs[key] = z3.Const(f"acc_{a}!{i0}", sort)
                        vars2[a] = accs[key]
                    else:
                        vars2[a] = Poison(f"{a} carried from one iteration to the next")
            e2 = Env(vars2, env.parent, env.module)
            for k in ("func",):
                if hasattr(env, k):
                    setattr(e2, k, getattr(env, k))
            elem = seq.get(i0)
            kind, value = "normal", None
            try:
                body(elem, e2)
            except FlowSignal as s:
                kind, value = s.kind, s.value
            except PyRaise as p:
                kind, value = "raise", p
            lf = X.loops.pop()
            fin = {a: vars2.get(a) for a in assigned if a in env.vars}
            return (kind, value, lf, fin)
        for _ in range(len(assigned) + 2):
            runs = X.explore(thunk)
            for a in assigned:
                ends = [r.value[3].get(a) for r in runs if r.value[0] in ("normal", "continue")]
                if a not in lists and ends and not isinstance(env.vars.get(a), PList) and all(isinstance(v, PList) for v in ends):
                    L = ends[0]._seq.length()
                    if not (isz(L) and occurs(i0, L)):
                        lists[a] = L
                        carried.discard(a)
            moved = {a for r in runs for a, v in r.value[3].items()
                     if a not in carried and not (v is env.vars[a] or (isz(v) and isz(env.vars[a]) and v.eq(env.vars[a])))}
            if not moved:
                break
            carried |= moved
        for a, L in lists.items():
            for r in runs:
                v = r.value[3].get(a)
                if r.value[0] in ("normal", "continue") and not (isinstance(v, PList) and (v._seq.length() is L or zi(v._seq.length()).eq(zi(L)))):
                    raise Unsupported(f"{a} is not a list of one length in every iteration")
        # definitional facts of each run hold for every iteration satisfying the run's guard
        for r in runs:
            for f in r.defs:
                X.facts.append(generalise(f, [i0], And(*r.guards)))
        X.seq_no = max(X.seq_no, start)
        norm, exits = [], []
        if own is not None:     # a loop over d.items() may change d, but only at the key being visited
            with X.binding(i0):
                k0 = self.lib.key(own[1].get(i0))
            own[0].touch()
            for r in runs:
                for o in r.value[2].effects:
                    if o[0] is own[0] and not (o[1] == "set" and isz(o[2]) and o[2].eq(k0)):
                        raise Unsupported("a loop over the items of a dictionary changes other items of it")
        for r in runs:
            kind, value, lf, fin = r.value
            r.k, r.v, r.lf, r.fin = kind, value, lf, fin
            for o in lf.effects:
                if id(o[0]) in lf.reads:
                    raise Unsupported("a loop reads an object it also changes")
            (exits if kind in ("raise", "return", "break") else norm).append(r)
        # --- early exits
        if exits:
            ex = Or(*[r.guard for r in exits])
            w = X.fresh("exit_i", Int)
            X.memo.setdefault("exits", []).append((seq, w))
            exw = subst(ex, [(i0, w)]) if isz(ex) else ex
            q = X.fresh("exits", Bool)
            X.assume(Implies(q, And(InR(0, w, n), exw)))
            X.facts.append(Fact(Implies(And(Not(q), InR(0, i0, n)), Not(ex)), [i0], self.loop_pats(seq, i0)))
            X.facts.append(Fact(Implies(And(q, InR(0, i0, w)), Not(ex)), [i0], self.loop_pats(seq, i0)))
            if X.branch(q):
                k = 0
                for k, r in enumerate(exits):
                    if k == len(exits) - 1 or X.branch(subst(r.guard, [(i0, w)]) if isz(r.guard) else r.guard):
                        break
                r = exits[k]
                if k == len(exits) - 1:
                    g = r.guard
                    X.assume(subst(g, [(i0, w)]) if isz(g) else g)
                if r.lf.effects or any(n_.lf.effects for n_ in norm):
                    if r.k != "raise":
                        raise Unsupported("early exit from a loop with effects")
                    for n_ in norm + [r]:
                        for o in n_.lf.effects:
                            o[0].effect("partial")
                            if not o[0].pre:
                                self.scramble(o[0])
                if r.k == "raise":
                    raise r.v
                for a in assigned:
                    if a in env.vars:
                        env.vars[a] = Poison(f"{a} after a loop")
                if r.k == "return":
                    raise FlowSignal("return", subst(r.v, [(i0, w)]))
                return
            if len(norm) == 1:          # no exit is taken: the remaining path is the one followed in every iteration
                norm[0].guards = norm[0].guards[:1]
        # --- scalar accumulators and other carried variables
        for a in assigned:
            if a in env.vars:
                env.vars[a] = self.accumulate(a, env.vars[a], norm, accs, carried, seq, i0, n)
        for a in assigned:
            env.vars.setdefault(a, Poison(f"{a} after a loop"))
        # --- effects
        byobj = {}
        for r in norm:
            for eff in r.lf.effects:
                byobj.setdefault(id(eff[0]), (eff[0], []))[1].append((r, eff))
        for o, effs in byobj.values():
            self.lib.apply_loop_effects(self, o, effs, norm, seq, i0, n)

    def unsup(self, why):
        raise Unsupported(why)

    def loop_pats(self, seq, i0):
        with X.local(), X.binding(i0):
            X.assume(InR(0, i0, seq.length()))
            e = seq.get(i0)
        vals = []

        def coll(v):
            if isz(v):
                vals.append(v)
            elif isinstance(v, PList) and isinstance(v._seq, CSeq):
                for x in v._seq._items:
                    coll(x)
        coll(e)
        out = []
        for v in vals:
            out += [p for p in pick_patterns([i0], v) if len(p) == 1]
        return out or None

    def scramble(self, o):
        if isinstance(o, PList):
            o.family = ["changed"]
        else:
            o.scrambled = True

    def accumulate(self, a, v0, norm, accs, carried, seq, i0, n):
        keys = [k for k in accs if k[0] == a]
        vals = [r.fin[a] for r in norm]
        if keys:
            c = accs[keys[0]]
            if all(isz(v) and v.eq(c) for v in vals):
                return v0
            return self.lib.accumulator(self, a, v0, c, norm, vals, seq, i0, n)
        if a not in carried:
            return v0
        return Poison(f"{a} carried from one iteration to the next")

    def comprehension(self, node, env, emit):
        """run the generators of a comprehension; emit(env) is called for each element"""
        def level(gi, e):
            if gi == len(node.generators):
                emit(e)
                return
            g = node.generators[gi]
            seq = self.lib.consume(self, self.eval(g.iter, e))
            items = seq.items()

            def body(elem, e2):
                self.assign(g.target, elem, e2)
                for c in g.ifs:
                    if not self.truth(self.eval(c, e2)):
                        return
                level(gi + 1, e2)
            if items is not None:
                for x in items:
                    body(x, e)
            else:
                self.loop(seq, body, e, {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)})
        e = Env({}, env, env.module)
        level(0, e)

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        return X.branch(self.lib.truth_cond(self, v))

    def eval(self, node, env):
        m = getattr(self, "ex_" + type(node).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(node).__name__} (line {getattr(node, 'lineno', '?')})")
        return m(node, env)

    def load_name(self, n, env):
        ok, v = env.lookup(n)
        if not ok:
            if n in self.builtins:
                return self.builtins[n]
            raise Unsupported(f"name {n}")
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return self.resolve(v)

    def ex_Constant(self, node, env):
        v = node.value
        if isinstance(v, (int, float, str, bool)) or v is None:
            return v
        if v is Ellipsis:
            raise Unsupported("ellipsis")
        raise Unsupported(f"constant {v!r}")

    def ex_Name(self, node, env):
        return self.load_name(node.id, env)

    def ex_JoinedStr(self, node, env):
        if all(isinstance(v, ast.Constant) for v in node.values):
            return "".join(v.value for v in node.values)
        return OpaqueStr()

    def ex_Lambda(self, node, env):
        f = Func(node, env, self.env_module(env))
        f.nested = True
        return f

    def ex_Tuple(self, node, env):
        return PList(self.elts(node.elts, env), "tuple")

    def ex_List(self, node, env):
        return PList(self.elts(node.elts, env), "list")

    def elts(self, elts, env):
        out, seq = [], None
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.lib.iter_seq(self, self.eval(e.value, env))
                items = s.items()
                if items is not None:
                    out.extend(items)
                else:
                    seq = ConcatSeq(seq if seq is not None else CSeq([]), CSeq(out)) if (out or seq is not None) else None
                    seq = s if seq is None else ConcatSeq(seq, s)
                    out = []
            else:
                out.append(self.eval(e, env))
        if seq is None:
            return CSeq(out)
        return ConcatSeq(seq, CSeq(out)) if out else seq

    def ex_Set(self, node, env):
        return self.lib.set_of_seq(CSeq([self.eval(e, env) for e in node.elts]))

    def ex_Dict(self, node, env):
        conc = []
        d = SDict(None, None, None, None, conc=conc)
        for k, v in zip(node.keys, node.values):
            if k is None:
                o = self.eval(v, env)
                if not isinstance(o, SDict):
                    raise Unsupported("dict unpacking")
                self.lib.dict_update(self, d, o)
                continue
            self.setitem(d, self.eval(k, env), self.eval(v, env))
        return d

    def ex_ListComp(self, node, env):
        out = PList(CSeq([]), "list")
        self.comprehension(node, env, lambda e: self.lib.list_append(self, out, self.eval(node.elt, e)))
        return out

    def ex_GeneratorExp(self, node, env):
        r = self.ex_ListComp(node, env)
        r.generator = True
        return r

    def ex_SetComp(self, node, env):
        out = PList(CSeq([]), "list")
        self.comprehension(node, env, lambda e: self.lib.list_append(self, out, self.eval(node.elt, e)))
        return self.lib.set_of_seq(out.seq)

    def ex_DictComp(self, node, env):
        d = SDict(None, None, None, None, conc=[])
        self.comprehension(node, env, lambda e: self.setitem(d, self.eval(node.key, e), self.eval(node.value, e)))
        return d

    def ex_IfExp(self, node, env):
        if self.truth(self.eval(node.test, env)):
            return self.eval(node.body, env)
        return self.eval(node.orelse, env)

    def ex_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        v = None
        for k, e in enumerate(node.values):
            v = self.eval(e, env)
            if k == len(node.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t or not isand and t:
                return v if not isz(v) else (not isand)
        return v

    def ex_UnaryOp(self, node, env):
        v = self.eval(node.operand, env)
        if isinstance(node.op, ast.Not):
            c = self.lib.truth_cond(self, v)
            return Not(c)
        return self.lib.unary(self, type(node.op).__name__, v)

    def ex_BinOp(self, node, env):
        a = self.eval(node.left, env)
        b = self.eval(node.right, env)
        return self.lib.binop(self, type(node.op).__name__, a, b)

    def ex_Compare(self, node, env):
        a = self.eval(node.left, env)
        res = True
        for k, (op, rhs) in enumerate(zip(node.ops, node.comparators)):
            b = self.eval(rhs, env)
            r = self.lib.compare(self, type(op).__name__, a, b)
            if k == len(node.ops) - 1:
                if res is True:
                    return r
                return And(self.lib.truth_cond(self, res), self.lib.truth_cond(self, r))
            res = r if res is True else And(res, r)
            if not self.truth(r):
                return False
            a = b
        return res

    def ex_Starred(self, node, env):
        raise Unsupported("starred expression")

    def ex_Subscript(self, node, env):
        o = self.eval(node.value, env)
        return self.getitem(o, self.eval_index(node.slice, env))

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return PList(CSeq([self.eval_index(e, env) for e in s.elts]), "tuple")
        return self.eval(s, env)

    def getitem(self, o, ix):
        return self.lib.getitem(self, o, ix)

    def setitem(self, o, ix, v):
        self.lib.setitem(self, o, ix, v)

    def ex_Attribute(self, node, env):
        o = self.eval(node.value, env)
        return self.getattr(o, node.attr)

    def getattr(self, o, name):
        o = self.resolve(o)
        if isinstance(o, Obj) and getattr(o, "sym", None) is not None:
            o = o.sym
        if isinstance(o, core.SymObj):
            return X.world.getattr(self, o, name)
        if isinstance(o, Obj):
            o.touch()
            if name in o.attrs:
                return self.resolve(o.attrs[name])
            c, m = o.cls.find(name)
            if m is None:
                if name == "__class__":
                    return o.cls
                raise Unsupported(f"attribute {o.cls.name}.{name}")
            return self.bind_member(m, o, o.cls)
        if isinstance(o, Cls):
            if name == "__name__":
                return o.name
            c, m = o.find(name)
            if m is None:
                raise Unsupported(f"attribute {o.name}.{name}")
            if isinstance(m, Func) and m.kind == "classmethod":
                return Bound(m, o)
            return self.resolve(m)
        if isinstance(o, Super):
            mro = o.self_.cls.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if isinstance(c, Cls) and name in c.members:
                    return self.bind_member(c.members[name], o.self_, o.self_.cls)
            raise Unsupported(f"super().{name}")
        if isinstance(o, Module):
            if name in o.env:
                return self.resolve(o.env[name])
            raise Unsupported(f"attribute {o.name}.{name}")
        if isinstance(o, Lib):
            if name in o.attrs:
                return o.attrs[name]
            if f"{o.name}.{name}" in self.libs:
                return self.libs[f"{o.name}.{name}"]
            raise Unsupported(f"{o.name}.{name} is not modelled")
        return self.lib.getattr(self, o, name)

    def bind_member(self, m, o, cls):
        m = self.resolve(m)
        if isinstance(m, Func):
            if m.kind == "property":
                return self.call_func(m, [o], {})
            if m.kind == "staticmethod":
                return m
            if m.kind == "classmethod":
                return Bound(m, cls)
            return Bound(m, o)
        return m

    def ex_Call(self, node, env):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args:
            ok, c = env.lookup("__class_cell__")
            e = env
            while not hasattr(e, "func") and e.parent is not None:
                e = e.parent
            first = e.func.node.args.args[0].arg
            return Super(c, env.lookup(first)[1])
        f = self.eval(node.func, env)
        args, kwargs = [], {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                items = self.lib.iter_seq(self, self.eval(a.value, env)).items()
                if items is None:
                    args.append(StarSeq(self.lib.iter_seq(self, self.eval(a.value, env))))
                else:
                    args.extend(items)
            else:
                args.append(self.eval(a, env))
        for k in node.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                if isinstance(v, SDict) and v._conc is not None and all(isinstance(a, str) for a, _ in v._conc):
                    kwargs.update(dict(v._conc))
                elif isinstance(v, SDict):
                    kwargs["**"] = v
                else:
                    raise Unsupported("keyword unpacking")
            else:
                kwargs[k.arg] = v
        if any(isinstance(a, StarSeq) for a in args) and not isinstance(f, (Builtin, Bound)):
            raise Unsupported("argument unpacking")
        return self.call(f, args, kwargs)


class StarSeq:
    def __init__(self, seq):
        self.seq = seq


class LazyConst:
    def __init__(self, m, node):
        self.m, self.node = m, node


class LazyAttr:
    def __init__(self, mod, name):
        self.mod, self.name = mod, name


class PyFn:
    """a spec-level function passed to interpreted code"""

    def __init__(self, fn):
        self.fn = fn


class ExcValue:
    def __init__(self, cls):
        self.cls = cls


core.IMMUTABLE += [PyFn, ExcValue]


def has_yield(node):
    for n in ast.walk(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


EXC_PARENTS = {
    "ValueError": ("Exception", "BaseException"), "TypeError": ("Exception", "BaseException"),
    "KeyError": ("LookupError", "Exception", "BaseException"), "IndexError": ("LookupError", "Exception", "BaseException"),
    "LookupError": ("Exception", "BaseException"),
    "AssertionError": ("Exception", "BaseException"), "NotImplementedError": ("RuntimeError", "Exception", "BaseException"),
    "RuntimeError": ("Exception", "BaseException"), "Warning": ("Exception", "BaseException"),
    "AttributeError": ("Exception", "BaseException"), "ZeroDivisionError": ("ArithmeticError", "Exception", "BaseException"),
    "StopIteration": ("Exception", "BaseException"), "LinAlgError": ("ValueError", "Exception", "BaseException"),
    "Exception": ("BaseException",), "BaseException": (), "ArithmeticError": ("Exception", "BaseException"),
}
EXC = {n: TypeRef(n, lambda v: False, lambda it, a, k, n=n: ExcValue(EXC[n])) for n in EXC_PARENTS}
