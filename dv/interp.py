"""Symbolic interpreter of the real Python source under /repo.

The AST of the current working tree is parsed on every run and executed over
symbolic values.  Classes are real Python classes (built with type()) whose
methods are IFunc descriptors, so properties, inheritance, super() and
isinstance behave as in CPython.  What is dropped: decorators njit / jitclass /
contextmanager / abstractmethod (identity), annotations, docstrings.
"""
import ast
import builtins
import math
import operator
import os
import sys
import types
from fractions import Fraction

from . import terms as T
from .terms import Unsupported
from .core import SV, ctx, lift, wrap, cast, PathEnd, Restart, Budget, is_inf
from .arrays import Arr, ci, Flat
from . import npshim
from . import io as fileio

ENGINE = (PathEnd, Restart, Budget, Unsupported)


class Unbound:
    """marker of a local that is not bound at this point"""

    def __init__(self, why="", cond=None):
        self.why, self.cond = why, cond


class Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


BREAK, CONTINUE = "break", "continue"


class Frame:
    __slots__ = ("locals", "parent", "globals", "func", "names", "globalnames", "nonlocals", "cls", "kind", "loops")

    def __init__(self, globals_, parent=None, func=None, names=None, cls=None, kind="func"):
        self.locals = {}
        self.parent = parent
        self.globals = globals_
        self.func = func
        self.names = names or set()
        self.globalnames = set()
        self.nonlocals = set()
        self.cls = cls
        self.kind = kind
        self.loops = []


def assigned_names(body, params=()):
    names, glob, nonl = set(params), set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in getattr(n, "decorator_list", ()):
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in n.generators:
                visit(g.iter)
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    tgt(w.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.NamedExpr):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                names.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.Global):
            glob.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return names - glob - nonl, glob, nonl


class IFunc:
    """a function of the program under verification"""

    def __init__(self, interp, node, globals_, parent, cls_cell, qualname):
        self.interp, self.node, self.globals, self.parent = interp, node, globals_, parent
        self.cls_cell = cls_cell
        self.__name__ = getattr(node, "name", "<lambda>")
        self.__qualname__ = qualname
        self.__module__ = globals_.get("__name__")
        self.__doc__ = None
        self.jit = False
        self.defaults = []
        self.kwdefaults = {}
        self.is_gen = False
        a = node.args
        self.params = [p.arg for p in a.posonlyargs + a.args]
        self.kwonly = [p.arg for p in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        allp = self.params + self.kwonly + [x for x in (self.vararg, self.kwarg) if x]
        if isinstance(node, ast.Lambda):
            self.body = None
            self.names, self.glob, self.nonl = set(allp), set(), set()
        else:
            self.body = node.body
            self.names, self.glob, self.nonl = assigned_names(node.body, allp)
            for w in ast.walk(node):
                if isinstance(w, (ast.Yield, ast.YieldFrom)):
                    self.is_gen = True

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return types.MethodType(self, obj)

    @property
    def py_func(self):
        return self

    def __repr__(self):
        return "<IFunc %s>" % self.__qualname__

    def bind(self, args, kw):
        loc = {}
        args = list(args)
        np_ = len(self.params)
        for i, p in enumerate(self.params):
            if i < len(args):
                loc[p] = args[i]
        if len(args) > np_:
            if self.vararg is None:
                raise TypeError("%s() takes %d positional arguments but %d were given" % (self.__name__, np_, len(args)))
            loc[self.vararg] = tuple(args[np_:])
        elif self.vararg:
            loc[self.vararg] = ()
        extra = {}
        for k, v in kw.items():
            if k in self.params or k in self.kwonly:
                if k in loc:
                    raise TypeError("multiple values for argument %r" % k)
                loc[k] = v
            elif self.kwarg:
                extra[k] = v
            else:
                raise TypeError("%s() got an unexpected keyword argument %r" % (self.__name__, k))
        if self.kwarg:
            loc[self.kwarg] = extra
        nd = len(self.defaults)
        for i, p in enumerate(self.params):
            if p not in loc:
                j = i - (np_ - nd)
                if j < 0:
                    raise TypeError("%s() missing argument %r" % (self.__name__, p))
                loc[p] = self.defaults[j]
        for p in self.kwonly:
            if p not in loc:
                if p not in self.kwdefaults:
                    raise TypeError("missing keyword argument %r" % p)
                loc[p] = self.kwdefaults[p]
        return loc

    def __call__(self, *args, **kw):
        c = ctx()
        st = self.interp.stubs.get(self.__name__)
        if st is not None:
            cls = args[0] if args else None
            r = st(self, *args, **kw)
            if r is not NotImplemented:
                return r
        return self.run(*args, **kw)

    def run(self, *args, **kw):
        c = ctx()
        if self.is_gen:
            raise Unsupported("generator function %s" % self.__qualname__)
        c.functions.add(self.__module__.split(".")[-1] + "." + self.__qualname__)
        loc = self.bind(args, kw)
        fr = Frame(self.globals, self.parent, self, self.names, self.cls_cell)
        fr.globalnames, fr.nonlocals = self.glob, self.nonl
        fr.locals.update(loc)
        c.calldepth += 1
        if c.calldepth > 60:
            raise Unsupported("call depth")
        if self.jit:
            c.state["jit"] = c.state.get("jit", 0) + 1
        c.callstack.append(fr)
        try:
            if self.body is None:
                return self.interp.ev(self.node.body, fr)
            r = self.interp.block(self.body, fr)
            return r.v if isinstance(r, Ret) else None
        finally:
            c.calldepth -= 1
            c.callstack.pop()
            if self.jit:
                c.state["jit"] -= 1


class IMeta(type):
    """metaclass of interpreted classes (assigns a stable name to instances)"""


def obj_name(o):
    return o.__dict__.get("__dv_name__") if hasattr(o, "__dict__") else None


def notify_attr(o, name):
    c = ctx()
    if c is None or not c.loopstack:
        return
    for l in c.loopstack:
        l.wrote_attr(o, name)


def set_attr(o, name, v):
    if isinstance(o, Arr) and name == "shape":
        raise Unsupported("assignment to .shape")
    notify_attr(o, name)
    setattr(o, name, v)
    d = getattr(o, "__dict__", None)
    if type(d) is dict and "__dv_serial__" not in d and not isinstance(o, type):
        from .loops import name_object
        name_object(o)


BINOPS = {
    ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
    ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
    ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
    ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul,
}
IBINOPS = {
    ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
    ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.Pow: operator.ipow,
    ast.BitAnd: operator.iand, ast.BitOr: operator.ior, ast.BitXor: operator.ixor,
    ast.LShift: operator.ilshift, ast.RShift: operator.irshift, ast.MatMult: operator.imatmul,
}
CMPOPS = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge,
          ast.Eq: operator.eq, ast.NotEq: operator.ne}
NUM = (int, float, Fraction)


def exact_bin(op, f, a, b):
    """arithmetic on concrete numbers is exact"""
    if type(op) is ast.Div and isinstance(a, NUM) and isinstance(b, NUM):
        if b == 0:
            raise ZeroDivisionError("division by zero")
        if not (is_inf(a) or is_inf(b)):
            r = Fraction(T.to_fraction(a)) / T.to_fraction(b)
            return r
    if isinstance(a, float) and not is_inf(a) and a == a and isinstance(b, (int, Fraction)):
        a = T.to_fraction(a)
    if isinstance(b, float) and not is_inf(b) and b == b and isinstance(a, (int, Fraction)):
        b = T.to_fraction(b)
    if type(op) is ast.Pow and isinstance(a, NUM) and isinstance(b, Fraction):
        if b.denominator == 1:
            return Fraction(a) ** int(b)
        return wrap(T.power(lift(a), lift(b)))
    return f(a, b)


class Interp:
    def __init__(self, root="/repo", package="pyDeltaRCM", overrides=None):
        self.root, self.package = root, package
        self.modules = {}
        self.stubs = {}
        self.loopspecs = {}
        self.np = npshim.build()
        self.overrides = {}
        from . import shims
        shims.install(self)
        if overrides:
            self.overrides.update(overrides)
        self.callmap = shims.callmap(self)

    # ------------------------------------------------------------ modules
    def load(self, name):
        """name: submodule of the package, e.g. 'water_tools'"""
        full = self.package if name == "" else self.package + "." + name
        if full in self.modules:
            return self.modules[full]
        path = os.path.join(self.root, self.package, (name or "__init__") + ".py")
        with open(path) as f:
            src = f.read()
        import warnings as _w
        with _w.catch_warnings():
            _w.simplefilter("ignore")
            tree = ast.parse(src)
        m = types.ModuleType(full)
        m.__file__ = path
        m.__dict__["__builtins__"] = builtins
        self.modules[full] = m
        fr = Frame(m.__dict__, None, None, set(), None, "module")
        fr.locals = m.__dict__
        self.block(tree.body, fr)
        return m

    def import_(self, name, level):
        if level:
            return self.load(name or "")
        if name.split(".")[0] == self.package:
            return self.load(".".join(name.split(".")[1:]))
        if name in self.overrides:
            return self.overrides[name]
        top = name.split(".")[0]
        if top in self.overrides:
            m = self.overrides[top]
            for p in name.split(".")[1:]:
                m = getattr(m, p)
            return m
        try:
            return __import__(name, fromlist=["x"])
        except ImportError:
            raise Unsupported("import of %s" % name)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            r = self.ex(s, fr)
            if r is not None:
                return r
        return None

    def ex(self, s, fr):
        f = getattr(self, "x_" + type(s).__name__, None)
        if f is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return f(s, fr)

    def x_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        return None

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        op = s.op
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.aug(op, cur, self.ev(s.value, fr))
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.aug(op, cur, self.ev(s.value, fr))
            set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(o, k)
            rhs = self.ev(s.value, fr)
            if isinstance(cur, Arr):
                v = self.binop(op, cur, rhs)
            else:
                v = self.aug(op, cur, rhs)
            self.setitem(o, k, v)
        else:
            raise Unsupported("augmented target")

    def aug(self, op, a, b):
        if isinstance(a, (Arr, list, dict, set)):
            if isinstance(a, Arr):
                if a.dt in "ib" and isinstance(b, (Arr, SV, float, Fraction)):
                    bt = b.dt if isinstance(b, Arr) else ("f" if isinstance(b, (float, Fraction)) or b.t.sort == "R" else "i")
                    if bt == "f":
                        raise Unsupported("in-place real arithmetic on an integer array")
                f = IBINOPS[type(op)]
                return f(a, b)
            return IBINOPS[type(op)](a, b)
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        f = BINOPS.get(type(op))
        if f is None:
            raise Unsupported("operator")
        if isinstance(a, str) and type(op) is ast.Mod:
            return fmt_percent(a, b)
        if isinstance(a, NUM) and isinstance(b, NUM):
            return exact_bin(op, f, a, b)
        return f(a, b)

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        from . import loops
        return loops.run_for(self, s, it, fr)

    def x_While(self, s, fr):
        from . import loops
        return loops.run_while(self, s, fr)

    def x_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            return self.block(s.body, fr)
        return self.block(s.orelse, fr)

    def x_Return(self, s, fr):
        return Ret(self.ev(s.value, fr) if s.value is not None else None)

    def x_Break(self, s, fr):
        return BREAK

    def x_Continue(self, s, fr):
        return CONTINUE

    def x_FunctionDef(self, s, fr):
        f = self.mkfunc(s, fr)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, fr)
        self.store(s.name, f, fr)

    def mkfunc(self, s, fr):
        if fr.kind == "class":
            q = fr.cls["name"] + "." + s.name
            parent, cell = fr.parent, fr.cls
        else:
            q = (fr.func.__qualname__ + "." if fr.func is not None else "") + getattr(s, "name", "<lambda>")
            parent, cell = (fr if fr.kind in ("func", "comp") else None), fr.cls
        f = IFunc(self, s, fr.globals, parent, cell, q)
        f.defaults = [self.ev(d, fr) for d in s.args.defaults]
        f.kwdefaults = {a.arg: self.ev(d, fr) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        return f

    def decorate(self, d, f, fr):
        dec = self.ev(d, fr)
        if dec is builtins.property or dec is builtins.staticmethod or dec is builtins.classmethod:
            return dec(f)
        return dec(f)

    def x_ClassDef(self, s, fr):
        bases = tuple(self.ev(b, fr) for b in s.bases)
        cell = {"name": s.name, "cls": None}
        cf = Frame(fr.globals, fr if fr.kind in ("func", "comp") else None, None, set(), cell, "class")
        self.block(s.body, cf)
        ns = dict(cf.locals)
        ns.setdefault("__module__", fr.globals.get("__name__"))
        bases = tuple(b for b in bases)
        real = []
        for b in bases:
            real.append(self.class_base(b))
        metas = {type(b) for b in real}
        cls = types.new_class(s.name, tuple(real), {}, lambda n: n.update(ns))
        cls.__dv_interp__ = True
        cell["cls"] = cls
        r = cls
        for d in reversed(s.decorator_list):
            r = self.ev(d, fr)(r)
        self.store(s.name, r, fr)

    def class_base(self, b):
        return b

    def x_Import(self, s, fr):
        for a in s.names:
            if a.asname:
                self.store(a.asname, self.import_(a.name, 0), fr)
            else:
                self.import_(a.name, 0)
                self.store(a.name.split(".")[0], self.import_(a.name.split(".")[0], 0), fr)

    def x_ImportFrom(self, s, fr):
        if s.level:
            if s.module:
                m = self.import_(s.module, s.level)
                for a in s.names:
                    self.store(a.asname or a.name, getattr(m, a.name), fr)
            else:
                for a in s.names:
                    self.store(a.asname or a.name, self.load(a.name), fr)
            return
        m = self.import_(s.module, 0)
        for a in s.names:
            if not hasattr(m, a.name):
                v = self.import_(s.module + "." + a.name, 0)
            else:
                v = getattr(m, a.name)
            self.store(a.asname or a.name, v, fr)

    def x_Global(self, s, fr):
        return None

    x_Nonlocal = x_Global

    def x_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise mark(AssertionError(self.ev(s.msg, fr) if s.msg else ""))

    def x_Raise(self, s, fr):
        if s.exc is None:
            e = ctx().state.get("handling")
            if e:
                raise e[-1]
            raise mark(RuntimeError("No active exception to reraise"))
        e = self.ev(s.exc, fr)
        if isinstance(e, type):
            e = e()
        mark(e)
        raise e

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                del self.ev(t.value, fr)[self.ev(t.slice, fr)]
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                notify_attr(o, t.attr)
                delattr(o, t.attr)
            elif isinstance(t, ast.Name):
                fr.locals[t.id] = Unbound("deleted")
            else:
                raise Unsupported("del target")

    def x_Try(self, s, fr):
        r = None
        try:
            try:
                r = self.block(s.body, fr)
            except ENGINE:
                raise
            except Exception as e:
                for h in s.handlers:
                    if h.type is None:
                        ok = True
                    else:
                        t = self.ev(h.type, fr)
                        ok = isinstance(e, t)
                    if ok:
                        if not getattr(e, "dv_user", False) and isinstance(e, (TypeError, AttributeError, IndexError)) \
                                and not benign(e):
                            raise Unsupported("library exception caught by the program: %r" % e)
                        if h.name:
                            self.store(h.name, e, fr)
                        st = ctx().state.setdefault("handling", [])
                        st.append(e)
                        try:
                            r = self.block(h.body, fr)
                        finally:
                            st.pop()
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.block(s.orelse, fr)
        except ENGINE:
            raise
        except Exception:
            if s.finalbody:
                r2 = self.block(s.finalbody, fr)
                if r2 is not None:
                    return r2
            raise
        if s.finalbody:
            r2 = self.block(s.finalbody, fr)
            if r2 is not None:
                return r2
        return r

    def x_With(self, s, fr):
        return self.with_(s.items, s.body, fr)

    def with_(self, items, body, fr):
        if not items:
            return self.block(body, fr)
        cm = self.ev(items[0].context_expr, fr)
        v = cm.__enter__()
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, fr)
        try:
            r = self.with_(items[1:], body, fr)
        except ENGINE:
            raise
        except Exception as e:
            if not cm.__exit__(type(e), e, None):
                raise
            return None
        cm.__exit__(None, None, None)
        return r

    # ------------------------------------------------------------ names
    def lookup(self, n, fr):
        f = fr
        if n not in fr.globalnames:
            first = True
            while f is not None:
                if f.kind != "class" or first:
                    if n in f.locals and f.kind != "module":
                        v = f.locals[n]
                        if isinstance(v, Unbound):
                            self.read_unbound(n, v, f)
                        return v
                    if f.kind == "func" and n in f.names and n not in f.nonlocals:
                        ctx().prove("bound-local", T.FALSE, kind="safety", detail="local %s read before assignment" % n)
                        raise mark(UnboundLocalError(n))
                first = False
                f = f.parent
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise mark(NameError("name %r is not defined" % n))

    def read_unbound(self, n, v, f):
        if v.cond is not None:
            ctx().prove("bound-local", v.cond, kind="safety", detail="local %s read before assignment (%s)" % (n, v.why))
            raise Unsupported("value of %s carried between loop iterations" % n)
        if v.why == "deleted":
            raise mark(UnboundLocalError(n))
        raise Unsupported("local %s: %s" % (n, v.why))

    def store(self, n, v, fr):
        if n in fr.globalnames:
            fr.globals[n] = v
            return
        if n in fr.nonlocals or (fr.kind == "comp" and n not in fr.names):
            f = fr.parent
            while f is not None:
                if n in f.locals:
                    if ctx() is not None and ctx().loopstack:
                        raise Unsupported("nonlocal store in a symbolic loop")
                    f.locals[n] = v
                    return
                f = f.parent
        fr.locals[n] = v

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            set_attr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = list(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                vals = v[:i] + [v[i:len(v) - after]] + v[len(v) - after:]
                for e, x in zip(t.elts, vals):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                return
            if len(v) != len(t.elts):
                raise mark(ValueError("unpack: expected %d values, got %d" % (len(t.elts), len(v))))
            for e, x in zip(t.elts, v):
                self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    # ------------------------------------------------------------ helpers
    def truth(self, v):
        if isinstance(v, (SV, Arr)):
            return bool(v)
        if isinstance(v, Fraction):
            return v != 0
        return bool(v)

    def getattr(self, o, a):
        if a == "__class__" and isinstance(o, SV):
            return self.callmap[type](o)
        if isinstance(o, (int, Fraction, float)) and not isinstance(o, bool):
            if a in ("astype",):
                return lambda dt, o=o: cast(o, npshim.dtkind(dt))
            if a in ("any", "all"):
                return lambda o=o: o != 0
            if a == "item":
                return lambda o=o: o
            if a == "is_integer":
                return lambda o=o: Fraction(o).denominator == 1
        if isinstance(o, bool) and a in ("any", "all", "item"):
            return lambda o=o: o
        if isinstance(o, bool) and a == "astype":
            return lambda dt, o=o: cast(o, npshim.dtkind(dt))
        if isinstance(o, (Arr, Flat)) or o is self.np:
            try:
                return getattr(o, a)
            except AttributeError:
                raise Unsupported("numpy attribute %s" % a)
        if isinstance(o, types.ModuleType) and getattr(o, "__dv_shim__", False) and not hasattr(o, a):
            raise Unsupported("library function %s.%s" % (o.__name__, a))
        return getattr(o, a)

    def getitem(self, o, k):
        if isinstance(o, (list, tuple)) and isinstance(k, SV):
            if len(o) and all(isinstance(e, (SV, int, float, Fraction)) for e in o):
                return npshim.asarr(list(o))[k]
            raise Unsupported("symbolic index into a list")
        if isinstance(o, (list, tuple, str)) and isinstance(k, Fraction):
            k = int(k)
        return o[k]

    def setitem(self, o, k, v):
        if isinstance(o, (dict, list)) and not isinstance(o, Arr):
            c = ctx()
            for l in c.loopstack if c else ():
                l.wrote_container(o)
        if isinstance(o, list) and isinstance(k, SV):
            raise Unsupported("symbolic list store")
        o[k] = v

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        f = getattr(self, "e_" + type(e).__name__, None)
        if f is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return f(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float) and not is_inf(v) and v == v:
            return Fraction(repr(v))
        return v

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        g = lambda x: None if x is None else self.ev(x, fr)
        return slice(g(e.lower), g(e.upper), g(e.step))

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        from .loops import IList
        return IList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out.extend(list(self.ev(x.value, fr)))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, fr))
            else:
                d[self.ev(k, fr)] = self.ev(v, fr)
        return d

    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SV):
                t = v.t if v.t.sort == "B" else T.not_(T.eq(v.t, T.num(0)))
                return wrap(T.not_(t))
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        if isinstance(v, bool) and ctx().state.get("jit"):
            return not v
        return ~v

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            if isand:
                if not self.truth(v):
                    return v
            elif self.truth(v):
                return v
        return v

    def e_Compare(self, e, fr):
        l = self.ev(e.left, fr)
        res = True
        for i, (op, x) in enumerate(zip(e.ops, e.comparators)):
            r = self.ev(x, fr)
            v = self.compare(op, l, r)
            if i == len(e.ops) - 1:
                return v if res is True else (res & v if isinstance(res, (SV, Arr)) and isinstance(v, (SV, bool, Arr)) else v)
            if isinstance(v, SV):
                res = v if res is True else res & v
            elif not self.truth(v):
                return v
            l = r
        return res

    def compare(self, op, l, r):
        if isinstance(op, ast.Is):
            return self.is_(l, r)
        if isinstance(op, ast.IsNot):
            v = self.is_(l, r)
            return (not v) if isinstance(v, bool) else ~v
        if isinstance(op, (ast.In, ast.NotIn)):
            v = self.in_(l, r)
            if isinstance(op, ast.In):
                return v
            return (not v) if isinstance(v, bool) else ~v
        f = CMPOPS[type(op)]
        if isinstance(l, float) and not is_inf(l) and l == l:
            l = T.to_fraction(l)
        if isinstance(r, float) and not is_inf(r) and r == r:
            r = T.to_fraction(r)
        return f(l, r)

    def is_(self, l, r):
        if isinstance(l, SV) and l.t.sort == "B" and isinstance(r, bool):
            return l if r else ~l
        if isinstance(r, SV) and r.t.sort == "B" and isinstance(l, bool):
            return r if l else ~r
        return l is r

    def in_(self, x, c):
        if isinstance(x, SV):
            if isinstance(c, (list, tuple, set)):
                t = T.FALSE
                for e in c:
                    v = (x == e)
                    t = T.or_(t, lift(v)) if not (v is NotImplemented) else t
                return wrap(t)
            if isinstance(c, Arr):
                return npshim.np_any(c == x)
            raise Unsupported("membership of a symbolic value")
        if isinstance(c, Arr):
            return npshim.np_any(c == x)
        return x in c

    def e_IfExp(self, e, fr):
        c = self.ev(e.test, fr)
        return self.ev(e.body if self.truth(c) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        f = fr
        while f.kind == "comp":
            f = f.parent
        self.store(e.target.id, v, f)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_JoinedStr(self, e, fr):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(str(v.value))
            else:
                x = self.ev(v.value, fr)
                if v.conversion == 114:
                    x = repr(x)
                try:
                    out.append(format(fmtable(x), self.ev(v.format_spec, fr) if v.format_spec else ""))
                except ENGINE:
                    raise
                except Exception:
                    out.append(str(x))
        return "".join(out)

    def comp(self, gens, fr, emit):
        cf = Frame(fr.globals, fr, fr.func, set(), fr.cls, "comp")
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    cf.names.add(n.id)

        def rec(i):
            if i == len(gens):
                emit(cf)
                return
            g = gens[i]
            it = self.ev(g.iter, cf if i else fr)
            for x in self.native_iter(it):
                self.assign(g.target, x, cf)
                if all(self.truth(self.ev(c, cf)) for c in g.ifs):
                    rec(i + 1)

        rec(0)

    def native_iter(self, it):
        from .loops import sym_iter
        if sym_iter(it) is not None:
            raise Unsupported("comprehension over a symbolic range")
        return iter(it)

    def e_ListComp(self, e, fr):
        from .loops import IList, sym_iter, sym_comp
        its = sym_comp(self, e, fr)
        if its is not None:
            return its
        out = IList()
        self.comp(e.generators, fr, lambda cf: list.append(out, self.ev(e.elt, cf)))
        return out

    def e_GeneratorExp(self, e, fr):
        from .loops import sym_comp
        its = sym_comp(self, e, fr)
        if its is not None:
            return its
        out = []
        self.comp(e.generators, fr, lambda cf: out.append(self.ev(e.elt, cf)))
        return iter(out) if False else out

    def e_SetComp(self, e, fr):
        out = set()
        self.comp(e.generators, fr, lambda cf: out.add(self.ev(e.elt, cf)))
        return out

    def e_DictComp(self, e, fr):
        out = {}

        def emit(cf):
            out[self.ev(e.key, cf)] = self.ev(e.value, cf)

        self.comp(e.generators, fr, emit)
        return out

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            cell = fr.cls
            f = fr
            while f.kind == "comp":
                f = f.parent
            first = f.func.params[0]
            return super(cell["cls"], f.locals[first])
        fn = self.ev(e.func, fr)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(list(self.ev(a.value, fr)))
            else:
                args.append(self.ev(a, fr))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, fr))
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw, fr)

    def call(self, fn, args, kw, fr=None):
        ctx().tick()
        if fn is eval:
            return self.ev(ast.parse(args[0], mode="eval").body, fr)
        if fn is locals or fn is globals or fn is exec or fn is compile:
            raise Unsupported("call of %s" % fn.__name__)
        try:
            m = self.callmap.get(fn)
        except TypeError:
            m = None
        if m is not None:
            return m(*args, **kw)
        if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, str) and fn.__name__ in ("format", "format_map", "join"):
            try:
                if fn.__name__ == "join":
                    return fn([str(x) for x in args[0]])
                return fn(*[fmtable(a) for a in args], **{k: fmtable(v) for k, v in kw.items()})
            except ENGINE:
                raise
            except (ValueError, TypeError):
                return fn.__self__
        if isinstance(fn, types.BuiltinMethodType) and isinstance(fn.__self__, (list, dict, set)) and \
                fn.__name__ in ("append", "extend", "pop", "insert", "remove", "clear", "update", "add", "setdefault", "popitem"):
            for l in ctx().loopstack:
                l.wrote_container(fn.__self__)
        if isinstance(fn, type) and getattr(fn, "__dv_interp__", False):
            o = fn(*args, **kw)
            return o
        if fileio.is_file_fn(fn):
            return fileio.native(fn, args, kw)
        return fn(*args, **kw)


def mark(e):
    try:
        e.dv_user = True
    except Exception:
        pass
    return e


def benign(e):
    return isinstance(e, (KeyError,)) or (isinstance(e, AttributeError) and "dv" not in str(e))


def fmtable(x):
    if isinstance(x, Fraction):
        return float(x)
    if isinstance(x, (SV, Arr)):
        return Fmt(x)
    return x


class Fmt:
    def __init__(self, x):
        self.x = x

    def __format__(self, spec):
        return str(self.x)

    def __str__(self):
        return str(self.x)


def fmt_percent(s, a):
    try:
        if isinstance(a, tuple):
            return s % tuple(str(x) if isinstance(x, (SV, Arr)) else x for x in a)
        if isinstance(a, (SV, Arr)):
            import re
            return re.sub(r"%[-+ 0-9.]*[a-zA-Z]", "%s", s) % str(a)
        return s % a
    except ENGINE:
        raise
    except (TypeError, ValueError):
        return s
