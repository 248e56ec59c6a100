"""Deductive back end of the contract interface."""
import inspect
import time
import traceback
from fractions import Fraction

from . import terms as T
from . import solver as S
from . import core, loops, npshim, shims
from . import io as fileio
from .core import SV, Ctx, lift, wrap, PathEnd, Restart, Budget
from .terms import Unsupported
from .arrays import Arr, uf_arr, new_arr
from .interp import Interp, mark
from .spec import Skip

_INTERP = {}


def get_interp(root):
    if root not in _INTERP:
        c = Ctx()
        Ctx.cur = c
        c.pending = [[]]
        i = Interp(root)
        i.base_overrides = dict(i.overrides)
        i.load("model")
        i.load("preprocessor")
        _INTERP[root] = i
    return _INTERP[root]


class Logger:
    def info(self, *a, **k):
        pass
    warning = error = debug = exception = critical = info


class SymC:
    sym = True
    mode = "sym"

    def __init__(self, cx, interp, goal):
        self.cx, self.interp, self.goal = cx, interp, goal
        self.hist = []
        self.spied = {}

    # ---------------------------------------------------------------- inputs
    def _reg(self, name, v):
        self.cx.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, hint=None, pts=None):
        t = self.cx.fresh(name, "I")
        if lo is not None:
            self.cx.assume(T.le(lift(lo), t))
        if hi is not None:
            self.cx.assume(T.le(t, lift(hi)))
        return self._reg(name, wrap(t))

    def real(self, name, lo=None, hi=None, hint=None, pts=None, pos=False):
        t = self.cx.fresh(name, "R")
        if pos:
            self.cx.assume(T.lt(T.num(0), t))
        if lo is not None:
            self.cx.assume(T.le(lift(lo), t))
        if hi is not None:
            self.cx.assume(T.le(t, lift(hi)))
        return self._reg(name, wrap(t))

    def bool(self, name):
        return self._reg(name, wrap(self.cx.fresh(name, "B")))

    def rarely(self, name):
        return False

    def choice(self, name, options):
        k = self.cx.choose(len(options))
        self.cx.inputs["choice:" + name] = k
        return options[k]

    def arr(self, name, shape, dt="f", lo=None, hi=None, vals=None, pts=None, pos=False, eq=None):
        a = uf_arr(name, tuple(lift(s) for s in shape), dt)
        nm = a.uf
        srt = {"f": "R", "i": "I", "b": "B"}[dt]
        cs = []
        if lo is not None:
            l = lift(lo)
            cs.append(lambda v: T.le(l, v))
        if hi is not None:
            h = lift(hi)
            cs.append(lambda v: T.le(v, h))
        if pos:
            cs.append(lambda v: T.lt(T.num(0), v))
        if vals is not None:
            cs.append(lambda v: T.or_(*[T.eq(v, T.num(x, srt)) for x in vals]))
        if cs:
            self.cx.forall_app((nm,), lambda *ix: T.and_(*[f(T.app(nm, ix, srt)) for f in cs]), len(shape))
        self.cx.inputs[name] = a
        return a

    def uf(self, name, args, sort="R"):
        """value of an unknown but deterministic function (deductive only)"""
        return wrap(T.app("fun!" + name, tuple(lift(a) for a in args), sort))

    def define_all(self, shape, names, fn):
        """deterministic functions (see uf) with a definition: names(ix) = fn(ix)"""
        srt = {}

        def ax(*ix):
            vals = fn(*[wrap(i) for i in ix])
            vals = vals if isinstance(vals, tuple) else (vals,)
            out = []
            for n, v in zip(names, vals):
                t = lift(v)
                a = T.app("fun!" + n, ix, "B" if t.sort == "B" else "R")
                out.append(T.iff(a, t) if t.sort == "B" else T.eq(a, t))
            return T.and_(*out)
        self.cx.forall_app(tuple("fun!" + n for n in names), ax, len(shape))

    def axiom(self, on, arity, fn, heavy=False):
        """definition by quantified fact, instantiated at every application of the named ghost
        functions (strings) or input arrays; heavy: tried only when the proof fails without it"""
        names = tuple("fun!" + x if isinstance(x, str) else x.uf for x in on)
        f = lambda *ix: lift(fn(*[wrap(i) for i in ix]))
        f.heavy = heavy
        self.cx.forall_app(names, f, arity)

    def mention(self, *ix):
        """instantiate the universal facts at this index too"""
        self.cx.index_terms.append(tuple(lift(i) for i in ix))

    def pick(self, k, vals):
        """vals[k] for a possibly symbolic k"""
        kt = lift(k)
        if T.constval(kt) is not None:
            return vals[int(T.constval(kt))]
        r = lift(vals[-1])
        for n in range(len(vals) - 2, -1, -1):
            r = T.ite(T.eq(kt, T.num(n)), lift(vals[n]), r)
        return wrap(r)

    def psum(self, name, nargs, fn):
        """S(x.., k) = sum of fn(x.., t) for t < k (defined by its recursion)"""
        nm = self.cx.fresh_name("sum!" + name)

        def S(*a):
            return wrap(T.app(nm, tuple(lift(x) for x in a), "R"))

        def ax(*a):
            k = a[-1]
            r = T.app(nm, a, "R")
            k1 = T.sub(k, T.num(1))
            t = lift(fn(*[wrap(x) for x in a[:-1]], wrap(k1)))
            return T.ite(T.le(k, T.num(0)), T.eq(r, T.num(0)), T.eq(r, T.add(T.app(nm, a[:-1] + (k1,), "R"), t)))
        self.cx.forall_app((nm,), ax, nargs + 1)
        return S

    def zeros(self, shape, dt="f"):
        return self.interp.np.zeros(tuple(shape), dtype={"f": npshim.float64, "i": npshim.int64, "b": npshim.bool_}[dt])

    def ones(self, shape, dt="f"):
        return self.interp.np.ones(tuple(shape), dtype={"f": npshim.float64, "i": npshim.int64, "b": npshim.bool_}[dt])

    def mk(self, shape, fn, dt="f"):
        """array defined cell by cell"""
        sh = tuple(lift(s) for s in shape)
        return new_arr(sh, dt, lambda ix: lift(fn(*[wrap(i) for i in ix])))

    def arange(self, lo, hi):
        return self.interp.np.arange(lo, hi)

    def const(self, data, dt="f"):
        """small concrete array (nested list)"""
        return npshim.asarr(data, dt)

    def assume(self, *ts):
        for t in ts:
            self.cx.assume(lift(t))

    def assume_all(self, a, fn):
        """elementwise precondition on an array input: fn(v, *ix)"""
        nm = a.uf
        vs = tuple(T.var("$%d" % i, "I") for i in range(a.ndim))
        e = a.getter()(vs)
        if e.op == "app" and tuple(e.args[1:]) == vs:
            nm = e.args[0]  # a copy of another array
        srt = {"f": "R", "i": "I", "b": "B"}[a.dt]
        self.cx.forall_app((nm,), lambda *ix: lift(fn(wrap(T.app(nm, ix, srt)), *[wrap(i) for i in ix])), a.ndim)

    # ---------------------------------------------------------------- files
    def scratch(self):
        """fresh directory for the files of this path"""
        import tempfile
        s = fileio.cur() or fileio.enable(self.interp)
        return tempfile.mkdtemp(dir=s.root)

    def write_yaml(self, path, d):
        """YAML file with (possibly symbolic) scalar values"""
        def show(v):
            if v is None:
                return "null"
            if isinstance(v, list):
                return "[" + ", ".join(show(x) for x in v) + "]"
            if isinstance(v, dict):
                return "{" + ", ".join("%s: %s" % (k, show(x)) for k, x in v.items()) + "}"
            if isinstance(v, Fraction):
                v = float(v)
            return str(v) if not isinstance(v, bool) else str(v).lower()
        with open(path, "w") as f:
            for k, v in d.items():
                f.write("%s: %s\n" % (k, show(v)))

    def dataset(self, path, mode="r"):
        return fileio.Dataset(path, mode)

    def ncat(self, v, *ix):
        return wrap(v._get([lift(i) for i in ix]))

    def rng_state(self, v=None):
        """the state of the (compiled) random generator: read, or set"""
        st = self.cx.state
        if v is not None:
            st["rngstate"] = v
        return st.get("rngstate")

    def use_at(self, *ix):
        """make quantified facts available at this index tuple"""
        self.cx.index_terms.append(tuple(lift(i) for i in ix))

    # ---------------------------------------------------------------- code
    def module(self, mod):
        return self.interp.load(mod)

    def fn(self, mod, name):
        o = self.interp.load(mod)
        for p in name.split("."):
            if not hasattr(o, p):
                raise Skip("%s.%s not found" % (mod, name))
            o = getattr(o, p)
        return o

    def new(self, cls, **attrs):
        o = object.__new__(cls)
        loops.name_object(o)
        o.__dict__.update(attrs)
        return o

    def base(self):
        """an object of the model class with no attributes but the infrastructure"""
        cls = self.fn("model", "DeltaModel")
        m = self.new(cls, logger=Logger(), _verbose=0)
        return m

    def set(self, o, **attrs):
        o.__dict__.update(attrs)
        loops.name_object(o)

    def call(self, f, *a, **k):
        """call the code under contract; exceptions it raises are failures"""
        n0 = len(self.cx.callstack)
        try:
            return self.interp.call(f, list(a), dict(k)) if callable(f) else f
        except Exception as e:
            del self.cx.callstack[n0:]
            if getattr(e, "dv_user", False):
                self.cx.prove("no-exception", T.FALSE, kind="exc", detail="%s: %s" % (type(e).__name__, e))
                raise PathEnd()
            raise

    def attempt(self, f, *a, **k):
        """(result, exception-or-None)"""
        n0, d0 = len(self.cx.callstack), self.cx.calldepth
        try:
            return self.interp.call(f, list(a), dict(k)), None
        except Exception as e:
            del self.cx.callstack[n0:]
            self.cx.calldepth = d0
            if getattr(e, "dv_user", False):
                return None, e
            raise

    def defined(self, name):
        """does the package define a function of this name?"""
        for mod in self.interp.modules.values():
            for v in list(mod.__dict__.values()):
                if getattr(v, "__name__", None) == name and callable(v):
                    return True
                if isinstance(v, type) and name in v.__dict__:
                    return True
        return False

    def stub(self, name, fn):
        """replace calls of a function by its contract: fn(*args) -> value"""
        if not self.defined(name):
            raise Skip("no function %s" % name)
        self.interp.stubs[name] = lambda ifn, *a, **k: fn(*a, **k)

    def contract(self, name, fn):
        """use the contract of a callee instead of its body"""
        if not self.defined(name):
            raise Skip("no function %s" % name)
        calls = self.cx.contract_calls
        calls.setdefault(name, 0)
        try:
            sig = inspect.signature(fn)
        except (TypeError, ValueError):
            sig = None

        def st(ifn, *a, **k):
            if sig is not None:
                try:
                    sig.bind(*a, **k)
                except TypeError as e:
                    raise Skip("signature of %s changed: %s" % (name, e))
            calls[name] += 1
            return fn(*a, **k)
        self.interp.stubs[name] = st

    def after(self, name, fn):
        """observe calls: fn(result, args, kw) after each call of the function"""
        def st(ifn, *a, **k):
            r = ifn.run(*a, **k)
            fn(r, a, k)
            return r
        self.interp.stubs[name] = st

    def before(self, name, fn):
        def st(ifn, *a, **k):
            fn(a, k)
            return ifn.run(*a, **k)
        self.interp.stubs[name] = st

    def fresh_int(self, name, lo=None, hi=None):
        t = self.cx.fresh(name, "I")
        if lo is not None:
            self.cx.assume(T.le(lift(lo), t))
        if hi is not None:
            self.cx.assume(T.le(t, lift(hi)))
        return wrap(t)

    def fresh_real(self, name, lo=None, hi=None):
        t = self.cx.fresh(name, "R")
        if lo is not None:
            self.cx.assume(T.le(lift(lo), t))
        if hi is not None:
            self.cx.assume(T.le(t, lift(hi)))
        return wrap(t)

    # ---------------------------------------------------------------- observation
    def snap(self, a):
        """immutable copy of the current contents: s(i, j)"""
        if not isinstance(a, Arr):
            return a
        g = a.getter()
        return lambda *ix: wrap(g(tuple(lift(i) for i in ix)))

    def at(self, a, *ix):
        if isinstance(a, Arr):
            if len(ix) != a.ndim:
                raise Unsupported("rank of observed array")
            return wrap(a.get(tuple(lift(i) for i in ix)))
        if isinstance(a, loops.IList):
            if a.sym is not None:
                return wrap(a.sym[1].get((lift(ix[0]),)))
            if not isinstance(ix[0], SV):
                return a[ix[0]]
            return self.pick(ix[0], list(a)) if len(a) else 0
        if callable(a):
            return a(*ix)
        for i in ix:
            a = a[i]
        return a

    def dtype(self, a):
        return a.dt

    def shape(self, a):
        return a.shape

    def elems(self, a):
        """concrete list of the elements of a small array"""
        if isinstance(a, Arr):
            return [wrap(t) for t in self._el(a)]
        return list(a)

    def _el(self, a):
        from .arrays import all_index
        return [a.get(ix) for ix in all_index(a._shape)]

    def same_array(self, a, b):
        return a is b or (isinstance(a, Arr) and isinstance(b, Arr) and a.buf is b.buf)

    # ---------------------------------------------------------------- logic
    def And(self, *xs):
        return wrap(T.and_(*[lift(x) for x in xs]))

    def Or(self, *xs):
        return wrap(T.or_(*[lift(x) for x in xs]))

    def Not(self, x):
        return wrap(T.not_(lift(x)))

    def Implies(self, a, b):
        la = lift(a)
        if la.op == "bc" and not la.args[0]:
            return True
        if callable(b) and not isinstance(b, SV):
            b = b()
        return wrap(T.implies(la, lift(b)))

    def Iff(self, a, b):
        return wrap(T.iff(lift(a), lift(b)))

    def ite(self, c, a, b):
        c, a, b = self.cx.simp(lift(c)), lift(a), lift(b)
        if c.op == "bc":
            return wrap(a if c.args[0] else b)
        return wrap(T.ite(c, a, b))

    def eq(self, a, b, tol=None):
        a, b = lift(a), lift(b)
        if a.sort == "B" or b.sort == "B":
            return wrap(T.iff(a, b)) if a.sort == b.sort else wrap(T.eq(T.as_num(a), T.as_num(b)))
        return wrap(T.eq(a, b))

    def ne0(self, a):
        """exactly nonzero"""
        return a != 0

    def ne(self, a, b):
        return self.Not(self.eq(a, b))

    def le(self, a, b, tol=None):
        return wrap(T.le(T.as_num(lift(a)), T.as_num(lift(b))))

    def le0(self, a, b):
        """exact comparison (no tolerance), for use in conditions"""
        return a <= b

    def lt(self, a, b):
        return wrap(T.lt(T.as_num(lift(a)), T.as_num(lift(b))))

    def max(self, a, b):
        return wrap(T.max_(lift(a), lift(b)))

    def min(self, a, b):
        return wrap(T.min_(lift(a), lift(b)))

    def sqrt(self, a):
        return wrap(T.sqrt(lift(a)))

    def pow(self, a, b):
        return wrap(T.power(lift(a), lift(b)))

    def abs(self, a):
        return abs(a)

    def floor(self, a):
        return wrap(T.floor_(lift(a))) if isinstance(a, SV) else int(Fraction(a) // 1)

    def rint(self, a):
        return wrap(T.round_half_even(lift(a)))

    def idiv(self, a, b):
        return wrap(core.floordiv(lift(a), lift(b)))

    def sum(self, xs):
        xs = list(xs)
        r = 0
        for x in xs:
            if isinstance(x, bool):
                x = int(x)
            elif isinstance(x, SV) and x.t.sort == "B":
                x = wrap(T.as_num(x.t))
            r = r + x
        return r

    def num(self, b):
        """0/1 of a boolean"""
        return wrap(T.as_num(lift(b)))

    def case(self, t):
        """split the proof on a condition; returns a Python bool"""
        return t if isinstance(t, bool) else self.cx.decide(lift(t))

    def clear(self, a, b):
        """(concrete: discard samples where a and b differ by round-off only)"""

    def entails(self, t):
        return self.cx.entails(lift(t), 2)

    # ---------------------------------------------------------------- obligations
    mute = False

    def prove(self, name, t, kind="post", level=3):
        if self.mute:
            return True
        if callable(t) and not isinstance(t, SV):
            t = t()
        return self.cx.prove(name, lift(t), kind=kind, level=level)

    lemma = prove

    def forall(self, name, shape, fn, when=None, kind="post"):
        """prove fn(*ix) for every index tuple of the shape"""
        if self.mute:
            return
        cx = self.cx
        sk = tuple(cx.fresh("i_%d" % d, "I") for d in range(len(shape)))
        nf = len(cx.facts)
        fs = set(cx.factset)
        ni = len(cx.index_terms)
        try:
            for s, d in zip(sk, shape):
                cx.assume(T.le(T.num(0), s))
                cx.assume(T.lt(s, lift(d)))
            cx.index_terms.append(sk)
            ix = [wrap(s) for s in sk]
            if when is not None:
                w = lift(when(*ix))
                cx.assume(w)
            r = fn(*ix)
            if isinstance(r, dict):
                for k, v in r.items():
                    cx.prove(name + "." + k, lift(v), kind=kind)
            elif r is not None:
                cx.prove(name, lift(r), kind=kind)
        except PathEnd:
            pass
        finally:
            del cx.facts[nf:]
            cx.factset = fs
            del cx.index_terms[ni:]

    def contains(self, name, a, lo, hi, at=None):
        """prove that every integer lo <= v < hi is an element of the 1-D array a:
        refute that some such v differs from every element"""
        if self.mute:
            return
        cx = self.cx
        nf, fs, ni, nq = len(cx.facts), set(cx.factset), len(cx.index_terms), len(cx.foralls)
        try:
            v = self.fresh_int("v")
            self.assume(wrap(T.le(lift(lo), lift(v))), wrap(T.lt(lift(v), lift(hi))))
            n = a._shape[0]
            if at is not None:
                for ix in at(v):
                    self.use_at(*ix)
            self.assume_all(a, lambda e, k: self.Implies(self.And(0 <= k, k < wrap(n)), self.ne(e, v)))
            cx.prove(name, T.FALSE)
        except PathEnd:
            pass
        finally:
            del cx.facts[nf:]
            cx.factset = fs
            del cx.index_terms[ni:]
            del cx.foralls[nq:]
            del cx._fids[nq:]

    def watch_rng(self, fn):
        """observe every draw and seeding: fn(kind, compiled?, seed)"""
        self.cx.state["rng_hook"] = lambda kind, jit, s=None: fn(kind, bool(jit), s)

    def fail(self, name, detail=""):
        if self.mute:
            raise PathEnd()
        self.cx.prove(name, T.FALSE, detail=detail)
        raise PathEnd()

    def unreachable(self, name):
        self.fail(name)

    def FA(self, shape, fn, on=None):
        return loops.FA(tuple(lift(s) for s in shape), lambda ix: lift(fn(*[wrap(i) for i in ix])), on)

    def warnings(self):
        return self.cx.state.setdefault("warnings", [])

    def trust(self, text):
        self.cx.assumptions.add(text)


class LoopEnv:
    """what a loop invariant sees"""

    def __init__(self, c, env):
        self.c, self._e = c, env

    def __getitem__(self, n):
        return self._e[n]

    def has(self, n):
        return self._e.has(n)

    @property
    def k(self):
        return wrap(self._e.k)

    @property
    def depth(self):
        return self._e.depth

    @property
    def stack(self):
        return [wrap(x) for x in self._e.stack]

    def entry(self, n):
        return self._e.entry(n)

    def counters(self):
        return self._e.counters()

    def written(self, ndim, dt="f"):
        """the array of this rank that the loop writes (whatever its name)"""
        bs = [self.c.cx.bufs[b] for b in self._e.loop.info.bufs if b in self.c.cx.bufs]
        bs = [b for b in bs if len(b.shape) == ndim and b.dt == dt]
        if len(bs) != 1:
            raise KeyError("written array")
        return Arr(bs[0])

    def rank(self, *ix):
        """position of a cell in the last np.where/np.nonzero result of this rank"""
        ms = [v for v in self.c.cx.state.get("masks", {}).values() if len(v[5]) == len(ix)]
        if not ms:
            raise KeyError("rank")
        return wrap(T.app(ms[-1][2], tuple(lift(i) for i in ix), "I"))

    def entry_written(self, a, *ix):
        return wrap(self._e.loop.entry_buf[a.buf.name](tuple(lift(i) for i in ix)))

    def entry_at(self, n, *ix):
        return wrap(self._e.entry_get(n)(tuple(lift(i) for i in ix)))

    def at(self, n, *ix):
        return self.c.at(self._e[n], *ix)


def conv_cand(r):
    if r is None:
        return None
    if isinstance(r, list):
        return [conv_cand(x) for x in r]
    if isinstance(r, loops.FA):
        return r
    return lift(r)


def run_goal(goal, root="/repo", deadline=None, tier="quick"):
    """discharge the obligations of one goal; returns a plain dict"""
    out = dict(key=goal.key, status="proved", obligations=[], paths=0, complete=0, functions=[], assumptions=[],
               note="", unattached=[], dropped=[], time=0.0, solver_time=0.0, queries=0, model=None)
    t0 = time.time()
    q0, s0 = S.STATS["queries"], S.STATS["time"]
    try:
        interp = get_interp(root)
    except SyntaxError as e:
        out.update(status="unsupported", note="module does not parse: %s" % e)
        return out
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        out.update(status="unsupported", note="module load: %s: %s" % (type(e).__name__, e))
        return out
    cx = Ctx(deadline=deadline)
    if goal.maxpaths:
        cx.max_paths = goal.maxpaths
    Ctx.cur = cx

    def body(cx):
        interp.stubs = {}
        interp.overrides.clear()
        interp.overrides.update(interp.base_overrides)
        interp.loopspecs = {}
        interp.unroll_while = False
        interp.dataset = shims.unsup("netCDF4.Dataset")
        interp.opener = shims.unsup("open")
        c = SymC(cx, interp, goal)
        for fname, specs in goal.loops.items():
            interp.loopspecs[fname] = [
                loops.Spec(sp.depth, sp.cid, (lambda env, sp=sp: conv_cand(sp.fn(c, LoopEnv(c, env)))), auto=sp.auto) for sp in specs]
        try:
            goal.fn(c)
        finally:
            fileio.disable(interp)

    try:
        cx.explore(body)
    except Skip as e:
        out.update(status="skipped", note=str(e))
    except Budget as e:
        out.update(status="budget", note=str(e))
    except Unsupported as e:
        out.update(status="unsupported", note="%s" % (e,))
    except RecursionError as e:
        out.update(status="unsupported", note="recursion")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = tb and tb[-1].filename.endswith(("symc.py", "interp.py")) and "contracts" in "".join(f.filename for f in tb[-4:])
        out.update(status="skipped" if isinstance(e, TypeError) and own else "unsupported",
                   note="%s: %s [%s]" % (type(e).__name__, e, " < ".join(
                       "%s:%d" % (f.filename.rsplit("/", 1)[-1], f.lineno) for f in reversed(tb[-6:]))))
    obs = []
    for o in sorted(cx.obligations.values(), key=lambda o: o.name):
        obs.append(dict(name=o.name, status=o.status, by=sorted(x for x in o.by if x), n=o.n, kind=o.kind,
                        detail=o.detail[:1500], time=round(o.time, 3)))
    out["obligations"] = obs
    out["paths"], out["complete"] = cx.paths, cx.complete_paths
    out["functions"] = sorted(cx.functions)
    out["assumptions"] = sorted(cx.assumptions)
    for n, k in cx.contract_calls.items():
        if not k:
            cx.unattached.add("contract of %s: never called" % n)
    for fname, specs in goal.loops.items():
        for sp in specs:
            if (sp.depth, sp.cid) not in cx.attached_cids:
                cx.unattached.add("loop invariant %s/%s: no such loop" % (fname, sp.cid))
    out["unattached"] = sorted(cx.unattached)
    dr = {"%s/%s" % (k[0], x[5:]) for k, v in cx.loopinfo.items() for x in v.dropped if x.startswith("spec:")}
    out["dropped"] = sorted(dr)
    out["restarts"] = cx.restarts
    out["models"] = cx.models[:4]
    if out["status"] == "proved":
        bad = [o for o in obs if o["status"] != "proved"]
        if any(o["status"] == "refuted" for o in bad):
            out["status"] = "refuted"
        elif bad:
            out["status"] = "unknown"
        elif not obs or cx.complete_paths == 0:
            out["status"] = "vacuous"
    out["time"] = round(time.time() - t0, 3)
    out["solver_time"] = round(S.STATS["time"] - s0, 3)
    out["queries"] = S.STATS["queries"] - q0
    return out
