"""Assumed contracts on the standard library and third-party packages."""
import builtins
import math
import types
import warnings
from fractions import Fraction

from . import terms as T
from .terms import Unsupported
from .core import SV, ctx, lift, wrap, cast, is_inf
from .arrays import Arr, Buf, new_arr, ci, Flat
from . import npshim
from .loops import IList, SymRange, SymEnum, SymZip, sym_iter, SymComp, name_object


class Dummy:
    """object of a plotting / logging library: no observable effect"""

    def __init__(self, name="dummy"):
        object.__setattr__(self, "_n", name)

    def __getattr__(self, a):
        if a.startswith("__"):
            raise AttributeError(a)
        return Dummy(a)

    def __call__(self, *a, **k):
        return Dummy("r")

    def __iter__(self):
        return iter((Dummy("a"), Dummy("b")))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def shim_module(name, **kw):
    m = types.ModuleType(name)
    m.__dv_shim__ = True
    for k, v in kw.items():
        setattr(m, k, v)
    return m


def njit(*a, **k):
    from .interp import IFunc
    if len(a) == 1 and isinstance(a[0], IFunc) and not k:
        a[0].jit = True
        return a[0]

    def dec(f):
        f.jit = True
        return f

    return dec


def jitclass(*a, **k):
    if len(a) == 1 and isinstance(a[0], type):
        return a[0]

    def dec(cls):
        from .interp import IFunc
        for kk in cls.__mro__:
            for v in kk.__dict__.values():
                if isinstance(v, IFunc):
                    v.jit = True
        return cls

    return dec


def convolve(a, k, output=None, mode="reflect", cval=0, origin=0):
    """scipy.ndimage.convolve of a 2-D array with a 3x3 kernel"""
    a, k = npshim.asarr(a), npshim.asarr(k)
    if [ci(d) for d in k._shape] != [3, 3] or a.ndim != 2:
        raise Unsupported("convolution kernel")
    g = a.getter()
    kg = {}
    for p in range(3):
        for q in range(3):
            kg[p, q] = k.get((T.num(p), T.num(q)))
    sh = a._shape
    zero, one = T.num(0), T.num(1)

    def at(i, j):
        if mode == "constant":
            inr = T.and_(T.le(zero, i), T.lt(i, sh[0]), T.le(zero, j), T.lt(j, sh[1]))
            if inr.op == "bc":
                return g((i, j)) if inr.args[0] else lift(cval)
            c = ctx()
            if c.entails(inr, 0):
                return g((i, j))
            return T.ite(inr, T.tosort(g((i, j)), "R"), T.tosort(lift(cval), "R"))

        def m(i, n):
            last = T.sub(n, one)
            if mode in ("nearest", "reflect", "grid-mirror"):
                return T.ite(T.lt(i, zero), zero, T.ite(T.lt(last, i), last, i))
            if mode == "mirror":
                return T.ite(T.lt(i, zero), T.neg(i), T.ite(T.lt(last, i), T.sub(T.scale(last, 2), i), i))
            if mode in ("wrap", "grid-wrap"):
                return T.ite(T.lt(i, zero), T.add(i, n), T.ite(T.lt(last, i), T.sub(i, n), i))
            raise Unsupported("convolution mode %s" % mode)
        return g((m(i, sh[0]), m(j, sh[1])))

    def get(ix):
        i, j = ix
        terms = []
        for p in range(3):
            for q in range(3):
                w = kg[p, q]
                if T.constval(w) == 0:
                    continue
                # convolution: kernel reversed
                terms.append(T.mul(w, at(T.add(i, T.num(1 - p)), T.add(j, T.num(1 - q)))))
        return T.addn(terms) if terms else T.num(0)

    ctx().assumptions.add("scipy.ndimage.convolve computes the discrete convolution with the stated boundary mode")
    return new_arr(sh, a.dt, get)


def install(interp):
    o = interp.overrides
    o["numpy"] = interp.np
    exp = shim_module("numba.experimental", jitclass=jitclass)
    hl = shim_module("_helperlib")
    interp.helperlib = hl

    def get_ptr():
        return "np-state"

    hl.rnd_get_np_state_ptr = get_ptr
    hl.rnd_get_state = lambda p: ctx().state.setdefault("rngstate", Unsupported)
    hl.rnd_set_state = lambda p, s: ctx().state.__setitem__("rngstate", s)
    nb = shim_module("numba", njit=njit, jit=njit, float32=npshim.float32, float64=npshim.float64,
                     int64=npshim.int64, int32=npshim.int32, experimental=exp, _helperlib=hl, prange=s_range,
                     boolean=npshim.bool_)
    o["numba"] = nb
    nd = shim_module("scipy.ndimage", convolve=convolve)
    o["scipy"] = shim_module("scipy", ndimage=nd)
    def foreign(name):
        def f(*a, **k):
            h = ctx().state.get("rng_hook")
            if h:
                h("foreign", 0)
            if name in ("random", "uniform"):
                return wrap(ctx().fresh("foreign", "R"))
            raise Unsupported("%s of another random source" % name)
        return f

    names = ("random uniform randint randrange choice choices shuffle sample gauss seed getrandbits").split()
    o["random"] = shim_module("random", **{n: foreign(n) for n in names})
    o["secrets"] = shim_module("secrets", randbelow=foreign("randbelow"), randbits=foreign("randbits"),
                               token_bytes=foreign("token_bytes"))
    mpl = Dummy("matplotlib")
    o["matplotlib"] = mpl
    o["mpl_toolkits"] = Dummy("mpl_toolkits")
    o["netCDF4"] = shim_module("netCDF4", Dataset=lambda *a, **k: interp.dataset(*a, **k))
    interp.dataset = unsup("netCDF4.Dataset")
    interp.opener = unsup("open")
    interp.unroll_while = False


def unsup(n):
    def f(*a, **k):
        raise Unsupported("call of %s" % n)
    return f


# ---------------------------------------------------------------- builtins


def is_sym(x):
    return isinstance(x, (SV, Arr, SymRange, SymEnum, SymZip, SymComp)) or (isinstance(x, IList) and x.sym is not None)


def s_range(*a):
    a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    if all(isinstance(x, int) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    step = a[2] if len(a) == 3 else 1
    return SymRange(a[0], a[1], step)


def s_len(x):
    if isinstance(x, Arr):
        return wrap(x._shape[0])
    if isinstance(x, IList):
        return x.dv_len()
    if isinstance(x, (SymRange, SymEnum, SymZip)):
        return wrap(sym_iter(x).n)
    if isinstance(x, SymComp):
        return x.dv_toarr().shape[0]
    if hasattr(x, "dv_len"):
        return x.dv_len()
    return len(x)


def s_sum(x, start=0):
    if isinstance(x, (Arr, SymComp)) or (isinstance(x, IList) and x.sym is not None):
        return npshim.np_sum(npshim.asarr(x)) + start
    r = start
    for e in x:
        r = r + e
    return r


def _mm(ismax):
    nat = max if ismax else min

    def f(*a, **k):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, (Arr, SymComp)) or (isinstance(x, IList) and x.sym is not None):
                x = npshim.asarr(x)
                return npshim.np_max(x) if ismax else npshim.np_min(x)
            a = list(x)
            if not a and "default" in k:
                return k["default"]
        if k.get("key") is not None:
            return nat(*a, key=k["key"])
        if any(isinstance(v, SV) for v in a):
            r = a[0]
            for v in a[1:]:
                if is_inf(r) or is_inf(v):
                    inf_, o = (r, v) if is_inf(r) else (v, r)
                    r = inf_ if (inf_ > 0) == ismax else o
                    continue
                p, q = lift(r), lift(v)
                s = "R" if "R" in (p.sort, q.sort) else p.sort
                r = wrap(T.max_(p, q) if ismax else T.min_(p, q))
            return r
        return nat([T.to_fraction(v) if isinstance(v, float) and not is_inf(v) else v for v in a])

    return f


s_max, s_min = _mm(True), _mm(False)


def s_int(x=0, *a):
    if isinstance(x, SV):
        return cast(x, "i")
    if isinstance(x, Arr):
        return cast(x.item(), "i")
    return int(x, *a)


def s_float(x=0):
    if isinstance(x, SV):
        return cast(x, "f")
    if isinstance(x, Arr):
        return cast(x.item(), "f")
    if isinstance(x, bool) or isinstance(x, int):
        return Fraction(int(x))
    if isinstance(x, Fraction):
        return x
    v = float(x)
    if is_inf(v) or v != v:
        return v
    return Fraction(str(x).strip()) if isinstance(x, str) and "_" not in x else T.to_fraction(v)


def s_bool(x=False):
    if isinstance(x, SV):
        return cast(x, "b")
    return bool(x)


def s_abs(x):
    return abs(x)


def s_round(x, nd=None):
    if isinstance(x, SV):
        if nd is not None:
            return x.__round__(nd)
        return wrap(T.tosort(T.round_half_even(x.t), "I"))
    if isinstance(x, float):
        x = T.to_fraction(x)
    return round(x, nd) if nd is not None else round(x)


def s_enumerate(x, start=0):
    if sym_iter(x) is not None:
        return SymEnum(x, start)
    return list(enumerate(x, start))


def s_zip(*xs, **k):
    if any(sym_iter(x) is not None for x in xs):
        return SymZip(xs)
    return list(zip(*xs))


def s_reversed(x):
    if isinstance(x, SymRange):
        last = T.sub(x.stop, T.num(1))
        if x.step != 1:
            raise Unsupported("reversed range")
        return SymRange(wrap(last), wrap(T.sub(x.start, T.num(1))), -1)
    return list(reversed(x))


def pytype(o):
    if isinstance(o, SV):
        return {"I": int, "R": float, "B": bool}[o.t.sort]
    if isinstance(o, Fraction):
        return float
    if isinstance(o, IList):
        return list
    if isinstance(o, Arr):
        return Arr
    return type(o)


def s_isinstance(o, t):
    ts = t if isinstance(t, tuple) else (t,)
    pt = pytype(o)
    for x in ts:
        if isinstance(x, npshim.Kind):
            continue
        if x is pt or (isinstance(x, type) and issubclass(pt, x)):
            return True
    return False


def s_type(*a):
    if len(a) == 1:
        return pytype(a[0])
    return type(*a)


def s_list(*a):
    if a and isinstance(a[0], IList) and a[0].sym is not None:
        r = IList()
        r.sym = a[0].sym
        return r
    if a and sym_iter(a[0]) is not None:
        s = sym_iter(a[0])
        r = IList()
        x = s.elem(T.num(0))
        if isinstance(x, (SV, int, Fraction)):
            so = lift(x).sort
            el = s.elem
            r.sym = (s.n, Arr(Buf((s.n,), {"I": "i", "R": "f", "B": "b"}[so], get=lambda ix: lift(el(ix[0])))))
            return r
        raise Unsupported("list() of a symbolic iterable")
    return IList(list(*a))


def s_tuple(*a):
    if a and sym_iter(a[0]) is not None:
        raise Unsupported("tuple() of a symbolic iterable")
    return tuple(*a)


def s_any(x):
    if isinstance(x, (Arr, SymComp)):
        return npshim.np_any(npshim.asarr(x))
    t = T.FALSE
    for e in x:
        if isinstance(e, SV):
            t = T.or_(t, lift(cast(e, "b")))
        elif e:
            return True
    return wrap(t)


def s_all(x):
    if isinstance(x, (Arr, SymComp)):
        return npshim.np_all(npshim.asarr(x))
    t = T.TRUE
    for e in x:
        if isinstance(e, SV):
            t = T.and_(t, lift(cast(e, "b")))
        elif not e:
            return False
    return wrap(t)


def s_getattr(o, n, *d):
    from .interp import Interp
    try:
        return getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


def s_sorted(x, key=None, reverse=False):
    if is_sym(x):
        raise Unsupported("sorted of symbolic data")
    l = list(x)
    if any(isinstance(v, SV) for v in l):
        raise Unsupported("sorted of symbolic data")
    return IList(sorted(l, key=key, reverse=reverse))


def s_sqrt(x):
    return wrap(T.sqrt(lift(x)))


def s_print(*a, **k):
    return None


def s_warn(msg, *a, **k):
    ctx().state.setdefault("warnings", []).append(msg)


def s_pow(a, b, *m):
    if isinstance(a, (SV, Arr)) or isinstance(b, (SV, Arr)):
        return a ** b
    if isinstance(b, Fraction) and b.denominator != 1:
        return wrap(T.power(lift(a), lift(b)))
    return pow(a, b, *m)


def s_floor(x):
    if isinstance(x, float):
        x = T.to_fraction(x)
    return math.floor(x)


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def callmap(interp):
    from .interp import set_attr

    def s_setattr(o, n, v):
        set_attr(o, n, v)

    def s_delattr(o, n):
        from .interp import notify_attr
        notify_attr(o, n)
        delattr(o, n)

    def s_open(*a, **k):
        return interp.opener(*a, **k)

    def s_map(f, *xs):
        if any(sym_iter(x) is not None for x in xs):
            raise Unsupported("map over symbolic data")
        return [interp.call(f, list(t), {}) for t in zip(*xs)]

    def s_filter(f, xs):
        return [x for x in xs if (interp.truth(f(x)) if f else interp.truth(x))]

    def s_next(it, *d):
        return next(it, *d)

    def s_iter(x):
        if sym_iter(x) is not None:
            raise Unsupported("iter() of symbolic data")
        return iter(x)

    import yaml
    from . import io as fileio
    return {yaml.load: fileio.yaml_load, range: s_range, len: s_len, sum: s_sum, max: s_max, min: s_min, int: s_int, float: s_float,
            bool: s_bool, abs: s_abs, round: s_round, enumerate: s_enumerate, zip: s_zip, reversed: s_reversed,
            isinstance: s_isinstance, type: s_type, list: s_list, tuple: s_tuple, any: s_any, all: s_all,
            getattr: s_getattr, setattr: s_setattr, delattr: s_delattr, sorted: s_sorted, print: s_print,
            warnings.warn: s_warn, open: s_open, map: s_map, filter: s_filter, pow: s_pow, iter: s_iter,
            math.sqrt: s_sqrt, math.floor: s_floor, math.hypot: s_hypot, math.pow: s_pow, math.fabs: s_abs}
