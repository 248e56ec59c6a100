"""numpy as seen by the verifier (assumed contracts on the library)."""
import types
from fractions import Fraction

from . import terms as T
from .core import SV, ctx, lift, wrap, Unsupported, cast, PathEnd, is_inf
from .arrays import (Arr, Buf, new_arr, uf_arr, elementwise, ci, all_index, is_small,
                     dims_equal, bget, bshape, result_dt, dt_of, SMALL, Flat, conv_dtype)


class Kind:
    def __init__(self, k, name):
        self.k, self.name = k, name
        self.__name__ = name

    def __call__(self, v=0):
        if isinstance(v, Arr):
            return v.astype(self)
        if isinstance(v, (list, tuple)):
            return asarr(v, self.k)
        return cast(v, self.k)

    # numba type syntax float32[:, :]
    def __getitem__(self, k):
        return self

    def __repr__(self):
        return self.name


float32, float64 = Kind("f", "float32"), Kind("f", "float64")
int64, int32, uint64 = Kind("i", "int64"), Kind("i", "int32"), Kind("i", "uint64")
bool_ = Kind("b", "bool_")


def dtkind(d):
    if d is None:
        return "f"
    if isinstance(d, Kind):
        return d.k
    if hasattr(d, "kind") and isinstance(getattr(d, "kind"), str) and not isinstance(d, type):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(d.kind, "f")
    if d is int:
        return "i"
    if d is float:
        return "f"
    if d is bool:
        return "b"
    if isinstance(d, str):
        return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(d.lstrip("<>=")[0], "f")
    nm = getattr(d, "__name__", "")
    if nm == "sint":
        return "i"
    if nm == "sfloat":
        return "f"
    if nm == "sbool":
        return "b"
    raise Unsupported("dtype %r" % (d,))


class MaskIdx:
    pass


def probe(g, n):
    """canonical identity of a getter"""
    return g(tuple(T.var("$%d" % i, "I") for i in range(n))).id


# ---------------------------------------------------------------- boolean selection


def mask_functions(m):
    c = ctx()
    mg = m.getter()
    sh = m._shape
    nd = len(sh)
    key = (probe(mg, nd), tuple(s.id for s in sh)) if not is_small(sh) else (
        tuple(m.get(i).id for i in all_index(sh)), tuple(s.id for s in sh))
    reg = c.state.setdefault("masks", {})
    if key in reg:
        return reg[key]
    nm = c.fresh_name("sel")
    n = T.var(nm + "_n", "I")
    zero = T.num(0)
    c.assume(T.le(zero, n))
    if nd == 1:
        c.assume(T.le(n, sh[0]))
    names = ["%s_%d" % (nm, i) for i in range(nd)]
    rk = nm + "_rank"

    def inr(ix):
        return T.and_(*[T.and_(T.le(zero, i), T.lt(i, d)) for i, d in zip(ix, sh)])

    def sel(k):
        return tuple(T.app(x, (k,), "I") for x in names)

    def f1(k):
        ix = sel(k)
        return T.implies(T.and_(T.le(zero, k), T.lt(k, n)),
                         T.and_(inr(ix), mg(ix), T.eq(T.app(rk, ix, "I"), k)))

    def f2(*ix):
        r = T.app(rk, ix, "I")
        return T.implies(T.and_(inr(ix), mg(ix)),
                         T.and_(T.le(zero, r), T.lt(r, n), *[T.eq(a, b) for a, b in zip(sel(r), ix)]))

    c.forall_app(tuple(names), f1)
    c.forall_shape(sh, f2)
    if nd == 1:
        pairs = set()

        def f3(k):
            # order preservation against every earlier index term seen
            k1 = T.add(k, T.num(1))
            return T.implies(T.and_(T.le(zero, k), T.lt(k1, n)),
                             T.lt(T.app(names[0], (k,), "I"), T.app(names[0], (k1,), "I")))
        c.forall_app((names[0],), lambda k: T.TRUE)
    reg[key] = (n, sel, rk, mg, key, sh)
    c.register_array(names[0], (n,))
    return reg[key]


class Sel(Arr):
    """a[mask]: one-dimensional compressed selection (plus leading axes)"""

    @staticmethod
    def make(m, g, dt, pre):
        n, sel, rk, mg, key, sh = mask_functions(m)
        k = len(pre)
        psh = tuple(p[2] for p in pre)
        offs = [p[1] for p in pre]
        src = lambda ix: g(tuple(T.add(o, i) for o, i in zip(offs, ix[:k])) + tuple(ix[k:]))
        return Sel.build(key, src, dt, psh, n, sel, sh)

    @staticmethod
    def build(key, src, dt, psh, n, sel, msh):
        k = len(psh)
        get = lambda ix: conv_dtype(src(tuple(ix[:k]) + sel(ix[k])), dt)
        s = Sel(Buf(psh + (n,), dt, get=get))
        s.key, s.src, s.psh, s.selfn, s.n, s.msh = key, src, psh, sel, n, msh
        s.ver = id(s.buf.getter)
        return s

    def pristine(self):
        return self.sels is None and self.base is None and id(self.buf.getter) == self.ver

    def aligned(self, m, k):
        if not self.pristine():
            return None
        _, _, _, _, key, _ = mask_functions(m)
        if key == self.key and k == len(self.psh):
            return self.src
        return None

    @staticmethod
    def spread(value, m, k):
        n, sel, rk, mg, key, sh = mask_functions(m)
        if k:
            raise Unsupported("mask store of unaligned array")
        if not dims_equal(value._shape[0], n):
            ctx().prove("shape-match", T.FALSE, kind="safety", detail="masked store of a differently shaped array")
            raise PathEnd()
        vg = value.getter()
        return lambda ix: vg((T.app(rk, ix, "I"),))

    @staticmethod
    def op(f, args, dt):
        sels = [a for a in args if isinstance(a, Sel)]
        s0 = sels[0]
        if not all(s.pristine() for s in sels):
            return None
        psh = max((s.psh for s in sels), key=len)
        if any(s.key != s0.key for s in sels):
            return None
        if any(isinstance(a, Arr) and not isinstance(a, Sel) for a in args):
            return None
        k = len(psh)
        gs, dts = [], []
        for a in args:
            if isinstance(a, Sel):
                off = k - len(a.psh)
                gs.append(lambda ix, a=a, off=off: conv_dtype(a.src(tuple(ix[off:])), a.dt))
                dts.append(a.dt)
            else:
                v = lift(a)
                gs.append(lambda ix, v=v: v)
                dts.append(dt_of(v))
        if dt is None:
            dt = result_dt(*dts)
            if dt == "b":
                dt = "i"
        return Sel.build(s0.key, lambda ix: f(*[g(ix) for g in gs]), dt, psh, s0.n, s0.selfn, s0.msh)


# ---------------------------------------------------------------- construction


def has_sym(x):
    if isinstance(x, (SV, Arr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def asarr(x, dt=None):
    if isinstance(x, Arr):
        return x if dt is None or x.dt == dt else x.astype(Kind(dt, dt))
    if isinstance(x, Flat):
        return x.copy()
    if hasattr(x, "dv_toarr"):
        return x.dv_toarr(dt)
    if isinstance(x, (list, tuple)):
        if len(x) and any(isinstance(e, (list, tuple, Arr)) for e in x):
            rows = [asarr(e, dt) for e in x]
            sh = rows[0]._shape
            d = dt or result_dt(*[r.dt for r in rows])
            gs = [r.getter() for r in rows]

            def get(ix):
                c = ci(ix[0])
                if c is not None:
                    return gs[c](ix[1:])
                r = gs[-1](ix[1:])
                for k in range(len(gs) - 2, -1, -1):
                    r = T.ite(T.eq(ix[0], T.num(k)), gs[k](ix[1:]), r)
                return r

            return new_arr((T.num(len(x)),) + tuple(sh), d, get)
        el = [lift(e) for e in x]
        d = dt or (result_dt(*[dt_of(e) for e in el]) if el else "f")
        return Arr(Buf((T.num(len(el)),), d, elems=[conv_dtype(e, d) for e in el]))
    if isinstance(x, (SV, int, float, Fraction, bool)):
        v = lift(x)
        return Arr(Buf((), dt or dt_of(v), elems=[v]))
    if hasattr(x, "tolist"):
        return asarr(x.tolist(), dt)
    raise Unsupported("asarray of %r" % type(x))


def tshape(s):
    if isinstance(s, (tuple, list)):
        return tuple(T.tosort(lift(x), "I") for x in s)
    return (T.tosort(lift(s), "I"),)


def const_arr(shape, v, dt):
    v = lift(v)
    a = new_arr(tshape(shape), dt, lambda ix: v)
    return a


def zeros(shape, dtype=None, **k):
    return const_arr(shape, 0, dtkind(dtype))


def ones(shape, dtype=None, **k):
    return const_arr(shape, 1, dtkind(dtype))


def full(shape, v, dtype=None):
    return const_arr(shape, v, dtkind(dtype) if dtype is not None else dt_of(lift(v)))


def empty(shape, dtype=None):
    if isinstance(dtype, str) and dtype == "O" or dtype is object:
        import numpy as real

        return real.empty(tuple(int(s) for s in shape) if isinstance(shape, (tuple, list)) else shape, dtype="O")
    return uf_arr("empty", tshape(shape), dtkind(dtype))


def zeros_like(a, dtype=None):
    a = asarr(a)
    return const_arr(a.shape, 0, dtkind(dtype) if dtype is not None else a.dt)


def ones_like(a, dtype=None):
    a = asarr(a)
    return const_arr(a.shape, 1, dtkind(dtype) if dtype is not None else a.dt)


def full_like(a, v, dtype=None):
    return const_arr(a.shape, v, dtkind(dtype) if dtype is not None else a.dt)


def empty_like(a, dtype=None):
    return empty(a.shape, dtype if dtype is not None else Kind(a.dt, a.dt))


def array(x, dtype=None, **k):
    if dtype is object or dtype == "O":
        return x
    a = asarr(x, dtkind(dtype) if dtype is not None else None)
    return a.copy() if isinstance(x, Arr) else a


def asarray(x, dtype=None, **k):
    return asarr(x, dtkind(dtype) if dtype is not None else None)


def copy(a, order=None):
    return asarr(a).copy()


def arange(*a, dtype=None):
    a = [x for x in a]
    start, stop, step = 0, a[0], 1
    if len(a) >= 2:
        start, stop = a[0], a[1]
    if len(a) == 3:
        step = a[2]
    if lift(step).op != "poly" or ci(lift(step)) != 1:
        raise Unsupported("arange step")
    s, e = lift(start), lift(stop)
    if s.sort != "I" or e.sort != "I":
        raise Unsupported("float arange")
    n = T.sub(e, s)
    cn = ci(n)
    if cn is not None:
        n = T.num(max(0, cn), "I")
    elif not ctx().entails(T.le(T.num(0), n), 1):
        n = T.max_(n, T.num(0))
    r = Arr(Buf((n,), "i", get=lambda ix: T.add(s, ix[0])))
    r.is_range = (s, n)
    return r


# ---------------------------------------------------------------- elementwise


def _ew(f, dt=None):
    def g(*args, out=None, where=True, **k):
        if where is not True:
            if out is None:
                raise Unsupported("where without out")
            args = [asarr(a) if isinstance(a, (list, tuple)) else a for a in args]
            r = elementwise(lambda w, o, *x: T.ite(w, T.tosort(T.as_num(f(*x)), "R"), o), [where, out] + list(args), out.dt)
            out.fill_from(r)
            return out
        if k.get("dtype") is not None:
            pass
        if not any(isinstance(a, (Arr, list, tuple)) for a in args):
            if any(is_inf(a) for a in args):
                return inf_case(f, args)
            r = wrap(f(*[lift(a) for a in args]))
            return r
        r = elementwise(f, list(args), dt)
        if out is not None:
            out.fill_from(r)
            return out
        return r

    return g


def inf_case(f, args):
    raise Unsupported("inf in elementwise function")


def _num2(f):
    return lambda a, b: f(T.as_num(a), T.as_num(b))


def _b1(a):
    return a if a.sort == "B" else T.not_(T.eq(a, T.num(0)))


def np_sqrt(a):
    return T.sqrt(a)


maximum = _ew(_num2(T.max_))
minimum = _ew(_num2(T.min_))
fmax, fmin = maximum, minimum
absolute = _ew(lambda a: T.ite(T.lt(T.as_num(a), T.num(0)), T.neg(T.as_num(a)), T.as_num(a)))
sqrt = _ew(np_sqrt, "f")
square = _ew(lambda a: T.mul(a, a))
power = _ew(T.power)
add = _ew(T.add)
subtract = _ew(T.sub)
from .arrays import _mulb, _eq  # noqa: E402

multiply = _ew(_mulb)
divide = _ew(T.div, "f")
hypot = _ew(lambda a, b: T.sqrt(T.add(T.mul(a, a), T.mul(b, b))), "f")
negative = _ew(lambda a: T.neg(T.as_num(a)))
logical_and = _ew(lambda a, b: T.and_(_b1(a), _b1(b)), "b")
logical_or = _ew(lambda a, b: T.or_(_b1(a), _b1(b)), "b")
logical_not = _ew(lambda a: T.not_(_b1(a)), "b")
logical_xor = _ew(lambda a, b: T.not_(T.iff(_b1(a), _b1(b))), "b")
greater = _ew(lambda a, b: T.lt(b, a), "b")
greater_equal = _ew(lambda a, b: T.le(b, a), "b")
less = _ew(lambda a, b: T.lt(a, b), "b")
less_equal = _ew(lambda a, b: T.le(a, b), "b")
equal = _ew(_eq, "b")
not_equal = _ew(lambda a, b: T.not_(_eq(a, b)), "b")
np_floor = _ew(lambda a: T.tosort(T.floor_(a), "R"), "f")
isnan = _ew(lambda a: T.FALSE, "b")
isfinite = _ew(lambda a: T.TRUE, "b")
isinf = _ew(lambda a: T.FALSE, "b")
sign = _ew(lambda a: T.ite(T.lt(T.num(0), a), T.num(1), T.ite(T.lt(a, T.num(0)), T.num(-1), T.num(0))))
_round = _ew(lambda a: T.tosort(T.round_half_even(a), "R"), "f")


def np_round(a, decimals=0):
    if decimals != 0:
        raise Unsupported("round decimals")
    return _round(a)


def clip(a, lo, hi, out=None):
    r = a
    if lo is not None:
        r = maximum(r, lo)
    if hi is not None:
        r = minimum(r, hi)
    if out is not None:
        out.fill_from(r)
        return out
    return r


def np_where(cond, *xy):
    if not xy:
        return np_nonzero(cond)
    x, y = xy
    if not any(isinstance(a, (Arr, list)) for a in (cond, x, y)):
        return wrap(T.ite(_b1(lift(cond)), lift(x), lift(y)))

    def f(c, a, b):
        return T.ite(_b1(c), a, b)

    dts = [a.dt if isinstance(a, Arr) else dt_of(lift(a)) for a in (x, y)]
    return elementwise(f, [cond, x, y], result_dt(*dts))


def select(conds, choices, default=0):
    r = default
    for c, v in zip(reversed(conds), reversed(choices)):
        r = np_where(c, v, r)
    return r


def np_nonzero(a):
    a = asarr(a)
    m = a if a.dt == "b" else (a != 0)
    if is_small(m._shape) and all(m.get(i).op == "bc" for i in all_index(m._shape)):
        hits = [i for i in all_index(m._shape) if m.get(i).args[0]]
        return tuple(Arr(Buf((T.num(len(hits)),), "i", elems=[h[k] for h in hits])) for k in range(m.ndim))
    n, sel, rk, mg, key, sh = mask_functions(m)
    out = []
    for ax in range(m.ndim):
        out.append(Arr(Buf((n,), "i", get=lambda ix, ax=ax: sel(ix[0])[ax])))
    return tuple(out)


def argwhere(a):
    cols = np_nonzero(a)
    return stack(cols, axis=1)


def flatnonzero(a):
    return np_nonzero(asarr(a).ravel())[0]


def count_nonzero(a):
    a = asarr(a)
    return np_sum(a if a.dt == "b" else a != 0)


# ---------------------------------------------------------------- reductions


def _iter_small(a):
    return [a.get(i) for i in all_index(a._shape)]


def _axis(a, axis, fold):
    """reduce over a concrete axis"""
    axis = axis if axis >= 0 else axis + a.ndim
    n = ci(a._shape[axis])
    if n is None:
        raise Unsupported("reduction over symbolic axis")
    g = a.getter()
    sh = a._shape[:axis] + a._shape[axis + 1:]
    ks = [T.num(k) for k in range(n)]
    get = lambda ix: fold([g(tuple(ix[:axis]) + (k,) + tuple(ix[axis:])) for k in ks])
    return sh, get


def _inr(ix, sh):
    z = T.num(0)
    return T.and_(*[T.and_(T.le(z, i), T.lt(i, d)) for i, d in zip(ix, sh)])


def _sel_small(a):
    """[(selected?, value)] of a masked selection from a small array, else None"""
    if not isinstance(a, Sel) or a.psh or not a.pristine() or not is_small(a.msh):
        return None
    mg = ctx().state["masks"][a.key][3]
    return [(mg(ix), conv_dtype(a.src(ix), a.dt)) for ix in all_index(a.msh)]


def np_any(a, axis=None):
    if not isinstance(a, (Arr, list, tuple)):
        return wrap(_b1(lift(a)))
    a = asarr(a)
    sm = _sel_small(a)
    if sm is not None:
        return wrap(T.or_(*[T.and_(m, _b1(x)) for m, x in sm]))
    if axis is not None:
        sh, get = _axis(a, axis, lambda l: T.or_(*[_b1(x) for x in l]))
        return new_arr(sh, "b", get)
    if is_small(a._shape):
        return wrap(T.or_(*[_b1(x) for x in _iter_small(a)]))
    c = ctx()
    g = a.getter()
    sh = a._shape
    key = (probe(lambda ix: _b1(g(ix)), len(sh)), tuple(s.id for s in sh))
    reg = c.state.setdefault("anys", {})
    if key in reg:
        return wrap(reg[key])
    b = c.fresh("any", "B")
    w = tuple(c.fresh("anyw", "I") for _ in sh)
    c.assume(T.implies(b, T.and_(_inr(w, sh), _b1(g(w)))))
    c.forall_shape(sh, lambda *ix: T.implies(T.and_(_inr(ix, sh), _b1(g(ix))), b))
    reg[key] = b
    return wrap(b)


def np_all(a, axis=None):
    if not isinstance(a, (Arr, list, tuple)):
        return wrap(_b1(lift(a)))
    a = asarr(a)
    if axis is not None:
        sh, get = _axis(a, axis, lambda l: T.and_(*[_b1(x) for x in l]))
        return new_arr(sh, "b", get)
    r = np_any(elementwise(lambda x: T.not_(_b1(x)), [a], "b"))
    return (not r) if isinstance(r, bool) else ~r


def np_sum(a, axis=None, dtype=None):
    if not isinstance(a, (Arr, list, tuple)):
        return a
    a = asarr(a)
    odt = "i" if a.dt == "b" else a.dt
    if axis is not None:
        sh, get = _axis(a, axis, lambda l: T.addn(l))
        return new_arr(sh, odt, get)
    sm = _sel_small(a)
    if sm is not None:
        zero = T.num(0, "R" if odt == "f" else "I")
        return wrap(T.addn([T.ite(m, T.as_num(x), zero) for m, x in sm]))
    if is_small(a._shape):
        return wrap(T.tosort(T.addn(_iter_small(a)), "R" if odt == "f" else "I"))
    if a.buf.total is not None and a.sels is None and a.base is None:
        return wrap(a.buf.total)
    c = ctx()
    g = a.getter()
    sh = a._shape
    key = (probe(lambda ix: g(ix), len(sh)), tuple(s.id for s in sh))
    reg = c.state.setdefault("sums", {})
    if key in reg:
        return wrap(reg[key])
    s = c.fresh("sum", "R" if odt == "f" else "I")
    reg[key] = s
    zero = T.num(0)
    sk = tuple(c.fresh("sumsk", "I") for _ in sh)
    save = len(c.index_terms)
    c.index_terms.append(sk)
    inr = _inr(sk, sh)
    nonempty = T.and_(*[T.lt(zero, d) for d in sh])
    e = T.as_num(g(sk))
    if c.entails(T.implies(inr, T.lt(zero, e)), 1):
        c.assume(T.implies(nonempty, T.lt(zero, s)))
        c.assume(T.le(zero, s))
    elif c.entails(T.implies(inr, T.le(zero, e)), 1):
        c.assume(T.le(zero, s))
        # s == 0 iff all zero
        w = tuple(c.fresh("sumw", "I") for _ in sh)
        c.assume(T.implies(T.lt(zero, s), T.and_(_inr(w, sh), T.lt(zero, T.as_num(g(w))))))
        c.forall_shape(sh, lambda *ix: T.implies(_inr(ix, sh), T.le(T.as_num(g(ix)), s)))
    del c.index_terms[save:]
    return wrap(s)


def _minmax(a, isx):
    a = asarr(a)
    c = ctx()
    sm = _sel_small(a)
    if sm is not None:
        c.prove("nonempty", T.or_(*[m for m, _ in sm]), kind="safety", detail="max/min of an empty selection")
        has, r = T.FALSE, sm[0][1]
        for m, x in sm:
            r = T.ite(m, T.ite(T.and_(has, T.lt(x, r) if isx else T.lt(r, x)), r, x), r)
            has = T.or_(has, m)
        return wrap(r)
    if is_small(a._shape):
        l = _iter_small(a)
        if not l:
            c.prove("nonempty", T.FALSE, kind="safety", detail="max/min of an empty array")
            raise PathEnd()
        r = l[0]
        for x in l[1:]:
            r = T.max_(r, x) if isx else T.min_(r, x)
        return wrap(r)
    c.prove("nonempty", T.and_(*[T.lt(T.num(0), d) for d in a._shape]), kind="safety", detail="max/min of an empty array")
    g, sh = a.getter(), a._shape
    m = c.fresh("max" if isx else "min", "R" if a.dt == "f" else "I")
    w = tuple(c.fresh("mw", "I") for _ in sh)
    c.assume(T.and_(_inr(w, sh), T.eq(m, g(w))))
    c.forall_shape(sh, lambda *ix: T.implies(_inr(ix, sh), T.le(g(ix), m) if isx else T.le(m, g(ix))))
    return wrap(m)


def np_max(a, axis=None):
    if axis is not None:
        a = asarr(a)
        import functools
        sh, get = _axis(a, axis, lambda l: functools.reduce(T.max_, l))
        return new_arr(sh, a.dt, get)
    return _minmax(a, True)


def np_min(a, axis=None):
    if axis is not None:
        a = asarr(a)
        import functools
        sh, get = _axis(a, axis, lambda l: functools.reduce(T.min_, l))
        return new_arr(sh, a.dt, get)
    return _minmax(a, False)


def np_cumsum(a, axis=None):
    a = asarr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum nd")
    if is_small(a._shape):
        el, s = [], T.num(0, "R" if a.dt == "f" else "I")
        for x in _iter_small(a):
            s = T.add(s, x)
            el.append(s)
        r = Arr(Buf(a._shape, "f" if a.dt == "f" else "i", elems=el))
    else:
        r = uf_arr("cumsum", a._shape, "f" if a.dt == "f" else "i")
        g = a.getter()
        nm = r.uf
        n = a._shape[0]
        sort = "R" if r.dt == "f" else "I"
        one = T.num(1)

        def rec(k):
            prev = T.app(nm, (T.sub(k, one),), sort)
            cur = T.app(nm, (k,), sort)
            return T.and_(
                T.implies(T.and_(T.lt(T.num(0), k), T.lt(k, n)), T.eq(cur, T.add(prev, T.as_num(g((k,)))))),
                T.implies(T.eq(k, T.num(0)), T.eq(cur, T.as_num(g((k,))))))

        depth = {"n": 0}
        c = ctx()
        c.forall_app((nm,), rec)
    r.is_cumsum_of = a.getter()
    return r


def searchsorted(a, v, side="left"):
    a = asarr(a)
    c = ctx()
    n = a._shape[0]
    g = a.getter()
    # the array must be sorted for the library contract to apply
    if is_small(a._shape):
        l = _iter_small(a)
        c.prove("searchsorted-sorted", T.and_(*[T.le(x, y) for x, y in zip(l, l[1:])]), kind="pre-dep")
    else:
        k = c.fresh("sk_sort", "I")
        c.prove("searchsorted-sorted",
                T.implies(T.and_(T.lt(T.num(0), k), T.lt(k, n)), T.le(g((T.sub(k, T.num(1)),)), g((k,)))), kind="pre-dep")
    v = T.as_num(lift(v))
    r = c.fresh("ssorted", "I")
    zero, one = T.num(0), T.num(1)
    lo = (lambda x: T.lt(x, v)) if side == "left" else (lambda x: T.le(x, v))
    c.assume(T.and_(T.le(zero, r), T.le(r, n)))
    if is_small(a._shape):
        l = _iter_small(a)
        for k, x in enumerate(l):
            kt = T.num(k)
            c.assume(T.iff(T.lt(kt, r), lo(x)))
    else:
        c.assume(T.implies(T.lt(r, n), T.not_(lo(g((r,))))))
        c.assume(T.implies(T.lt(zero, r), lo(g((T.sub(r, one),)))))
        c.forall_shape((n,), lambda k: T.implies(_inr((k,), (n,)), T.iff(T.lt(k, r), lo(g((k,))))))
        last = T.sub(n, one)
        c.assume(T.implies(T.lt(zero, n), T.iff(T.lt(last, r), lo(g((last,))))))
    return wrap(r)


def unique(a):
    a = asarr(a)
    c = ctx()
    if a.ndim != 1:
        a = a.ravel()
    g, n = a.getter(), a._shape[0]
    r_n = c.fresh("uniq_n", "I")
    r = uf_arr("uniq", (r_n,), a.dt)
    nm = r.uf
    src, pos = nm + "_src", nm + "_pos"
    zero, one = T.num(0), T.num(1)
    c.assume(T.and_(T.le(zero, r_n), T.le(r_n, n)))
    sort = "R" if a.dt == "f" else "I"

    def f1(k):
        s = T.app(src, (k,), "I")
        return T.implies(_inr((k,), (r_n,)), T.and_(_inr((s,), (n,)), T.eq(T.app(nm, (k,), sort), g((s,)))))

    def f2(p):
        q = T.app(pos, (p,), "I")
        return T.implies(_inr((p,), (n,)), T.and_(_inr((q,), (r_n,)), T.eq(T.app(nm, (q,), sort), g((p,)))))

    c.forall_app((nm,), f1)
    c.forall_shape((n,), f2)
    pv = T.var("$0", "I")
    e = g((pv,))
    if e.op == "app" and len(e.args) == 2 and e.args[1] is pv:
        c.forall_app((e.args[0],), f2)
    c.assume(T.implies(T.lt(zero, n), T.lt(zero, r_n)))
    return r


# ---------------------------------------------------------------- shape tools


def reshape(a, shape):
    return asarr(a).reshape(shape)


def ravel(a):
    return asarr(a).ravel()


def pad(a, width, mode="constant", **k):
    a = asarr(a)
    if mode != "edge" or lift(width).op != "poly" or ci(lift(width)) != 1:
        raise Unsupported("np.pad mode")
    return pad_edge(a)


def pad_edge(a):
    g, sh = a.getter(), a._shape
    nsh = tuple(T.add(d, T.num(2)) for d in sh)
    zero, one = T.num(0), T.num(1)

    def cl(i, d):
        j = T.sub(i, one)
        last = T.sub(d, one)
        cj, cd = ci(j), ci(d)
        if cj is not None and cd is not None:
            return T.num(min(max(cj, 0), cd - 1), "I")
        lo_ok = ctx().entails(T.le(zero, j), 0)
        hi_ok = ctx().entails(T.le(j, last), 0)
        r = j
        if not hi_ok:
            r = T.ite(T.lt(last, j), last, r)
        if not lo_ok:
            r = T.ite(T.lt(j, zero), zero, r)
        return r

    return new_arr(nsh, a.dt, lambda ix: g(tuple(cl(i, d) for i, d in zip(ix, sh))))


def meshgrid(x, y, **k):
    x, y = asarr(x), asarr(y)
    gx, gy = x.getter(), y.getter()
    sh = (y._shape[0], x._shape[0])
    return (new_arr(sh, x.dt, lambda ix: gx((ix[1],))), new_arr(sh, y.dt, lambda ix: gy((ix[0],))))


def concat2(a, b, axis):
    n1 = a._shape[axis]
    sh = list(a._shape)
    sh[axis] = T.add(n1, b._shape[axis])
    ga, gb = a.getter(), b.getter()

    def get(ix):
        i = ix[axis]
        ix2 = list(ix)
        ix2[axis] = T.sub(i, n1)
        c = T.lt(i, n1)
        if c.op == "bc":
            return ga(ix) if c.args[0] else gb(tuple(ix2))
        return T.ite(c, ga(ix), gb(tuple(ix2)))

    return new_arr(sh, result_dt(a.dt, b.dt), get)


def concatenate(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    r = arrs[0]
    for b in arrs[1:]:
        r = concat2(r, b, axis)
    return r


def hstack(arrs):
    arrs = [asarr(a) for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def vstack(arrs):
    return concatenate([asarr(a) if asarr(a).ndim > 1 else asarr(a).reshape((1,) + asarr(a).shape) for a in arrs], 0)


def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    gs = [a.getter() for a in arrs]
    sh = list(arrs[0]._shape)
    sh.insert(axis, T.num(len(arrs)))

    def get(ix):
        k = ix[axis]
        rest = tuple(ix[:axis]) + tuple(ix[axis + 1:])
        c = ci(k)
        if c is not None:
            return gs[c](rest)
        r = gs[-1](rest)
        for q in range(len(gs) - 2, -1, -1):
            r = T.ite(T.eq(k, T.num(q)), gs[q](rest), r)
        return r

    return new_arr(sh, result_dt(*[a.dt for a in arrs]), get)


def prod(a):
    r = 1
    for x in (a if isinstance(a, (list, tuple)) else list(asarr(a))):
        r = r * x
    return r


def array_equal(a, b):
    return np_all(asarr(a) == asarr(b))


def copyto(dst, src, where=True):
    if where is True:
        dst.fill_from(src)
    else:
        dst[where] = src[where] if isinstance(src, Arr) else src


def ndim(a):
    return a.ndim if hasattr(a, "ndim") else 0


def shape(a):
    return a.shape


def isscalar(x):
    return not isinstance(x, Arr)


def ravel_multi_index(ix, dims):
    i, j = ix
    return i * dims[1] + j


def unravel_index(k, dims):
    if isinstance(k, Arr):
        return k // dims[1], k % dims[1]
    return k // dims[1], k % dims[1]


class NdEnum:
    def __init__(self, a):
        self.a = asarr(a)


def ndenumerate(a):
    a = asarr(a)
    if is_small(a._shape):
        return [((tuple(ci(i) for i in ix)), wrap(a.get(ix))) for ix in all_index(a._shape)]
    return NdEnum(a)


class Random:
    """np.random: draws recorded with the calling context"""

    def uniform(self, lo=0.0, hi=1.0, size=None):
        c = ctx()
        if size is not None:
            raise Unsupported("vector draws")
        hook = c.state.get("rng_hook")
        if hook:
            hook("uniform", c.state.get("jit", 0))
        u = c.fresh("draw", "R")
        l, h = lift(lo), lift(hi)
        c.assume(T.implies(T.lt(l, h), T.and_(T.lt(l, u), T.lt(u, h))))
        c.assume(T.implies(T.not_(T.lt(l, h)), T.eq(u, l)))
        c.assumptions.add("a uniform draw over [0, limit) is strictly between 0 and limit (the draw exactly 0 has "
                          "probability 2^-53 and is excluded)")
        return wrap(u)

    def seed(self, s):
        hook = ctx().state.get("rng_hook")
        if hook:
            hook("seed", ctx().state.get("jit", 0), s)

    def _other(self, *a, **k):
        hook = ctx().state.get("rng_hook")
        if hook:
            hook("other", ctx().state.get("jit", 0))
        raise Unsupported("np.random function")

    choice = shuffle = permutation = normal = random_sample = standard_normal = binomial = exponential = _other
    default_rng = RandomState = get_state = set_state = _other

    def rand(self, *a):
        return self.uniform(0, 1)

    def random(self, *a):
        return self.uniform(0, 1)

    def randint(self, *a, **k):
        c = ctx()
        hook = c.state.get("rng_hook")
        if hook:
            hook("randint", c.state.get("jit", 0))
        v = c.fresh("randint", "I")
        lo, hi = (0, a[0]) if len(a) == 1 else (a[0], a[1])
        c.assume(T.and_(T.le(lift(lo), v), T.lt(v, lift(hi))))
        return wrap(v)


def native_or(f):
    return f


def build():
    m = types.ModuleType("numpy")
    g = globals()
    for nm in ("zeros ones full empty zeros_like ones_like full_like empty_like array asarray copy arange maximum "
               "minimum fmax fmin absolute sqrt square power add subtract multiply divide hypot negative logical_and "
               "logical_or logical_not logical_xor greater greater_equal less less_equal equal not_equal isnan "
               "isfinite isinf sign clip select argwhere flatnonzero count_nonzero searchsorted unique reshape ravel "
               "pad meshgrid concatenate hstack vstack stack prod array_equal copyto ndim shape isscalar "
               "ravel_multi_index unravel_index ndenumerate float32 float64 int64 int32 uint64 bool_").split():
        setattr(m, nm, g[nm])
    m.abs = absolute
    m.true_divide = divide
    m.floor = np_floor
    m.round = m.around = np_round
    m.rint = np_round
    m.any, m.all, m.sum = np_any, np_all, np_sum
    m.amax = m.max = np_max
    m.amin = m.min = np_min
    m.cumsum = np_cumsum
    m.where, m.nonzero = np_where, np_nonzero
    m.ndarray = Arr
    m.asfarray = lambda a: asarr(a, "f")
    m.ascontiguousarray = lambda a: asarr(a)
    m.inf = float("inf")
    m.nan = float("nan")
    m.newaxis = None
    m.random = Random()
    m.bool = bool_
    m.float_ = float64
    m.integer = int
    m.mean = lambda a: asarr(a).mean()
    m.multiply = multiply
    m.invert = lambda a: ~a
    m.bitwise_and = logical_and
    m.bitwise_or = logical_or
    return m
