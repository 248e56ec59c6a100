"""Hash-consed term language of the verifier.

Sorts: 'I' (mathematical integers), 'R' (reals), 'B' (booleans).
Numeric terms are kept in polynomial normal form (sum of coefficient *
monomial over atoms), so that arithmetic identities are syntactic.
"""
from fractions import Fraction
import math


class Unsupported(BaseException):
    """The code under verification uses something outside the subset."""


class T:
    __slots__ = ("op", "args", "sort", "id", "__weakref__")

    def __repr__(self):
        return show(self)


_table = {}
_count = [0]


def mk(op, args, sort):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort = op, args, sort
        _count[0] += 1
        t.id = _count[0]
        _table[key] = t
    return t


def reset():
    _table.clear()
    _count[0] = 0
    global TRUE, FALSE
    TRUE = mk("bc", (True,), "B")
    FALSE = mk("bc", (False,), "B")


TRUE = mk("bc", (True,), "B")
FALSE = mk("bc", (False,), "B")


def boolc(b):
    return TRUE if b else FALSE


def var(name, sort):
    return mk("var", (name,), sort)


def app(name, idx, sort):
    return mk("app", (name,) + tuple(idx), sort)


def to_fraction(v):
    if isinstance(v, Fraction):
        return v
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported("non-finite constant in arithmetic")
        return Fraction(repr(v))
    raise Unsupported("not a number: %r" % (v,))


# ---------------------------------------------------------------- polynomials
# poly term: op 'poly', args = tuple of (coef, monomial) sorted; monomial =
# tuple of atom terms sorted by id.


def num(v, sort=None):
    f = to_fraction(v)
    if sort is None:
        sort = "I" if (isinstance(v, (int, bool)) and not isinstance(v, float)) else "R"
    if f == 0:
        return mk("poly", (), sort)
    return mk("poly", ((f, ()),), sort)


def is_num(t):
    return t.sort != "B"


def pdict(t):
    """polynomial of numeric term as dict"""
    if t.op == "poly":
        return {m: c for c, m in t.args}
    return {(t,): Fraction(1)}


def frompoly(d, sort):
    items = [(c, m) for m, c in d.items() if c != 0]
    if len(items) == 1 and items[0][0] == 1 and len(items[0][1]) == 1:
        a = items[0][1][0]
        if a.sort == sort:
            return a
    items.sort(key=lambda cm: (len(cm[1]), tuple(a.id for a in cm[1])))
    return mk("poly", tuple(items), sort)


def constval(t):
    """Fraction if the term is a numeric constant else None"""
    if t.op == "poly":
        if not t.args:
            return Fraction(0)
        if len(t.args) == 1 and t.args[0][1] == ():
            return t.args[0][0]
    return None


def jsort(a, b):
    return "I" if (a.sort == "I" and b.sort == "I") else "R"


def as_num(t):
    if t.sort == "B":
        return ite(t, num(1), num(0))
    return t


def add(a, b):
    a, b = as_num(a), as_num(b)
    s = jsort(a, b)
    d = pdict(a).copy()
    for m, c in pdict(b).items():
        d[m] = d.get(m, 0) + c
    return frompoly(d, s)


def addn(ts, sort=None):
    d = {}
    s = "I"
    for t in ts:
        t = as_num(t)
        if t.sort == "R":
            s = "R"
        for m, c in pdict(t).items():
            d[m] = d.get(m, 0) + c
    return frompoly(d, sort or s)


def scale(a, k):
    a = as_num(a)
    k = Fraction(k)
    s = a.sort if k.denominator == 1 else "R"
    return frompoly({m: c * k for m, c in pdict(a).items()}, s)


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(as_num(b)))


MAXEXP = 400


def _mono_mul(m1, m2):
    m = tuple(sorted(m1 + m2, key=lambda a: a.id))
    return m


def mul(a, b):
    a, b = as_num(a), as_num(b)
    s = jsort(a, b)
    pa, pb = pdict(a), pdict(b)
    ca, cb = constval(a), constval(b)
    if ca is not None:
        r = scale(b, ca)
        return r if r.sort == s else tosort(r, s)
    if cb is not None:
        r = scale(a, cb)
        return r if r.sort == s else tosort(r, s)
    if len(pa) * len(pb) > MAXEXP:
        # keep factors opaque
        x, y = (a, b) if a.id <= b.id else (b, a)
        return mk("bigmul", (x, y), s)
    d = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            k = c1 * c2
            if len(m) > 1:
                for x in range(len(m) - 1):
                    if m[x] is m[x + 1] and m[x].op == "sqrt":
                        q = constval(m[x].args[0])
                        if q is not None and q >= 0:
                            m, k = m[:x] + m[x + 2:], k * q
                            break
            d[m] = d.get(m, 0) + k
    return frompoly(d, s)


def tosort(t, s):
    if t.sort == s:
        return t
    if t.sort == "B":
        return tosort(ite(t, num(1), num(0)), s)
    if t.op == "poly":
        return mk("poly", t.args, s)
    return mk("poly", ((Fraction(1), (t,)),), s)


def inv(b):
    """1/b ; unspecified when b == 0"""
    b = as_num(b)
    c = constval(b)
    if c is not None:
        if c == 0:
            return var("inv_of_zero", "R")
        return num(1 / c, "R")
    p = pdict(b)
    if len(p) == 1:
        (m, k), = p.items()
        r = num(1 / k, "R")
        for a in m:
            if a.op == "sqrt" and constval(a.args[0]) is not None and constval(a.args[0]) > 0:
                r = mul(r, scale(a, 1 / constval(a.args[0])))
            elif a.op == "inv":
                # 1/(1/x): keep as atom (x may be zero)
                r = mul(r, mk("inv", (mk("poly", ((Fraction(1), (a,)),), "R"),), "R"))
            else:
                r = mul(r, mk("inv", (mk("poly", ((Fraction(1), (a,)),), "R"),), "R"))
        return r
    # normalise leading coefficient
    lead = tosort(b, "R").args[0][0] if tosort(b, "R").op == "poly" else Fraction(1)
    nb = scale(tosort(b, "R"), 1 / lead)
    return scale(mk("inv", (tosort(nb, "R"),), "R"), 1 / lead)


def div(a, b):
    a, b = as_num(a), as_num(b)
    return tosort(mul(tosort(a, "R"), inv(b)), "R")


# ---------------------------------------------------------------- booleans


def not_(a):
    if a.op == "bc":
        return boolc(not a.args[0])
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "B")


def and_(*xs):
    out, seen = [], set()
    for x in xs:
        if x.op == "bc":
            if not x.args[0]:
                return FALSE
            continue
        parts = x.args if x.op == "and" else (x,)
        for y in parts:
            if y.id in seen:
                continue
            if not_(y).id in seen:
                return FALSE
            seen.add(y.id)
            out.append(y)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return mk("and", tuple(out), "B")


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs]))


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a.op == "bc":
        return b if a.args[0] else not_(b)
    if b.op == "bc":
        return a if b.args[0] else not_(a)
    x, y = (a, b) if a.id <= b.id else (b, a)
    return mk("iff", (x, y), "B")


def ite(c, a, b):
    if c.op == "bc":
        return a if c.args[0] else b
    if a is b:
        return a
    if a.sort == "B" and b.sort == "B":
        return and_(or_(not_(c), a), or_(c, b))
    a, b = as_num(a), as_num(b)
    s = jsort(a, b)
    a, b = tosort(a, s), tosort(b, s)
    if a is b:
        return a
    if c.op == "not":
        c, a, b = c.args[0], b, a
    # ite(c, ite(c,x,y), b) -> ite(c,x,b)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), s)


def _cmp0(t, op):
    """t op 0 with op in '<','<=','=='"""
    c = constval(t)
    if c is not None:
        return boolc(c < 0 if op == "<" else c <= 0 if op == "<=" else c == 0)
    t = tosort(t, t.sort)
    p = pdict(t)
    # normalise by positive scale (make coefficients primitive)
    items = frompoly(p, t.sort)
    its = items.args if items.op == "poly" else ((Fraction(1), (items,)),)
    den = 1
    for cc, _ in its:
        den = den * cc.denominator // math.gcd(den, cc.denominator)
    g = 0
    for cc, _ in its:
        g = math.gcd(g, int(cc * den))
    k = Fraction(den, g)
    if op == "==":
        # leading sign positive
        lead = its[-1][0]
        if lead < 0:
            k = -k
    t2 = frompoly({m: cc * k for m, cc in p.items()}, t.sort)
    if op == "<" and t.sort == "I":
        # t < 0  <=> t + 1 <= 0
        return _cmp0(add(t2, num(1)), "<=") if k == 1 else mk("le0", (add(t2, num(1)),), "B")
    if op == "<":
        return mk("lt0", (t2,), "B")
    if op == "<=":
        return mk("le0", (t2,), "B")
    return mk("eq0", (t2,), "B")


def lt(a, b):
    return _cmp0(sub(a, b), "<")


def le(a, b):
    if a.sort != "I" or b.sort != "I":
        # canonical: a<=b  ==  not (b<a)
        return not_(lt(b, a))
    return _cmp0(sub(a, b), "<=")


def eq(a, b):
    if a.sort == "B" and b.sort == "B":
        return iff(a, b)
    return _cmp0(sub(a, b), "==")


def max_(a, b):
    return ite(lt(a, b), b, a)


def min_(a, b):
    return ite(lt(b, a), b, a)


# ---------------------------------------------------------------- functions


def sqrt(x):
    x = tosort(as_num(x), "R")
    c = constval(x)
    if c is not None and c >= 0:
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return num(Fraction(n, d), "R")
        k, out = c.numerator * c.denominator, Fraction(1, c.denominator)
        if k < 10**9:
            f = 2
            while f * f <= k and f < 2000:
                while k % (f * f) == 0:
                    k //= f * f
                    out *= f
                f += 1
            return scale(mk("sqrt", (num(k, "R"),), "R"), out)
    return mk("sqrt", (x,), "R")


def power(x, y):
    x, y = as_num(x), as_num(y)
    cy = constval(y)
    if cy is not None:
        if cy == Fraction(1, 2):
            return sqrt(x)
        if cy.denominator == 1 and 0 <= cy <= 4:
            r = num(1)
            for _ in range(int(cy)):
                r = mul(r, x)
            return r
        if cy.denominator == 1 and -4 <= cy < 0:
            return inv(power(x, num(-cy)))
    cx = constval(x)
    if cx == 1:
        return num(1, "R")
    return mk("pow", (tosort(x, "R"), tosort(y, "R")), "R")


def integral(x):
    """the integer term equal to the real term x if x is built from integers only, else None"""
    if x.op == "poly" and all(c.denominator == 1 and all(a.sort == "I" for a in m) for c, m in x.args):
        return mk("poly", x.args, "I")
    return None


def floor_(x):
    x = as_num(x)
    if x.sort == "I":
        return x
    i = integral(x)
    if i is not None:
        return i
    c = constval(x)
    if c is not None:
        return num(math.floor(c), "I")
    # integer-valued polynomial part can be moved out; keep simple
    return mk("floor", (x,), "I")


def trunc(x):
    x = as_num(x)
    if x.sort == "I":
        return x
    i = integral(x)
    if i is not None:
        return i
    return ite(lt(x, num(0)), neg(floor_(neg(x))), floor_(x))


def round_half_even(x):
    """python round()/np.round to integer value (exact reals)"""
    x = as_num(x)
    if x.sort == "I":
        return x
    c = constval(x)
    if c is not None:
        return num(round(c), "I")
    f = floor_(add(x, num(Fraction(1, 2))))
    tie = eq(tosort(f, "R"), add(x, num(Fraction(1, 2))))
    odd = eq(imod(f, num(2)), num(1))
    return ite(and_(tie, odd), sub(f, num(1)), f)


def idiv(a, b):
    """floor division of integers"""
    ca, cb = constval(a), constval(b)
    if ca is not None and cb is not None and cb != 0:
        return num(int(ca // cb), "I")
    if cb == 1:
        return a
    return mk("idiv", (a, b), "I")


def imod(a, b):
    ca, cb = constval(a), constval(b)
    if ca is not None and cb is not None and cb != 0:
        return num(int(ca % cb), "I")
    if cb == 1:
        return num(0, "I")
    return sub(a, mul(b, idiv(a, b)))


# ---------------------------------------------------------------- traversal


def children(t):
    op = t.op
    if op in ("var", "bc"):
        return ()
    if op == "poly":
        out = []
        for _, m in t.args:
            out.extend(m)
        return out
    if op == "app":
        return t.args[1:]
    return t.args


def walk(ts, seen=None):
    """all subterms (each once)"""
    seen = set() if seen is None else seen
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        stack.extend(children(t))


def show(t, depth=0):
    op = t.op
    if depth > 12:
        return "..."
    d = depth + 1
    if op == "bc":
        return str(t.args[0])
    if op == "var":
        return t.args[0]
    if op == "app":
        return "%s(%s)" % (t.args[0], ", ".join(show(a, d) for a in t.args[1:]))
    if op == "poly":
        if not t.args:
            return "0"
        out = []
        for c, m in t.args:
            fs = [show(a, d) for a in m]
            if c != 1 or not fs:
                fs = [str(c)] + fs
            out.append("*".join(fs))
        return "(" + " + ".join(out) + ")"
    if op == "ite":
        return "ite(%s, %s, %s)" % tuple(show(a, d) for a in t.args)
    if op in ("le0", "lt0", "eq0"):
        return "%s %s 0" % (show(t.args[0], d), {"le0": "<=", "lt0": "<", "eq0": "=="}[op])
    return "%s(%s)" % (op, ", ".join(show(a, d) for a in t.args))


def subst(t, mapping, memo=None):
    """replace atom terms (by id) -> term"""
    memo = {} if memo is None else memo

    def go(x):
        r = mapping.get(x.id)
        if r is not None:
            return r
        r = memo.get(x.id)
        if r is not None:
            return r
        op = x.op
        if op in ("var", "bc"):
            r = x
        elif op == "poly":
            parts = []
            for c, m in x.args:
                p = num(c, x.sort)
                for a in m:
                    p = mul(p, go(a))
                parts.append(p)
            r = tosort(addn(parts, None), x.sort) if x.sort == "R" else addn(parts)
        elif op == "app":
            r = mk("app", (x.args[0],) + tuple(go(a) for a in x.args[1:]), x.sort)
        else:
            a = [go(y) for y in x.args]
            r = rebuild(op, a, x.sort)
        memo[x.id] = r
        return r

    return go(t)


def rebuild(op, a, sort):
    if op == "ite":
        return tosort(ite(*a), sort) if sort != "B" else ite(*a)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "iff":
        return iff(*a)
    if op == "le0":
        return _cmp0(a[0], "<=")
    if op == "lt0":
        return _cmp0(a[0], "<")
    if op == "eq0":
        return _cmp0(a[0], "==")
    if op == "inv":
        return inv(a[0])
    if op == "sqrt":
        return sqrt(a[0])
    if op == "pow":
        return power(*a)
    if op == "floor":
        return floor_(a[0])
    if op == "idiv":
        return idiv(*a)
    if op == "bigmul":
        return mul(*a)
    raise AssertionError(op)
