"""Discharging obligations: lemma instantiation + z3 (+ cvc5 fall-back)."""
import os
import subprocess
import tempfile
import threading
import time
from fractions import Fraction

import z3

from . import terms as T

STATS = {"queries": 0, "time": 0.0, "by": {}}
TIMEOUTS = {"lin": 6000, "nra": 8000, "nlsat": 8000, "cvc5": 10}


def _zsort(s):
    return {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}[s]


_RANK = {"var": 0, "sqrt": 1, "inv": 1, "pow": 1}


def _rank(a):
    return _RANK.get(a.op, 2 if a.op != "app" else 3)


class Conv:
    """term -> z3; mode 'lin' abstracts products by an uninterpreted function,
    mode 'exact' uses real multiplication, mode 'pure' replaces every atom by
    a variable (and integers by reals)."""

    def __init__(self, mode):
        self.mode = mode
        self.memo = {}
        self.muls = {}  # for lin: list of (x,y,p) z3 triples
        self.fresh = {}
        R = z3.RealSort()
        I = z3.IntSort()
        self.mulR = z3.Function("mulR", R, R, R)
        self.mulI = z3.Function("mulI", I, I, I)

    def real(self, z):
        return z3.ToReal(z) if z.sort() == z3.IntSort() else z

    def const(self, c, sort):
        if sort == "I" and self.mode != "pure":
            return z3.IntVal(int(c)) if c.denominator == 1 else z3.RealVal(str(c))
        return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(c.numerator)

    def product(self, zs):
        if self.mode != "lin":
            r = zs[0]
            for z in zs[1:]:
                if r.sort() != z.sort():
                    r, z = self.real(r), self.real(z)
                r = r * z
            return r
        r = zs[0]
        for z in zs[1:]:
            if r.sort() == z3.IntSort() and z.sort() == z3.IntSort():
                p = self.mulI(r, z)
            else:
                r, z = self.real(r), self.real(z)
                p = self.mulR(r, z)
            self.muls[p.get_id()] = (r, z, p)
            r = p
        return r

    def purevar(self, t):
        return z3.Real("a!%d" % t.id) if t.sort != "B" else z3.Bool("b!%d" % t.id)

    def conv(self, t):
        memo = self.memo
        r = memo.get(t.id)
        if r is not None:
            return r
        # iterative post-order
        stack = [t]
        while stack:
            x = stack[-1]
            if x.id in memo:
                stack.pop()
                continue
            if self.mode == "pure" and x.op in ("app", "inv", "sqrt", "pow", "floor", "idiv", "var"):
                memo[x.id] = self.purevar(x)
                stack.pop()
                continue
            ch = [c for c in T.children(x) if c.id not in memo]
            if ch:
                stack.extend(ch)
                continue
            memo[x.id] = self.build(x)
            stack.pop()
        return memo[t.id]

    def build(self, x):
        m = self.memo
        op = x.op
        if op == "bc":
            return z3.BoolVal(x.args[0])
        if op == "var":
            return z3.Const(x.args[0], _zsort(x.sort))
        if op == "app":
            args = [m[a.id] for a in x.args[1:]]
            f = z3.Function(x.args[0], *([a.sort() for a in args] + [_zsort(x.sort)]))
            return f(*args)
        if op == "poly":
            if not x.args:
                return self.const(Fraction(0), x.sort)
            ints = x.sort == "I" and self.mode != "pure"
            parts = []
            for c, mono in x.args:
                if not mono:
                    z = self.const(c, x.sort)
                else:
                    # variables first: equal up to rewriting of applications means congruent products
                    z = self.product([m[a.id] for a in sorted(mono, key=_rank)])
                    if c != 1:
                        if not ints or c.denominator != 1:
                            z = self.real(z)
                            z = self.const(c, "R") * z
                        else:
                            z = self.const(c, "I") * z
                if not ints:
                    z = self.real(z)
                parts.append(z)
            return parts[0] if len(parts) == 1 else z3.Sum(parts)
        if op == "ite":
            c, a, b = (m[a.id] for a in x.args)
            if a.sort() != b.sort():
                a, b = self.real(a), self.real(b)
            return z3.If(c, a, b)
        if op == "not":
            return z3.Not(m[x.args[0].id])
        if op == "and":
            return z3.And([m[a.id] for a in x.args])
        if op == "iff":
            return m[x.args[0].id] == m[x.args[1].id]
        if op == "le0":
            return m[x.args[0].id] <= 0
        if op == "lt0":
            return m[x.args[0].id] < 0
        if op == "eq0":
            return m[x.args[0].id] == 0
        if op == "bigmul":
            return self.product([m[a.id] for a in x.args])
        # function-like atoms
        args = [m[a.id] for a in x.args]
        if op in ("inv", "sqrt", "pow"):
            args = [self.real(a) for a in args]
        f = z3.Function("op_" + op, *([a.sort() for a in args] + [_zsort(x.sort)]))
        return f(*args)

    def mul_lemmas(self):
        out = []
        for x, y, p in list(self.muls.values()):
            zero = 0
            out.append(z3.Implies(z3.And(x > 0, y > 0), p > 0))
            out.append(z3.Implies(z3.And(x < 0, y < 0), p > 0))
            out.append(z3.Implies(z3.And(x > 0, y < 0), p < 0))
            out.append(z3.Implies(z3.And(x < 0, y > 0), p < 0))
            out.append(z3.Implies(z3.Or(x == 0, y == 0), p == zero))
            out.append(z3.Implies(x == 1, p == y))
            out.append(z3.Implies(y == 1, p == x))
            if x.sort() == z3.IntSort():
                # |y|>=1 and x>=0 ... integer growth
                out.append(z3.Implies(z3.And(x >= 1, y >= 1), z3.And(p >= x, p >= y)))
        return out


def lemmas(roots, foralls, index_terms, rounds=4, cap=6000, mono_lemmas=True, shallow=False):
    """instantiate universal facts and axioms of the function symbols for the
    terms occurring in roots; returns list of extra facts (terms)"""
    out = []
    seen_walk = set()
    done = set()
    pow_terms = []
    work = list(roots)
    idx_by_shape = {}
    apps_seen = {}

    def emit(f):
        if f.op == "bc" and f.args[0]:
            return
        if f.id in done:
            return
        done.add(f.id)
        out.append(f)
        new.append(f)

    forall_done = set()
    zero = T.num(0)
    one = T.num(1)
    for rnd in range(rounds):
        new = []
        fresh_terms = list((walk_shallow if shallow else T.walk)(work, seen_walk))
        for t in fresh_terms:
            op = t.op
            if op == "app":
                apps_seen.setdefault(t.args[0], []).append(t)
            elif op == "inv":
                p = t.args[0]
                emit(T.implies(T.not_(T.eq(p, zero)), T.eq(T.mul(t, p), one)))
                emit(T.implies(T.lt(zero, p), T.lt(zero, t)))
                emit(T.implies(T.lt(p, zero), T.lt(t, zero)))
            elif op == "sqrt":
                x = t.args[0]
                emit(T.implies(T.le(zero, x), T.and_(T.le(zero, t), T.eq(T.mul(t, t), x))))
                emit(T.implies(T.lt(zero, x), T.lt(zero, t)))
            elif op == "pow":
                x, y = t.args
                emit(T.implies(T.lt(zero, x), T.lt(zero, t)))
                emit(T.implies(T.and_(T.eq(x, zero), T.lt(zero, y)), T.eq(t, zero)))
                emit(T.implies(T.and_(T.le(zero, x), T.le(zero, y)), T.le(zero, t)))
                emit(T.implies(T.eq(y, zero), T.eq(t, one)))
                emit(T.implies(T.eq(y, one), T.eq(t, x)))
                for o in pow_terms:
                    x2, y2 = o.args
                    for (p1, a1, p2, a2) in ((t, x, o, x2), (o, x2, t, x)):
                        emit(T.implies(T.and_(T.eq(y, y2), T.lt(zero, y), T.le(zero, a1), T.lt(a1, a2)), T.lt(p1, p2)))
                pow_terms.append(t)
            elif op == "floor":
                x = t.args[0]
                emit(T.and_(T.le(T.tosort(t, "R"), x), T.lt(x, T.add(T.tosort(t, "R"), one))))
            elif op == "idiv":
                a, b = t.args
                bq = T.mul(b, t)
                emit(T.implies(T.lt(zero, b), T.and_(T.le(bq, a), T.lt(a, T.add(bq, b)))))
                emit(T.implies(T.and_(T.lt(zero, b), T.le(zero, a)), T.and_(T.le(zero, t), T.le(t, a))))
            elif op == "poly" and mono_lemmas:
                pd = {m for _, m in t.args}
                for c, m in t.args:
                    if len(m) < 2 or (m, 0) in done:
                        continue
                    done.add((m, 0))
                    if len(m) > 2 or shallow:
                        emit(T.implies(T.and_(*[T.le(zero, z) for z in set(m)]),
                                       T.le(zero, T.frompoly({m: Fraction(1)}, t.sort if t.sort == "R" else "I"))))
                    mt = T.frompoly({m: Fraction(1)}, t.sort if t.sort == "R" else "I")
                    for i, a in enumerate(m):
                        rest = m[:i] + m[i + 1:]
                        if a.op == "var" and rest in pd and a.sort == "R":
                            emit(T.implies(T.and_(T.le(a, one), *[T.le(zero, z) for z in set(rest)]),
                                           T.le(mt, T.frompoly({rest: Fraction(1)}, "R"))))
                    for i, a in enumerate(m):
                        rest = m[:i] + m[i + 1:]
                        rt = T.frompoly({rest: Fraction(1)}, "R" if any(z.sort == "R" for z in rest) else "I")
                        if a.op == "ite":
                            if rnd < 2 and not shallow:
                                emit(T.implies(a.args[0], T.eq(mt, T.mul(a.args[1], rt))))
                                emit(T.implies(T.not_(a.args[0]), T.eq(mt, T.mul(a.args[2], rt))))
                            break
                        if a.op == "sqrt" and m.count(a) >= 2:
                            r2 = list(rest)
                            r2.remove(a)
                            rt2 = T.frompoly({tuple(r2): Fraction(1)}, "R")
                            emit(T.implies(T.le(zero, a.args[0]), T.eq(mt, T.mul(a.args[0], rt2))))
                        if a.op == "inv":
                            p = a.args[0]
                            for mm in T.pdict(p):
                                r2 = list(rest)
                                ok = True
                                for z in mm:
                                    if z in r2:
                                        r2.remove(z)
                                    else:
                                        ok = False
                                        break
                                if ok and r2:
                                    q = T.frompoly({tuple(r2): Fraction(1)}, "R")
                                    emit(T.implies(T.not_(T.eq(p, zero)),
                                                   T.eq(T.mul(T.mul(p, a), q), q)))
                                    break
        for k, (pat, fn) in enumerate(foralls):
            if pat[0] == "app":
                insts = []
                for nm in (pat[1] if isinstance(pat[1], (tuple, list)) else (pat[1],)):
                    insts += [t.args[1:] for t in apps_seen.get(nm, ())]
            elif pat[0] == "prefix":
                n = pat[2]
                insts = [t.args[1:1 + n] for t in apps_seen.get(pat[1], ())]
                insts += [ix for ix in index_terms if len(ix) == n]
            elif pat[0] == "shape":
                insts = []
                for nm in pat[1]():
                    insts += [t.args[1:] for t in apps_seen.get(nm, ())]
                insts += [ix for ix in index_terms if len(ix) == pat[2]]
            else:
                raise AssertionError(pat)
            for ix in insts:
                key = (k, tuple(a.id for a in ix))
                if key in forall_done:
                    continue
                forall_done.add(key)
                emit(fn(*ix))
        if not new or len(out) > cap:
            break
        work = new
    return out


class Result:
    def __init__(self, status, by, model=None, note=""):
        self.status, self.by, self.model, self.note = status, by, model, note


def _check(s, ms):
    s.set("timeout", int(ms))
    t0 = time.time()
    # z3 does not always honour its own limit
    dog = threading.Timer(ms / 1000.0 * 1.2 + 1, lambda: z3.main_ctx().interrupt())
    dog.daemon = True
    dog.start()
    try:
        r = s.check()
    except z3.Z3Exception as e:  # treat as unknown
        r = z3.unknown
    finally:
        dog.cancel()
    STATS["queries"] += 1
    STATS["time"] += time.time() - t0
    return r


def walk_shallow(ts, seen):
    """subterms that are not below a non-arithmetic atom"""
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        yield t
        if t.sort == "B" or t.op == "poly":
            stack.extend(T.children(t))


def mul_heavy(roots):
    for t in T.walk(roots, set()):
        if t.op == "poly" and any(len(m) > 2 for _, m in t.args):
            return True
    return False


class Prover:
    def __init__(self):
        self.cl = Conv("lin")
        self.ce = Conv("exact")
        self.cache = {}

    def refute(self, assumptions, foralls, index_terms, goal, level=3, want_model=False, fids=()):
        """is (assumptions and not goal) unsatisfiable?"""
        ng = T.not_(goal)
        if ng.op == "bc" and not ng.args[0]:
            return Result("proved", "simplifier")
        aid = frozenset(a.id for a in assumptions)
        if goal.id in aid:
            return Result("proved", "simplifier")
        key = (aid, goal.id, fids, tuple(tuple(a.id for a in ix) for ix in index_terms))
        c = self.cache.get(key)
        if c is not None and (c.status == "proved" or c.level >= level) and not want_model:
            return c
        r = self._refute(assumptions, foralls, index_terms, ng, level, want_model)
        r.level = level
        self.cache[key] = r
        return r

    def _refute(self, assumptions, foralls, index_terms, ng, level, want_model):
        roots = list(assumptions) + [ng]
        light = [f for f in foralls if not getattr(f[1], "heavy", False)]
        if len(light) < len(foralls):
            r = self._refute(assumptions, light, index_terms, ng, 0, False)
            if r.status == "proved" or level == 0:
                return r
        if level > 0 and mul_heavy(roots):
            # stage 0: facts as they are, lemmas only for the terms of the goal
            for sh in (True, False):
                ext = lemmas([ng], foralls, index_terms, rounds=1 if sh else 2, shallow=sh)
                zs = [self.cl.conv(f) for f in roots + ext]
                self.cl.muls = _collect_muls(zs, self.cl)
                s = z3.Solver()
                s.add(zs)
                s.add(self.cl.mul_lemmas())
                if _check(s, 1000 if sh else 3000) == z3.unsat:
                    return Result("proved", "z3-linear")
        ext = lemmas(roots, foralls, index_terms)
        forms = roots + ext
        # stage 1: linear abstraction
        self.cl.muls = {}
        zs = [self.cl.conv(f) for f in forms]
        # collect muls for all conv'd forms (memoised conversions skip), so
        # recompute from the z3 terms
        muls = _collect_muls(zs, self.cl)
        self.cl.muls = muls
        s = z3.SolverFor("QF_UFLIRA") if False else z3.Solver()
        s.add(zs)
        s.add(self.cl.mul_lemmas())
        r = _check(s, TIMEOUTS["lin"] if level > 0 else 1500)
        if r == z3.unsat:
            return Result("proved", "z3-linear")
        if level == 0:
            return Result("unknown" if r == z3.unknown else "sat?", "z3-linear")
        nonlinear = bool(muls)
        if not nonlinear and r == z3.sat:
            return Result("refuted", "z3-linear", s.model() if want_model else True)
        # stage 2: exact
        ze = [self.ce.conv(f) for f in forms]
        s2 = z3.Solver()
        s2.add(ze)
        r2 = _check(s2, TIMEOUTS["nra"])
        if r2 == z3.unsat:
            return Result("proved", "z3-nra")
        if r2 == z3.sat:
            return Result("refuted", "z3-nra", s2.model() if want_model else True)
        if level >= 2:
            cp = Conv("pure")
            zp = [cp.conv(f) for f in forms]
            t = z3.Then("simplify", "solve-eqs", "elim-term-ite", "simplify", "qfnra-nlsat") if False else z3.Tactic("qfnra-nlsat")
            try:
                s3 = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "tseitin-cnf", "qfnra-nlsat").solver()
                s3.add(zp)
                r3 = _check(s3, TIMEOUTS["nlsat"])
                if r3 == z3.unsat:
                    return Result("proved", "z3-nlsat")
            except z3.Z3Exception:
                pass
        if level >= 3:
            r4 = _cvc5(ze)
            if r4 == "unsat":
                return Result("proved", "cvc5")
            if r4 == "sat":
                return Result("refuted", "cvc5", True)
        return Result("unknown", "all")


def _collect_muls(zs, conv):
    out = {}
    seen = set()
    stack = list(zs)
    mr, mi = conv.mulR, conv.mulI
    while stack:
        z = stack.pop()
        i = z.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(z):
            d = z.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in ("mulR", "mulI") and z.num_args() == 2:
                out[i] = (z.arg(0), z.arg(1), z)
            stack.extend(z.children())
    return out


def _cvc5(ze):
    s = z3.Solver()
    s.add(ze)
    smt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = time.time()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--tlimit=%d" % (TIMEOUTS["cvc5"] * 1000), name],
                           capture_output=True, text=True, timeout=TIMEOUTS["cvc5"] + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except Exception:
        return "unknown"
    finally:
        os.unlink(name)
        STATS["queries"] += 1
        STATS["time"] += time.time() - t0


def zval(v):
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(12).as_fraction())
    return None


def evalmodel(model, conv, t):
    return zval(model.eval(conv.conv(t), model_completion=True))


def evalapps(model, conv, name):
    """explicit entries of an uninterpreted array in the model"""
    out = []
    for d in model.decls():
        if d.name() == name and d.arity() > 0:
            fi = model[d]
            for k in range(fi.num_entries()):
                e = fi.entry(k)
                ix = [zval(e.arg_value(a)) for a in range(d.arity())]
                out.append([ix, zval(e.value())])
    return out
