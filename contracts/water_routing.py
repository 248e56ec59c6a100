"""C01 water routing probabilities."""
from .common import *


def raw_water(c, row, sfc, intw, depth, mod, ct, dry, gamma, theta):
    """specification: (allowed, wet, raw weight) of the nine directions"""
    allowed, wet, base = [], [], []
    top = c.case(row == 0)
    for k in range(9):
        al = c.And(ct[k] != -2, k != 4, not (top and k < 3))
        allowed.append(al)
        wet.append(c.le0(dry, depth[k]))
        base.append(c.And(ct[k] != -2, wet[k], k != 4))
    s = [c.ite(base[k], sfc[k], 0) for k in range(9)]
    q = [c.ite(base[k], intw[k], 0) for k in range(9)]
    for x in s + q:
        c.lemma("spec", c.le(0, x))
    for k in range(9):
        c.lemma("spec", c.le(0, c.pow(depth[k] * mod[k], theta)))
    ss, qs = c.sum(s), c.sum(q)
    if c.case(ss > 0):
        s = [x / ss for x in s]
    if c.case(qs > 0):
        q = [x / qs for x in q]
    raw = [c.ite(allowed[k], c.pow(depth[k] * mod[k], theta) * (gamma * s[k] + (1 - gamma) * q[k]), 0) for k in range(9)]
    return allowed, wet, raw


def check_water(c, w, allowed, wet, raw):
    t = c.sum(raw)
    anyallowed = c.Or(*allowed)
    c.assume(anyallowed)
    c.prove("never-negative", c.And(*[c.le(0, x) for x in w]))
    c.prove("sum-is-one", c.eq(c.sum(w), 1))
    c.prove("not-staying", c.eq(w[4], 0))
    c.prove("not-land-not-offgrid", c.And(*[c.Implies(c.Not(allowed[k]), c.eq(w[k], 0)) for k in range(9)]))
    wa = [c.And(wet[k], allowed[k]) for k in range(9)]
    anywet = c.Or(*wa)
    c.prove("dry-avoided", c.Implies(anywet, c.And(*[c.Implies(c.Not(wet[k]), c.eq(w[k], 0)) for k in range(9)])))
    c.prove("proportional", c.And(*[c.Implies(t > 0, lambda k=k: c.eq(w[k], raw[k] / t)) for k in range(9)]))
    n1 = c.sum([c.num(x) for x in wa])
    n2 = c.sum([c.num(x) for x in allowed])
    c.prove("fallback-wet", c.Implies(c.And(c.Not(t > 0), anywet), lambda: c.And(
        *[c.eq(w[k], c.num(wa[k]) / n1) for k in range(9)])))
    c.prove("fallback-dry", c.Implies(c.And(c.Not(t > 0), c.Not(anywet)), lambda: c.And(
        *[c.eq(w[k], c.num(allowed[k]) / n2) for k in range(9)])))


def _cell(c, top):
    i = 0 if top else c.int("row", 1, None, hint=(1, 3))
    j = c.int("col", 0, None, hint=(0, 3))
    f = c.fn("water_tools", "_get_weight_at_cell_water")
    sfc = c.arr("sfc", (9,), lo=0, pts=[0])
    intw = c.arr("int", (9,), lo=0, pts=[0])
    depth = c.arr("depth", (9,), lo=0, pts=[0, 0.0625, 0.125])
    mod = c.arr("mod", (9,), lo=0, pts=[1, 1, 0, 0.5])
    ct = c.arr("ct", (9,), "i", vals=CELLS)
    dry = c.real("dry", pos=True, hint=(0.0625, 0.25), pts=[0.125])
    gamma = c.real("gamma", 0, 1, pts=[0, 1, 0.5])
    theta = c.real("theta", pos=True, hint=(0.5, 2), pts=[1])
    c.assume(c.at(ct, 4) != -2)
    args = [c.elems(x) for x in (sfc, intw, depth, mod, ct)]
    spec = raw_water(c, i, *args, dry, gamma, theta)
    for k in range(9):
        c.lemma("specified-weight-%d-nonnegative" % k, c.le(0, spec[2][k]))
    w = c.call(f, (i, j), sfc, intw, depth, mod, ct, dry, gamma, theta)
    check_water(c, c.elems(w), *spec)


@goal("C01", "cell_weights_inlet_row", n=800, budget=300)
def cell_weights0(c):
    _cell(c, True)


@goal("C01", "cell_weights", n=1200, budget=300)
def cell_weights(c):
    _cell(c, False)


def nb_value(c, snap, i, j, k, L, W):
    di, dj = NB[k]
    return snap(clampi(c, i + di, L), clampi(c, j + dj, W))


def spec_cell_args(c, F, i, j, L, W):
    """arguments of the nine directions at cell (i, j): downhill surface slope,
    discharge alignment, depth, modifier, cell type of the edge-padded neighbours"""
    sfc, al, dep, mod, ct = [], [], [], [], []
    for k in range(9):
        di, dj = NB[k]
        d = dist(c, k)
        sfc.append(c.max(0, (F["stage"](i, j) - nb_value(c, F["stage"], i, j, k, L, W)) / d))
        al.append(c.max(0, (F["qx"](i, j) * (di / d) + F["qy"](i, j) * (dj / d)) / d))
        dep.append(nb_value(c, F["depth"], i, j, k, L, W))
        mod.append(nb_value(c, F["mod_water_weight"], i, j, k, L, W))
        ct.append(nb_value(c, F["cell_type"], i, j, k, L, W))
    return sfc, al, dep, mod, ct


def water_fields(c, m, L, W):
    F = {}
    for n, kw in (("stage", dict(pts=[0, 0.5])), ("depth", dict(lo=0, pts=[0, 0.0625, 1])), ("qx", dict(pts=[0])),
                  ("qy", dict(pts=[0])), ("mod_water_weight", dict(lo=0, pts=[1, 1, 1, 0]))):
        a = c.arr(n, (L, W), **kw)
        c.set(m, **{n: a})
        F[n] = c.snap(a)
    a = c.arr("cell_type", (L, W), "i", vals=CELLS)
    c.set(m, cell_type=a)
    F["cell_type"] = c.snap(a)
    return F


def done(c, env, fn):
    """cells visited so far by a row-major double loop satisfy fn"""
    out = env.written(3)
    L, W, _ = out.shape
    st = env.stack
    i = st[0]
    j = st[1] if len(st) > 1 else 0
    return [c.FA((L, W), lambda a, b, k=k: c.Implies(c.Or(a < i, c.And(a == i, b < j)), fn(out, a, b, k)), on=out)
            for k in range(9)]


def _inv_weights(c, env):
    s = c.spec
    return done(c, env, lambda out, a, b, k: c.eq(c.at(out, a, b, k), s(a, b, k)))


@goal("C01", "weight_array", n=60, budget=200, loops={"_get_water_weight_array": [
    Loop(1, "rows", _inv_weights), Loop(2, "cells", _inv_weights)]})
def weight_array(c):
    """every cell of the weight array is the contract of the cell function applied to
    the neighbourhood values of that cell"""
    L, W = dims(c)
    m = model(c, L, W)
    c.call(m.set_constants)
    F = water_fields(c, m, L, W)
    gamma = c.real("gamma", 0, 1, pts=[0, 1, 0.5])
    c.set(m, gamma=gamma, water_weights=c.zeros((L, W, 9)))
    if c.sym:
        pad_contract(c)
        names = ("surface-slope", "discharge-alignment", "depth", "modifier", "cell-type")

        def cell(ind, sfc, al, dep, mod, ct, dry, g, th):
            i, j = ind
            c.prove("cell.on-grid", c.And(0 <= i, i < L, 0 <= j, j < W))
            for n, got, want in zip(names, (sfc, al, dep, mod, ct), spec_cell_args(c, F, i, j, L, W)):
                got = c.elems(got)
                c.prove("cell." + n, c.And(len(got) == 9, *[c.eq(x, y) for x, y in zip(got, want)]))
            c.prove("cell.parameters", c.And(c.eq(dry, m.dry_depth), c.eq(g, gamma), c.eq(th, m._theta_water)))
            return c.mk((9,), lambda k: c.spec(i, j, k))

        c.contract("_get_weight_at_cell_water", cell)
        c.spec = lambda i, j, k: c.uf("water_cell", [i, j, k])
        c.call(m.get_water_weight_array)
        c.forall("weights-of-cell", (L, W), lambda i, j: c.And(
            *[c.eq(c.at(m.water_weights, i, j, k), c.spec(i, j, k)) for k in range(9)]))
        return
    c.call(m.get_water_weight_array)
    for i in range(L):
        for j in range(W):
            if F["cell_type"](i, j) == -2:
                continue
            args = spec_cell_args(c, F, i, j, L, W)
            spec = raw_water(c, i, *args, m.dry_depth, gamma, m._theta_water)
            if not any(spec[0]):
                continue
            check_water(c, [c.at(m.water_weights, i, j, k) for k in range(9)], *spec)
