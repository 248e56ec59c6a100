"""C06 velocity field, C07 water depth, C08 discharge."""
from .common import *


@goal("C06", "velocity_field", n=300)
def velocity(c):
    L, W = dims(c)
    m = model(c, L, W)
    depth = c.arr("depth", (L, W), lo=0, pts=[0, 0.1, 0.05])
    qw = c.arr("qw", (L, W), lo=0, pts=[0])
    qx = c.arr("qx", (L, W), pts=[0])
    qy = c.arr("qy", (L, W), pts=[0])
    c.set(m, depth=depth, qw=qw, qx=qx, qy=qy,
          uw=c.arr("uw0", (L, W)), ux=c.arr("ux0", (L, W)), uy=c.arr("uy0", (L, W)))
    d0, w0, x0, y0 = [c.snap(a) for a in (depth, qw, qx, qy)]
    c.call(m.update_velocity_field)

    def post(i, j):
        d, q = d0(i, j), w0(i, j)
        flow = c.And(d > m.dry_depth, q > 0)
        uw, ux, uy = c.at(m.uw, i, j), c.at(m.ux, i, j), c.at(m.uy, i, j)
        return {
            "speed": c.Implies(flow, lambda: c.eq(uw, c.min(m.u_max, q / d))),
            "cap": c.And(c.le(0, uw), c.le(uw, m.u_max)),
            "dry-is-still": c.Implies(c.Not(flow), c.And(c.eq(uw, 0), c.eq(ux, 0), c.eq(uy, 0))),
            "direction-x": c.Implies(flow, lambda: c.eq(ux * q, uw * x0(i, j))),
            "direction-y": c.Implies(flow, lambda: c.eq(uy * q, uw * y0(i, j))),
            "frame": c.And(c.eq(c.at(m.depth, i, j), d), c.eq(c.at(m.qw, i, j), q),
                           c.eq(c.at(m.qx, i, j), x0(i, j)), c.eq(c.at(m.qy, i, j), y0(i, j))),
        }

    c.forall("velocity", (L, W), post)


@goal("C07", "depth_and_stage", n=300)
def depth_stage(c):
    L, W = dims(c)
    m = model(c, L, W)
    eta = c.arr("eta", (L, W), pts=[0])
    stage = c.arr("stage", (L, W), pts=[0, -1])
    c.set(m, eta=eta, stage=stage, depth=c.arr("depth", (L, W)))
    it, log = c.int("iteration", 0, None, hint=(0, 2)), []

    def flow(self, i):
        c.prove("discharge-updated-for-this-iteration", c.eq(i, it))
        log.append("flow")
    c.stub("update_flow_field", flow)
    c.stub("update_velocity_field", lambda self: log.append("velocity"))
    e0, s0 = c.snap(eta), c.snap(stage)
    c.call(m.finalize_water_iteration, it)
    c.prove("discharge-then-velocity-updated-once", log == ["flow", "velocity"])

    def post(i, j):
        s, d = c.at(m.stage, i, j), c.at(m.depth, i, j)
        return {
            "stage": c.eq(s, c.max(s0(i, j), m._H_SL)),
            "depth": c.eq(d, c.max(s - e0(i, j), 0)),
            "bed-unchanged": c.eq(c.at(m.eta, i, j), e0(i, j)),
        }

    c.forall("water", (L, W), post)


@goal("C06", "velocity_after_water_iteration", n=200, budget=100)
def velocity_after(c):
    """at the end of a water iteration the velocity is that of the new depth and the new discharge"""
    L, W = dims(c)
    m = model(c, L, W)
    new = {n: c.arr("new_" + n, (L, W), pts=[0], **({"lo": 0} if n == "qw" else {})) for n in ("qw", "qx", "qy")}
    c.set(m, depth=c.arr("depth", (L, W), lo=0, pts=[0]), eta=c.arr("eta", (L, W), pts=[0, -1]), stage=c.arr("stage", (L, W), pts=[0, 1]),
          uw=c.arr("uw0", (L, W)), ux=c.arr("ux0", (L, W)), uy=c.arr("uy0", (L, W)),
          qw=c.arr("qw", (L, W), lo=0), qx=c.arr("qx", (L, W)), qy=c.arr("qy", (L, W)))
    q = {n: c.snap(a) for n, a in new.items()}
    c.stub("update_flow_field", lambda self, it: c.set(self, **new))
    c.call(m.finalize_water_iteration, c.int("iteration", 0, None, hint=(0, 2)))

    def post(i, j):
        d, w = c.max(c.at(m.stage, i, j) - c.at(m.eta, i, j), 0), q["qw"](i, j)
        flow = c.And(d > m.dry_depth, w > 0)
        uw, ux, uy = c.at(m.uw, i, j), c.at(m.ux, i, j), c.at(m.uy, i, j)
        return {
            "speed": c.Implies(flow, lambda: c.eq(uw, c.min(m.u_max, w / d))),
            "dry-is-still": c.Implies(c.Not(flow), c.And(c.eq(uw, 0), c.eq(ux, 0), c.eq(uy, 0))),
            "direction": c.Implies(flow, lambda: c.And(c.eq(ux * w, uw * q["qx"](i, j)), c.eq(uy * w, uw * q["qy"](i, j))))}
    c.forall("velocity", (L, W), post)
