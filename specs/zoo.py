"""Zoo: dynamics, constraint formulas, constructor wiring, backup laws, state wrappers."""
import numpy as np
import jax.numpy as jnp
import scipy
from collections import OrderedDict
from functools import partial
from spec_common import *
import safe_autonomy_simulation.dynamics as dynamics
import safe_autonomy_simulation.sims.spacecraft.defaults as defaults
from safe_autonomy_simulation.entities.integrator import M_DEFAULT as IM_DEFAULT
from run_time_assurance.constraint import PolynomialConstraintStrengthener
from run_time_assurance.zoo.cwh import docking_2d as d2
from run_time_assurance.zoo.cwh import docking_3d as d3
from run_time_assurance.zoo.cwh import inspection_1v1 as i1
from run_time_assurance.zoo.cwh import inspection_3d as i3
from run_time_assurance.zoo.cwh.utils import generate_cwh_matrices
from run_time_assurance.zoo.integrators import integrator_1d as n1


# ------------------------------------------------------------------ Clohessy-Wiltshire dynamics
def drift2(x, n):
    """in-plane relative orbital motion without thrust"""
    return jnp.array([x[2], x[3], 3 * n ** 2 * x[0] + 2 * n * x[3], -2 * n * x[2]])


def drift3(x, n):
    return jnp.array([x[3], x[4], x[5], 3 * n ** 2 * x[0] + 2 * n * x[4], -2 * n * x[3], -(n ** 2) * x[2]])


def A2(n):
    return np.array([[0, 0, 1, 0], [0, 0, 0, 1], [3 * n ** 2, 0, 0, 2 * n], [0, 0, -2 * n, 0]])


def B2(m):
    return np.array([[0, 0], [0, 0], [1 / m, 0], [0, 1 / m]])


def A3(n):
    return np.array([[0, 0, 0, 1, 0, 0], [0, 0, 0, 0, 1, 0], [0, 0, 0, 0, 0, 1], [3 * n ** 2, 0, 0, 0, 2 * n, 0], [0, 0, 0, -2 * n, 0, 0], [0, 0, -n ** 2, 0, 0, 0]])


def B3(m):
    return np.array([[0, 0, 0], [0, 0, 0], [0, 0, 0], [1 / m, 0, 0], [0, 1 / m, 0], [0, 0, 1 / m]])


def cwh_matrices(mode):
    m, n = POS("m"), POS("n")
    A, B = generate_cwh_matrices(m, n, mode)
    if mode == "2d":
        x, u = ARR("x", 4), ARR("u", 2)
        CHECK_EQ("in-plane drift", A @ x, drift2(x, n))
        CHECK_EQ("in-plane thrust", B @ u, np.array([0, 0, u[0] / m, u[1] / m]))
    else:
        x, u = ARR("x", 6), ARR("u", 3)
        CHECK_EQ("drift", A @ x, drift3(x, n))
        CHECK_EQ("thrust", B @ u, np.array([0, 0, 0, u[0] / m, u[1] / m, u[2] / m]))


def cwh_default_mode():
    A, B = generate_cwh_matrices(POS("m"), POS("n"))
    CHECK_EQ("default is in-plane", A @ ARR("x", 4), drift2(VEC("x", 4), POS("n")))


def cwh_bad_mode():
    raised = False
    try:
        generate_cwh_matrices(POS("m"), POS("n"), "4d")
    except AssertionError:
        raised = True
    CHECK("unknown mode is rejected", raised)


# ------------------------------------------------------------------ formulas
def nd(v, delta):
    s = delta
    for i in range(len(v)):
        s = s + v[i] ** 2
    return s ** 0.5


def norm(v):
    s = 0
    for i in range(len(v)):
        s = s + v[i] ** 2
    return s ** 0.5


def dot(a, b):
    s = 0
    for i in range(len(a)):
        s = s + a[i] * b[i]
    return s


def rel_vel(x, k, v0, v1, v0d, delta=1e-5):
    return v0 + v1 * (nd(x[0:k], delta) - v0d) - nd(x[k:2 * k], delta)


def braking(dist, a, rate):
    """signed square-root braking distance plus closing rate"""
    if dist >= 0:
        return (a * dist) ** 0.5 + rate
    return -((-a * dist) ** 0.5) + rate


def collision(x, R, a):
    p, v = x[0:3], x[3:6]
    return braking(norm(p) - R, 2 * a, dot(p, v) / norm(p))


def deputy_collision(x, i, R, a):
    p, v = x[0:3] - x[6 * i:6 * i + 3], x[3:6] - x[6 * i + 3:6 * i + 6]
    return braking(norm(p) - R, 4 * a, dot(p, v) / norm(p))


def max_distance(x, R, a):
    p, v = x[0:3], x[3:6]
    return braking(R - norm(p), 2 * a, -dot(p, v) / norm(p))


def cone(p, v, c, w, fov, a):
    th = fov / 2
    k = c / norm(c)
    par = dot(p, k)
    perp = p - par * k
    mult = jnp.cos(th) * (norm(perp) - jnp.tan(th) * par)
    proj = p + mult * jnp.sin(th) * k - mult * jnp.cos(th) * perp / norm(perp)
    vp = jnp.array([w[1] * proj[2] - w[2] * proj[1], w[2] * proj[0] - w[0] * proj[2], w[0] * proj[1] - w[1] * proj[0]])
    dist = norm(p) * jnp.sin(jnp.arccos(par / norm(p)) - th)
    return braking(dist, 2 * a, dot(p - proj, v - vp) / dist)


def cone_phi(p, c, fov):
    return jnp.arccos(dot(p, c) / (norm(p) * norm(c))) - fov / 2


def coast(x, n, t):
    """closed-form relative position after coasting for time t"""
    c, s = jnp.cos(n * t), jnp.sin(n * t)
    return jnp.array([(4 - 3 * c) * x[0] + s / n * x[3] + 2 * (1 - c) / n * x[4],
                      6 * (s - n * t) * x[0] + x[1] - 2 * (1 - c) / n * x[3] + (4 * s - 3 * n * t) / n * x[4],
                      c * x[2] + s / n * x[5]])


def psm(x, n, R, dt, steps):
    r = None
    for k in range(1, steps + 1):
        d = norm(coast(x, n, k * dt)) - R
        r = d if r is None else min(r, d)
    return r


def psm_deputy(x, i, n, R, dt, steps):
    y = x[0:6] - x[6 * i:6 * i + 6]
    return psm(y, n, R, dt, steps)


def poly(co, v):
    s = 0
    for k in range(len(co)):
        s = s + co[k] * v ** k
    return s


def constraint_is(label, c, x, value, phi, alpha, bias):
    CHECK_EQ(label + ": enforced value", c(x, c.params), value + bias)
    CHECK_EQ(label + ": reported value", c.phi(x, c.params), phi)
    v = SYM("v")
    CHECK_EQ(label + ": strengthening", c.alpha(v), poly(alpha, v))
    CHECK_EQ(label + ": negative strengthening", c.alpha_negative(v), 10 * poly(alpha, v))
    CHECK(label + ": enabled", c.enabled)
    CHECK(label + ": no slack", c.slack_priority_scale is None)


# ---- constraint classes on their own
def con_rel_vel(dim, jit):
    v0, v1, vd = SYM("v0"), SYM("v1"), SYM("vd")
    if dim == 2:
        c, k, al = d2.ConstraintDocking2dRelativeVelocity(v0, v1, vd, jit_enable=jit, bias=SYM("b")), 2, [0, 0.01, 0, 0.1]
    else:
        c, k, al = d3.ConstraintCWH3dRelativeVelocity(v0, v1, vd, jit_enable=jit, bias=SYM("b")), 3, [0, 0.05, 0, 0.005]
    x = VEC("x", 2 * k)
    f = rel_vel(x, k, v0, v1, vd)
    constraint_is("relative velocity", c, x, f, f, al, SYM("b"))
    c.params["v0"] = SYM("n0")
    c.params["v1"] = SYM("n1")
    c.params["v0_distance"] = SYM("nd")
    f = rel_vel(x, k, SYM("n0"), SYM("n1"), SYM("nd"))
    CHECK_EQ("relative velocity with changed parameters", c.phi(x, c.params), f)
    cls = d2.ConstraintDocking2dRelativeVelocity if dim == 2 else d3.ConstraintCWH3dRelativeVelocity
    c = cls(v0, v1, delta=SYM("dd"), alpha=Alpha("a"))
    CHECK_EQ("own delta, zero distance offset", c.phi(x, c.params), rel_vel(x, k, v0, v1, 0, SYM("dd")))
    CHECK_EQ("own strengthening", c.alpha(SYM("v")), UF("a", SYM("v")))


def con_collision(which, jit):
    R, a = POS("R"), POS("amax")
    al = [0, 0.01, 0, 0.001]
    if which == "chief":
        x = VEC("x", 8)
        c = i1.ConstraintCWHChiefCollision(R, a, jit_enable=jit, bias=SYM("b"))
        constraint_is("chief collision", c, x, collision(x, R, a), norm(x[0:3]) - R, al, SYM("b"))
    elif which[0:6] == "deputy":
        i = int(which[6:])
        x = VEC("x", 6 * i + 7)
        c = i3.ConstraintCWHDeputyCollision(R, a, i, jit_enable=jit, bias=SYM("b"))
        constraint_is("deputy collision", c, x, deputy_collision(x, i, R, a), norm(x[0:3] - x[6 * i:6 * i + 3]) - R, al, SYM("b"))
    elif which == "rmax":
        x = VEC("x", 8)
        c = i1.ConstraintCWHMaxDistance(R, a, jit_enable=jit, bias=SYM("b"))
        constraint_is("maximum distance", c, x, max_distance(x, R, a), R - norm(x[0:3]), al, SYM("b"))
    else:
        x = VEC("x", 8)
        c = i1.HOCBFExampleChiefCollision(R, jit_enable=jit, bias=SYM("b"))
        constraint_is("distance", c, x, norm(x[0:3]) - R, norm(x[0:3]) - R, [0, 0.01, 0, 0.01], SYM("b"))


def con_cone(jit):
    a, fov, w = POS("amax"), SYM("fov"), VEC("w", 3)
    x = VEC("x", 6)
    c = i1.ConstraintCWHConicKeepOutZone(a, fov, lambda s: s[0:3], lambda s: s[3:6], lambda s: UFVEC("cone", 3, s), w, jit_enable=jit, bias=SYM("b"))
    k = UFVEC("cone", 3, x)
    constraint_is("conic keep out zone", c, x, cone(x[0:3], x[3:6], k, w, fov, a), cone_phi(x[0:3], k, fov), [0, 0.001, 0, 0.0001], SYM("b"))


def con_psm(which, jit, steps):
    R, n, dt, m = POS("R"), POS("n"), POS("tau"), POS("m")
    al = [0, 0.01, 0, 0.001]
    if which == 0:
        x = VEC("x", 8)
        c = i1.ConstraintPassivelySafeManeuver(R, m, n, dt, steps, jit_enable=jit, bias=SYM("b"))
        f = psm(x, n, R, dt, steps)
        constraint_is("passively safe maneuver", c, x, f, f, al, SYM("b"))
        CHECK_EQ("whole coasting profile", c.get_array(x, c.params), jnp.array([norm(coast(x, n, k * dt)) - R for k in range(steps + 1)]))
    else:
        x = VEC("x", 6 * which + 7)
        c = i3.ConstraintPSMDeputy(R, m, n, dt, steps, which, jit_enable=jit, bias=SYM("b"))
        f = psm_deputy(x, which, n, R, dt, steps)
        constraint_is("deputy passively safe maneuver", c, x, f, f, al, SYM("b"))
        y = x[0:6] - x[6 * which:6 * which + 6]
        CHECK_EQ("whole coasting profile", c.get_array(x, c.params), jnp.array([norm(coast(y, n, k * dt)) - R for k in range(steps + 1)]))


def con_integrator(which, jit):
    x = VEC("x", 2)
    if which == "explicit":
        c = n1.ConstraintIntegrator1dDockingCollisionExplicit(jit_enable=jit, bias=SYM("b"))
        f = -2 * x[0] - x[1] ** 2
        constraint_is("docking collision", c, x, f, f, [0, 1, 0, 30], SYM("b"))
    else:
        c = n1.ConstraintIntegrator1dDockingCollisionImplicit(jit_enable=jit, bias=SYM("b"))
        constraint_is("docking collision", c, x, -x[0], -x[0], [0, 10, 0, 30], SYM("b"))


def con_own_alpha(which):
    """an explicitly given strengthening function is the one used"""
    a = Alpha("a")
    if which == 0:
        c = i1.ConstraintCWHChiefCollision(POS("R"), POS("amax"), alpha=a)
    elif which == 1:
        c = i1.ConstraintCWHConicKeepOutZone(POS("amax"), SYM("fov"), None, None, None, None, alpha=a)
    elif which == 2:
        c = i1.ConstraintPassivelySafeManeuver(POS("R"), POS("m"), POS("n"), 1, 3, alpha=a)
    elif which == 3:
        c = i1.ConstraintCWHMaxDistance(POS("R"), POS("amax"), alpha=a)
    elif which == 4:
        c = i1.HOCBFExampleChiefCollision(POS("R"), alpha=a)
    elif which == 5:
        c = i3.ConstraintCWHDeputyCollision(POS("R"), POS("amax"), 1, alpha=a)
    elif which == 6:
        c = i3.ConstraintPSMDeputy(POS("R"), POS("m"), POS("n"), 1, 3, 1, alpha=a)
    elif which == 7:
        c = n1.ConstraintIntegrator1dDockingCollisionExplicit(alpha=a)
    else:
        c = n1.ConstraintIntegrator1dDockingCollisionImplicit(alpha=a)
    CHECK_EQ("own strengthening used", c.alpha(SYM("v")), UF("a", SYM("v")))


def con_params(which):
    """the parameters given at evaluation time are the ones used"""
    x = VEC("x", 19)
    R, a = POS("R2"), POS("a2")
    if which == 0:
        c = i1.ConstraintCWHChiefCollision(POS("R"), POS("amax"))
        CHECK_EQ("value", c(x, {"collision_radius": R, "a_max": a}), collision(x, R, a))
        CHECK_EQ("reported", c.phi(x, {"collision_radius": R, "a_max": a}), norm(x[0:3]) - R)
    elif which == 1:
        c = i1.ConstraintCWHMaxDistance(POS("R"), POS("amax"))
        CHECK_EQ("value", c(x, {"r_max": R, "a_max": a}), max_distance(x, R, a))
        CHECK_EQ("reported", c.phi(x, {"r_max": R, "a_max": a}), R - norm(x[0:3]))
    elif which == 2:
        c = i3.ConstraintCWHDeputyCollision(POS("R"), POS("amax"), 2)
        CHECK_EQ("value", c(x, {"collision_radius": R, "a_max": a}), deputy_collision(x, 2, R, a))
        CHECK_EQ("reported", c.phi(x, {"collision_radius": R, "a_max": a}), norm(x[0:3] - x[12:15]) - R)
    elif which == 3:
        c = i1.ConstraintPassivelySafeManeuver(POS("R"), POS("m"), POS("n"), POS("tau"), 2)
        CHECK_EQ("value", c(x, {"collision_radius": R, "dt": a}), psm(x, POS("n"), R, a, 2))
    elif which == 4:
        c = i3.ConstraintPSMDeputy(POS("R"), POS("m"), POS("n"), POS("tau"), 2, 1)
        CHECK_EQ("value", c(x, {"collision_radius": R, "dt": a}), psm_deputy(x, 1, POS("n"), R, a, 2))
    else:
        fov = SYM("fov2")
        c = i1.ConstraintCWHConicKeepOutZone(POS("amax"), SYM("fov"), lambda s: s[0:3], lambda s: s[3:6], lambda s: UFVEC("cone", 3, s), VEC("w", 3))
        CHECK_EQ("value", c(x, {"fov": fov, "a_max": a}), cone(x[0:3], x[3:6], UFVEC("cone", 3, x), VEC("w", 3), fov, a))
        CHECK_EQ("reported", c.phi(x, {"fov": fov, "a_max": a}), cone_phi(x[0:3], UFVEC("cone", 3, x), fov))


# ------------------------------------------------------------------ state wrappers
def wrapper(which, extra):
    """each name reads and writes its own component and no other"""
    if which == "docking2d":
        cls, names, n = d2.Docking2dState, ["x", "y", "x_dot", "y_dot"], 4
    elif which == "docking3d":
        cls, names, n = d3.Docking3dState, ["x", "y", "z", "x_dot", "y_dot", "z_dot"], 6
    elif which == "inspection":
        cls, names, n = i1.Inspection3dState, ["x", "y", "z", "x_dot", "y_dot", "z_dot", "sun_angle", "delta_v"], 8
    else:
        cls, names, n = n1.Integrator1dDockingState, ["x", "x_dot"], 2
    n = n + extra
    s = cls(VEC("s", n))
    CHECK_EQ("length", len(s), n)
    CHECK_EQ("size", s.size, n)
    CHECK_EQ("vector", s.vector, VEC("s", n))
    for i in range(n - extra):
        CHECK_EQ("component " + names[i], getattr(s, names[i]), VEC("s", n)[i])
    for i in range(n - extra):
        t = cls(VEC("s", n))
        setattr(t, names[i], SYM("new"))
        want = [SYM("new") if j == i else VEC("s", n)[j] for j in range(n)]
        for j in range(n - extra):
            CHECK_EQ("writing " + names[i] + " then reading " + names[j], getattr(t, names[j]), want[j])
        CHECK_EQ("vector after writing " + names[i], t.vector, jnp.array(want))
    a = ARR("s", n)
    t = cls(a)
    setattr(t, names[0], SYM("new"))
    CHECK_EQ("array given by the caller unchanged", a, VEC("s", n))
