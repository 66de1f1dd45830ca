"""Discrete-time active set filter."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from jax import jacrev
from jax.experimental.ode import odeint
from scipy.optimize import minimize
from spec_common import *
from spec_kinds import DA
from run_time_assurance.rta.asif import DiscreteASIFIntegratorModule
from run_time_assurance.utils import SolverError


def hb(name, x, bias):
    return UF("h_" + name, x[0], x[1], SYM("p_" + name)) + bias


def ref_fun(name, bias, slack):
    def fun(v, x, dt):
        y = step_uf(x, dt, v[0:2])
        r = (hb(name, y, bias) - hb(name, x, bias)) / dt + UF("alpha_" + name, hb(name, x, bias))
        return r if slack is None else r - v[2 + slack]
    return fun


def ref_solve(x, u, dt, lo, hi, cons, ws):
    x0 = np.array([u[0], u[1]] + [0.0] * len(ws))

    def obj(v):
        r = 0.5 * (v[0] - u[0]) ** 2 + 0.5 * (v[1] - u[1]) ** 2
        for i in range(len(ws)):
            r = r + 0.5 * ws[i] * v[2 + i] ** 2
        return r
    bl = [(-np.inf if lo is None else lo[i] if hasattr(lo, "shape") else lo, np.inf if hi is None else hi[i] if hasattr(hi, "shape") else hi) for i in range(2)]
    bl = bl + [(-np.inf, np.inf)] * len(ws)
    cl = []
    for fun, en in cons:
        if en:
            cl.append({"type": "ineq", "fun": fun, "jac": jacrev(fun), "args": (x, dt)})
    return minimize(obj, x0, method="SLSQP", bounds=bl, constraints=cl)


def build(bnd, slack, jit, **kw):
    lo, hi = bounds(bnd)
    w1, w2 = POS("w1"), POS("w2")
    e1, e2 = BOOLSYM("en1"), BOOLSYM("en2")
    s1, s2, ws = None, None, []
    if slack == "first":
        s1, ws = 0, [w1]
    if slack == "second":
        s2, ws = 0, [w2]
    if slack == "both":
        s1, s2, ws = 0, 1, [w1, w2]
    c1 = H("h1", slack_priority_scale=None if s1 is None else w1, bias=SYM("bias1"), enabled=e1)
    c2 = H("h2", slack_priority_scale=None if s2 is None else w2, enabled=e2)
    m = DA([c1, c2], control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, **kw)
    cons = [(ref_fun("h1", SYM("bias1"), s1), e1), (ref_fun("h2", 0.0, s2), e2)]
    return m, cons, ws, lo, hi


def discrete_program(bnd, slack, jit, prior=0):
    """the control is the solution of the documented discrete-time program"""
    m, cons, ws, lo, hi = build(bnd, slack, jit)
    dt = POS("dt")
    warm(m, prior, dt)
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    res = ref_solve(VEC("x", 2), VEC("u", 2), dt, lo, hi, cons, ws)
    CHECK_EQ("filtered control solves the documented discrete program", out, clip(res.x[0:2], lo, hi))


def discrete_two_steps(bnd, jit):
    """nothing of an earlier call enters the next program"""
    m, cons, ws, lo, hi = build(bnd, "first", jit)
    m.filter_control(ARR("y", 2), POS("dt2"), ARR("v", 2))
    dt = POS("dt")
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    res = ref_solve(VEC("x", 2), VEC("u", 2), dt, lo, hi, cons, ws)
    CHECK_EQ("second control", out, clip(res.x[0:2], lo, hi))


def discrete_flag(bnd, slack, jit, prior=0):
    eps = POS("eps")
    m, cons, ws, lo, hi = build(bnd, slack, jit, epsilon=eps)
    dt = POS("dt")
    warm(m, prior, dt)
    m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    u = VEC("u", 2)
    res = ref_solve(VEC("x", 2), u, dt, lo, hi, cons, ws)
    CHECK_EQ("intervening iff the optimiser moved the control by more than epsilon", m.intervening,
             ((u[0] - res.x[0]) ** 2 + (u[1] - res.x[1]) ** 2) > eps ** 2)


def discrete_failure(bnd, jit, exc, prior=0):
    m, cons, ws, lo, hi = build(bnd, "none", jit, solver_exception=exc)
    dt = POS("dt")
    for k in range(prior):
        try:
            m.filter_control(ARR("y" + str(k) + "_", 2), dt, ARR("v" + str(k) + "_", 2))
        except SolverError:
            pass
        CLEAR_EVENTS()
    raised = False
    try:
        m.filter_control(ARR("x", 2), dt, ARR("u", 2))
    except SolverError:
        raised = True
    res = ref_solve(VEC("x", 2), VEC("u", 2), dt, lo, hi, cons, ws)
    if exc:
        CHECK_EQ("SolverError exactly when the optimiser fails", raised, not res.success)
    else:
        CHECK_EQ("a warning exactly when the optimiser fails", COUNT(EVENTS("warn")), 0 if res.success else 1)
        CHECK("no SolverError unless requested", not raised)


class Integrated(DiscreteASIFIntegratorModule):
    """any system given by its state derivative"""

    def _setup_constraints(self):
        return OrderedDict([("h1", H("h1"))])

    def compute_state_dot(self, t, state, control):
        return UFVEC("xdot", 2, state, t, control)


def discrete_integrated(bnd, jit):
    """the next state is the solution of the state equation over the step"""
    lo, hi = bounds(bnd)
    m = Integrated(control_dim=2, control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    dt = POS("dt")
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 2))

    def fun(v, x, dt):
        y = odeint(lambda s, t, w: UFVEC("xdot", 2, s, t, w), x, jnp.array([0.0, dt]), v[0:2])[-1]
        return (hb("h1", y, 0.0) - hb("h1", x, 0.0)) / dt + UF("alpha_h1", hb("h1", x, 0.0))
    res = ref_solve(VEC("x", 2), VEC("u", 2), dt, lo, hi, [(fun, True)], [])
    CHECK_EQ("filtered control solves the documented discrete program", out, clip(res.x[0:2], lo, hi))
