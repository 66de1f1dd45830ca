"""The generic filters with other numbers of states, controls, constraints, slack variables and direct constraints."""
import numpy as np
import jax.numpy as jnp
import quadprog
from jax import grad, jacfwd, jacrev
from collections import OrderedDict
from scipy.optimize import minimize
from spec_common import *


class System:
    """any control affine system with n states and m controls"""

    def __init__(self, n, m, cons, direct=None, **kw):
        self.n, self.m, self.cons, self.direct = n, m, cons, direct
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([(c.name, c) for c in self.cons])

    def _setup_direct_constraints(self):
        return OrderedDict([(c.name, c) for c in self.direct or []])

    def state_transition_system(self, state):
        return UFVEC("f", self.n, state)

    def state_transition_input(self, state):
        return UFMAT("g", self.n, self.m, state)

    def _pred_state(self, state, step_size, control):
        return UFVEC("phi", self.n, state, step_size, control)

    def next_state_differentiable(self, state, step_size, control):
        return UFVEC("phi", self.n, state, step_size, control)


class WEA(System, ExplicitASIFModule):
    pass


class WIA(System, ImplicitASIFModule):
    pass


class WDA(System, DiscreteASIFModule):
    pass


class WES(System, ExplicitSimplexModule):
    pass


class WIS(System, ImplicitSimplexModule):
    pass


class WBackup(RTABackupController):
    def __init__(self, m, **kw):
        self.m = m
        super().__init__(**kw)

    def _generate_control(self, state, step_size, controller_state=None):
        return UFVEC("ub", self.m, state, step_size), None


def hval(c, x):
    return UF("h_" + c, x, SYM("p_" + c))


def layout(pattern):
    """constraints h0.. with a slack variable where the pattern says s, disabled symbolically where it says e"""
    cons, ns = [], 0
    for i in range(len(pattern)):
        k = pattern[i]
        d = {"name": "h" + str(i), "w": None, "slack": None, "en": True}
        if k == "s" or k == "t":
            d["w"], d["slack"] = POS("w" + str(i)), ns
            ns = ns + 1
        if k == "e" or k == "t":
            d["en"] = BOOLSYM("en" + str(i))
        cons.append(d)
    return cons, ns


def modules(cons):
    return [H(c["name"], slack_priority_scale=c["w"], enabled=c["en"]) for c in cons]


def bound_rows(lo, hi, m, ns):
    rows = []
    for i in range(m):
        if lo is not None:
            rows.append(("u" + str(i + 1) + "_min", [1.0 if j == i else 0.0 for j in range(m)] + [0.0] * ns, lo[i]))
        if hi is not None:
            rows.append(("u" + str(i + 1) + "_max", [-1.0 if j == i else 0.0 for j in range(m)] + [0.0] * ns, -hi[i]))
    return rows


def direct_rows(nd, x, m, ns):
    rows = []
    for i in range(nd):
        nm = "d" + str(i)
        w = UFVEC("w_" + nm, m, x, SYM("p_" + nm))
        rows.append((nm, [w[j] for j in range(m)] + [0.0] * ns, UF("c_" + nm, x, SYM("p_" + nm))))
    return rows


def slack_part(c, ns):
    return [(-1.0 if c["slack"] == j else 0.0) for j in range(ns)]


def solve(rows, u, m, cons):
    ws = [c["w"] for c in cons if c["w"] is not None]
    ns = len(ws)
    G = np.diag(np.array([1.0] * m + [w ** 0.5 for w in ws]))
    a = np.array([u[j] for j in range(m)] + [0.0] * ns)
    act = []
    try:
        r = quadprog.solve_qp(G, a, np.array([r[1] for r in rows]).T, np.array([r[2] for r in rows]), 0)
        sol = r[0][0:m]
        ok = True
        for i in r[5]:
            act.append(rows[i - 1][0])
    except ValueError:
        sol, ok = np.array([u[j] for j in range(m)]), False
    return sol, ok, act


def row(c, x, dh, f, G, n, m, ns, al):
    w = [sum([dh[i] * G[i, j] for i in range(n)]) for j in range(m)] + slack_part(c, ns)
    b = -sum([dh[i] * f[i] for i in range(n)]) - al
    if not c["en"]:
        w, b = [0.0] * (m + ns), 0.0
    return (c["name"], w, b)


def wide_explicit(n, m, pattern, nd, bnd, jit, steps=1, names=False):
    cons, ns = layout(pattern)
    lo, hi = bounds(bnd, m)
    mod = WEA(n, m, modules(cons), [Direct("d" + str(i), m) for i in range(nd)], control_dim=m, control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    for k in range(steps - 1):
        mod.filter_control(ARR("y", n), POS("dt"), ARR("v", m))
    out = mod.filter_control(ARR("x", n), POS("dt"), ARR("u", m))
    x, u = VEC("x", n), VEC("u", m)
    rows = bound_rows(lo, hi, m, ns)
    for c in cons:
        h = hval(c["name"], x)
        al = UF("alpha_" + c["name"], h)
        if h < 0:
            al = 10 * al - 0.01
        rows.append(row(c, x, grad(lambda s: hval(c["name"], s))(x), UFVEC("f", n, x), UFMAT("g", n, m, x), n, m, ns, al))
    rows = rows + direct_rows(nd, x, m, ns)
    sol, ok, act = solve(rows, u, m, cons)
    if names:
        CHECK_SET("active rows are named", mod.constraints_causing_intervention, act if ok else [])
    else:
        CHECK_EQ("filtered control solves the documented program", out, clip(sol, lo, hi))


def wide_implicit(n, m, pattern, nd, bnd, jit, steps, jint=True, names=False):
    cons, ns = layout(pattern)
    lo, hi = bounds(bnd, m)
    dt = POS("dt")
    mod = WIA(n, m, modules(cons), [Direct("d" + str(i), m) for i in range(nd)], control_dim=m, backup_window=steps * dt, backup_controller=WBackup(m, jit_enable=jit),
              control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, jit_compile_dict={"generate_barrier_constraint_mats": jit, "integrate": jint})
    out = mod.filter_control(ARR("x", n), dt, ARR("u", m))
    x, u = VEC("x", n), VEC("u", m)
    s, S = x, jnp.eye(n)
    pts = [(s, S)]
    for k in range(steps):
        s = UFVEC("phi", n, s, dt, clip(UFVEC("ub", m, s, dt), lo, hi))
        J = jacfwd(lambda y: UFVEC("f", n, y) + UFMAT("g", n, m, y) @ UFVEC("ub", m, y, dt))(s)
        S = S + J @ S * dt
        pts.append((s, S))
    rows = bound_rows(lo, hi, m, ns)
    for c in cons:
        for s, S in pts:
            al = UF("alpha_" + c["name"], hval(c["name"], s))
            rows.append(row(c, s, grad(lambda y: hval(c["name"], y))(s), S @ UFVEC("f", n, x), S @ UFMAT("g", n, m, x), n, m, ns, al))
    rows = rows + direct_rows(nd, x, m, ns)
    sol, ok, act = solve(rows, u, m, cons)
    if names:
        CHECK_SET("active rows are named", mod.constraints_causing_intervention, act if ok else [])
    else:
        CHECK_EQ("filtered control solves the documented program", out, clip(sol, lo, hi))


def wide_discrete(n, m, pattern, bnd, jit):
    cons, ns = layout(pattern)
    lo, hi = bounds(bnd, m)
    dt = POS("dt")
    mod = WDA(n, m, modules(cons), control_dim=m, control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    out = mod.filter_control(ARR("x", n), dt, ARR("u", m))
    x, u = VEC("x", n), VEC("u", m)
    ws = [c["w"] for c in cons if c["w"] is not None]

    def fun_of(c):
        def fun(v, x, dt):
            y = UFVEC("phi", n, x, dt, v[0:m])
            h = hval(c["name"], x)
            r = (hval(c["name"], y) - h) / dt + UF("alpha_" + c["name"], h)
            return r if c["slack"] is None else r - v[m + c["slack"]]
        return fun

    def obj(v):
        r = sum([0.5 * (v[i] - u[i]) ** 2 for i in range(m)])
        return r + sum([0.5 * ws[i] * v[m + i] ** 2 for i in range(ns)])
    bl = [(-np.inf if lo is None else lo[i], np.inf if hi is None else hi[i]) for i in range(m)] + [(-np.inf, np.inf)] * ns
    cl = []
    for c in cons:
        if c["en"]:
            cl.append({"type": "ineq", "fun": fun_of(c), "jac": jacrev(fun_of(c)), "args": (x, dt)})
    res = minimize(obj, np.array([u[j] for j in range(m)] + [0.0] * ns), method="SLSQP", bounds=bl, constraints=cl)
    CHECK_EQ("filtered control solves the documented discrete program", out, clip(res.x[0:m], lo, hi))


def wide_simplex(n, m, pattern, bnd, jit, steps=None):
    cons, ns = layout(pattern)
    lo, hi = bounds(bnd, m)
    dt = POS("dt")
    kw = {"backup_controller": WBackup(m, jit_enable=jit), "control_bounds_low": lo, "control_bounds_high": hi, "jit_enable": jit}
    if steps is None:
        mod = WES(n, m, modules(cons), **kw)
    else:
        mod = WIS(n, m, modules(cons), backup_window=steps * dt, **kw)
    out = mod.filter_control(ARR("x", n), dt, ARR("u", m))
    x, u = VEC("x", n), VEC("u", m)
    s = UFVEC("phi", n, x, dt, u)
    viol = False
    for k in range((steps or 0) + 1):
        for c in cons:
            viol = viol or (c["en"] and hval(c["name"], s) < 0)
        s = UFVEC("phi", n, s, dt, clip(UFVEC("ub", m, s, dt), lo, hi))
    CHECK_EQ("intervening exactly when an enabled constraint is violated", m and mod.intervening, viol)
    CHECK_EQ("backup control exactly when triggered", out, clip(UFVEC("ub", m, x, dt), lo, hi) if viol else clip(u, lo, hi))
