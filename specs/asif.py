"""Explicit ASIF, slack, solver failure, attribution."""
import numpy as np
import jax.numpy as jnp
import quadprog
from jax import grad
from collections import OrderedDict
from spec_common import *
from run_time_assurance.utils import SolverError


class EA(ExplicitASIFModule):
    def __init__(self, cons, direct=None, **kw):
        self.cons = cons
        self.direct = direct
        super().__init__(control_dim=2, **kw)

    def _setup_constraints(self):
        return OrderedDict([(c.name, c) for c in self.cons])

    def _setup_direct_constraints(self):
        return OrderedDict([(c.name, c) for c in self.direct or []])

    def state_transition_system(self, state):
        return f_sys(state)

    def state_transition_input(self, state):
        return g_sys(state)


def h_of(name, x, p):
    return UF("h_" + name, x[0], x[1], p)


def ref_rows(x, lo, hi, cons, direct, ns):
    """the documented quadratic program: names, rows (weights, constant)"""
    rows = []
    if lo is not None:
        for i in range(2):
            rows.append(("u" + str(i + 1) + "_min", [1.0 if j == i else 0.0 for j in range(2)] + [0.0] * ns, lo[i] if hasattr(lo, "shape") else lo))
    if hi is not None:
        for i in range(2):
            rows.append(("u" + str(i + 1) + "_max", [-1.0 if j == i else 0.0 for j in range(2)] + [0.0] * ns, -(hi[i] if hasattr(hi, "shape") else hi)))
    f, g = f_sys(x), g_sys(x)
    for c in cons:
        dh = grad(lambda s: h_of(c["name"], s, c["p"]))(x)
        h = h_of(c["name"], x, c["p"]) + c["bias"]
        if h < 0:
            if c["an"] is None:
                al = 10 * UF("alpha_" + c["name"], h) + c["bn"]
            else:
                al = UF(c["an"], h) + c["bn"]
        else:
            al = UF("alpha_" + c["name"], h)
        w = [dh[0] * g[0, j] + dh[1] * g[1, j] for j in range(2)]
        w = w + [(-1.0 if c["slack"] == j else 0.0) for j in range(ns)]
        b = -(dh[0] * f[0] + dh[1] * f[1]) - al
        if not c["en"]:
            w, b = [0.0] * (2 + ns), 0.0
        rows.append((c["name"], w, b))
    for d in direct:
        w = UFVEC("w_" + d["name"], 2, x, d["p"])
        w = [w[0], w[1]] + [0.0] * ns
        b = UF("c_" + d["name"], x, d["p"])
        if not d["en"]:
            w, b = [0.0] * (2 + ns), 0.0
        rows.append((d["name"], w, b))
    return rows


def ref_solve(rows, u, weights):
    """(solution, feasible, active names)"""
    ns = len(weights)
    G = np.diag(np.array([1.0, 1.0] + [w ** 0.5 for w in weights]))
    C = np.array([r[1] for r in rows]).T
    b = np.array([r[2] for r in rows])
    a = np.array([u[0], u[1]] + [0.0] * ns)
    names = [r[0] for r in rows]
    act = []
    try:
        r = quadprog.solve_qp(G, a, C, b, 0)
        sol = r[0][0:2]
        ok = True
        for i in r[5]:
            act.append(names[i - 1])
    except ValueError:
        sol = np.array([u[0], u[1]])
        ok = False
    return sol, ok, act


def cdesc(name, p=None, bias=0.0, an=None, bn=-0.01, slack=None, en=True):
    return {"name": name, "p": SYM("p_" + name) if p is None else p, "bias": bias, "an": an, "bn": bn, "slack": slack, "en": en}


def build(bnd, slack, direct, jit, **kw):
    lo, hi = bounds(bnd)
    w1, w2 = POS("w1"), POS("w2")
    e1, e2, ed = BOOLSYM("en1"), BOOLSYM("en2"), BOOLSYM("end1")
    s1, s2, ns, ws = None, None, 0, []
    if slack == "first":
        s1, ns, ws = 0, 1, [w1]
    if slack == "second":
        s2, ns, ws = 0, 1, [w2]
    if slack == "both":
        s1, s2, ns, ws = 0, 1, 2, [w1, w2]
    c1 = H("h1", slack_priority_scale=None if s1 is None else w1, bias=SYM("bias1"), enabled=e1)
    c2 = H("h2", slack_priority_scale=None if s2 is None else w2, alpha_negative=Alpha("an2"), bias_negative=SYM("bn2"), enabled=e2)
    d = [Direct("d1", 2, enabled=ed)] if direct else []
    m = EA([c1, c2], d, control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit, **kw)
    cons = [cdesc("h1", bias=SYM("bias1"), slack=s1, en=e1), cdesc("h2", an="an2", bn=SYM("bn2"), slack=s2, en=e2)]
    dd = [{"name": "d1", "p": SYM("p_d1"), "en": ed}] if direct else []
    x, u = ARR("x", 2), ARR("u", 2)
    rows = ref_rows(VEC("x", 2), lo, hi, cons, dd, ns)
    return m, x, u, rows, ws, lo, hi


def explicit_rows(bnd, slack, direct, jit, prior=0):
    """the filtered control is the (saturated) solution of the documented quadratic program"""
    m, x, u, rows, ws, lo, hi = build(bnd, slack, direct, jit)
    warm(m, prior, SYM("dt"))
    out = m.filter_control(x, SYM("dt"), u)
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    CHECK_EQ("filtered control solves the documented QP", out, clip(sol, lo, hi))


def intervening_flag(bnd, slack, direct, jit, prior=0):
    eps = POS("eps")
    m, x, u, rows, ws, lo, hi = build(bnd, slack, direct, jit, epsilon=eps)
    warm(m, prior, SYM("dt"))
    out = m.filter_control(x, SYM("dt"), u)
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    u0 = VEC("u", 2)
    moved = ((u0[0] - sol[0]) ** 2 + (u0[1] - sol[1]) ** 2) > eps ** 2
    ASSUME(eps > 0)
    CHECK_EQ("intervening iff the optimiser moved the control by more than epsilon", m.intervening, moved)
    CHECK_EQ("generate_info reports the flag", m.generate_info()["intervening"], moved)


def attribution(bnd, slack, direct, jit, prior=0):
    m, x, u, rows, ws, lo, hi = build(bnd, slack, direct, jit)
    warm(m, prior, SYM("dt"))
    m.filter_control(x, SYM("dt"), u)
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    CHECK_SET("constraints_causing_intervention names exactly the active rows", m.constraints_causing_intervention, act if ok else [])


def attribution_two_steps(bnd, jit):
    m, x, u, rows, ws, lo, hi = build(bnd, "none", True, jit)
    m.filter_control(ARR("y", 2), SYM("dt"), ARR("v", 2))
    m.filter_control(x, SYM("dt"), u)
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    CHECK_SET("attribution describes the latest step only", m.constraints_causing_intervention, act if ok else [])


def infeasible_warns(bnd, jit, prior=0):
    """solver_exception=False: desired control passed (saturated) with exactly one warning"""
    m, x, u, rows, ws, lo, hi = build(bnd, "none", True, jit)
    warm(m, prior, SYM("dt"))
    out = m.filter_control(x, SYM("dt"), u)
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    n = COUNT(EVENTS("warn"))
    if ok:
        CHECK_EQ("no warning when the program is feasible", n, 0)
    else:
        CHECK_EQ("infeasible: desired control is passed through saturated", out, clip(VEC("u", 2), lo, hi))
        CHECK_EQ("infeasible: one warning", n, 1)
        CHECK_EQ("infeasible: not intervening", m.intervening, False)


def infeasible_raises(bnd, jit, prior=0):
    m, x, u, rows, ws, lo, hi = build(bnd, "none", True, jit, solver_exception=True)
    for k in range(prior):
        try:
            m.filter_control(ARR("y" + str(k) + "_", 2), SYM("dt"), ARR("v" + str(k) + "_", 2))
        except SolverError:
            pass
    raised = False
    out = None
    try:
        out = m.filter_control(x, SYM("dt"), u)
    except SolverError:
        raised = True
    sol, ok, act = ref_solve(rows, VEC("u", 2), ws)
    CHECK_EQ("solver_exception: SolverError exactly when infeasible", raised, not ok)


def other_errors_propagate(exc):
    """errors of the solver other than infeasibility are not swallowed"""
    lo, hi = bounds("both")
    c1 = H("h1", slack_priority_scale=SYM("w1"))
    m = EA([c1], [], control_bounds_low=lo, control_bounds_high=hi, jit_enable=False, solver_exception=exc)
    bad, raised, solver = False, False, False
    try:
        m.filter_control(ARR("x", 2), SYM("dt"), ARR("u", 2))
    except ValueError as e:
        raised = True
    except SolverError:
        solver = True
    G = np.diag(np.array([1.0, 1.0, SYM("w1") ** 0.5]))
    try:
        quadprog.solve_qp(G, np.array([0.0, 0.0, 0.0]), np.array([[1.0], [0.0], [0.0]]), np.array([0.0]), 0)
    except ValueError as e:
        if e.args[0] != "constraints are inconsistent, no solution":
            bad = True
    CHECK_EQ("a solver error other than infeasibility propagates", raised, bad)
