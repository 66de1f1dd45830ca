"""Large counts: many constraints, direct constraints, slack variables, controls, members, trajectory points and steps.

Most constraints are 1 + q(x)^2 for an arbitrary q, so their sign is known and the comparison stays small; the one at position `at` is arbitrary."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from jax import grad, jacfwd, jacrev
from scipy.optimize import minimize
import run_time_assurance.zoo.cwh.inspection_1v1 as i1
from spec_common import *
from spec_wide import WEA, WIA, WDA, WES, WIS, WBackup, bound_rows, direct_rows, row, solve


class Safe(ConstraintModule):
    """never violated"""

    def __init__(self, name, **kw):
        self.name = name
        super().__init__(alpha=Alpha("alpha_" + name), params={"p": SYM("p_" + name)}, **kw)

    def _compute(self, state, params):
        return 1 + UF("q_" + self.name, state, params["p"]) ** 2


def value(c, x):
    if c["free"]:
        return UF("h_" + c["name"], x, SYM("p_" + c["name"]))
    return 1 + UF("q_" + c["name"], x, SYM("p_" + c["name"])) ** 2


def layout(count, at, slacks):
    """count constraints, the one at position `at` arbitrary, every slacks-th with a slack variable"""
    cons, ns = [], 0
    for i in range(count):
        d = {"name": "h" + str(i), "w": None, "slack": None, "en": True, "free": i == at}
        if slacks and i % slacks == slacks - 1:
            d["w"], d["slack"] = POS("w" + str(i)), ns
            ns = ns + 1
        cons.append(d)
    return cons, ns


def modules(cons):
    return [(H if c["free"] else Safe)(c["name"], slack_priority_scale=c["w"]) for c in cons]


def many_simplex(count, at, steps, jit):
    cons, ns = layout(count, at, 0)
    dt = POS("dt")
    kw = {"backup_controller": WBackup(1, jit_enable=jit), "jit_enable": jit}
    if steps is None:
        mod = WES(2, 1, modules(cons), **kw)
    else:
        mod = WIS(2, 1, modules(cons), backup_window=steps * dt, **kw)
    out = mod.filter_control(ARR("x", 2), dt, ARR("u", 1))
    x, u = VEC("x", 2), VEC("u", 1)
    s = UFVEC("phi", 2, x, dt, u)
    viol = False
    for k in range((steps or 0) + 1):
        viol = viol or value(cons[at], s) < 0
        s = UFVEC("phi", 2, s, dt, UFVEC("ub", 1, s, dt))
    CHECK_EQ("every constraint is tested", mod.intervening, viol)
    CHECK_EQ("backup control exactly when triggered", out, UFVEC("ub", 1, x, dt) if viol else u)
    vals = mod.constraint_values
    for c in cons:
        CHECK_EQ("value of " + c["name"], vals[c["name"]], value(c, x))


def many_explicit(count, at, slacks, m, nd, bnd, jit, names):
    cons, ns = layout(count, at, slacks)
    lo, hi = bounds(bnd, m)
    mod = WEA(2, m, modules(cons), [Direct("d" + str(i), m) for i in range(nd)], control_dim=m, control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    out = mod.filter_control(ARR("x", 2), POS("dt"), ARR("u", m))
    x, u = VEC("x", 2), VEC("u", m)
    rows = bound_rows(lo, hi, m, ns)
    for c in cons:
        h = value(c, x)
        al = UF("alpha_" + c["name"], h)
        if h < 0:
            al = 10 * al - 0.01
        rows.append(row(c, x, grad(lambda s: value(c, s))(x), UFVEC("f", 2, x), UFMAT("g", 2, m, x), 2, m, ns, al))
    rows = rows + direct_rows(nd, x, m, ns)
    sol, ok, act = solve(rows, u, m, cons)
    if names:
        CHECK_SET("active rows are named", mod.constraints_causing_intervention, act if ok else [])
    else:
        CHECK_EQ("filtered control solves the documented program", out, clip(sol, lo, hi))
        vals = mod.constraint_values
        for c in cons:
            CHECK_EQ("value of " + c["name"], vals[c["name"]], value(c, x))


def many_implicit(count, at, slacks, m, nd, bnd, jit, steps, names):
    cons, ns = layout(count, at, slacks)
    lo, hi = bounds(bnd, m)
    dt = POS("dt")
    mod = WIA(2, m, modules(cons), [Direct("d" + str(i), m) for i in range(nd)], control_dim=m, backup_window=steps * dt,
              backup_controller=WBackup(m, jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    out = mod.filter_control(ARR("x", 2), dt, ARR("u", m))
    x, u = VEC("x", 2), VEC("u", m)
    s, S = x, jnp.eye(2)
    pts = [(s, S)]
    for k in range(steps):
        s = UFVEC("phi", 2, s, dt, clip(UFVEC("ub", m, s, dt), lo, hi))
        J = jacfwd(lambda y: UFVEC("f", 2, y) + UFMAT("g", 2, m, y) @ UFVEC("ub", m, y, dt))(s)
        S = S + J @ S * dt
        pts.append((s, S))
    rows = bound_rows(lo, hi, m, ns)
    for c in cons:
        for s, S in pts:
            al = UF("alpha_" + c["name"], value(c, s))
            rows.append(row(c, s, grad(lambda y: value(c, y))(s), S @ UFVEC("f", 2, x), S @ UFMAT("g", 2, m, x), 2, m, ns, al))
    rows = rows + direct_rows(nd, x, m, ns)
    sol, ok, act = solve(rows, u, m, cons)
    if names:
        CHECK_SET("active rows are named", mod.constraints_causing_intervention, act if ok else [])
    else:
        CHECK_EQ("filtered control solves the documented program", out, clip(sol, lo, hi))


def many_discrete(count, at, slacks, m, jit):
    cons, ns = layout(count, at, slacks)
    dt = POS("dt")
    mod = WDA(2, m, modules(cons), control_dim=m, jit_enable=jit)
    out = mod.filter_control(ARR("x", 2), dt, ARR("u", m))
    x, u = VEC("x", 2), VEC("u", m)
    ws = [c["w"] for c in cons if c["w"] is not None]

    def fun_of(c):
        def fun(v, x, dt):
            h = value(c, x)
            r = (value(c, UFVEC("phi", 2, x, dt, v[0:m])) - h) / dt + UF("alpha_" + c["name"], h)
            return r if c["slack"] is None else r - v[m + c["slack"]]
        return fun

    def obj(v):
        r = sum([0.5 * (v[i] - u[i]) ** 2 for i in range(m)])
        return r + sum([0.5 * ws[i] * v[m + i] ** 2 for i in range(ns)])
    cl = [{"type": "ineq", "fun": fun_of(c), "jac": jacrev(fun_of(c)), "args": (x, dt)} for c in cons]
    res = minimize(obj, np.array([u[j] for j in range(m)] + [0.0] * ns), method="SLSQP", bounds=[(-np.inf, np.inf)] * (m + ns), constraints=cl)
    CHECK_EQ("filtered control solves the documented discrete program", out, res.x[0:m])


class Counted:
    """the last state component counts the steps"""

    def __init__(self, cons, **kw):
        self.cons = cons
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([("late", self.cons)])

    def _pred_state(self, state, step_size, control):
        return jnp.array([UF("phi", state[0], step_size, control[0]), state[1] + 1])

    def state_transition_system(self, state):
        return jnp.array([UF("f", state[0]), 0.0])

    def state_transition_input(self, state):
        return jnp.array([[UF("g", state[0])], [0.0]])


class LongIS(Counted, ImplicitSimplexModule):
    pass


class Late(ConstraintModule):
    """can only be violated when the count has reached `when`"""

    def __init__(self, when, **kw):
        self.when = when
        super().__init__(alpha=Alpha("alpha_late"), **kw)

    def _compute(self, state, params):
        return jnp.where(state[1] < self.when, 1.0, UF("h", state[0]))


class Back1(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([UF("ub", state[0], step_size)]), None


def long_window(steps, when, jit):
    """the trajectory has steps + 1 points; only points from number `when` on can violate"""
    dt = POS("dt")
    m = LongIS(Late(when), backup_window=steps * dt, backup_controller=Back1(jit_enable=jit), jit_enable=jit)
    out = m.filter_control(np.array([SYM("x"), 0.0]), dt, np.array([SYM("u")]))
    s = UF("phi", SYM("x"), dt, SYM("u"))
    viol = False
    for k in range(1, steps + 2):
        if k >= when:
            viol = viol or UF("h", s) < 0
        s = UF("phi", s, dt, UF("ub", s, dt))
    CHECK_EQ("the whole window is checked", m.intervening, viol)
    CHECK_EQ("backup control exactly when triggered", out, np.array([UF("ub", SYM("x"), dt) if viol else SYM("u")]))


class LongIA(ImplicitASIFModule):
    """constant drift, input matrix and backup control: the sensitivity stays the identity"""

    def __init__(self, config, **kw):
        self.config = config
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([("h", H("h", **self.config))])

    def state_transition_system(self, state):
        return jnp.array([SYM("f")])

    def state_transition_input(self, state):
        return jnp.array([[SYM("g")]])

    def _pred_state(self, state, step_size, control):
        return jnp.array([UF("phi", state[0], step_size, control[0])])


class ConstBackup(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([SYM("b")]), None


def long_rows(steps, jit, names, skip=1, every=-1, first=False, last=False):
    dt = POS("dt")
    config = {"skip_length": skip, "num_check_all": every, "keep_first": first, "keep_last": last}
    m = LongIA(config, control_dim=1, backup_window=steps * dt, backup_controller=ConstBackup(jit_enable=jit), jit_enable=jit)
    out = m.filter_control(np.array([SYM("x")]), dt, np.array([SYM("u")]))
    s, pts = np.array([SYM("x")]), []
    for k in range(steps + 1):
        pts.append(s)
        s = np.array([UF("phi", s[0], dt, SYM("b"))])
    head = max(every, 0)
    use = [k for k in range(steps + 1) if k < head or (k - head) % skip == 0]
    if first:
        use.append(0)
    if last:
        use.append(steps)
    rows = []
    for k in use:
        dh = grad(lambda y: UF("h_h", y, SYM("p_h")))(pts[k])
        rows.append(("h", [dh[0] * SYM("g")], -dh[0] * SYM("f") - UF("alpha_h", UF("h_h", pts[k], SYM("p_h")))))
    sol, ok, act = solve(rows, np.array([SYM("u")]), 1, [])
    if names:
        CHECK_SET("active rows are named", m.constraints_causing_intervention, act if ok else [])
    else:
        CHECK_EQ("rows at exactly the configured points of the window", out, sol)


def many_cascade(count):
    """members x -> clip-free filters g_i, every one may intervene"""
    class Member(RTAModule):
        def __init__(self, i, **kw):
            self.i = i
            super().__init__(**kw)

        def compute_filtered_control(self, input_state, step_size, control_desired):
            self.intervening = BOOLSYM("hit" + str(self.i))
            return np.array([UF("filter" + str(self.i), input_state[0], step_size, control_desired[0])])

    class Many(CascadedRTA):
        def _setup_rta_list(self):
            return [Member(i) for i in range(count)]
    dt = POS("dt")
    m = Many()
    out = m.filter_control(np.array([SYM("x")]), dt, np.array([SYM("u")]))
    u, hit = SYM("u"), False
    for i in range(count):
        u = UF("filter" + str(i), SYM("x"), dt, u)
        hit = hit or BOOLSYM("hit" + str(i))
    CHECK_EQ("every member filters the previous member's output", out, np.array([u]))
    CHECK_EQ("intervening exactly if some member is", m.intervening, hit)


def long_latch(steps, jit):
    """triggered once, then never violated: on for the whole latch time"""
    m = LongES(steps, latch_time=steps - 0.5, backup_controller=Back1(jit_enable=jit), jit_enable=jit)
    flags = []
    for k in range(steps + 4):
        out = m.filter_control(np.array([SYM("x"), float(k)]), 1, np.array([SYM("u")]))
        on = k <= steps
        CHECK_EQ("flag at step " + str(k), m.intervening, on)
        CHECK_EQ("control at step " + str(k), out, np.array([UF("ub", SYM("x"), 1) if on else SYM("u")]))


class LongES(ExplicitSimplexModule):
    def __init__(self, steps, **kw):
        self.steps = steps
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([("early", Early())])

    def _pred_state(self, state, step_size, control):
        return jnp.array([UF("phi", state[0], step_size, control[0]), state[1]])


class Early(ConstraintModule):
    """violated at count 0 only"""

    def _compute(self, state, params):
        return state[1] - 0.5


class Burning(i1.SwitchingDeltaVLimitRTA):
    """one unit of fuel per step, whatever is applied"""
    called = False

    def _pred_state(self, state, *args, **kw):
        self.called = True
        out = np.array(state)
        out[7] = out[7] + 1
        return out


def long_fuel(steps, margin):
    """the desired step and then `steps` stopping steps burn steps + 1 units; the limit is steps + margin"""
    kw = {} if steps is None else {"n_steps": steps}
    n = 500 if steps is None else steps
    z = Burning(m=POS("m"), n=POS("n"), delta_v_limit=n + margin, **kw)
    out = z.filter_control(np.array([0.0, 0.0, SYM("z"), 0.0, 0.0, SYM("w"), 0.0, 0.0]), POS("dt"), np.array([0.25, 0.5, 0.75]))
    if z.called:
        CHECK_EQ("the whole horizon is simulated", z.intervening, margin < 1)
        CHECK_EQ("control", out, np.zeros(3) if margin < 1 else np.array([0.25, 0.5, 0.75]))


class Counter(RTABackupController):
    """the control depends on how often it was asked"""

    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([UF("ub", state[0], controller_state[0])]), controller_state + 1


def long_stateful(steps):
    """a long prediction leaves the live controller where it was"""
    dt = POS("dt")
    m = LongIS(Late(steps + 1), backup_window=steps * dt, backup_controller=Counter(controller_state_initial=jnp.array([0.0]), jit_enable=False), jit_enable=False)
    for k in range(2):
        out = m.filter_control(np.array([SYM("x"), 0.0]), dt, np.array([SYM("u")]))
        ASSUME(m.intervening)
        CHECK_EQ("control of call " + str(k), out, np.array([UF("ub", SYM("x"), float(k))]))


def many_bounds(m, bnd, jit):
    lo, hi = bounds(bnd, m)
    mod = WES(1, m, [H("h0")], backup_controller=WBackup(m, jit_enable=jit), control_bounds_low=lo, control_bounds_high=hi, jit_enable=jit)
    out = mod.filter_control(ARR("x", 1), POS("dt"), ARR("u", m))
    b, u = clip(UFVEC("ub", m, VEC("x", 1), POS("dt")), lo, hi), clip(VEC("u", m), lo, hi)
    for i in range(m):
        CHECK_EQ("component " + str(i), out[i], b[i] if mod.intervening else u[i])


def many_select(count, use, jit):
    """a selection (a string of numbers) from many constraints"""
    use = [int(i) for i in use.split(",")]
    cons, ns = layout(count, count - 1, 0)
    names = ["h" + str(i) for i in use]
    m = WES(2, 1, modules(cons), backup_controller=WBackup(1, jit_enable=jit), constraints_to_use=names, jit_enable=jit)
    m.filter_control(ARR("x", 2), POS("dt"), ARR("u", 1))
    CHECK_EQ("exactly the selected constraints, in their original order", list(m.constraint_values.keys()), [c["name"] for c in cons if c["name"] in names])
    y = UFVEC("phi", 2, VEC("x", 2), POS("dt"), VEC("u", 1))
    CHECK_EQ("only they count", m.intervening, (count - 1 in use) and value(cons[-1], y) < 0)


def many_changes(count, at, kind, jit):
    """parameters and enabled flags of a late constraint are read at every call"""
    cons, ns = layout(count, at, 0)
    mods = modules(cons)
    dt = POS("dt")
    if kind == "simplex":
        m = WES(2, 1, mods, backup_controller=WBackup(1, jit_enable=jit), jit_enable=jit)
    else:
        m = WEA(2, 1, mods, control_dim=1, jit_enable=jit)
    m.filter_control(ARR("y", 2), dt, ARR("v", 1))
    mods[at].enabled = False
    m.filter_control(ARR("y", 2), dt, ARR("v", 1))
    if kind == "simplex":
        CHECK("a disabled constraint is not tested", not m.intervening)
    mods[at].enabled = True
    mods[at].params["p"] = SYM("new")
    out = m.filter_control(ARR("x", 2), dt, ARR("u", 1))
    x, u = VEC("x", 2), VEC("u", 1)
    if kind == "simplex":
        viol = UF("h_h" + str(at), UFVEC("phi", 2, x, dt, u), SYM("new")) < 0
        CHECK_EQ("tested again with the new parameter", m.intervening, viol)
        return
    rows = []
    for c in cons:
        f = (lambda s: UF("h_" + c["name"], s, SYM("new"))) if c["free"] else (lambda s: value(c, s))
        h = f(x)
        al = UF("alpha_" + c["name"], h)
        if h < 0:
            al = 10 * al - 0.01
        rows.append(row(c, x, grad(f)(x), UFVEC("f", 2, x), UFMAT("g", 2, 1, x), 2, 1, 0, al))
    sol, ok, act = solve(rows, u, 1, cons)
    CHECK_EQ("the program uses the new parameter", out, sol)
