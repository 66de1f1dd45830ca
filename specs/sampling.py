"""Sample testing harness: verdicts, recorded trajectories, drawn initial states."""
import numpy as np
import jax.numpy as jnp
from collections import OrderedDict
from spec_common import *
from run_time_assurance.rta.base import ConstraintBasedRTA
from run_time_assurance.utils import SolverError
import run_time_assurance.utils.sample_testing as stm
import run_time_assurance.zoo.cwh.random_sample_testing as rst
from spec_zoo import A2, B2, d2, dynamics, defaults


class C(H):
    """constraint with a separate safe set"""

    def _phi(self, state, params):
        return UF("phi_" + self.name, state, params["p"])


class Filter(ConstraintBasedRTA):
    """any constraint-based filter with memory that may fail to solve"""

    def __init__(self, names, fails, **kw):
        self.names = names
        self.fails = fails
        self.n = SYM("n0")
        super().__init__(**kw)

    def _setup_constraints(self):
        return OrderedDict([(k, C(k)) for k in self.names])

    def reset(self):
        super().reset()
        self.n = 0

    def compute_filtered_control(self, input_state, step_size, control_desired):
        if self.fails and UFBOOL("fail", input_state, step_size, control_desired, self.n):
            raise SolverError()
        self.intervening = UFBOOL("iv", input_state, step_size, control_desired, self.n)
        self.n = self.n + 1
        return UFVEC("k", 2, input_state, step_size, control_desired, self.n)


class Test(stm.SafetyAssuranceSampleTestingModule):
    def _get_initial_state(self):
        return NP(VEC("s", 2))

    def _pred_state(self, state, step_size, control):
        return NP(UFVEC("f", 2, state, step_size, control))

    def _desired_control(self, state):
        return NP(UFVEC("d", 2, state))


class TestDone(Test):
    def _check_done_conditions(self, state, time):
        return time >= self.simulation_time or UFBOOL("done", state, time)


class TestPassive(stm.SafetyAssuranceSampleTestingModule):
    def _get_initial_state(self):
        return NP(VEC("s", 2))

    def _pred_state(self, state, step_size, control):
        return NP(UFVEC("f", 2, state, step_size, control))


def unsafe(x, names):
    v = False
    for k in names:
        v = v or UF("phi_" + k, x, SYM("p_" + k)) < 0
    return v


def rejected(x, names):
    v = unsafe(x, names)
    for k in names:
        v = v or UF("h_" + k, x, SYM("p_" + k)) < 0
    return v


def verdict(mode, steps, count, fails, sym):
    """None: initial state not admissible; False: unsafe state reached or no control found; True otherwise"""
    names = ["h1", "h2"][:count]
    rta = Filter(names, fails)
    dt = POS("dt") if sym else 1.0
    cls = {"plain": Test, "done": TestDone, "passive": TestPassive}[mode]
    t = cls(rta=rta, n_points=1, simulation_time=steps * dt, step_size=dt, control_dim=2, state_dim=2)
    r = t._simulate_episode(ARR("x", 2))
    x = VEC("x", 2)
    bad = rejected(x, names)
    fine = True
    stop = False
    for k in range(steps):
        d = UFVEC("d", 2, x) if mode != "passive" else jnp.array([0.0, 0.0])
        if fails:
            fine = fine and (stop or not UFBOOL("fail", x, dt, d, k))
        x = UFVEC("f", 2, x, dt, UFVEC("k", 2, x, dt, d, k + 1))
        fine = fine and (stop or not unsafe(x, names))
        if mode == "done":
            stop = stop or UFBOOL("done", x, (k + 1) * dt)
    CHECK_EQ("sample rejected exactly when the initial state is not admissible", r is None, bad)
    CHECK("verdict is safe only if the filter found a control at every step and no visited state was unsafe", bad or not r or fine)
    CHECK("verdict is unsafe only if some visited state was unsafe or no control was found", bad or r or not fine)


def verdict_changed(steps):
    """verdicts use the constraint parameters in force"""
    rta = Filter(["h1"], False)
    t = Test(rta=rta, n_points=1, simulation_time=steps * 1.0, step_size=1.0, control_dim=2, state_dim=2)
    rta.constraints["h1"].params["p"] = SYM("q")
    r = t._simulate_episode(ARR("x", 2))
    x = VEC("x", 2)
    q = SYM("q")
    CHECK_EQ("sample rejected under the current parameter", r is None, UF("phi_h1", x, q) < 0 or UF("h_h1", x, q) < 0)


def independent(prior=1):
    """the verdict of a sample does not depend on samples simulated before"""
    rta = Filter(["h1"], True)
    t = Test(rta=rta, n_points=1, simulation_time=2.0, step_size=1.0, control_dim=2, state_dim=2)
    for k in range(prior):
        t._simulate_episode(ARR("y", 2) if k == 0 else np.array([0.5 * k, 0.25]))
    a = t._simulate_episode(ARR("x", 2))
    rta2 = Filter(["h1"], True)
    t2 = Test(rta=rta2, n_points=1, simulation_time=2.0, step_size=1.0, control_dim=2, state_dim=2)
    b = t2._simulate_episode(ARR("x", 2))
    CHECK_EQ("rejected", a is None, b is None)
    CHECK_EQ("verdict", a is True, b is True)
    CHECK_EQ("state of the caller unchanged", a is None or True, True)


class Report(stm.SafetyAssuranceSampleTestingModule):
    """draws sample 0, 1, 2, ... with a given list of verdicts"""

    def __init__(self, verdicts, **kw):
        self.verdicts = verdicts
        self.k = 0
        self.i = 0
        super().__init__(**kw)

    def _get_initial_state(self):
        self.k = self.k + 1
        return NP(VEC("s" + str(self.k) + "_", 2))

    def _transform_state(self, state):
        return NP(UFVEC("tr", 2, state))

    def _simulate_episode(self, state):
        self.i = self.i + 1
        CHECK_EQ("episode simulated from the transformed sample", jnp.array(state), UFVEC("tr", 2, VEC("s" + str(self.k) + "_", 2)))
        return self.verdicts[self.i - 1]

    def _pred_state(self, state, step_size, control):
        return state


def report(pattern):
    v = {"a": [True], "b": [None, None, False], "c": [True, None, False, True], "d": [None, False, None, True]}[pattern]
    accepted = [i for i in range(len(v)) if v[i] is not None]
    t = Report(v, rta=Filter(["h1"], False), n_points=len(accepted), simulation_time=2.0, step_size=1.0, control_dim=2, state_dim=2)
    CLEAR_EVENTS()
    t.run_sample_test("out")
    rows = EVENTS("row")
    CHECK_EQ("one row for every requested point", COUNT(rows), len(accepted))
    for j in range(len(accepted)):
        row = rows[j][1]
        CHECK_EQ("verdict of row " + str(j), row[0], v[accepted[j]])
        CHECK_EQ("initial state of row " + str(j), jnp.array(row[1]), UFVEC("tr", 2, VEC("s" + str(accepted[j] + 1) + "_", 2)))


class Count(Test):
    """real episodes from sample 1, 2, ..."""

    def __init__(self, **kw):
        self.k = 0
        super().__init__(**kw)

    def _get_initial_state(self):
        self.k = self.k + 1
        return NP(VEC("s" + str(self.k) + "_", 2))


def report_real(count, steps):
    """the rows of a whole run: each with its own initial state and the verdict a single run gives"""
    t = Count(rta=Filter([], True), n_points=count, simulation_time=1.0 * steps, step_size=1.0, control_dim=2, state_dim=2)
    CLEAR_EVENTS()
    t.run_sample_test("out")
    rows = EVENTS("row")
    CHECK_EQ("one row for every requested point", COUNT(rows), count)
    for j in range(count):
        s = VEC("s" + str(j + 1) + "_", 2)
        one = Test(rta=Filter([], True), n_points=1, simulation_time=1.0 * steps, step_size=1.0, control_dim=2, state_dim=2)
        row = rows[j][1]
        CHECK_EQ("verdict of row " + str(j), row[0], one._simulate_episode(NP(s)))
        CHECK_EQ("initial state of row " + str(j), jnp.array(row[1]), s)


class Track(stm.DataTrackingSampleTestingModule):
    def __init__(self, skip, **kw):
        self.skip = skip
        self.k = 0
        self.seen = []
        super().__init__(**kw)

    def _get_initial_state(self):
        self.k = self.k + 1
        return NP(VEC("s" + str(self.k) + "_", 2))

    def _pred_state(self, state, step_size, control):
        return NP(UFVEC("f", 2, state, step_size, control))

    def _desired_control(self, state):
        return NP(UFVEC("d", 2, state))

    def _update_status(self, state, time):
        self.seen.append((state, time))


class TrackSkip(Track):
    def check_if_safe_state(self, state):
        return self.k > self.skip


def tracking(steps, skip):
    """recorded trajectory: initial state, then every state reached with the control and flag that led there"""
    rta = Filter(["h1"], False)
    rta.reset()
    kw = {"rta": rta, "simulation_time": steps * 1.0, "step_size": 1.0, "control_dim": 2, "state_dim": 2}
    t = Track(0, check_init_state=False, **kw) if skip is None else TrackSkip(skip, **kw)
    xs, us, iv = t.simulate_episode()
    x = VEC("s" + str(1 + (skip or 0)) + "_", 2)
    CHECK_EQ("number of states", len(xs), steps + 1)
    CHECK_EQ("number of controls", len(us), steps + 1)
    CHECK_EQ("number of flags", len(iv), steps + 1)
    CHECK_EQ("first state is the (first safe) sample", jnp.array(xs[0]), x)
    CHECK_EQ("no control before the first state", jnp.array(us[0]), jnp.array([0.0, 0.0]))
    CHECK_EQ("no intervention before the first state", iv[0], False)
    for k in range(steps):
        d = UFVEC("d", 2, x)
        u = UFVEC("k", 2, x, 1.0, d, k + 1)
        f = UFBOOL("iv", x, 1.0, d, k)
        x = UFVEC("f", 2, x, 1.0, u)
        CHECK_EQ("state " + str(k + 1), jnp.array(xs[k + 1]), x)
        CHECK_EQ("control " + str(k + 1), jnp.array(us[k + 1]), u)
        CHECK_EQ("flag " + str(k + 1), iv[k + 1], f)
        CHECK_EQ("status update " + str(k + 1), jnp.array(t.seen[k][0]), x)
        CHECK_EQ("status time " + str(k + 1), t.seen[k][1], k + 1.0)


def initial_safe(count):
    names = ["h" + str(i + 1) for i in range(count)]
    t = Track(0, rta=Filter(names, False), simulation_time=1.0, step_size=1.0, control_dim=2, state_dim=2)
    CHECK_EQ("admissible exactly when no constraint is violated", t.check_if_safe_state(ARR("x", 2)), not rejected(VEC("x", 2), names))


class Lhs(stm.LatinHypercubeRandomSampleTestingModule):
    def _pred_state(self, state, step_size, control):
        return state


class Par(stm.ParametricRandomSampleTestingModule):
    def _pred_state(self, state, step_size, control):
        return state


def hypercube():
    """every draw lies in the box and no draw is used twice"""
    lo, hi = ARR("lo", 2), ARR("hi", 2)
    for i in range(2):
        ASSUME(lo[i] <= hi[i])
    t = Lhs(rta=Filter(["h1"], False), n_points=2, simulation_time=1.0, step_size=1.0, control_dim=2, state_dim=2, bounds=np.array([lo, hi]), multiplier=2)
    CHECK_EQ("number of draws available", len(t.all_ics), 4)
    draws = [t._get_initial_state() for k in range(4)]
    for k in range(4):
        CHECK_EQ("draw " + str(k) + " is the " + str(k) + "-th sample", jnp.array(draws[k]), jnp.array(t.all_ics[k]))
        for i in range(2):
            e = DRAW(draws[k][i], "lhs")
            CHECK("drawn over the whole interval", draws[k][i] == lo[i] + e * (hi[i] - lo[i]) or draws[k][i] == hi[i] - e * (hi[i] - lo[i]))
            CHECK("draw not below the box", draws[k][i] >= lo[i])
            CHECK("draw not above the box", draws[k][i] <= hi[i])


def parametric():
    a, b = ARR("a", 3), ARR("b", 3)
    ASSUME(a[1] <= b[1])
    t = Par(rta=Filter(["h1"], False), n_points=2, simulation_time=1.0, step_size=1.0, control_dim=2, state_dim=3, state_pdfs=["constant", "uniform", "constant"],
            distribution_params=np.array([a, b]))
    x = t._get_initial_state()
    e = DRAW(x[1], "unit")
    CHECK("uniform over the whole interval", x[1] == a[1] + e * (b[1] - a[1]) or x[1] == b[1] - e * (b[1] - a[1]))
    CHECK_EQ("constant component", x[0], a[0])
    CHECK_EQ("second constant component", x[2], a[2])
    CHECK("uniform component not below", x[1] >= a[1])
    CHECK("uniform component not above", x[1] <= b[1])


def parametric_gauss():
    a, b = ARR("a", 2), ARR("b", 2)
    t = Par(rta=Filter(["h1"], False), n_points=2, simulation_time=1.0, step_size=1.0, control_dim=2, state_dim=2, state_pdfs=["gaussian", "gaussian"],
            distribution_params=np.array([a, b]))
    for k in range(2):
        x = t._get_initial_state()
        for i in range(2):
            e = DRAW(x[i], "gauss")
            CHECK("gaussian with the given mean and deviation", x[i] == a[i] + e * b[i] or x[i] == a[i] - e * b[i])
        CHECK("components are drawn separately", not IDENTICAL(DRAW(x[0], "gauss"), DRAW(x[1], "gauss")))


def parametric_bad():
    t = Par(rta=Filter(["h1"], False), n_points=2, simulation_time=1.0, step_size=1.0, control_dim=2, state_dim=1, state_pdfs=["cauchy"],
            distribution_params=np.array([[0.0], [1.0]]))
    bad = False
    try:
        t._get_initial_state()
    except ValueError:
        bad = True
    CHECK("unknown distribution rejected", bad)


def docking_tests(which):
    """plant of the ready-made tests is the CWH model"""
    rta = Filter(["h1"], False)
    cls = rst.Docking2DLatinHypercubeRandomSampleTest if which == "lhs" else rst.Docking2DParametricRandomSampleTest
    t = cls(rta=rta, n_points=2)
    dyn = dynamics.LinearODEDynamics(A=A2(defaults.N_DEFAULT), B=B2(defaults.M_DEFAULT), integration_method="RK45", use_jax=True)
    y = t._pred_state(ARR("x", 4), POS("dt"), ARR("u", 2))
    CHECK_EQ("next state", jnp.array(y), jnp.array(dyn.step(POS("dt"), VEC("x", 4), VEC("u", 2))[0]))
    CHECK("tests the given filter", t.rta is rta)
    CHECK_EQ("points", t.n_points, 2)


def docking_draws(which, own):
    """initial states of the ready-made tests"""
    rta = Filter(["h1"], False)
    if which == "lhs":
        lo, hi = [-10000.0, -10000.0, -5.0, -5.0], [10000.0, 10000.0, 5.0, 5.0]
        kw = {}
        if own:
            lo, hi = [SYM("l" + str(i)) for i in range(4)], [SYM("g" + str(i)) for i in range(4)]
            kw = {"bounds": np.array([lo, hi])}
        t = rst.Docking2DLatinHypercubeRandomSampleTest(rta=rta, n_points=2, **kw)
        x = t._get_initial_state()
        for i in range(4):
            e = DRAW(x[i], "lhs")
            CHECK("drawn over the whole interval", x[i] == lo[i] + e * (hi[i] - lo[i]) or x[i] == hi[i] - e * (hi[i] - lo[i]))
    else:
        mean, dev = [0.0, 0.0, 0.0, 0.0], [5000.0, 5000.0, 2.0, 2.0]
        kw = {}
        if own:
            mean, dev = [SYM("l" + str(i)) for i in range(4)], [SYM("g" + str(i)) for i in range(4)]
            kw = {"distribution_params": np.array([mean, dev])}
        t = rst.Docking2DParametricRandomSampleTest(rta=rta, n_points=2, **kw)
        x = t._get_initial_state()
        for i in range(4):
            e = DRAW(x[i], "gauss")
            CHECK("gaussian with the documented mean and deviation", x[i] == mean[i] + e * dev[i] or x[i] == mean[i] - e * dev[i])
    CHECK("runs for the documented time", t._check_done_conditions(x, 100.0) and not t._check_done_conditions(x, 99.0))


def docking_default_filter(which):
    cls = rst.Docking2DLatinHypercubeRandomSampleTest if which == "lhs" else rst.Docking2DParametricRandomSampleTest
    t = cls(n_points=2)
    r = d2.Docking2dExplicitOptimizationRTA()
    CHECK("tests the optimisation based docking filter", isinstance(t.rta, d2.Docking2dExplicitOptimizationRTA))
    CHECK_EQ("with its constraints", list(t.rta.constraints.keys()), list(r.constraints.keys()))
