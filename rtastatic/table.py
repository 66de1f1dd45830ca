"""Which clients decide which property."""
import itertools


class E:
    def __init__(self, spec, func, tier="quick", budget=60, omit=None, **grid):
        self.spec, self.func, self.tier, self.budget, self.omit, self.grid = spec, func, tier, budget, omit, grid

    def configs(self):
        ks = list(self.grid)
        for vals in itertools.product(*[v if isinstance(v, list) else [v] for v in self.grid.values()]):
            c = dict(zip(ks, vals))
            if self.omit is None or not self.omit(c):
                yield c


J = [False, True]
B3 = ["none", "both", "low"]
B4 = ["none", "both", "low", "high"]
B5 = ["both", "low", "high", "scalar"]
KINDS = ["explicit_simplex", "implicit_simplex", "explicit_asif", "implicit_asif", "discrete_asif", "cascaded"]
ZOO = ["1v1", "1v1sun", "1v1short", "discrete", "nd", "deltav", "combined", "combined2", "n1ES", "n1IS", "n1EA", "n1IA", "d2ES", "d2IS", "d2EA", "d2IA", "d3ES", "d3IS", "d3EA", "d3IA"]
KINDS_ST = KINDS + ["stateful_simplex", "stateful_implicit_simplex", "stateful_implicit_asif"]

PROPERTIES = {}


def P(pid, rule, clients, assumptions=()):
    PROPERTIES[pid] = {"rule": rule, "clients": clients, "assumptions": list(assumptions)}
K5 = ["explicit_simplex", "implicit_simplex", "explicit_asif", "implicit_asif", "discrete_asif"]


P("C01", "every control returned by an enabled filter, on every path, lies inside the configured control bounds; saturation changes nothing else", [
    E("base", "any_bounds", bnd=B5 + ["list"]),
    E("base", "kind_bounds", kind=KINDS, bnd=B5 + ["list"], jit=J),
    E("base", "kind_bounds", kind=KINDS, bnd="both", jit=False, prior=100),
    E("zoomod", "zoo_bounds", which=["1v1", "discrete", "nd", "deltav", "combined", "d3ES", "d3IS", "d3EA", "d3IA"]),
    E("dynamic", "cascade_child_bounds"),
    E("many", "many_bounds", m=[5, 12], bnd=["both", "low", "high", "scalar"], jit=J),
    E("base", "bounds_changed", kind=KINDS, jit=J, first=J),
])
P("C02", "a disabled module returns the desired control value-identically and reports no intervention", [
    E("base", "any_disabled"),
    E("base", "kind_disabled", kind=KINDS_ST, jit=J),
    E("base", "kind_disabled", kind=KINDS_ST, jit=False, prior=100),
    E("zoomod", "zoo_disabled", which=ZOO),
])
P("C03", "no store through a caller's array is reachable from filter_control; returned and logged arrays share no storage with inputs or internals", [
    E("base", "any_alias", which=["any", "echo", "leaky", "jax"], bnd=["none", "both"], en=J),
    E("base", "kind_alias", kind=KINDS, bnd=["none", "both"], jit=J),
    E("base", "kind_alias", kind=KINDS, bnd="both", jit=False, prior=100),
    E("zoomod", "zoo_alias", which=ZOO, bnd=["none", "both"]),
])
P("C04", "after reset every read of mutable state yields the value a fresh module would read", [
    E("base", "reset_fresh", kind=KINDS_ST, jit=J, steps=[1, 2]),
    E("base", "reset_fresh", kind=KINDS_ST, jit=False, steps=1, prior=100),
    E("zoomod", "zoo_reset", which=ZOO),
    E("zoomod", "combined_reset", num=[1, 2]),
    E("zoomod", "delta_v_reset", steps=[2]),
])
P("C05", "the selected control equals backup iff an enabled constraint is negative at the predicted state", [
    E("simplex", "explicit_switch", bnd=B4, jit=J),
    E("simplex", "explicit_switch", bnd="both", jit=J, prior=[2, 12, 100]),
    E("simplex", "backup_saturated", bnd=B4, jit=J),
    E("wide", "wide_simplex", n=[1, 3], m=[1, 3], pattern=["e", "neen"], bnd=["none", "both"], jit=J),
    E("many", "many_simplex", count=13, at=[3, 5, 12], steps=None, jit=J),
    E("many", "many_simplex", count=[6, 8], at=5, steps=None, jit=False),
])
P("C06", "the constraint test covers the state after one desired step and after each backup step of the window", [
    E("simplex", "implicit_switch", bnd=["none", "both"], jit=J, n=0, window=0.5, jint=J),
    E("simplex", "implicit_switch", bnd=["none", "both"], jit=J, n=1, window=1, jint=J),
    E("simplex", "implicit_switch", bnd=["none", "both"], jit=J, n=2, window=2.5, jint=J),
    E("simplex", "implicit_switch", bnd="both", jit=J, n=1, window=1, jint=False, prior=[2, 12, 100]),
    E("simplex", "implicit_symbolic_window", jit=J),
    E("simplex", "implicit_step_change", jit=J),
    E("wide", "wide_simplex", n=[1, 3], m=[1, 3], pattern=["e", "nen"], bnd=["none", "both"], jit=J, steps=[1, 2]),
    E("wide", "wide_simplex", n=2, m=1, pattern=["n", "en"], bnd="none", jit=J, steps=[4, 6]),
    E("many", "many_simplex", count=13, at=[3, 12], steps=1, jit=J),
    E("many", "long_window", steps=12, when=13, jit=J),
    E("many", "long_window", steps=40, when=41, jit=J),
    E("many", "long_window", steps=150, when=151, jit=J),
    E("many", "long_window", steps=600, when=601, jit=J, budget=200),
    E("many", "long_window", steps=600, when=602, jit=J, budget=200),
])
P("C07", "latch automaton: on until latch_time has elapsed since the trigger", [
    E("simplex", "latch", kind=["explicit", "implicit"], jit=J, steps=5),
    E("simplex", "latch", kind=["explicit", "implicit"], jit=False, steps=3, prior=100),
    E("simplex", "latch_default", jit=J),
    E("many", "long_latch", steps=[30, 130], jit=J),
])
P("C08", "the control is the solution of the documented quadratic program", [
    E("asif", "explicit_rows", bnd=B4 + ["scalar"], slack="none", direct=J, jit=J),
    E("asif", "explicit_rows", bnd="both", slack="none", direct=True, jit=J, prior=[2, 12, 100]),
    E("wide", "wide_explicit", n=[1, 3], m=[1, 3], pattern=["n", "nee", "nnnn"], nd=[0, 2], bnd=["none", "both"], jit=J),
    E("many", "many_explicit", count=13, at=[3, 12], slacks=0, m=[2, 12], nd=13, bnd=["none", "both"], jit=J, names=False),
])
P("C09", "the control is the solution of the documented program whose rows are taken along the backup trajectory", [
    E("implicit", "implicit_rows", bnd=["none", "both", "low"], slack="none", direct=J, jit=J, n=1, window=1, jint=False),
    E("implicit", "implicit_rows", bnd="both", slack="none", direct=False, jit=J, n=2, window=2.5, jint=J),
    E("implicit", "implicit_rows", bnd="both", slack="none", direct=False, jit=J, n=0, window=0.5, jint=J),
    E("implicit", "implicit_rows", bnd="both", slack="none", direct=True, jit=J, n=1, window=1, jint=False, prior=[2, 12, 60]),
    E("implicit", "implicit_step_change", jit=J, first=J),
    E("implicit", "implicit_rows", bnd=["none", "both", "low", "high"], slack="none", direct=J, jit=J, n=2, window=2, jint=J, budget=200),
    E("implicit", "implicit_rows", tier="thorough", bnd=["both"], slack="none", direct=False, jit=J, n=3, window=3, jint=J, budget=300),
    E("wide", "wide_implicit", n=[1, 3], m=[1, 3], pattern=["n", "nen"], nd=[0, 2], bnd=["none", "both"], jit=J, steps=1),
    E("wide", "wide_implicit", n=2, m=1, pattern="ne", nd=0, bnd="none", jit=J, steps=[3, 4], budget=200),
    E("many", "many_implicit", count=13, at=[3, 12], slacks=0, m=2, nd=13, bnd=["none", "both"], jit=J, steps=1, names=False),
    E("many", "many_implicit", count=2, at=1, slacks=0, m=12, nd=1, bnd="both", jit=J, steps=1, names=False),
    E("many", "long_rows", steps=[12, 40], jit=J, names=False),
    E("many", "long_rows", steps=150, jit=False, names=False),
    E("many", "long_rows", steps=600, jit=J, names=False, skip=600, budget=200),
])
P("C10", "the control is the solution of the documented discrete-time program", [
    E("discrete", "discrete_program", bnd=B4 + ["scalar"], slack="none", jit=J),
    E("discrete", "discrete_program", bnd="both", slack="none", jit=J, prior=[2, 12, 100]),
    E("discrete", "discrete_two_steps", bnd=["none", "both"], jit=J),
    E("discrete", "discrete_integrated", bnd=["none", "both"], jit=J),
    E("wide", "wide_discrete", n=[1, 3], m=[1, 3], pattern=["n", "nee", "nnnn"], bnd=["none", "both"], jit=J),
    E("many", "many_discrete", count=13, at=[3, 12], slacks=0, m=[2, 12], jit=J),
])
P("C11", "slack columns and weights of the quadratic program", [
    E("asif", "explicit_rows", bnd=["none", "both"], slack=["first", "second", "both"], direct=J, jit=J),
    E("implicit", "implicit_rows", bnd="both", slack=["first", "second", "both"], direct=True, jit=True, n=1, window=1, jint=False),
    E("implicit", "implicit_rows", bnd=["none", "both"], slack=["first", "second", "both"], direct=J, jit=J, n=1, window=1, jint=J, budget=120),
    E("discrete", "discrete_program", bnd=["none", "both"], slack=["first", "second", "both"], jit=J),
    E("asif", "explicit_rows", bnd="both", slack="both", direct=True, jit=J, prior=[2, 12, 100]),
    E("discrete", "discrete_program", bnd="both", slack="both", jit=J, prior=[2, 12, 100]),
    E("implicit", "implicit_rows", bnd="both", slack="both", direct=True, jit=False, n=1, window=1, jint=False, prior=[2, 12, 60]),
    E("wide", "wide_explicit", n=2, m=[1, 2, 3], pattern=["sss", "sns", "nts", "tnsn", "ssss"], nd=[0, 2], bnd=["none", "both"], jit=J),
    E("wide", "wide_implicit", n=2, m=[1, 3], pattern=["sss", "sns", "nts", "tnsn"], nd=1, bnd="both", jit=J, steps=[0, 1, 2]),
    E("wide", "wide_discrete", n=2, m=[1, 2, 3], pattern=["sss", "sns", "nts", "tnsn"], bnd=["none", "both"], jit=J),
    E("many", "many_explicit", count=13, at=[3, 12], slacks=[1, 2], m=2, nd=13, bnd=["none", "both"], jit=J, names=False),
    E("many", "many_implicit", count=13, at=[3, 12], slacks=[1, 2], m=2, nd=2, bnd="both", jit=J, steps=1, names=False),
    E("many", "many_discrete", count=13, at=[3, 12], slacks=[1, 2], m=2, jit=J),
])
P("C12", "solver failure: warning and saturated desired control, or SolverError when requested; no other error is swallowed", [
    E("asif", "infeasible_warns", bnd=["none", "both"], jit=J, prior=[0, 1, 2]),
    E("asif", "infeasible_warns", bnd="both", jit=J, prior=[12, 100]),
    E("asif", "infeasible_raises", bnd=["none", "both"], jit=J, prior=[0, 1, 2]),
    E("asif", "other_errors_propagate", exc=J),
    E("discrete", "discrete_failure", bnd=["none", "both"], jit=J, exc=J, prior=[0, 1]),
])
P("C13", "the intervening flag is true exactly when the filter changed the control", [
    E("asif", "intervening_flag", bnd=["none", "both"], slack=["none", "first"], direct=J, jit=J),
    E("asif", "intervening_flag", bnd="both", slack="first", direct=True, jit=J, prior=[2, 12, 100]),
    E("discrete", "discrete_flag", bnd="both", slack="first", jit=J, prior=[2, 12, 100]),
    E("base", "logged", kind=KINDS, jit=J),
    E("base", "logged", kind=KINDS, jit=False, prior=100),
    E("discrete", "discrete_flag", bnd=["none", "both"], slack=["none", "first"], jit=J),
])
P("C14", "the reported cause names exactly the active rows of the latest quadratic program", [
    E("asif", "attribution", bnd=["none", "both", "low"], slack=["none", "first"], direct=J, jit=J),
    E("asif", "attribution", bnd="both", slack="first", direct=True, jit=J, prior=[2, 12, 100]),
    E("implicit", "implicit_attribution", bnd="both", slack="first", direct=True, jit=False, n=1, window=1, jint=False, prior=[12, 60]),
    E("asif", "attribution_two_steps", bnd=["none", "both"], jit=J),
    E("implicit", "implicit_attribution", bnd=["none", "both"], slack=["none", "first"], direct=True, jit=J, n=1, window=1, jint=False),
    E("implicit", "implicit_step_change", jit=J, first=J),
    E("implicit", "implicit_attribution", tier="thorough", bnd=["none", "both", "low", "high"], slack=["none", "first", "second", "both"], direct=J, jit=J, n=[1],
      window=1, jint=J, budget=120),
    E("wide", "wide_explicit", n=2, m=[1, 3], pattern=["nne", "sns"], nd=2, bnd=["none", "both", "low"], jit=J, steps=[1, 2], names=True),
    E("wide", "wide_implicit", n=2, m=3, pattern=["nne", "sns"], nd=2, bnd=["none", "both"], jit=J, steps=[0, 1, 2], names=True),
    E("many", "many_explicit", count=13, at=[3, 12], slacks=2, m=2, nd=13, bnd=["none", "both"], jit=J, names=True),
    E("many", "many_implicit", count=13, at=12, slacks=2, m=2, nd=13, bnd="both", jit=J, steps=1, names=True),
    E("many", "many_explicit", count=2, at=1, slacks=0, m=12, nd=12, bnd=["both", "low"], jit=J, names=True),
    E("many", "many_implicit", count=2, at=1, slacks=0, m=12, nd=1, bnd="both", jit=J, steps=1, names=True),
    E("many", "long_rows", steps=[12, 40], jit=J, names=True),
])
P("C15", "no result of a call depends on a constraint parameter, enabled flag, step size or state of an earlier call", [
    E("dynamic", "change", kind=K5, jit=J, what=["item", "replace", "enabled"], jint=False),
    E("dynamic", "change", kind=["explicit_asif", "implicit_asif"], jit=J, what="direct", jint=False),
    E("dynamic", "change", kind=["implicit_simplex", "implicit_asif"], jit=J, what=["item", "enabled"], jint=True),
    E("dynamic", "change_back", kind=K5, jit=J),
    E("dynamic", "step_size_change", kind=K5, jit=J),
    E("dynamic", "long_history", kind=K5, jit=J, calls=100, same=False),
    E("dynamic", "long_history", kind=K5, jit=False, calls=100, same=True),
    E("zoomod", "zoo_history", which=[z for z in ZOO if z not in ("combined", "combined2", "1v1sun", "deltav")], calls=40),
    E("zoomod", "inspection_repeat", which=["1v1", "nd", "discrete"], jit=J),
    E("zoomod", "inspection_history", which=["1v1", "nd"], jit=J),
    E("many", "many_changes", count=13, at=[3, 12], kind=["simplex", "asif"], jit=J),
    E("dynamic", "paused", kind=K5, jit=J, calls=[0, 30]),
])
P("C16", "backup controller state: saved and restored around prediction, advanced once per applied control", [
    E("simplex", "backup_state_switch", kind=["explicit", "implicit"], window=[1, 2]),
    E("simplex", "backup_state_asif", window=[1, 2]),
    E("simplex", "backup_state_switch", kind=["explicit", "implicit"], window=1, prior=40),
    E("simplex", "backup_state_asif", window=1, prior=40),
    E("simplex", "controller_contract"),
    E("simplex", "controller_contract_dict", mut=J),
    E("many", "long_stateful", steps=[12, 40, 150]),
])
P("C17", "logged constraint values are the values of every constraint at the filtered state", [
    E("dynamic", "logging", kind=K5, jit=J, en=J),
    E("dynamic", "logging", kind=K5, jit=False, en=True, prior=100),
    E("dynamic", "logging_hocbf", jit=J),
    E("many", "many_explicit", count=13, at=12, slacks=0, m=2, nd=0, bnd="none", jit=J, names=False),
    E("many", "many_simplex", count=13, at=12, steps=None, jit=J),
])
P("C18", "constraint value, bias, strengthening and the high-order construction", [
    E("constraints", "bias", jit=J),
    E("constraints", "bias", jit=J, prior=40),
    E("constraints", "strengthening"),
    E("constraints", "strengthening_rejects", which=["tuple", "str"]),
    E("constraints", "alpha_required"),
    E("constraints", "hocbf", degree=[1, 2, 3, 4], jit=J),
    E("constraints", "hocbf_chain", degree=[4, 5, 6]),
    E("constraints", "hocbf_kwargs"),
    E("constraints", "no_shared_defaults"),
    E("constraints", "direct_defaults"),
])
P("C19", "value, safe set and strengthening of every library constraint as a function of state and parameters", [
    E("constraints", "limit", kind=["magnitude", "max", "min"], idx=[0, 2], jit=J),
    E("constraints", "limit_kwargs", kind=["magnitude", "max", "min"]),
    E("zoo", "con_rel_vel", dim=[2, 3], jit=J),
    E("zoo", "con_collision", which=["chief", "deputy1", "deputy2", "deputy4", "deputy7", "rmax", "hocbf"], jit=J),
    E("zoo", "con_cone", jit=J),
    E("zoo", "con_psm", which=[0, 1, 2], jit=J, steps=3),
    E("zoo", "con_psm", which=4, jit=False, steps=2),
    E("zoo", "con_integrator", which=["explicit", "implicit"], jit=J),
    E("zoo", "con_own_alpha", which=list(range(9))),
    E("zoo", "con_params", which=list(range(6))),
])
P("C20", "CWH matrices and the drift, input and next-state maps of the inspection models", [
    E("zoo", "cwh_matrices", mode=["2d", "3d"]),
    E("zoo", "cwh_default_mode"),
    E("zoo", "cwh_bad_mode"),
    E("zoomod", "inspection_1v1", cfg=["default", "symbolic"], discrete=J, what="dyn"),
    E("zoomod", "inspection_nd", num=[1, 2, 3], cfg=["default", "symbolic"], what="dyn"),
    E("zoomod", "inspection_flow", cfg=["default", "symbolic"]),
    E("sampling", "docking_tests", which=["lhs", "par"]),
])
P("C21", "the verdict of a sample, as a function of the simulated trajectory; recorded rows and trajectories", [
    E("sampling", "verdict", mode=["plain", "done", "passive"], steps=[1, 2], count=[1, 2], fails=J, sym=J),
    E("sampling", "verdict", tier="thorough", mode=["plain", "done", "passive"], steps=[3, 4], count=[1, 2, 3], fails=J, sym=J, budget=200),
    E("sampling", "verdict_changed", steps=[1]),
    E("sampling", "independent", prior=[1, 2, 8]),
    E("sampling", "report_real", count=[1, 3], steps=[1, 2]),
    E("sampling", "report", pattern=["a", "b", "c", "d"]),
    E("sampling", "tracking", steps=[1, 3], skip=[None, 0, 2]),
    E("sampling", "initial_safe", count=[1, 3]),
    E("sampling", "hypercube"),
    E("sampling", "parametric"),
    E("sampling", "parametric_gauss"),
    E("sampling", "parametric_bad"),
    E("sampling", "docking_draws", which=["lhs", "par"], own=J),
    E("sampling", "docking_default_filter", which=["lhs", "par"]),
    E("sampling", "verdict", mode=["plain", "done", "passive"], steps=20, count=1, fails=True, sym=True, budget=200),
    E("sampling", "report_real", count=[12, 130], steps=1),
    E("sampling", "report_real", count=12, steps=12),
    E("sampling", "tracking", steps=[40, 130], skip=[None, 30, 97]),
    E("sampling", "initial_safe", count=12),
])
P("C22", "composition: cascaded filters chain, combined filters act per deputy", [
    E("dynamic", "cascade", bnd=["none", "both"], count=[1, 2, 3], disabled=[None, 0, 1], omit=lambda c: c["disabled"] is not None and c["disabled"] >= c["count"]),
    E("dynamic", "cascade", bnd="both", count=2, disabled=[None, 1], prior=100),
    E("dynamic", "cascade_child_bounds"),
    E("zoomod", "combined", num=[1, 2, 3], bnd=["none", "both"]),
    E("zoomod", "combined_reset", num=[1, 2]),
    E("zoomod", "combined_default", num=[1, 2]),
    E("zoomod", "zoo_cascade"),
    E("many", "many_cascade", count=[5, 7, 13]),
    E("zoomod", "combined", num=[6, 9], bnd=["none", "both"]),
])
P("C23", "configuration switches that must not change behaviour: constraint selection and jit compilation", [
    E("dynamic", "selection", kind=K5, jit=J, keep=["1", "23", "13"]),
    E("dynamic", "selection", kind=K5, jit=J, keep=["23", "13"], order=-1),
    E("dynamic", "selection_empty", kind=K5),
    E("dynamic", "jit_agrees", kind=K5, bnd=["none", "both"], jint=J),
    E("dynamic", "jit_agrees", kind=K5, bnd="both", jint=False, prior=[12, 40], budget=120),
    E("many", "many_select", count=13, use=["12", "12,2,7", "11,9,6,1", "0,1,2,3,4,5,6,7,8,9,10,11,12"], jit=J),
    E("dynamic", "jit_mixed", kind="explicit_simplex", on=list(range(4))),
    E("dynamic", "jit_mixed", kind="implicit_simplex", on=list(range(8))),
    E("dynamic", "jit_mixed", kind="explicit_asif", on=list(range(4))),
    E("dynamic", "jit_mixed", kind="implicit_asif", on=list(range(64))),
    E("dynamic", "jit_mixed_steps", kind="implicit_simplex", on=list(range(8))),
    E("dynamic", "jit_mixed_steps", kind="implicit_asif", on=list(range(64))),
])
P("C24", "the ready-made modules are the generic filters with the documented dynamics, constraints and backup", [
    E("zoomod", "docking_constraints", dim=[2, 3], kind=["ES", "IS", "EA", "IA"]),
    E("zoomod", "docking_few", dim=[2, 3], kind=["ES", "IS", "EA", "IA"], cfg=["default", "symbolic", "backup"], method=None, jit=True),
    E("zoomod", "docking", dim=[2, 3], kind=["ES", "EA"], cfg=["default", "symbolic"], method=None, jit=True),
    E("zoomod", "docking_few", dim=[2, 3], kind=["ES", "IS", "IA"], cfg=["default"], method="Euler", jit=J),
    E("zoomod", "bad_method", which=["2d", "3d", "1d"]),
    E("zoomod", "integrator", kind=["ES", "IS", "EA", "IA"], cfg=["default", "symbolic", "backup"], method=None, jit=J),
    E("zoomod", "integrator", kind=["ES", "IS", "IA"], cfg=["default", "symbolic"], method="Euler", jit=True),
    E("zoomod", "inspection_1v1", cfg=["default", "symbolic"], discrete=J, what=["set", "light", "sun", "psm"]),
    E("zoomod", "inspection_hocbf"),
    E("zoomod", "inspection_filter", discrete=J, cfg=["default", "symbolic"], jit=J),
    E("zoomod", "inspection_short_state", jit=J),
    E("zoomod", "inspection_nd", num=[1, 2], cfg=["default", "symbolic"], what=["set", "light", "sun", "psm"]),
    E("zoomod", "inspection_nd", num=2, cfg=["default"], what=["dsun", "dpsm"], budget=120),
    E("zoomod", "inspection_nd_filter", num=[1, 2], jit=J),
    E("zoomod", "docking", tier="thorough", dim=[2, 3], kind=["ES", "IS", "EA", "IA"], cfg=["default", "symbolic", "backup"], method=None, jit=J, budget=300),
    E("zoomod", "inspection_nd", tier="thorough", num=3, cfg=["default", "symbolic"], what=["set", "light", "sun", "psm", "dsun", "dpsm"], budget=300),
])
P("C25", "state wrappers read and write exactly their own components of the vector", [
    E("zoo", "wrapper", which=["docking2d", "docking3d", "inspection", "integrator"], extra=[0, 1, 3]),
])
P("C26", "the rows kept along the backup trajectory are exactly the configured ones", [
    E("implicit", "subsample", jit=True, call=None, skip=None, least=[None, 2], first=J, last=False, slack=True, budget=100),
    E("implicit", "subsample", jit=True, call=[None, 1, 2], skip=[2, 3], least=None, first=False, last=J, slack=False, budget=100),
    E("implicit", "subsample", jit=False, call=1, skip=2, least=2, first=True, last=True, slack=True, budget=100),
    E("implicit", "subsample", jit=False, call=1, skip=2, least=2, first=True, last=True, slack=True, prior=[12, 40], budget=100),
    E("implicit", "subsample", tier="thorough", jit=J, call=[None, 0, 1, 2, 3], skip=[None, 2, 3], least=[None, 1, 2], first=J, last=J, slack=J, budget=200),
    E("many", "long_rows", steps=150, jit=J, names=False, skip=[7, 60], every=-1, first=J, last=J),
    E("many", "long_rows", steps=150, jit=False, names=False, skip=40, every=[2, 12], first=True, last=True),
    E("many", "long_rows", steps=600, jit=False, names=False, skip=[150, 600], every=-1, first=False, last=J, budget=200),
])
P("C27", "fuel limit switching: triggers when the predicted stopping fuel exceeds the limit and stays switched", [
    E("zoomod", "delta_v", steps=[2, 3], calls=[1, 2]),
    E("zoomod", "delta_v_reset", steps=[2]),
    E("zoomod", "delta_v_defaults"),
    E("zoomod", "delta_v", tier="thorough", steps=[4, 5], calls=[1, 2, 3], budget=300),
    E("many", "long_fuel", steps=[40, 150, None], margin=[0.5, 1, 1.5]),
])
P("C28", "backup controllers: jacobian is the derivative of the control law; malformed controllers are rejected", [
    E("simplex", "controller_jacobian", jit=J),
    E("simplex", "controller_jacobian_stateful", steps=[0, 1, 2, 20]),
    E("simplex", "controller_rejects_bad_output"),
    E("zoomod", "stop_lqr", dim=[2, 3]),
    E("zoomod", "integrator_backup"),
])
