p("C01", "Filtered control respects the control bounds",
  "Whenever a module is enabled and has a lower and/or an upper control bound, every component of the control it returns (and logs as the actual control) lies within each bound given, for every kind of module and whichever path produced the control (desired, backup or optimised). Saturation changes nothing that already lies inside the bounds.",
  [IN, CF, HI], "all states, step sizes, desired controls, bounds (only lower, only upper, both, scalar or per-element), all module kinds, any sequence of calls",
  "The tests drive a few docking trajectories with one set of symmetric bounds; one-sided bounds, saturated backups and later calls are never observed.",
  [BASE, SIM, ASIF], [("RTAModule.filter_control / _clip_control", BASE), ("ControlBoundsRTA clipping of backup control", SIM)])
p("C02", "A disabled module passes the desired control through",
  "While a module is disabled the control it returns equals the desired control exactly (no saturation, no filtering), it reports that it is not intervening, and it logs the desired control as the actual one.",
  [IN, HI, CF], "all inputs, all module kinds, after any earlier history of enabled calls",
  "No test disables a module after it has intervened.", [BASE], [("enable switch of filter_control", BASE)])
p("C03", "Caller data is never mutated or aliased",
  "Filtering a control changes neither the state, nor the desired control, nor the bounds that the caller supplied, and the returned array and the logged controls do not share storage with the caller's arrays or with each other, so later writes by the caller cannot change what was logged or returned.",
  [IN, HI, CF], "all module kinds, enabled or not, with or without bounds, any numpy/jax array input",
  "Aliasing only shows when a caller writes to an array after the call; the tests never do.", [BASE], [("np.copy of desired and actual control", BASE)])
p("C04", "Reset restores the behaviour of a fresh module",
  "After reset, a module behaves exactly as a newly constructed one with the same arguments: it is enabled, not intervening, reports the same information, and produces the same controls for any further sequence of inputs, whatever happened before (triggered backups, latches, logged constraints, stateful backup controllers, nested modules).",
  [HI, CF], "all histories before the reset, all inputs after it, all module kinds",
  "Tests build a new module per run and never reset one that has state.", [BASE, SIM, ASIF, CTRL], [("reset methods", BASE), ("RTABackupController.reset", CTRL)])
p("C05", "Simplex filters switch exactly on predicted violation",
  "A simplex filter that checks the next state returns the (saturated) backup control if and only if some enabled constraint is negative at the state predicted for the desired control over one step, and the (saturated) desired control otherwise; its intervening flag says which.",
  [IN, CF], "all states, controls, step sizes, constraint functions, parameters, enabled subsets, prediction models and backup laws",
  "Tests sample a few trajectories; a constraint or an enabled flag that is ignored is invisible when another one triggers.", [SIM, BASE], [("SimplexModule.compute_filtered_control / monitor", SIM)])
p("C06", "Implicit simplex covers the whole backup trajectory",
  "An implicit simplex filter intervenes if and only if some enabled constraint is negative at the state after one step of the desired control or at any of the states reached by following the saturated backup control from there for the whole number of steps that fit into the backup window.",
  [IN, CF, HI], "all windows and step sizes (also changing between calls), all dynamics, constraints and backup laws, both trajectory integration modes",
  "A dropped first or last trajectory point changes the decision only for states near the boundary that the tests do not visit.", [SIM, BASE], [("ImplicitSimplexModule._monitor / compute_trajectory", SIM)])
p("C07", "Latched backup lasts exactly the latch time",
  "Once triggered, a simplex filter keeps applying the backup control, with its intervening flag set, on each step until the elapsed step time since the trigger reaches the latch time, and from then on it decides every step afresh; with the default latch time every step is decided on its own.",
  [HI, IN], "all latch times, step sizes varying per step, and trigger histories", "No test uses a latch time.", [SIM], [("latch timer in SimplexModule", SIM)])
p("C08", "Explicit ASIF solves the documented quadratic program",
  "The control returned by an explicit active-set filter is the saturated minimiser of the distance to the desired control subject to one row per control bound, one barrier row per enabled constraint (gradient times input matrix, against minus gradient times drift minus the strengthening of the biased constraint value, with the negative-side strengthening when the value is negative) and one row per enabled direct inequality; disabled rows impose nothing.",
  [IN, CF], "all states, controls, bounds, dynamics, constraint functions, parameters, strengtheners, enabled subsets, jit on and off",
  "Numeric tests exercise a few zoo constraints; a wrong sign, index or missing row only matters where that row is active.", [ASIF, CON], [("ASIFModule QP assembly", ASIF), ("ExplicitASIFModule.generate_barrier_constraints", ASIF)])
p("C11", "Slack variables relax only their own constraint",
  "When a constraint has a slack priority, the quadratic program gains one slack variable for it that relaxes only that constraint's rows and is penalised with its own priority; other constraints, bounds and direct inequalities get no relaxation, and the slack never appears in the returned control.",
  [IN, CF], "every subset of constraints with slack, in every position", "Tests use at most one slack configuration and check only final states.", [ASIF], [("slack columns of the QP", ASIF)])
p("C12", "Solver failure is reported, never silent or unsafe",
  "If the quadratic program is infeasible the filter either raises its solver error (when asked to) or emits one warning, passes the desired control through saturated and reports no intervention; any other error of the solver propagates to the caller.",
  [IN, "fault_sequences"], "every infeasible program, every other solver error, both settings", "No test makes the program infeasible.", [ASIF, UT], [("exception handling around solve_qp", ASIF)])
p("C13", "The intervening flag is truthful",
  "After each enabled call an optimisation-based filter reports that it intervenes exactly if its optimiser moved the control by more than its tolerance, and the reported information describes the latest call (desired and actual control, enabled and intervening flags).",
  [IN, HI, CF], "all inputs and tolerances, all module kinds", "Tests plot the flag but never assert it.", [ASIF, BASE], [("monitor / generate_info", ASIF)])
p("C14", "Intervention is attributed to the active constraints",
  "After each call the reported list of constraints causing the intervention names exactly the rows of the latest program that are active at the optimum, by the correct names, and is empty when the program had no solution; nothing from earlier calls remains.",
  [IN, HI, CF], "all active sets, with and without bounds, slack, direct inequalities, over successive calls", "Attribution is only printed in tests.", [ASIF], [("constraint name list and active set", ASIF)])
p("C16", "Prediction never disturbs the live backup controller",
  "Predicting the backup trajectory leaves the internal state of the backup controller as it was, applying a backup control advances it exactly once, and save, restore and reset return to the saved and the initial state respectively even if the controller updates its state in place.",
  [HI, IN], "all controller states and laws, all interleavings of prediction and application over successive calls", "All backup controllers in the tests are stateless.", [CTRL, SIM, ASIF], [("save/restore around the rollout", SIM), ("RTABackupController", CTRL)])
p("C28", "Backup controller interface is consistent",
  "The Jacobian offered by a backup controller is the derivative of its control law with respect to the state at the given step size, and a controller whose law does not return a control together with a state is rejected.",
  [IN, CF], "all control laws, states, step sizes", "Only used inside one filter's sensitivity propagation.", [CTRL], [("RTABackupController.jacobian / compute_jacobian", CTRL)])
p("C40", "Closed-loop forward invariance",
  "A system started in the safe set and driven only through the filter stays in the safe set for all time.", [IN, HI], "all initial states, control histories, continuous time",
  "A limit property over unbounded continuous-time trajectories.", [ASIF, SIM], [("barrier rows", ASIF)])
p("C41", "Numerical accuracy of the optimisers",
  "The floating-point solution returned by the numeric back ends is within tolerance of the exact optimum of the program they are given.", [IN], "all program data", "Depends on third-party numeric code.", [ASIF], [("quadprog / SLSQP", ASIF)])
p("C42", "Real-time execution",
  "Each filtering call completes within the step size.", [IN, CF], "all inputs and platforms", "Wall-clock property.", [BASE], [("jit compilation", BASE)])
p("C09", "Implicit ASIF enforces barrier rows along the backup trajectory",
  "The control returned by an implicit active-set filter is the saturated minimiser of the distance to the desired control subject to the control bounds, the enabled direct inequalities and, for every enabled constraint, one barrier row at the current state and one at each state reached by following the saturated backup control over the backup window, each using the gradient at that state propagated back with the trajectory sensitivity, the current drift and input matrices, and the strengthening function.",
  [IN, CF, HI], "all states, controls, windows, step sizes (also changing between calls), dynamics, constraints, parameters, enabled subsets and backup laws, both trajectory integration modes",
  "A missing or misplaced trajectory row matters only when that very point is the active one.", [ASIF, BASE, CTRL], [("ImplicitASIFModule._generate_barrier_constraint_mats / compute_trajectory", ASIF)])
p("C10", "Discrete ASIF solves the documented discrete-time program",
  "The control returned by a discrete-time active-set filter is the saturated result of minimising the distance to the desired control subject to the control bounds and, for every enabled constraint, the condition (h(next) - h(now)) / step + alpha(h(now)) >= 0 at the state predicted for the current call's state and step size, started from the desired control.",
  [IN, HI, CF], "all states, controls, step sizes, bounds (one-sided, two-sided, scalar), constraints, enabled subsets; successive calls",
  "Tests run one discrete module with its default configuration.", [ASIF], [("DiscreteASIFModule optimisation set-up", ASIF)])
p("C15", "Each call uses only the current configuration and inputs",
  "The result of a call depends on the current state, step size and desired control and on the constraint parameters and enabled flags in force at that call: changing, replacing or restoring a parameter, switching a constraint on or off, or changing the step size between calls takes effect at the next call, with and without compilation, and nothing computed for an earlier call is reused.",
  [HI, IN, CF], "all module kinds, all histories of calls and parameter changes, compiled or not",
  "Compiled functions cache traced values; the effect appears only when a parameter changes after a first call, which tests do not do.", [BASE, SIM, ASIF, CON, I1, I3],
  [("params passed as jit arguments", BASE), ("constraint enabled flags", CON)])
p("C17", "Logged constraint values describe the filtered state",
  "The constraint values a module reports after a call are, for every constraint and under its name, the value of that constraint's safe set function at the state that was filtered, with the parameters in force, and they are refreshed by every call and emptied by reset.",
  [HI, IN, CF], "all states, parameters, module kinds, successive calls", "The log is only written to plots.", [BASE, CON], [("generate_info / constraint_values", BASE)])
p("C18", "Constraint objects compute what they declare",
  "A constraint's value is its formula at the given state and parameters plus its bias, its gradient is the derivative of the formula, its strengthening function is the one given or the documented default, and a high-order constraint of relative degree r is the r-fold recursion of Lie derivative plus strengthening of the wrapped constraint; malformed strengthening arguments are rejected; constraints share no mutable defaults.",
  [IN, CF], "all states, parameters, biases, strengthening functions and relative degrees", "Tests check only trajectories of complete systems.", [CON], [("ConstraintModule.compute / grad / alpha", CON), ("HOCBFConstraint", CON)])
p("C19", "Library constraints implement their documented formulas",
  "Each ready-made constraint (state limits, relative velocity, chief and deputy collision, maximum distance, exclusion cone, passively safe maneuver, one-dimensional docking) evaluates its documented formula at every state, reports its documented safe set function, uses its documented default strengthening unless one is given, and follows its parameters when they are changed.",
  [IN, CF], "all states and parameter values", "Tests evaluate constraints at the visited states of a few trajectories with default parameters.", [CON, D2, D3, I1, I3, N1], [("_compute / _phi of the constraint classes", I1)])
p("C20", "Relative orbital dynamics are the Clohessy-Wiltshire equations",
  "The matrices used for relative motion are those of the Clohessy-Wiltshire equations for the given mass and mean motion, in two and three dimensions; the drift, input and next-state maps of the inspection models apply them to every deputy, actuate only the controlled one and advance the sun angle at the configured rate; unknown modes are rejected.",
  [IN, CF], "all states, controls, masses, mean motions, numbers of deputies", "Tests compare no dynamics; a wrong coupling term is small at the default mean motion.", [CU, I1, I3, RS], [("generate_cwh_matrices", CU), ("state_transition_system / next_state_differentiable", I1)])
p("C21", "Sample testing verdicts are correct and independent",
  "A sample is rejected exactly if its initial state violates a constraint; otherwise it is reported safe exactly if the filter found a control at every step and no visited state, the last included, violates the safe set; each reported row pairs the verdict with its own initial state; verdicts do not depend on earlier samples; recorded trajectories pair every state with the control and flag that led to it; drawn states follow the configured distribution.",
  [HI, IN, CF], "all initial states, filters, dynamics, done conditions and constraint sets, numbers of steps", "The harness itself is not tested.", [SAMP, RS], [("_simulate_episode / run_sample_test / simulate_episode", SAMP)])
p("C22", "Composed filters compose their members",
  "A cascaded filter applies its members in order, each to the previous member's output with the same state and step size, a disabled member passing through; a combined inspection filter applies its per-deputy filter to every deputy from that deputy's own point of view and own share of the control; both report an intervention exactly if some member intervened on this call, and reset resets the members.",
  [IN, HI, CF], "all numbers of members, member filters with memory, enabled subsets, bounds, successive calls", "Only one cascade with default members is run in tests.", [BASE, I3, I1], [("CascadedRTA.compute_filtered_control", BASE), ("CombinedInspectionRTA", I3)])
p("C23", "Constraint selection and compilation do not alter behaviour",
  "Restricting a module to named constraints makes it behave exactly as a module defined with only those constraints, in their original order, and enabling or disabling compilation (of everything or of single functions) changes no control, flag, log or attribution.",
  [CF, IN], "all module kinds, selections, compilation settings, inputs", "Tests use one compilation setting and one selection each.", [BASE, SIM, ASIF], [("constraints_to_use", BASE), ("compose / jit_enable", BASE)])
p("C24", "Ready-made modules wire the documented models",
  "Each ready-made docking, integrator and inspection filter behaves as the generic filter of its kind with the documented dynamics, constraints (names, parameters, biases, strengthening), default bounds, backup controller, window and integration method, for default as well as for user-given arguments, every argument reaching the place it is documented for.",
  [IN, CF], "all states, controls, step sizes and constructor arguments", "Tests run default arguments along one trajectory each.", [D2, D3, I1, I3, N1, CU], [("_setup_properties / _setup_constraints of the zoo modules", I1)])
p("C25", "State wrappers expose and update exactly their own components",
  "Every named property of a state wrapper reads its documented components of the state vector, and assigning to it changes those components and no others, leaving the caller's vector alone.",
  [IN], "all state vectors and assigned values, all wrappers", "Setters are never called in tests.", [ST, D2, D3, I3, N1], [("RTAStateWrapper and its subclasses", ST)])
p("C26", "Trajectory subsampling keeps exactly the configured rows",
  "With subsampling configured for a constraint of an implicit active-set filter, the rows it contributes are exactly those at the configured trajectory points (all up to num_check_all, then every skip_length-th), reduced to the configured number with least constraint value, plus the first and last point when asked for, with slack and attribution still referring to the right constraint; constraints without subsampling keep all their rows.",
  [CF, IN], "all settings of the subsampling options and their combinations, all states", "Tests use no subsampling.", [ASIF, CON], [("subsample_constraints / ConstraintModule subsampling options", ASIF)])
p("C27", "Fuel limit filter stops in time and stays switched",
  "The fuel limit filter lets the desired control pass exactly while applying it for one step and then following its stopping control over the whole horizon keeps the accumulated fuel within its limit; otherwise it applies its stopping control on that same step and reports the intervention, and once switched it stays switched until reset; prediction leaves the live integrator state alone.",
  [HI, IN], "all states, fuel levels, controls, limits, step counts, successive calls", "The module is only run inside a cascade in one scenario.", [I1], [("SwitchingDeltaVLimitRTA", I1)])
