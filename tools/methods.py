METHOD = {
"C01": "The output of `filter_control` of every module kind, and of an arbitrary module whose `compute_filtered_control` is an uninterpreted function, is a gated value; the obligation is that each component is >= the low and <= the high bound on every gate, for vector, list, scalar and one-sided bounds, and equal to the unsaturated value inside them.",
"C02": "Same clients with `enable = False` after arbitrary earlier calls; output must be value-identical to the input term, the flag FALSE, the log entry the input term.",
"C03": "Points-to facts: every numpy array has an abstract location with copy-on-write views; obligations are (a) the stored value of each caller-owned location is the one it had before the call, (b) no returned or logged reference can be the same location as a caller-owned or another logged one.",
"C04": "A module is driven through an arbitrary history (fresh symbols), reset, driven again, and compared term by term with a freshly built one: outputs, flags, `generate_info`, attribution, logged constraints, backup controller state.",
"C05": "The gate of the backup control must be the disjunction, over the enabled constraints, of `h(pred(x,dt,u)) + bias < 0`; constraints, prediction and backup are uninterpreted, so the rule covers all of them.",
"C06": "Same disjunction over the states reached by 1 desired step and n saturated backup steps, n = int(window/step), for n = 0..6, symbolic windows and changing step sizes.",
"C07": "Three-step histories with independent symbolic step sizes, latch time and triggers against the two-variable latch automaton.",
"C08": "The quadratic program handed to quadprog is a value (objective, linear term, set of rows); it must equal the documented one for every number of states (1-3), controls (1-3), constraints (1-4), direct constraints (0-2) and bound combination. Row order, zero rows and redundant duplicates do not matter (the solver model is a function of the *program*).",
"C09": "As C08, with rows along the backup trajectory; the sensitivity is the derivative term of uninterpreted dynamics along the trajectory, for 0-4 steps.",
"C10": "The nonlinear program handed to `scipy.optimize.minimize` is a value: objective, bounds, start, and each constraint function with its Jacobian as a lambda body; it must equal the documented one. Includes the module that integrates a user-given state derivative.",
"C11": "As C08-C10 with up to four slack variables in every position, with and without symbolic enabled flags.",
"C12": "The solver model has an infeasible outcome as an exceptional edge; obligations are on the warning events, the exception that escapes, the control and flag on that edge; other exceptions must escape.",
"C13": "The flag must equal `||u_desired - u_solution|| > epsilon` with symbolic epsilon; `generate_info` must hold the terms of the latest call.",
"C14": "The solver model returns symbolic activity of each row; the reported collection, as a guarded set, must be {name(row) : active(row)} for every row, including row offsets from bounds, slack, direct constraints, trajectory length and subsampling.",
"C15": "Two-call histories in which parameters, flags, step size or states change in between; the second result must be the term a fresh module gives. Jit compilation is modelled as trace-time capture: reads of Python state inside a compiled function are frozen at the first call with the same static arguments and shapes.",
"C16": "Backup controllers with uninterpreted state update (returned or written in place); after filtering, the controller's state must be the old one, or the update of the old one once.",
"C17": "The logged dictionary must map each name to `phi` of the filtered state with the current parameters.",
"C18": "Constraint objects with uninterpreted formulas: value, bias, gradient (by differentiation of terms), strengthening defaults, high-order recursion for relative degrees 1-6, argument validation, no shared mutable defaults.",
"C19": "Each library constraint's value, reported value and strengthening is compared with its documented formula over symbolic states and parameters.",
"C20": "Matrices, drift, input, state derivative, ODE right-hand side and closed-form next state are compared with the CWH equations, symbolic mass, mean motion, step and sun rate, 1-3 deputies.",
"C21": "Sample testing modules driven with an uninterpreted filter, dynamics and random draws; the verdict, written rows and recorded trajectory are compared with the definition for 1-4 steps.",
"C22": "Cascades of 1-3 uninterpreted members and the combined filter over 1-3 deputies; output, flag and reset of members.",
"C23": "Pairs of modules: with/without jit switches, with/without constraint selection; all observables must be the same term.",
"C24": "Each ready-made module is compared with a generic filter of its kind built by the specification from the documented model (outputs over symbolic states), plus constraint names, parameters, biases and strengthening.",
"C25": "Every property of every wrapper, read and written, over symbolic vectors of exactly and more than the needed length, from lists, numpy and jax arrays.",
"C26": "As C09 with every combination of the subsampling options.",
"C27": "1-3 calls with 2-5 predicted steps against the documented switching rule; Riccati gains are uninterpreted.",
"C28": "Jacobian as derivative term of an uninterpreted control law, with and without controller state; rejection of malformed laws; the library's LQR and bang-bang laws.",
}
