NA = [
 {"property": "C40", "reason": "Forward invariance of the closed loop for all time quantifies over the true continuous dynamics and every admissible control history; it depends on the numeric values of class-K functions, actuation limits and step sizes, which no static argument over this source can bound. The structural necessary conditions (trigger, rows, bounds, formulas) are claimed separately in C05-C11, C18-C20."},
 {"property": "C41", "reason": "Numerical accuracy and convergence of quadprog, SLSQP, odeint and the Riccati solver are properties of runtime floating-point quantities inside third-party binaries."},
 {"property": "C42", "reason": "Meeting a real-time deadline is a wall-clock property of jax compilation and the solvers; the source does not bound it."},
]
