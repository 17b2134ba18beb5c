import json
P=[]
def p(id,title,statement,over,text,files,mech,why):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
D="crates/linear/src/dense.rs"; NW="crates/nonlinear/src/newton.rs"; WR="crates/nonlinear/src/norm_wrms.rs"
p("L01","LU factorisation is exact Gaussian elimination of the row-permuted input",
 "After a successful dense factorisation the matrix holds exactly the factors of the input with its rows permuted as recorded in the pivots: multipliers strictly below the diagonal, the upper factor on and above it. Every elimination step interchanges complete rows, scales every entry below the pivot and updates every entry of the trailing block, for every size, so L*U equals the permuted input in exact arithmetic.",
 ["inputs"],"all square matrix sizes and all matrix contents",[D,"crates/linear/src/traits.rs"],
 [("elimination loop","dense.rs dense_get_rf"),("setup entry point","dense.rs Dense::setup")],
 'Three fixed 3x3/4x4 matrices are factored by the tests; the claim is for every size and content (a step that skips a row, column or swap only at larger sizes or on special data passes them).')
p("L02","Partial pivoting chooses the largest remaining entry and records its row",
 "At every elimination step the pivot is an entry of largest absolute value among the rows from the diagonal down to the last row of the current column, so every stored multiplier is at most one in magnitude. The row number recorded for the step is the row that was actually interchanged with the diagonal row.",
 ["inputs"],"all matrix sizes, all contents, every elimination step",[D],[("pivot search","dense.rs dense_get_rf")],
 'The tests factor three matrices; a search that misses a row or compares signed values survives them and only loses accuracy on other data.')
p("L03","A zero pivot is reported with its 1-based column, and nothing else is",
 "Factorisation fails if and only if at some step every candidate pivot is exactly zero, it then reports that step's column counted from one, and the caller of the linear solver setup sees that failure with that column. No division by a pivot happens before the zero test, and a success is reported only after all columns were eliminated.",
 ["inputs"],"all matrix contents and sizes, including last-column singularity",[D,"crates/linear/src/lib.rs"],[("zero pivot test","dense.rs dense_get_rf"),("error mapping","dense.rs Dense::setup")],
 'No test factors a singular matrix at all, and none reaches the error conversion.')
p("L04","Solving with the factors solves the original linear system for every size",
 "After a successful factorisation, a solve returns the vector x with A x = b for the original A: the row interchanges are applied to b in factorisation order, then forward substitution with the unit lower factor covers every entry below the diagonal, then back substitution covers every entry above it and divides by every diagonal entry, each in dependency order. This holds for every dimension, not only for sizes two to four.",
 ["inputs"],"all sizes, all factors and pivots a successful factorisation can leave, all right-hand sides",[D],[("substitution loops","dense.rs dense_get_rs"),("solve entry","dense.rs Dense::solve")],
 'Two fixed 3x3 solves and one 4x4 solve; nothing tests other sizes, repeated interchanges or size one.')
p("L05","A linear solve ignores stale output and leaves matrix, pivots and rhs intact",
 "The result of a linear solve depends only on the factored matrix, the recorded pivots and the right-hand side, never on what the output vector held before (not even a NaN or an infinity). The factors, the pivots and the right-hand side are left unchanged, so one factorisation can serve any number of solves in any order.",
 ["histories","inputs"],"all initial contents of the output vector and all sequences of solves after one setup",[D,"crates/linear/src/traits.rs"],[("rhs copy","dense.rs Dense::solve"),("pivot storage","dense.rs Dense")],
 'Tests always start from a zero output vector and solve once per factorisation.')
p("L06","Dense factor and solve never index out of range or underflow, for any size",
 "Setting up and solving with the dense solver never panics: every element access is inside the matrix, vector or pivot array and every index subtraction stays non-negative, for every dimension from zero upwards. The pivots left by a setup are always valid row numbers.",
 ["inputs"],"all dimensions including zero and one, all contents",[D],[("index arithmetic","dense.rs dense_get_rf, dense_get_rs")],
 'Tests use sizes three and four only.')
p("L07","The dense solver is direct: no tolerance, no iterations, no scaling",
 "The dense linear solver declares itself direct, so that its callers keep the factorised matrix and count no linear iterations: it reports zero iterations and a zero residual norm, scaling vectors do not change it, and a solve never fails after a successful setup and gives the same answer for every tolerance.",
 ["inputs","histories"],"all states of the solver, all tolerances (also zero and negative), all scaling vectors",[D,"crates/linear/src/traits.rs"],[("type and defaults","dense.rs Dense::get_type, traits.rs LSolver"),("tolerance","dense.rs Dense::solve")],
 'No test asks for the type, the iteration count or the residual norm, and every solve in the tests passes tolerance zero.')
p("N01","Newton reports success only when the convergence test accepted the iterate",
 "The Newton solver returns success only directly after the problem's convergence test answered 'converged' for exactly the iterate left in the output vector and the last applied correction, evaluated with the caller's own tolerance and weight vector. No other path yields success, and after an accepting answer the iterate is not touched again.",
 ["inputs","programs","histories"],"all problems (all callback results and sequences), all settings",[NW,"crates/nonlinear/src/traits.rs"],[("inner loop","newton.rs Newton::solve")],
 'One smooth 3-equation problem that converges is tested; callback failures, divergence and foreign convergence tests are not.')
p("N02","Each Newton iteration solves for minus the residual at the current iterate",
 "Every attempt starts from a copy of the caller's initial guess, and each iteration passes the linear solve the negated residual evaluated at the current iterate, then adds the returned correction to the iterate exactly once before testing convergence. The initial guess and the weights are never modified.",
 ["inputs","programs"],"all problems, all attempts and iterations",[NW],[("inner loop","newton.rs Newton::solve")],
 'The single test converges from one starting point; slips that converge more slowly or only matter on retry pass it.')
p("N03","A Newton solve retries only with a stale Jacobian and always terminates",
 "When the first attempt of a solve fails recoverably and the Jacobian is not marked current, the solver makes exactly one more attempt, from the initial guess and with a fresh linear setup. If the Jacobian is marked current, or the retry fails recoverably too, that recoverable failure is returned to the caller. Hence every solve ends after finitely many callbacks instead of repeating the same attempt forever.",
 ["programs","histories"],"all sequences of callback outcomes",[NW],[("retry decision","newton.rs Newton::solve outer loop")],
 'No test makes a solve fail, let alone fail recoverably with a current Jacobian.')
p("N04","The per-attempt Newton iteration limit is respected exactly",
 "Within one attempt at most the configured maximum (of at least one) of linear solves is performed, exactly that many when the test never accepts, and then the attempt ends in a recoverable convergence failure without another residual evaluation. The current-iteration counter seen by the convergence test is zero in the first iteration of every attempt and grows by one per iteration.",
 ["programs","inputs"],"all problems, all limits from one upwards",[NW],[("iteration cap","newton.rs Newton::solve inner loop")],
 'The test converges well below its limit of ten.')
p("N05","Callback failures leave the Newton solver at once and unchanged",
 "If the residual, setup, linear solve or convergence test fails with a non-recoverable error, the solver makes no further callback, changes the iterate no further and returns that very error to its caller; a failed residual or setup is never followed by iterations on stale data. A failed factorisation converts into the nonlinear error that carries it as its source.",
 ["fault_sequences","programs"],"a failure of any callback at any point",[NW,"crates/nonlinear/src/lib.rs"],[("error chaining","newton.rs Newton::solve"),("error conversion","nonlinear lib.rs Error")],
 'No test injects a failing callback.')
p("N06","Linear setup is called exactly when requested, with truthful arguments",
 "In the first attempt the linear setup is called if and only if the caller asked for it, and told that the Jacobian is not suspect; in every retry it is always called and told that it is. Each call comes after the residual was evaluated at the initial guess and receives that guess and that residual, and what it reports about the Jacobian is what the retry decision uses until a solve succeeds, which marks the Jacobian stale.",
 ["programs","histories"],"all call sequences",[NW],[("setup call","newton.rs Newton::solve")],
 'The test solves once with a requested setup and never looks at the arguments.')
p("N07","Newton counters count every iteration and every convergence failure",
 "The total iteration count grows by exactly one per Newton iteration, and the convergence-failure count by exactly one per failed attempt (retried or returned), over all solves; neither is ever reset or otherwise changed. The public getters return exactly these counters and the current attempt's iteration index.",
 ["histories","programs"],"all sequences of solves",[NW],[("counters","newton.rs Newton")],
 'The test prints the counters but never asserts them.')
p("N08","The weighted RMS norm is sqrt of the mean squared weighted component",
 "The weighted norm of a vector equals the square root of the sum over all components of (component times weight) squared, divided by the number of components, for every length and every sign of the data. Every component takes part exactly once and neither operand is modified.",
 ["inputs"],"all vector lengths, all contents",[WR],[("norm","norm_wrms.rs norm_wrms")],
 'One constant vector of length 32 is tested.')
p("N09","Newton solves are independent of earlier solves except through the Jacobian",
 "The outcome of a solve depends on the solver's history only through the Jacobian-currency flag: the correction workspace is always overwritten by a residual evaluation before it is read, the iteration index is reset in every attempt, the output vector is overwritten before it is read, and retry flags start afresh. A NaN left by an earlier solve has no effect.",
 ["histories"],"all sequences of solves with one solver object",[NW],[("workspace","newton.rs Newton fields")],
 'The solver object is used for exactly one solve.')
LIB="src/lib.rs"
p("N10","A new Newton solver starts at zero, and preparing or asking it changes nothing",
 "A newly made Newton solver reports zero iterations, iteration index zero and zero convergence failures, whatever its iteration limit. Preparing a solve always succeeds and changes neither the solver nor the vector given, and none of the queries changes the solver, however often and whenever it is made.",
 ["histories","inputs"],"all iteration limits, all states of the solver at any time of its life",[NW,"crates/nonlinear/src/traits.rs"],[("constructor and getters","newton.rs Newton"),("preparation","traits.rs NLSolver::setup")],
 'No test prepares a solver or reads a counter.')
p("S01","Interpolated solutions are refused outside the last internal step",
 "A request for the solution or a derivative at a time outside the last completed step (allowing only rounding slack), or for a derivative order above the order last used, is answered with an error and no data. A request inside it is never refused.",
 ["inputs","histories"],"all requested times, orders, step directions and histories",[LIB],[("validity test","lib.rs get_solution, get_dky")],
 "The one fixture-based test interpolates inside the step; it is not even compiled in this tree.")
p("S02","Stop time is never overrun",
 "With a stop time set, the integrator never asks for the solution beyond it: the step size is cut so that the step ends at the stop time, reaching it is reported as such with the solution at exactly that time, and the stop time is then cleared. An ill-placed stop time is reported as an error.",
 ["inputs","histories"],"all stop times, both directions of integration, both task modes",["src/impl_solve.rs","src/impl_stop_test.rs",LIB],[("stop tests","impl_stop_test.rs stop_test1, stop_test2"),("step clamp","lib.rs step")],
 "No test sets a stop time.")
p("S03","Normal-mode returns deliver the solution at exactly the requested time",
 "In normal mode a success return happens only once the internal time has reached or passed the requested output time, and then reports exactly that time with the solution interpolated there; one-step mode reports the internal time. The time reported is also the one recorded for the next call. An output time before the last step, where no solution is available, is refused instead.",
 ["inputs","histories"],"all output times, directions and histories",["src/impl_stop_test.rs","src/impl_solve.rs"],[("stop tests","impl_stop_test.rs")],
 "The stop tests have no unit test.")
p("S04","A failed step attempt is rolled back before it is retried",
 "Whenever an attempted step is abandoned because of a solver or error-test failure, time and the history array are restored to their values before the attempt exactly once before the next prediction. The accepted state is never built on a half-updated history.",
 ["histories","fault_sequences"],"all sequences of failed attempts",[LIB],[("attempt loop","lib.rs step"),("rollback","lib.rs restore")],
 "Only isolated calls on one captured state are tested.")
p("S05","Retries of a step are bounded and end in a named failure",
 "Within one step, a failed attempt is retried only while the number of failures of its kind (error test, or nonlinear solve and setup) is below the configured limit, every failure is counted once, and reaching the limit ends the call with the error naming that cause. Failures that are not recoverable are never retried. Each retry reduces the step size as documented, and repeated error-test failures lower the order, from the third one on to one.",
 ["histories","fault_sequences"],"all sequences of failed attempts",[LIB],[("failure handler","lib.rs handle_n_flag, step")],
 "No test provokes repeated failures.")
p("S06","A step is accepted only if its local error test passed",
 "A step is completed only after the nonlinear solve succeeded and the weighted local error estimate at the order used is at most one; otherwise it is rejected and retried with a step size reduced to between a quarter and nine tenths.",
 ["inputs","histories"],"all states",[LIB],[("error test","lib.rs test_error, step")],
 "Two captured states are tested.")
p("S07","Order and step size stay within their configured limits",
 "The order never leaves one to the configured maximum (at most five) and changes by at most one per step; after the start-up phase the step grows at most twofold per step and never beyond the configured maximum. The order history used for this is updated on every accepted step.",
 ["histories"],"all histories of accepted and rejected steps",["src/impl_complete_step.rs",LIB],[("order selection","impl_complete_step.rs, lib.rs test_error")],
 "Two captured states are tested.")
p("S08","Work limits and unreachable accuracy stop an integration call with an error",
 "A call that takes more than the configured number of internal steps, meets an error weight that is not positive (in the initial values or later), or is asked for more accuracy than the arithmetic allows returns an error at the time reached instead of taking another step; short of these limits it goes on.",
 ["inputs","histories"],"all problems and settings",["src/impl_solve.rs"],[("loop guards","impl_solve.rs solve")],
 "No test runs the integrator to a limit.")
p("S09","Error weights follow the documented tolerance formula in every mode",
 "Each component's error weight is the reciprocal of relative tolerance times the magnitude of that solution component plus the absolute tolerance, for scalar and per-component tolerances alike, for every length.",
 ["inputs","configurations"],"all tolerances, all solution vectors",["src/tol_control.rs"],[("weights","tol_control.rs")],
 "Not tested.")
p("S10","Masked and unmasked weighted norms agree on components taking part",
 "The masked weighted norm sums only components whose flag is set but divides by the full length; with all flags set it equals the unmasked norm.",
 ["inputs"],"all vectors, weights, masks",["src/norm_rms.rs"],[("norms","norm_rms.rs")],
 "Two constant vectors are tested.")
p("S11","Predicted state is the history polynomial at the new time",
 "The prediction is the sum of all active history columns, and its derivative the same sum weighted by the matching coefficients, over exactly the columns of the current order; corrections add the same update to the state and its scaled value to the derivative. What the vectors held before, a NaN included, does not enter.",
 ["inputs","histories"],"all orders and histories",[LIB,"src/ida_nls.rs"],[("predictor","lib.rs predict"),("corrector","ida_nls.rs")],
 "One captured state.")
p("S12","The linear setup evaluates the Jacobian at the current time and state",
 "Each linear setup zeroes the matrix (whatever it held, NaN included) and evaluates the user's Jacobian with the current step coefficient, current time and the state being corrected; failures of the factorisation and of the solve reach the nonlinear solver as errors. Each linear solve hands over that matrix, the residual, the error weights and a zero guess, returns the solution (scaled for a changed step coefficient when the solver keeps a matrix), gives iterative solvers the documented tolerance and counts their iterations.",
 ["inputs","fault_sequences"],"all problems",["src/ida_ls.rs","src/ida_nls.rs"],[("linear setup","ida_ls.rs IdaLProblem::setup")],
 "No test checks the arguments or a singular Jacobian.")
p("S13","The sample problem Jacobian is the derivative of its residual",
 "For the bundled chemical-kinetics problem the user Jacobian equals the derivative of the residual with respect to the state plus the step coefficient times the derivative with respect to the state's time derivative, in every entry, for every state.",
 ["inputs"],"all states and coefficients",["src/sample_problems/roberts.rs"],[("residual and Jacobian","roberts.rs")],
 "Not tested; a wrong entry only slows convergence.")
p("S14","Root crossings are located inside the step and reported once with direction",
 "A sign change of a watched function inside a step stops the integration at a time bracketed to the root tolerance, before any later time is returned; only functions that changed sign in a watched direction are reported, +1 where the function increases and -1 where it decreases. Every root function that is not zero at the start is watched from the first step on; after a root was reported the search goes on from there, and the same root is not reported again.",
 ["inputs","histories"],"all root functions and histories",["src/impl_r_check.rs"],[("root search","impl_r_check.rs")],
 "Root finding has no test that runs.")
p("S15","Default constants of the integrator have their documented values",
 "The built-in limits (retries, order, step-size factors, tolerances and failure bounds) have the values of the reference integrator.",
 ["configurations"],"all default settings",["src/constants.rs"],[("table","constants.rs")],
 "No test reads them.")
p("S16","Integration statistics and state getters report the integrator's own counters",
 "Every statistics query returns the quantity it names from the state the stepping code maintains, and does not change it; every count starts at zero and counts exactly the events it names: accepted steps, failed error tests, failed nonlinear solves, residual, Jacobian and root function evaluations, linear solver setups (also those that fail) and linear iterations.",
 ["histories"],"all call histories",["src/ida_io.rs"],[("getters","ida_io.rs")],
 "Not tested.")
p("S17","Integration accuracy: delivered solutions satisfy the requested tolerances",
 "For well-posed problems the delivered solution's global error is commensurate with the requested relative and absolute tolerances.",
 ["inputs","programs"],"all well-posed DAE problems",["src/lib.rs","src/impl_solve.rs"],[("whole integrator","src/")],
 "Quantifies over all problems; benchmarks sample three.")
p("S18","The first internal step is chosen as documented, or the call is refused",
 "The first call refuses an output time too close to the initial time, a given initial step in the wrong direction and an ill-placed stop time. Otherwise the first step points towards the output time, is the given one or a thousandth of the way (less when the initial derivative is large), never exceeds the configured maximum or the stop time, and the history starts at order zero with the derivative scaled by exactly that step.",
 ["inputs","configurations"],"all initial values, output times, stop times and settings",["src/impl_solve.rs"],[("first call","impl_solve.rs solve")],
 "No test calls solve.")
p("S19","The corrector's convergence test follows the documented rate rule",
 "A corrector iterate is accepted in the first iteration if the weighted norm of the correction is at most 1e-4 of the configured direct tolerance, and otherwise, in any iteration, if the rate constant times that norm is at most the tolerance. From the second iteration on the observed rate sets the constant to rate/(1-rate), and a rate above 0.9 is a recoverable convergence failure. The test changes nothing else.",
 ["inputs","histories"],"all corrections, weights, tolerances and iteration counts",["src/ida_nls.rs"],[("convergence test","ida_nls.rs ctest")],
 "One captured solve is tested, in a test that is not built.")
p("S20","Step coefficients are those of the variable-step formula for the history",
 "Before an attempt the spacings become the sums of the last step sizes including the new one, and the coefficients alpha, beta, sigma, gamma, the leading coefficient and the error coefficient are the ones the fixed-leading-coefficient formula gives for them at the current order; history columns beyond the equal steps are rescaled to the new spacing.",
 ["inputs","histories"],"all orders, step sizes and histories",[LIB],[("coefficients","lib.rs set_coeffs")],
 "Four captured states are tested, in tests that are not built.")
p("S21","The Jacobian is renewed exactly when the step coefficient has drifted",
 "The nonlinear solver is asked for a linear setup on the first step and whenever the ratio of the step coefficient to that of the factorised matrix leaves the documented window, and not otherwise; each solve starts from a zero correction with the rate constant reset when the coefficient changed, and a failed preparation of the solver ends the attempt with its error.",
 ["inputs","histories"],"all step coefficients and histories",[LIB],[("solver driver","lib.rs nonlinear_solve")],
 "One captured state is tested, in a test that is not built.")
p("S22","The slider-crank sample problem is a consistent constrained mechanism",
 "For the bundled slider-crank problem the position constraints close the loop of crank, rod and slider, each velocity constraint is the time derivative of its position constraint, both sets of multipliers enter through the transposed gradient of the position constraints, and the generalised forces are those of a spring-damper between the middles of crank and rod and of the constant horizontal force, for every state and every choice of parameters; the default parameters are the published ones.",
 ["inputs","configurations"],"all states and parameters",["src/sample_problems/slider_crank.rs"],[("residual and force","slider_crank.rs")],
 "Not tested; a wrong term changes the motion, not the run.")
p("S23","The chemical-kinetics sample problem states the documented equations",
 "The bundled chemical-kinetics problem has three species whose first two rates and whose conservation law are the documented ones for every state, and watches the documented thresholds of the first and the third species.",
 ["inputs"],"all states",["src/sample_problems/roberts.rs"],[("residual and roots","roberts.rs")],
 "Not tested; benchmarks only print the solution.")
p("S24","Interpolated values and derivatives are those of the history polynomial",
 "The solution delivered at any time inside the last step is the polynomial through the stored history (of the order last used) at exactly that time, the derivative delivered with it is that polynomial's derivative, and a requested k-th derivative is its k-th derivative, for every component. Only the output vectors are written, and what they held before (NaN included) does not matter.",
 ["inputs","histories"],"all times, orders, derivatives, step sequences and lengths",[LIB],[("interpolation","lib.rs get_solution, get_dky")],
 "One captured state at one time is tested, in a test that is not built.")
p("S25","An accepted step extends the history polynomial by the accepted solution",
 "After an accepted step the stored history is the polynomial of the order used that takes the accepted solution (prediction plus correction) at the new time and keeps the values it had at the earlier points of that order, with the spacings measured from the new time; the correction is kept in the next column for a later raise of the order.",
 ["inputs","histories"],"all orders, step sequences, corrections and lengths",[LIB,"src/impl_complete_step.rs"],[("history update","impl_complete_step.rs complete_step")],
 "One captured state is tested, in a test that is not built.")
p("S26","A new integrator holds exactly the given initial values and nothing else",
 "A newly made integrator has the given solution and derivative as its current state and as the first two columns of a history of the model's length, at time zero and order zero; every count is zero, no stop time, fixed first step or constraint is set, every root function of the problem is watched in both directions, and the solvers are created once, for the model's size and with the documented iteration limit.",
 ["inputs"],"all initial vectors, model sizes and numbers of root functions",[LIB,"src/ida_nls.rs","src/ida_ls.rs"],[("constructors","lib.rs Ida::new, ida_nls.rs IdaNLProblem::new, ida_ls.rs IdaLProblem::new")],
 "One problem of three unknowns is constructed, in tests that are not built.")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
