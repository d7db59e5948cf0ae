import json
S='src/solver_n_dimensional/'
R=S+'solver/rootfinder.rs'
P=[]
def loc(f):
    return f if f.startswith('util/src') else S+f
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[loc(f) for f in files],
        mechanism=[dict(name=a,where=loc(b)) for a,b in mech],
        state=[dict(name=a,meaning=b,where=loc(c)) for a,b,c in (state or [])],
        observe_at=observe,hook_needed=None)))
p('C01','A successful solve really is a solution',
 'When a resolution returns success, every component of the stopping residuals of the model, as it is left, is a number not greater than the tolerance, computed with the stopping criterion configured for that component. The model is left evaluated exactly at the iteratives it reports (the last thing it was given before its last evaluation), and that last evaluation was neither flagged inaccurate nor unusable. A NaN residual is never a success.',
 ['inputs','configurations','fault_sequences'],
 'every model response (any residual values including NaN and infinities, any outcome at each evaluation), every resolution method, damping setting, jacobian source, stopping criterion mix, finite tolerance, initial guess',
 'The tests solve a handful of smooth problems whose residuals are always finite; none drives an arbitrary residual sequence, and success is only checked against the known root.',
 ['solver/rootfinder.rs','residuals/config.rs','residuals/mod.rs'],
 [('solve: loop condition, final verdict','solver/rootfinder.rs'),('evaluate_stopping_residuals','residuals/config.rs')],
 ['return value of RootFinder::solve','model state after solve'],
 [('valid_last_model_evaluation','last evaluation was accurate','solver/rootfinder.rs')])
p('C02','The iteration budget is exact',
 'A resolution performs no more iterations than the configured maximum, stops at the first iterate whose stopping residuals are all within the tolerance (with zero iterations when the initial guess already is) and reports non-convergence exactly when the budget is used up with a residual still above the tolerance. Outside the evaluations needed by finite differences (one per iterative variable for each jacobian), the model is evaluated once for the initial guess and once per iteration, plus one more for each damped iteration. With a maximum of zero iterations only the initial guess is evaluated.',
 ['inputs','configurations','histories'],
 'every residual history, every method, damping setting and jacobian source, every maximum number of iterations (bounded in the check), both dynamic and static sizes',
 'Tests count iterations for a few problems; they cannot show that no residual history makes the solver iterate once too many or evaluate the model more than documented.',
 ['solver/rootfinder.rs','solver/jacobian/jacobian_finite_diff.rs'],
 [('solve: while loop','solver/rootfinder.rs'),('compute_jacobian_from_finite_difference','solver/jacobian/jacobian_finite_diff.rs')],
 ['calls received by the model','return value of RootFinder::solve'],[('iter','number of iterations made','solver/rootfinder.rs')])
p('C03','Model failures are classified and never crash the solver',
 'Whatever the sequence of outcomes reported by the model, a resolution returns instead of panicking: an unusable initial evaluation gives the initial-evaluation error (with the text of the model error), an unusable evaluation in an iteration (damping included) the model-evaluation error, a jacobian that the model cannot provide or cannot be perturbed the jacobian error carrying that model error, a singular jacobian the non-invertible jacobian error. The solver stops using the model as soon as such an error is raised. Inaccurate evaluations never stop the resolution: they only turn a success into the final-evaluation error when the last evaluation of the model is inaccurate.',
 ['fault_sequences','histories','configurations'],
 'every sequence of outcomes (accurate, inaccurate, unusable) of the evaluations and of the jacobian, every method, damping on or off, every residual history',
 'The tests have one model that is always inaccurate and one singular jacobian; no test fails the model at an arbitrary step, in the damping or in the finite differences.',
 ['solver/rootfinder.rs','errors.rs','model/error.rs','solver/jacobian/jacobian_analytic.rs','solver/jacobian/jacobian_finite_diff.rs'],
 [('match on model.evaluate()','solver/rootfinder.rs'),('SolverError','errors.rs')],
 ['return value of RootFinder::solve','calls received by the model after the failing one'])
p('C04','Every iterate obeys the bounds and the step limits',
 'Every iterate at which the solver evaluates the model (except the initial guess itself and the finite-difference perturbations) lies in the [min_value, max_value] interval of each iterative variable, damped iterates included when they start from iterates within the bounds. From one iterate to the next no variable moves by more than max_step_abs nor by more than max_step_rel times its current magnitude, unless the bounds force a larger move of a variable that was outside of them.',
 ['inputs','configurations','histories'],
 'every residual and jacobian history, every method, damping on or off, any bounds and limits accepted by the constructors, per-variable parameters',
 'The tests of the limits call the limiter on a few numbers; no test follows the limits through whole resolutions with damping, quasi-Newton updates or distinct per-variable limits.',
 ['solver/rootfinder.rs','iteratives/iterative_var.rs','iteratives/iteratives_base.rs'],
 [('step_limitations','iteratives/iteratives_base.rs'),('compute_next_from_inv_jac, damping','solver/rootfinder.rs')],
 ['Model::set_iteratives calls'])
p('C05','Step limitation of one variable, for every float',
 'Limiting a proposed step gives the current value plus the step, with the step cut to the smaller of max_step_abs and max_step_rel times the magnitude of the current value and its direction kept, and the result clamped to [min_value, max_value]. The result is in the bounds for every input, it is exactly value + step (clamped) when the step is within the limits, and the finite-difference variant of the parameters limits exactly as the plain one. A vector of variables is limited component by component, each with its own parameters.',
 ['inputs','configurations'],
 'all f64 current values and steps including zeros, subnormals, infinities and NaN; all parameters accepted by the constructors',
 'Unit tests sample about ten numeric cases.',
 ['iteratives/iterative_var.rs','iteratives/iterative_var_fd.rs','iteratives/iteratives_base.rs'],
 [('step_limitation','iteratives/iterative_var.rs'),('step_limitations','iteratives/iteratives_base.rs')],
 ['Iterative::step_limitation','Iteratives::step_limitations'])
p('C06','Finite differences perturb, measure and restore correctly',
 'The perturbation of a variable is max(dx_abs, dx_rel*|x|) or dx_abs + dx_rel*|x| according to its method, hence strictly positive. A finite-difference jacobian evaluates the model exactly once per variable, at the reference point with only that variable perturbed; its column i is the difference of the update residuals divided by the perturbation of variable i, the evaluation being accepted even when flagged inaccurate. The memory of the model is given back its reference value after each perturbed evaluation.',
 ['inputs','configurations','fault_sequences'],
 'all parameters and points for the perturbation; every model response, every mix of update methods, problem sizes up to the bound',
 'Tests compare jacobians of a few smooth functions with a tolerance; they see neither the order of the calls nor the memory, nor per-variable parameters.',
 ['iteratives/iterative_var_fd.rs','iteratives/iteratives_base.rs','solver/jacobian/jacobian_finite_diff.rs'],
 [('compute_perturbation','iteratives/iterative_var_fd.rs'),('compute_jacobian_from_finite_difference','solver/jacobian/jacobian_finite_diff.rs')],
 ['compute_jacobian_from_finite_difference','calls received by the model'])
p('C07','Normalised residuals and their derivative match',
 'The residual of an equation left = right is left-right (Abs), (left-right)/(|left+right|/2) (Rel) or (left-right)/(1+|left+right|/2) (Adapt). The derivative used for analytical jacobians is, for each of the three, the derivative of that same function along (dleft, dright) wherever it is differentiable.',
 ['inputs'],
 'all left, right, dleft, dright over the reals with left+right different from 0 for Rel (and on both sides of 0), all methods',
 'Unit tests sample a few values, mostly positive ones; the sign changes of left+right are not covered.',
 ['residuals/mod.rs'],
 [('normalization','residuals/mod.rs'),('deriv_normalization','residuals/mod.rs')],
 ['residuals::normalization','residuals::deriv_normalization'])
p('C08','Residual vectors and jacobians use the method of their own row',
 'Update and stopping residual vectors apply to each equation its own left value, right value and configured method, the stopping ones in absolute value. Normalising an analytical jacobian applies to entry (i,j) the derivative of the method configured for the update of equation i, with the left and right values of equation i and the (i,j) entries of the left and right jacobians. The split of per-equation configurations into the two method lists keeps the order and the roles.',
 ['inputs','configurations'],
 'all values, all mixes of methods across rows, sizes up to the bound, static and dynamic',
 'Tests use the same method in most rows and mostly zero right-hand sides, so a swapped index, role or side can go unseen.',
 ['residuals/config.rs','residuals/values.rs','solver/jacobian/jacobian_analytic.rs'],
 [('evaluate_update_residuals / evaluate_stopping_residuals','residuals/config.rs'),('normalize','residuals/values.rs'),('evaluate_jacobian_from_analytical_function','solver/jacobian/jacobian_analytic.rs')],
 ['ResidualsConfig','JacobianValues::normalize','JacobianMatrix::get_jacobian'])
p('C09','A Newton-Raphson iteration solves the linearised equations',
 'Without active limits each Newton-Raphson iteration moves the model from x to x + d where J d = -F: F are the update residuals and J the normalised jacobian provided by the model at x (or the finite-difference jacobian measured there). A linear problem with an invertible jacobian is therefore solved in one iteration from any guess. The jacobian is measured anew at each iteration.',
 ['inputs','histories','configurations'],
 'all residual values and invertible jacobians over the reals (rounding excluded), sizes 1 to 3, all normalisations, analytical jacobian or finite differences, several consecutive iterations',
 'Tests check the converged result of well-conditioned problems, which a wrong step direction, a transposed or stale jacobian often still reaches.',
 ['solver/rootfinder.rs','solver/jacobian/jacobian_struct.rs','solver/jacobian/jacobian_analytic.rs','solver/jacobian/jacobian_finite_diff.rs'],
 [('compute_next_from_inv_jac, compute_newton_raphson_step','solver/rootfinder.rs'),('compute_inverse','solver/jacobian/jacobian_struct.rs')],
 ['Model::set_iteratives calls'])
p('C10','Quasi-Newton updates satisfy the secant equation and their formulas',
 'Each update of the jacobian or of its inverse from a step s and residual change y satisfies the secant equation (J s = y, H y = s) and is the rank-one update H - (H y - s) c^T / (c^T y) with the c of its method (Broyden first: H^T s; Broyden second: y; Greenstadt first: the current residual; Greenstadt second: H^T H y). Updating the jacobian and updating the inverse with the same method give inverse matrices of each other.',
 ['inputs'],
 'all matrices, steps and residual changes over the reals where the denominators are non-zero, sizes 1 to 3, the four methods, both forms, static and dynamic',
 'Tests compare Broyden formulas on one or two numeric matrices; Greenstadt formulas and inverse equivalence are not tested except through convergence.',
 ['solver/resolution_method.rs','solver/jacobian/jacobian_approximation.rs','solver/jacobian/jacobian_inverse_approximation.rs'],
 [('broyden_*, quasi_method_*, greenstadt_*','solver/resolution_method.rs'),('approximate_jacobian','solver/jacobian/jacobian_approximation.rs'),('approximate_inv_jacobian','solver/jacobian/jacobian_inverse_approximation.rs')],
 ['the public update functions','approximate_jacobian','approximate_inv_jacobian'])
p('C11','Quasi-Newton resolutions use the right jacobian at the right time',
 'In a quasi-Newton resolution the model jacobian is measured at the first iteration and not again unless damping rejected an iteration made with an approximated jacobian, in which case it is measured at the next one; stationary Newton keeps the first jacobian. At every other iteration of the updating methods the step is computed with the method update of the previous jacobian (or inverse) by the last step of the iteratives and the signed change of the update residuals over it.',
 ['histories','inputs','configurations'],
 'every residual history over the reals, the nine quasi-Newton methods, damping on or off, analytical jacobian or finite differences, up to the bounded number of iterations',
 'Tests only look at the final convergence, which a wrong or stale residual change usually only slows down.',
 ['solver/rootfinder.rs','solver/jacobian/jacobian_struct.rs','solver/jacobian/jacobian_approximation.rs','solver/jacobian/jacobian_inverse_approximation.rs'],
 [('evaluate_jacobian_quasi_newton_step, update_model','solver/rootfinder.rs'),('compute_jacobian flag','solver/jacobian/jacobian_struct.rs')],
 ['Model::get_jacobian calls','Model::set_iteratives calls'],
 [('residuals_step_size / iteratives_step_size','last step','solver/rootfinder.rs')])
p('C12','Damping acts exactly when the error grows',
 'With damping, when the largest stopping residual after an iteration is greater than before it, a Newton-Raphson iteration (or a quasi-Newton one made with a measured jacobian) is replaced by the middle of the previous and the proposed iterates, re-evaluated, and that damped evaluation decides the convergence; a quasi-Newton iteration made with an approximated jacobian is kept and the jacobian is measured at the next iteration. When the error does not grow, or without damping, the proposed iterate is kept and nothing is re-evaluated.',
 ['histories','inputs','configurations'],
 'every residual history including equal, infinite and NaN errors, every method except the jacobian choice of stationary Newton, damping on and off',
 'Tests only check that some damped problems converge.',
 ['solver/rootfinder.rs','solver/parameters.rs','solver/jacobian/jacobian_struct.rs'],
 [('damping','solver/rootfinder.rs')],
 ['Model::set_iteratives / evaluate / get_jacobian calls','return value'])
p('C13','Solving again gives what a fresh solver would give',
 'A second resolution with the same solver, after any first one (converged, out of budget, or failed at any point), asks the same things of the model, makes the same iterates and returns the same result as a newly built solver facing the same model responses. It starts from the configured initial guess and has the whole iteration budget.',
 ['histories','fault_sequences','configurations'],
 'every first resolution (bounded number of iterations) with any outcomes, followed by any second one; all methods, damping on or off',
 'Every test builds a solver and solves once.',
 ['solver/rootfinder.rs'],
 [('solve: initialisation of the placeholders','solver/rootfinder.rs')],
 ['calls received by the model','return value of the second solve'],
 [('placeholders','iter, jacobian, last steps','solver/rootfinder.rs')])
p('C14','Logging never changes a resolution',
 'A resolution with the log activated asks the same things of the model, makes the same iterates and returns the same result as the one without it, for every model behaviour.',
 ['histories','inputs','configurations','fault_sequences'],
 'every model response history, all methods, damping on or off; file operations assumed to succeed',
 'One test compares one log text; none compares the resolutions with and without a log, in particular on failing ones.',
 ['solver/rootfinder.rs','solver/log.rs'],
 [('debug branches','solver/rootfinder.rs'),('SolverLog','solver/log.rs')],
 ['calls received by the model','return value of solve'])
p('C15','Invalid parameters are refused and valid ones are kept',
 'The constructors of the iterative parameters accept exactly strictly positive step limits and perturbations and a minimum strictly below the maximum (never a NaN), and give back the values they were given; the other inputs are refused by a panic. Building a solver, a residual configuration or a pair of residual or jacobian values is refused by a panic exactly when the dimensions disagree. The default parameters impose no limit, and the default solver uses a tolerance of 1e-6 and at most 50 iterations.',
 ['inputs','configurations'],
 'all f64 parameters including NaN and infinities, all dimension combinations up to the bound',
 'Unit tests check a few refused values of each kind.',
 ['iteratives/iterative_var.rs','iteratives/iterative_var_fd.rs','iteratives/default.rs','residuals/config.rs','residuals/values.rs','solver/rootfinder.rs','solver/parameters.rs','solver/default.rs'],
 [('constructors','iteratives/iterative_var.rs'),('RootFinder::new','solver/rootfinder.rs')],
 ['constructors and getters'])
p('C16','An XML configuration yields exactly the parameters it states',
 'Reading a configuration file gives for each variable and equation, in order, the value of its own attribute, or the default of the enclosing node when it has none, and the solver attributes as written (damping being off when absent). A missing default or solver attribute, an unknown keyword, an unreadable number, ids out of order, a misplaced or misnamed node, or a count different from the problem size is refused by a panic.',
 ['configurations','inputs'],
 'every presence pattern of the attributes on the defaults and on the children, every keyword, any parsed number, up to the bounded number of children; both file kinds',
 'Tests parse a few files; they do not cover which attribute falls back on which default for every combination.',
 ['xml_parser/xml_file_fd.rs','xml_parser/xml_file_jac.rs','xml_parser/node_solver.rs','xml_parser/node_iterative.rs','xml_parser/node_iterative_fd.rs','xml_parser/node_iterative_jac.rs','xml_parser/node_residual.rs','xml_parser/util.rs'],
 [('parse_root_node_*','xml_parser/xml_file_fd.rs'),('*_with_default','xml_parser/util.rs')],
 ['from_xml_finite_diff','from_xml_jacobian'])
p('C17','The provided model adapters are faithful',
 'A model built from a function or a closure (with or without jacobian) has as residuals left = f(x), right = 0 at the iteratives it was given last and evaluated, calls f once per evaluation with exactly these iteratives, provides the jacobian of the user at its current iteratives with a zero right part when it has one, and says so. It reports NaN residuals before any evaluation, so that an unevaluated model cannot pass for converged.',
 ['inputs','histories'],
 'all values and all sequences of set / evaluate / read operations up to the bound, the four adapters',
 'Unit tests make one set, one evaluation and one reading in dimension 1.',
 ['model/model_from_func.rs','model/model_from_closure.rs','model/model_definition.rs'],
 [('Model impls','model/model_from_func.rs'),('Model impls','model/model_from_closure.rs')],
 ['Model trait methods'])
p('C18','Static and dynamic sizes give the same resolution',
 'A resolution with compile-time sizes and one with run-time sizes facing the same model responses ask the same things of the model, make the same iterates and return the same result.',
 ['inputs','histories','configurations'],
 'every response history over the reals, sizes 1 and 2 (bounded iterations), all methods, damping on or off, both jacobian sources',
 'Static sizes are only exercised by a few test models.',
 ['solver/rootfinder.rs','util_nalgebra.rs','solver/jacobian/jacobian_struct.rs'],
 [('generic D','solver/rootfinder.rs'),('zeros_* helpers','util_nalgebra.rs')],
 ['calls received by the model','return value'])
p('C19','The jacobian holder stays consistent with its inverse',
 'Once a jacobian has been stored, the stored matrix is the one given and the stored inverse is its inverse, whether it was stored as measured or as approximated; a singular matrix is refused with an error and leaves neither a matrix nor an inverse. Storing an inverse drops the matrix. The flags say an exact jacobian is needed until a jacobian was stored or when forced, and approximated exactly when the last thing stored was.',
 ['inputs','histories'],
 'all matrices over the reals up to size 3 and every sequence of operations up to the bound',
 'Only one unit of use per method is exercised through whole resolutions.',
 ['solver/jacobian/jacobian_struct.rs'],
 [('JacobianMatrix','solver/jacobian/jacobian_struct.rs')],
 ['JacobianMatrix public methods'])
p('C20','The one-dimensional reference solver is Newton\'s method',
 'The one-dimensional solvers of the crate util start from the guess, stop at the first guess whose residual is not above the tolerance in magnitude or when the maximum number of iterations is reached, and return that guess, which is the last point where the function was evaluated as an iterate. Each iteration moves the guess by minus the residual over the slope, given by the derivative at the current guess or, for the finite-difference variant, by the forward difference with the given perturbation. The function is evaluated once per iterate (plus once per slope with finite differences).',
 ['inputs','histories','configurations'],
 'every guess, tolerance, perturbation and every history of values of the function and of its derivative, up to the bounded number of iterations',
 'The tests run it on one function from one guess.',
 ['util/src/solver_one_dimensional.rs'],
 [('solver1d, solver1d_fd','util/src/solver_one_dimensional.rs')],
 ['value returned','calls received by the function and the derivative'])
p('C21','The test problems have their true jacobians',
 'Each jacobian of the test problems of the crate util (square2, high derivative, Broyden 1965 cases 5 to 10) is, at every point, the jacobian of the function of the same problem.',
 ['inputs'],
 'every point of the real space of the dimension of the problem',
 'The tests only reach the root with them, which a wrong entry of a jacobian usually does not prevent.',
 ['util/src/test_cases/polynom.rs','util/src/test_cases/broyden1965.rs'],
 [('*_jac functions','util/src/test_cases/broyden1965.rs')],
 ['values of the functions and of their jacobians'])
p('C22','The log tells what happened',
 'With debugging on, the log of a resolution states the configuration in force, then for every evaluation made by the resolution, in order (initial point, each iteration, each damped point), its number, the values of the iteratives, the left and right values, the stopping errors and their maximum, all of the calls really made. Damping is announced exactly when it takes place, a jacobian to be recomputed exactly when it is, and each jacobian used for a step is announced with whether it is up to date with its inverse (its rounded entries are not claimed). The log is complete up to the failing call when the resolution fails. A second resolution is added to the log, and a new solver replaces the log of an earlier one.',
 ['inputs','histories','configurations','fault_sequences'],
 'every history of responses and every fault position up to the bounds, each method, damping on or off; numbers are compared as values through the text that is written',
 'No test reads the log.',
 ['solver/rootfinder.rs','solver/log.rs','solver/parameters.rs','residuals/config.rs','iteratives/iterative_var.rs','iteratives/iterative_var_fd.rs'],
 [('debug output','solver/rootfinder.rs')],
 ['content of the log file'])
p('C23','Errors say what happened',
 'The text of each error of the solver names its own kind, and the error of a failing model ends with the message given by the model for the call that failed. Debug output gives the same text as Display.',
 ['inputs','histories','fault_sequences'],
 'every error of a resolution that can be reached within the bounds and every position of a failing call',
 'Tests only match the variant of an error.',
 ['errors.rs','solver/rootfinder.rs'],
 [('Display and Debug of SolverError','errors.rs')],
 ['Display, Debug of SolverError'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch); assert len(x['title'])<=80
import os
for x in P:
    for f in x['anchors']['files']: assert os.path.exists('/repo/'+f),f
    for f in x['anchors']['mechanism']: f['where']; assert os.path.exists('/repo/'+f['where'])
print(len(P))
