#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json (run after editing; the two files are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "src/modopt/opt/algorithms/"
O = "src/modopt/opt/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, note, observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, observe=list(observe)))


prop("C01", "Solvers converge to the minimiser at the proved rate",
     "With step sizes inside the proved range, proximal gradient, FISTA, its lazy and restarted variants, POGM, generalised forward-backward, Condat's primal-dual algorithm and plain proximal gradient descent approach the minimiser of the objective formed by the gradient, proximity and linear operators they are given. Proximal gradient contracts and satisfies its 1/k bound, FISTA its 2/k^2 bound, and the generalised forward-backward and primal-dual iterates never move away from a fixed point and take steps that do not grow. A constraint enforced by the proximity operator is satisfied by the result of the forward-backward and POGM solvers.",
     ["inputs", "configurations", "histories"], "every least-squares problem, built-in regulariser, admissible step and start, at every iteration",
     "The tests run each solver on one tiny problem and compare the final array with the data; they never look at a rate, at an intermediate iterate or at a problem whose solution is not the data.",
     [A + "forward_backward.py", A + "primal_dual.py", A + "gradient_descent.py", O + "proximity.py", O + "gradient.py"],
     [("update rules of the solvers", A), ("proximity operators honouring the step", O + "proximity.py")],
     "problems built backwards from their solution by independent proximal maps; theoretical inequalities checked at every iterate")
prop("C02", "Forward-backward and FISTA follow their documented recursion",
     "For every problem, start, step, relaxation schedule and restart configuration, the forward-backward solver produces exactly the iterates of its documented recursion: gradient step from the extrapolated point, proximity operator scaled by the step, extrapolation with the FISTA (standard, lazy or Chambolle-Dossal) sequence or the user's schedule, and the documented restart and step-safeguard rules. The reported solution is the last proximal iterate, runs can be resumed, and invalid parameters are rejected with the documented errors.",
     ["inputs", "configurations", "histories"], "every quadratic problem, proximity operator, FISTA variant, restart strategy and sequence of runs",
     "Tests check a few final values on a problem whose solution is reached at once, so a wrong momentum, restart or step is invisible.",
     [A + "forward_backward.py"], [("FISTA sequence and restarts", A + "forward_backward.py:FISTA"), ("forward-backward update", A + "forward_backward.py:ForwardBackward._update")],
     "differential against an independent implementation of the recursion, at every iterate", ["metrics callbacks", "x_final"])
prop("C03", "Generalised forward-backward follows its documented recursion",
     "For any number of proximity operators, valid weights, relaxation and step schedules, the generalised forward-backward solver produces exactly the documented auxiliary variables and iterates, each operator being applied with the step divided by its own weight. Weights that do not match the operators or do not sum to one are rejected.",
     ["inputs", "configurations", "histories"], "every quadratic problem, list of operators, weights, schedules and sequence of runs",
     "Tests use one or two operators on data that is already the solution; weights and relaxation never matter there.",
     [A + "forward_backward.py"], [("auxiliary variable update", A + "forward_backward.py:GenForwardBackward._update"), ("weight checks", A + "forward_backward.py:GenForwardBackward._set_weights")],
     "differential against an independent implementation of the recursion, at every iterate")
prop("C04", "POGM follows its documented recursion",
     "For every problem, step, sigma decrease factor and choice of starting variables, the proximal optimised gradient method produces exactly the documented sequence of variables, inertia parameters and restarts, without modifying the arrays handed out by the gradient operator or the starting arrays. Invalid parameters are rejected with the documented errors.",
     ["inputs", "configurations", "histories"], "every quadratic problem, parameters, starts and sequence of runs",
     "Tests check one converged value, where momentum, sigma and restarts have no effect.",
     [A + "forward_backward.py"], [("POGM update", A + "forward_backward.py:POGM._update")], "differential against an independent implementation of the recursion, at every iterate")
prop("C05", "Condat's primal-dual solver follows its documented recursion",
     "For every problem, linear operator, pair of proximity operators, relaxation and step schedule, the primal-dual solver produces exactly the documented primal and dual iterates, the primal operator being scaled by the primal step and the dual operator by the inverse dual step. With reweighting, each of the requested reweightings is applied to the transformed current solution and followed by a full run.",
     ["inputs", "configurations", "histories"], "every quadratic problem, linear operator, schedules, reweighting count and sequence of runs",
     "Tests use identity operators on data that is already the solution.",
     [A + "primal_dual.py", O + "reweight.py"], [("primal-dual update", A + "primal_dual.py:Condat._update"), ("reweighting loop", A + "primal_dual.py:Condat.iterate")], "differential against an independent implementation of the recursion, at every iterate")
prop("C06", "Gradient descent variants follow their update rules",
     "For every problem and parameter choice, vanilla, AdaGrad, RMSprop, momentum, ADAM and SAGA descent produce exactly the iterates, search directions and squared-gradient averages of their rules, applying the regulariser with the current step once per epoch and the learning-rate schedule once per iteration. Parameters outside their range are rejected.",
     ["inputs", "configurations", "histories"], "every quadratic problem, variant, epoch size, learning-rate schedule and sequence of runs",
     "Tests check that a converged value is returned; averages, bias corrections, epochs and schedules are not observed.",
     [A + "gradient_descent.py"], [("common update", A + "gradient_descent.py:GenericGradOpt._update"), ("direction and speed rules", A + "gradient_descent.py")], "differential against an independent implementation of the rules, at every iterate")
prop("C07", "ADMM and FastADMM alternate their optimisers as documented",
     "For every pair of optimisers, linear operators and constraint, ADMM and FastADMM call each optimiser once per iteration with the documented starting point and observation, return the last pair of variables, evaluate their cost as the two cost functions plus tau times the squared constraint residual, and FastADMM accelerates and restarts according to its residual rule.",
     ["inputs", "configurations", "histories"], "every affine optimiser pair, operators, constraint, start and sequence of runs",
     "Tests run both solvers once with trivial optimisers.",
     [A + "admm.py"], [("alternating update", A + "admm.py:ADMM._update"), ("acceleration and restart", A + "admm.py:FastADMM._update"), ("cost", A + "admm.py:ADMMcostObj")], "differential against an independent implementation; the multiplier finding is listed in known-findings.txt")
prop("C08", "The cost is exact and convergence is declared exactly when it stabilises",
     "The cost object reports the sum of the costs of its operators at the current solution, evaluates it only on the iterations its interval selects, and declares convergence exactly when the relative change between the means of the two halves of a full test window is within the tolerance. The record of costs holds every evaluated value in order, and operators without a cost are rejected.",
     ["histories", "configurations"], "every sequence of cost values, tolerance, interval and window",
     "Tests feed two or three calls to one configuration.",
     [O + "cost.py", A + "admm.py"], [("convergence test", O + "cost.py:CostParent._check_cost"), ("evaluation", O + "cost.py:CostParent.get_cost")], "model-based testing over generated histories of costs")
prop("C09", "Every solver iterates, stops and measures metrics on the documented schedule",
     "Every solver performs the requested number of iterations unless its cost or an early-stopping metric converges first, measures its metrics on the requested period, on the last iteration and on convergence, and reports for each metric the values and iteration indices in order. The progress display, resuming a run and automatic iteration do not change any result.",
     ["histories", "configurations"], "every solver, scripted cost and metric sequence, metric period, iteration counts and number of runs",
     "Tests only run a fixed number of iterations with one metric and do not look at when it is measured or why a run stops.",
     [A + "base.py", A, "src/modopt/base/observable.py"], [("iteration loop", A + "base.py:SetUp._iterations"), ("metric observers", "src/modopt/base/observable.py:MetricObserver")], "model-based testing: a reference scheduler predicts every stop and measurement")
prop("C10", "Separable proximity operators are exact proximal maps of their costs",
     "Soft and hard thresholding, ridge, elastic net, positivity and identity operators return, for any data, weights and extra factor, exactly the minimiser of their proximal objective (or the documented hard threshold), report the matching cost, and leave their input and weights unchanged. Proximal maps are firmly non-expansive, and weights changed after construction are honoured.",
     ["inputs", "configurations"], "every real or complex array, layout, weight and extra factor",
     "Tests check one array per operator with the default extra factor.",
     [O + "proximity.py", "src/modopt/signal/noise.py"], [("operators", O + "proximity.py"), ("thresholding", "src/modopt/signal/noise.py:thresh")], "closed forms plus minimality of the proximal objective against generated competitors")
prop("C11", "Structured proximity operators are exact proximal maps",
     "Group LASSO, ordered weighted l1, k-support and low-rank operators return, for any data, weights and extra factor, the minimiser of their proximal objective (or the documented hard threshold of the singular values), keep the shape of their input, and reject invalid weights or parameters.",
     ["inputs", "configurations"], "every array, weights, group or rank structure and extra factor",
     "Tests check one or two arrays per operator; ties, pooled blocks, boundary groups and extra factors are not covered.",
     [O + "proximity.py", "src/modopt/signal/svd.py"], [("operators", O + "proximity.py")], "independent solvers (isotonic regression, bisection, SVD) and minimality against generated competitors; two cost findings are listed in known-findings.txt")
prop("C12", "Composite operators act as the composition of their parts",
     "A proximity operator composed with a linear transform applies the transform, the inner operator with the same extra factor and the adjoint; combined proximity operators act on each component separately and add their costs; combined linear operators stack their outputs and form the documented weighted sum, or the average when no weights are given, of the adjoints. Invalid parts are rejected.",
     ["inputs", "configurations"], "every list of operators, weights, nesting and data",
     "Tests use one fixed pair of operators.",
     [O + "proximity.py", O + "linear/base.py"], [("composition", O + "proximity.py:LinearCompositionProx"), ("combination", O + "proximity.py:ProximityCombo"), ("linear combination", O + "linear/base.py:LinearCombo")], "differential against the explicit composition")
prop("C13", "Linear operators are linear and the adjoint is the adjoint",
     "Matrix, identity, convolution-filter and combined operators are linear, and their adjoint satisfies the inner-product identity for every pair of vectors. The transpose test utility accepts adjoint pairs and rejects operators that are not adjoint to each other.",
     ["inputs", "configurations"], "every matrix, filter bank, convolution method and pair of vectors",
     "Tests compare one forward and one adjoint evaluation with constants.",
     [O + "linear/base.py", O + "linear/wavelet.py", "src/modopt/signal/validation.py", "src/modopt/signal/wavelet.py"], [("adjoint by rotated filters", "src/modopt/signal/wavelet.py:filter_convolve"), ("transpose test", "src/modopt/signal/validation.py")], "metamorphic (linearity, inner products) and differential against dense matrices")
prop("C14", "The wavelet transform is linear, invertible and, if orthogonal, unitary",
     "For every discrete wavelet, level, boundary mode, data shape (odd sizes included) and batch size, the wavelet transform operator returns the coefficients of the standard multilevel transform with that boundary mode, is linear, and its adjoint operator recovers the data exactly, also on coefficients obtained elsewhere. Orthogonal wavelets with periodic boundaries preserve inner products, and the reported coefficient shapes match the coefficients.",
     ["inputs", "configurations", "histories"], "every wavelet, level, mode, shape, batch, worker count and order of calls",
     "Tests use one image size with one wavelet and mode.",
     [O + "linear/wavelet.py"], [("CPU transform", O + "linear/wavelet.py:CPUWaveletTransform")], "PyWavelets as oracle, round trips, inner products")
prop("C15", "Gradients are the derivatives of the costs they report",
     "The least-squares gradient operator returns the derivative of the cost it reports, for every measurement operator, observation and point, leaves its arguments unchanged and honours a changed observation. Observed data and gradients of the wrong type are rejected or converted as documented.",
     ["inputs", "configurations", "histories"], "every matrix, observation, point and sequence of evaluations",
     "Tests evaluate one gradient and one cost separately and never relate the two.",
     [O + "gradient.py"], [("gradient and cost", O + "gradient.py:GradBasic"), ("typed data", O + "gradient.py:GradParent")], "closed form and directional derivatives")
prop("C16", "Convolutions agree with direct summation",
     "Convolution with the linear method equals direct summation cropped to the data, and with the periodic method equals circular summation, for every data and kernel; stacks are convolved image by image, and rotating the kernel gives the correlation. Data and kernels that do not match are rejected.",
     ["inputs", "configurations"], "every data, kernel, method, rotation and stack",
     "Tests compare two fixed examples.",
     ["src/modopt/math/convolve.py", "src/modopt/signal/wavelet.py"], [("convolution", "src/modopt/math/convolve.py"), ("filter banks", "src/modopt/signal/wavelet.py")], "differential against explicit double sums")
prop("C17", "Matrix utilities satisfy the algebra that defines them",
     "Orthonormalisation returns orthonormal (or orthogonal) rows spanning the same nested subspaces, the nuclear norm is the sum of singular values, projection is onto the given direction, rotation matrices are orthogonal and compose, and rotating an image by right angles permutes its pixels about its centre. Invalid input is rejected.",
     ["inputs"], "every matrix, vector and angle", "Tests compare one small example per function.",
     ["src/modopt/math/matrix.py"], [("functions", "src/modopt/math/matrix.py")], "algebraic laws and independent formulas")
prop("C18", "The power method performs the power iteration",
     "The power method returns the norm reached by the power iteration on the given operator from its random start, stops at the documented tolerance or iteration limit, applies the extra factor once, provides the inverse, and never overestimates the spectral radius of a symmetric positive operator. A seeded generator makes it reproducible.",
     ["inputs", "configurations"], "every operator, shape, seed, tolerance and iteration limit", "Tests check one matrix after convergence.",
     ["src/modopt/math/matrix.py"], [("power iteration", "src/modopt/math/matrix.py:PowerMethod")], "differential against an independent power iteration")
prop("C19", "Basic statistics agree with their definitions",
     "Median absolute deviation, its sigma estimate, mean squared error, both peak signal-to-noise ratios, their stack versions and the Gaussian kernel with each normalisation agree with their definitions on every input. Invalid options and shapes are rejected.",
     ["inputs", "configurations"], "every array, option and layout", "Tests check one array per function.",
     ["src/modopt/math/stats.py"], [("statistics", "src/modopt/math/stats.py")], "differential against direct formulas")
prop("C20", "Image quality metrics agree with their formulas",
     "SSIM, SNR, PSNR, MSE and NRMSE of two images equal their formulas on magnitudes rescaled to [0, 1], honour a binary mask on both images, do not modify the images, are unaffected by scaling either image, and are extremal for identical images.",
     ["inputs", "configurations"], "every pair of real or complex images and mask", "Tests check one pair of images with one mask.",
     ["src/modopt/math/metrics.py"], [("metrics", "src/modopt/math/metrics.py")], "differential against direct formulas and metamorphic laws")
prop("C21", "Cube, map and matrix rearrangements are inverse bijections",
     "Converting between a cube of images, a tiled map and a matrix moves every pixel to its documented place, keeps values and type, and the conversions are inverse to each other for every layout. Sizes that do not fit the layout are rejected.",
     ["inputs", "configurations"], "every cube, layout, data type and memory layout", "Tests check one layout per function.",
     ["src/modopt/base/transform.py"], [("rearrangements", "src/modopt/base/transform.py")], "explicit pixel index maps and round trips")
prop("C22", "Array adjustments move pixels exactly as documented",
     "Rotation by 180 degrees (single image and stack), two-dimensional zero padding and rolled transposes place every value at its documented position for every shape, data type and memory layout, and rolled transposes are mutually inverse. Invalid arguments are rejected.",
     ["inputs", "configurations"], "every array shape, padding and roll", "Tests check one array per function.",
     ["src/modopt/base/np_adjust.py"], [("adjustments", "src/modopt/base/np_adjust.py")], "explicit index maps and round trips")
prop("C23", "Argument checks convert exactly or raise",
     "The float and integer checks return a number or array of the documented type with unchanged values, accept what they document and reject everything else with a type error; the array check enforces the required data type and sets the write flag as requested; the callable check accepts exactly callables.",
     ["inputs"], "every scalar, sequence, array and non-numeric object", "Tests use two or three values per check.",
     ["src/modopt/base/types.py"], [("checks", "src/modopt/base/types.py")], "model of accepted and rejected values")
prop("C24", "Simulated noise has the requested level and is reproducible",
     "Gaussian noise is the requested standard deviation, global or per image, times unit normal noise that does not depend on the data; Poisson noise is sigma times counts with the magnitude of the data as mean. The same generator state gives the same noise, a generator is advanced, and invalid types or numbers of sigmas are rejected.",
     ["inputs", "configurations", "histories"], "every data array, sigma form, seed and noise type", "Tests compare one seeded array per type.",
     ["src/modopt/signal/noise.py"], [("noise", "src/modopt/signal/noise.py:add_noise")], "metamorphic relations between seeds, sigmas and data plus 7-sigma statistical bounds")
prop("C25", "Thresholds, positivity and filters follow their formulas",
     "Hard and soft thresholding act elementwise on real and complex data of any shape with scalar or array thresholds as documented, including exactly at the threshold; positivity zeroes negative entries of regular and ragged arrays; the Gaussian and Mexican-hat filters evaluate their formulas with and without normalisation. Invalid options are rejected.",
     ["inputs", "configurations"], "every array, threshold, option and layout", "Tests check one array per function.",
     ["src/modopt/signal/noise.py", "src/modopt/signal/positivity.py", "src/modopt/signal/filter.py"], [("thresholding", "src/modopt/signal/noise.py:thresh"), ("positivity", "src/modopt/signal/positivity.py"), ("filters", "src/modopt/signal/filter.py")], "closed forms and laws (idempotence, additivity, non-expansiveness)")
prop("C26", "Singular value thresholding acts on the singular values only",
     "For every matrix the decomposition reproduces it, and thresholding by value, by number of components or by the significance rule returns the matrix whose singular values are thresholded or truncated as documented; the fast variant agrees with the full one and returns the updated rank estimate; coefficient thresholding scales the threshold by the norm of each transformed component. Invalid options are rejected and no argument is modified.",
     ["inputs", "configurations", "histories"], "every matrix, threshold, rank and history of rank estimates", "Tests check one matrix per function.",
     ["src/modopt/signal/svd.py"], [("decomposition and thresholding", "src/modopt/signal/svd.py")], "differential against numpy's SVD")
prop("C27", "Reweighting follows its update rule over any history",
     "Every reweighting divides each weight by one plus the magnitude of the coefficient over the scaled original weight, over any sequence of calls, keeps the original weights, and is seen by every operator that shares the weights. Data of another shape is rejected without changing the weights.",
     ["histories", "inputs"], "every initial weights, factor and sequence of coefficient arrays", "Tests apply one reweighting.",
     [O + "reweight.py"], [("reweighting", O + "reweight.py:cwbReweight.reweight")], "model-based testing over histories")
prop("C28", "Observers see every notification once and metrics record what they see",
     "Over any history of adding, removing and notifying, each observer registered for a signal is called exactly once per notification in registration order with the given values, nested notifications are refused, failures of an observer do not block later notifications, and unknown signals are rejected. A metric observer passes exactly the mapped and constant arguments, records values, iterations and times in order and raises its convergence flag exactly when the documented window criterion holds.",
     ["histories"], "every sequence of operations, observer behaviours and metric values", "Tests add one observer and notify once.",
     ["src/modopt/base/observable.py"], [("notification", "src/modopt/base/observable.py:Observable"), ("metric", "src/modopt/base/observable.py:MetricObserver")], "stateful model-based testing")
prop("C29", "Calls are repeatable, side-effect free and instances independent",
     "Repeating a call to any numerical function or operator with the same arguments gives the same result whatever was called in between or runs at the same time in another thread, arguments and earlier results are never modified, and the global random state, error settings, working directory and environment are left alone. Two solvers run interleaved give exactly what each gives alone.",
     ["histories", "inputs", "schedules"], "every function, operator and pair of solvers, and every order of calls", "Tests make one call on fresh objects.",
     ["src/modopt/math", "src/modopt/signal", "src/modopt/base", "src/modopt/opt"], [("all public functions and classes", "src/modopt")], "metamorphic: repetition, interleaving, frozen arguments, global-state snapshots")
prop("C30", "Changing the array backend never changes the data",
     "Moving an array through any sequence of backends and back to the CPU keeps its values, shape and type, does not copy data that is already in place, and reports the module it lives in; a backend that is unknown or not installed falls back to numpy with a warning. Solvers work on their own copy of their input.",
     ["inputs", "histories", "configurations"], "every array, data type and path through the backends", "Tests convert one array to each available backend.",
     ["src/modopt/base/backend.py", A + "base.py"], [("conversions", "src/modopt/base/backend.py"), ("copy on input", A + "base.py:SetUp.copy_data")], "round trips along generated paths of backends")
prop("C31", "Logs, messages, file checks and cost plots report what they were given",
     "Over any history of opening, writing and closing logs, each log file holds exactly its own messages in order and nothing after it is closed; warnings and errors are printed and logged once; file and executable checks accept exactly existing files and runnable programs on the search path; the cost plot shows the logarithm of the recorded costs in the documented file and leaves no figure open.",
     ["histories", "inputs"], "every sequence of log operations, directory tree and list of costs", "Tests open one log and call each check once.",
     ["src/modopt/interface/log.py", "src/modopt/interface/errors.py", "src/modopt/plot/cost_plot.py", O + "cost.py"], [("logs", "src/modopt/interface/log.py"), ("checks", "src/modopt/interface/errors.py"), ("plots", "src/modopt/plot/cost_plot.py")], "stateful model-based testing in scratch directories")
prop("C32", "The external transform wrapper passes data through and cleans up",
     "The wrapper of the external multiresolution program hands it exactly the input image, the given options and fresh file names under the requested path, returns its output in the type of the input, removes its temporary files unless told otherwise, and reports program failures as errors. Filters are obtained from a centred unit impulse of odd size, with the coarse scale and empty borders kept or removed as requested.",
     ["inputs", "configurations", "fault_sequences"], "every image, option list, output and failure message of the program", "The program is not installed, so the tests skip the wrapper.",
     ["src/modopt/signal/wavelet.py"], [("wrapper", "src/modopt/signal/wavelet.py:call_mr_transform"), ("filters", "src/modopt/signal/wavelet.py:get_mr_filters")], "fault injection with a recording stand-in program in a scratch directory")


prop("C33", "An argument left out takes its documented default value",
     "Every public solver, operator and function gives the same result, history and messages whether an optional argument is left out or given its documented default value, in any combination of arguments. Solvers built without options iterate at once, with the documented number of iterations and the default cost and identity operators.",
     ["inputs", "configurations"], "every public function and class, and every subset of its optional arguments", "Tests call each function in one or two forms, and on data for which most options make no difference.",
     ["src/modopt/opt", "src/modopt/math", "src/modopt/signal", "src/modopt/base"], [("signatures and docstrings", "src/modopt")], "metamorphic: the call with defaults left out against the call that writes the documented values out")
prop("C34", "Verbose output shows the true values and warnings appear when due",
     "Verbose costs, solvers, convergence tests, power methods and reweightings report the numbers they actually computed, and produce the same results as quiet ones, which print nothing. A warning is emitted exactly when a foreign operator, an unavailable backend or an array with a changed write flag is given.",
     ["inputs", "configurations", "histories"], "every operator, solver, cost history and warning condition", "Tests never capture the output, and trigger one warning at most.",
     [O + "cost.py", O + "proximity.py", O + "gradient.py", A + "base.py", A + "forward_backward.py", "src/modopt/math/matrix.py", "src/modopt/base/types.py", "src/modopt/base/backend.py"],
     [("cost reports", O + "cost.py"), ("warnings", A + "base.py:SetUp")], "captured output against independently computed values")


prop("C35", "The element type of the data does not change the numbers",
     "Every numerical function, operator and solver gives the same numbers for integer, single precision, other-endian and read-only arrays as for a float64 copy of the same values, up to the precision of the type. In particular measures of 8-bit and 16-bit images never wrap around, and the arguments are left as they were.",
     ["inputs", "configurations"], "every function, element type, byte order, write flag and array of exactly representable values", "Tests use float64 or int64 arrays with small values only.",
     ["src/modopt/math", "src/modopt/signal", "src/modopt/base", "src/modopt/opt"], [("arithmetic on the arrays given by the user", "src/modopt")], "metamorphic: the same values in another element type against the float64 copy")

prop("C36", "Changing the unit of the data changes the result by the same unit",
     "Multiplying every quantity that carries the unit of the data (images, observations, thresholds, starting points) by the same factor multiplies each result by the corresponding power of that factor, however small or large the factor is (apart from documented absolute tolerances). Ranks, convergence decisions, weights and other dimensionless results do not change.",
     ["inputs", "configurations", "histories"], "every function, operator, solver, valid input and change of unit", "Tests use data of size one, where hidden absolute tolerances and floors have no effect.",
     ["src/modopt/math", "src/modopt/signal", "src/modopt/base", "src/modopt/opt"], [("absolute constants in the arithmetic (epsilons, roundings, tolerances)", "src/modopt")], "metamorphic: the same call on data scaled by a power of two")

prop("C37", "Symmetries of the data are symmetries of the result",
     "Relabelling pixels, images, variables or observations relabels the result and nothing else; a sign, a phase or a change of orthonormal basis passes through every operation that does not depend on it. Independent problems joined into one are solved as each of them alone, and parts of a combination may be listed in any order.",
     ["inputs", "configurations", "histories"], "every function, operator, solver, valid input and symmetry of it", "Tests fix one order, one sign and one basis for each example.",
     ["src/modopt/math", "src/modopt/signal", "src/modopt/opt"], [("arithmetic, thresholding and iterations on arrays", "src/modopt")], "metamorphic: permuted, rotated, sign-changed and joined data")

prop("C38", "Computations on the device backend give the results of the host",
     "Every part of the library that accepts device arrays gives on them the values, costs, metrics and stopping decisions it gives on the same data held on the host. Results stay on the device unless the caller moves them, data never cross between host and device implicitly, and explicit transfers preserve values, types and shapes.",
     ["inputs", "configurations", "histories"], "every operator, solver, function and transfer that supports device arrays, and every valid input", "No device is available to the tests: every branch that handles device arrays is never executed.",
     ["src/modopt/base/backend.py", "src/modopt/opt", "src/modopt/math/matrix.py", "src/modopt/signal"], [("choice of the array module and transfers", "src/modopt/base/backend.py"), ("arithmetic through the array module", "src/modopt/opt")], "differential: host arrays against a strict stand-in for the device")

prop("C39", "A failing user-supplied part reaches the caller and spoils nothing",
     "An exception of any kind raised at any call of an operator, cost, metric, update rule or observer supplied by the user reaches the caller as it is, and the part is not called again. The arrays of the caller and the global state stay as they were, records kept so far stay consistent, and the operators involved, the solver itself and everything sharing them work as before on their next use.",
     ["inputs", "configurations", "fault_sequences", "histories"], "every solver, operator, cost, observer, part supplied to it, call of that part and kind of exception", "Tests never make a supplied part fail.",
     ["src/modopt/opt", "src/modopt/base/observable.py", "src/modopt/math/matrix.py", "src/modopt/signal/svd.py"], [("calls of the user's functions", "src/modopt/opt"), ("notification of the observers", "src/modopt/base/observable.py")], "fault injection at generated calls, against the same run without the fault")

prop("C40", "Invalid arguments are refused with the documented error",
     "Every argument outside its documented domain is refused with the documented kind of exception and a message, wherever in a list the offending element stands and however close to the boundary it lies. Arguments inside the domain, its boundary included, are accepted. A refused call changes neither its arguments nor global state, and the same call with valid arguments works afterwards.",
     ["inputs", "configurations"], "every public function, operator and solver that documents a refusal, and every invalid value of every such argument", "Tests try one invalid value for some of the checks, far from the boundary and in the first position.",
     ["src/modopt/base/types.py", "src/modopt/base", "src/modopt/opt", "src/modopt/signal", "src/modopt/math"], [("explicit argument checks", "src/modopt")], "one argument of a generated valid call is replaced by an invalid or boundary value")

prop("C41", "How a supplied operator hands out its result does not matter",
     "Solvers, combined operators and functions give the same result whether the operators supplied to them return fresh arrays, one buffer they reuse at every call, views of larger or reversed arrays, read-only arrays or their own argument where that is the result. What an operator hands out is never written to, so an operator may keep it.",
     ["inputs", "configurations", "histories"], "every solver, composite operator and function taking operators, every manner of handing out results and every sequence of runs", "The operators of the tests return fresh arrays, or the argument itself, and never look at them again.",
     ["src/modopt/opt/algorithms", "src/modopt/opt/proximity.py", "src/modopt/opt/linear", "src/modopt/opt/gradient.py", "src/modopt/math/matrix.py", "src/modopt/signal/svd.py"],
     [("variables of the solvers kept between iterations", "src/modopt/opt/algorithms"), ("power iteration", "src/modopt/math/matrix.py:PowerMethod")], "the same history with operators that hand out fresh arrays")

prop("C42", "Large data, many parts and long histories are treated like small ones",
     "Nothing changes when data, numbers of parts or numbers of iterations grow: entrywise operations on thousands of entries equal the same operations on pieces of them, stacks of hundreds of images, groups, operators, filters or observers equal their members, large images and matrices give what direct formulas give, many problems solved together equal the problems solved one by one, and runs of many hundreds of iterations equal the same runs in pieces, with a record of every evaluation.",
     ["inputs", "configurations", "histories"], "data of up to 20000 entries, up to 300 parts, up to 3000 evaluations, sizes at and next to powers of two and round numbers included", "The data of the tests has a few entries, a few parts and a few iterations.",
     ["src/modopt/base", "src/modopt/math", "src/modopt/opt", "src/modopt/signal"],
     [("stacks and batches", "src/modopt/math/convolve.py"), ("solver loop and metrics", "src/modopt/opt/algorithms/base.py"), ("cost history", "src/modopt/opt/cost.py")], "direct formulas and the same computation on pieces")

prop("C43", "Arguments mean the same in every spelling",
     "A call gives the same result whether its arguments are given by position in their documented order or by name in any order, whether numbers are Python numbers or numpy scalars of any precision (whole numbers may stand for real ones, except for the step sizes of solvers), flags and strings Python's or numpy's, and lists of operators lists or tuples.",
     ["inputs", "configurations"], "every public callable, every split of its arguments into positional and named ones, every spelling of its scalars and sequences", "The tests spell every argument in one way.",
     ["src/modopt/base", "src/modopt/math", "src/modopt/opt", "src/modopt/signal"],
     [("type checks", "src/modopt/base/types.py"), ("constructors of the solvers", "src/modopt/opt/algorithms"), ("operators", "src/modopt/opt/proximity.py")], "the same call with every argument by name and plain Python values")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            assert p["statement"].rstrip(".").count(". ") <= 2, p["id"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["return values and public attributes"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
            checks.append({
                "property": p["id"], "quick_cmd": f"/opt/venv/bin/python /verif/run.py {p['id']} --tier quick", "thorough_cmd": f"/opt/venv/bin/python /verif/run.py {p['id']} --tier thorough",
                "technique": "property-based testing (Hypothesis generators and shrinking): " + p["note"], "level": "exploration",
                "level_note": "generated-input search; no claim beyond the cases explored (counts in the evidence file)", "evidence_file": f"evidence/{p['id']}.json",
            })
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    man = {
        "version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path[:0]=['/verif/vendor']; import hypothesis, numpy, scipy, pywt\"",
        "checks": checks, "not_applicable": na,
        "notes": "Replay a failure with: run.py <property> --replay <file>. Hypothesis is vendored in /verif/vendor. Nothing is compiled: every check imports modopt from /repo/src.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
