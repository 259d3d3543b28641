# executed by gen.py: prop(id, title, statement, quantifier text, why tests cannot, files, mechanism)
TESTS = "The tests sample a few Mach numbers, almost always with gamma = 1.4, and compare with round trips or tabulated values. "

prop("C01", "Isentropic relations are exact, consistent and inverse to each other",
     "For every gas and Mach number the total-to-static temperature and pressure ratios and the velocity satisfy energy conservation and the isentrope, and equal 1, 1 and 0 without motion. "
     "The functions returning the Mach number from either ratio are exact inverses, and both ratios increase strictly with the Mach number.",
     "every gamma in (1, 5/3], Mach number, total temperature and gas constant", TESTS + "No test varies gas, Mach number and temperature together, or states energy conservation.",
     [AE + "Isentropic.py"], [("isentropic ratios and inverses", AE + "Isentropic.py: TtTs_Mach, PtPs_Mach, Mach_TtTs, Mach_PtPs, Velocity_MachTt")])

prop("C02", "The gas that is prescribed is the gas that is computed with",
     "When a caller prescribes the heat capacity ratio to any flow, shock, expansion, duct, nozzle or thrust function, the result depends on that value and never on the library's default gas nor on the gas of an earlier call. "
     "This also holds inside iterative inversions and numerical integrations.",
     "all public functions with a gas argument, all arguments, any default gas in force", "With gamma equal to the default 1.4, which is what nearly all tests use, ignoring the argument cannot be seen.",
     [AE + "Isentropic.py", AE + "MassFlow.py", AE + "Fanno.py", AE + "Rayleigh.py", AE + "ShockWave.py", AE + "Supersonic.py", AE + "Propulsion.py", IN + "nozzle.py"],
     [("gamma parameters passed from function to function", "every gamma= default and call under aerokit/aero and aerokit/instance/nozzle.py")],
     over=("inputs", "configurations"), technique="dependence (information-flow) analysis on the value graph: default-gas symbols absent, prescribed gas present")

prop("C03", "A flow state keeps its gas through every operation",
     "Every state derived from a given state - copied, mirrored, taken behind a steady or moving shock, changed isentropically, recomputed from total quantities, taken as an element of an array of states, or found in a shock-tube or inflow problem - has the heat capacity ratio of the state it comes from. "
     "A sampled shock-tube solution has the left gas left of the contact and the right gas right of it.",
     "all states, gases and default gases; all state-producing operations", "Only default-gas states are tested, for which losing the gas is invisible.",
     [AE + "model1D.py", AE + "unsteady1D.py", IN + "riemann.py", IN + "unsteady_inflow.py"],
     [("state constructors and derived states", AE + "model1D.py state; " + AE + "unsteady1D.py unsteady_state"), ("star and sampled states", IN + "riemann.py qstarL/qstarR/qsol")],
     over=("inputs", "histories"), state=[("state._gamma", "heat capacity ratio carried by a state")])

prop("C04", "Normal shocks conserve mass, momentum and energy and only compress",
     "Across every normal shock, steady or moving in either direction, mass flux, momentum flux and total enthalpy are conserved in the shock frame, pressure rises, total pressure drops and the downstream flow is subsonic; at Mach 1 nothing changes; the steady jump taken from the state behind gives back the state ahead. "
     "The shock Mach number recovered from a static or total pressure ratio reproduces the ratio.",
     "every gamma, upstream Mach number, upstream state, and both directions of the shock", TESTS + "Conservation laws are not stated by any test.",
     [AE + "ShockWave.py", AE + "model1D.py", AE + "unsteady1D.py"],
     [("jump relations and inverses", AE + "ShockWave.py Ps_ratio, Rho_ratio, Ts_ratio, downstream_Mn, Pt_ratio, Mn_Ps_ratio, Mn_Pt_ratio"), ("shock of a state", AE + "model1D.py state_RH; " + AE + "unsteady1D.py")],
     note=VNN + ROOT)

prop("C05", "Oblique shocks: deflection, angles and limits are mutually consistent",
     "For every attached oblique shock the deflection conserves tangential velocity and total enthalpy, whether computed from the shock angle or from the pressure ratio; weak, strong and iterated shock angles invert it, with odd symmetry in the deflection. "
     "The detachment angle maximises the deflection, and the sonic angle gives a downstream Mach number of exactly 1.",
     "every gamma, Mach number from 1.2 to 8 and attached shock angle", TESTS + "Sign, branch and limit errors away from the few sampled angles go unseen.",
     [AE + "ShockWave.py"], [("oblique shock functions", AE + "ShockWave.py deflection_Mach_sigma, weaksigma/strongsigma/sigma_Mach_deflection, dev_Max, sigma_Sonic")], note=VNN + ROOT)

prop("C07", "Prandtl-Meyer expansion: function, inverses and turning agree",
     "The expansion angle is the exact Prandtl-Meyer integral: zero at Mach 1 and strictly increasing. Every inverse returns the Mach number it came from, "
     "and turning through a pressure ratio, or the pressure ratio of a turning, keeps total pressure constant.",
     "every gamma and supersonic Mach number, any turning between supersonic states", TESTS,
     [AE + "Supersonic.py"], [("Prandtl-Meyer function and inverses", AE + "Supersonic.py")], note=VNN + ROOT)

prop("C08", "Mass flow, area ratio and thrust functions conserve mass and invert",
     "The reduced mass flow is density times velocity of the isentropic relations, the area ratio times it is constant, is 1 at the throat and smallest there, decreasing in subsonic and increasing in supersonic flow. "
     "The subsonic and supersonic Mach numbers of an area ratio solve it on the branch asked for, also entry by entry for arrays, and the Mach number of a thrust function value solves that function.",
     "every gamma, Mach number, area ratio and (arrays of) initial guesses", TESTS + "The branch that an inversion ends on is tested at a handful of points.",
     [AE + "MassFlow.py", AE + "Propulsion.py"], [("mass flow, area ratio and inverses", AE + "MassFlow.py"), ("thrust function", AE + "Propulsion.py")], note=VNN + ROOT)

prop("C09", "Fanno flow: adiabatic constant-area duct with friction",
     "At every Mach number the ratios to the sonic state satisfy constant total temperature and mass flux, the equation of state and the definitions of Mach number, total pressure and entropy, and equal 1 (or 0) at Mach 1. "
     "The friction length to choking is the integral of the Fanno line and grows away from Mach 1 on both sides.",
     "every gamma and Mach number", TESTS, [AE + "Fanno.py"], [("Fanno ratios", AE + "Fanno.py")])

prop("C10", "Rayleigh flow: frictionless constant-area duct with heating",
     "At every Mach number the ratios to the sonic state satisfy constant impulse and mass flux, the equation of state and the definitions of Mach number, total quantities and entropy, and equal 1 (or 0) at Mach 1; the largest heating ratio is that to the sonic state. "
     "The subsonic and supersonic Mach numbers of a total temperature ratio are exact inverses on their branch.",
     "every gamma and Mach number", TESTS, [AE + "Rayleigh.py"], [("Rayleigh ratios and inverses", AE + "Rayleigh.py")])

prop("C11", "Legacy names compute what the current names compute",
     "Every function kept under an older name or an older module gives, for all arguments including those left to their defaults, the same result as the current one, and classes keep their behaviour there.",
     "all legacy function names and modules, all arguments", "Legacy names are hardly called by the tests.",
     [AE + "Isentropic.py", AE + "ShockWave.py", AE + "CompressibleFlow.py", AE + "nozzle.py", AE + "riemann.py"],
     [("aliases and duplicate implementations", AE + "CompressibleFlow.py; aliases in " + AE + "Isentropic.py and ShockWave.py")], over=("inputs", "programs"), note=VNN + ROOT)

prop("C12", "The default-gas registry holds what was last set, saved or restored",
     "Reading the default heat capacity ratio or gas constant returns the last value set; setting one leaves the other; restoring returns both values in force at the last save, any number of times. "
     "Nothing else in the library writes the registry.",
     "any sequence of set, save and restore with any values; every module", "Two fixed sequences are tested; that no computation touches the registry is a statement about all code.",
     [CO + "defaultgas.py"], [("registry", CO + "defaultgas.py")], over=("histories", "programs"),
     technique="symbolic-store dataflow analysis of the registry functions; write-effect lint over all modules", state=[("_gamma, _r_ideal", "default gas"), ("_saved values", "gas in force at the last save")])

prop("C13", "One-dimensional states are consistent however they are built",
     "A state computed from total pressure, total temperature and one of Mach number, velocity or static pressure has exactly those, its thermodynamic functions follow from its density, velocity and pressure, and isentropic change keeps total pressure, total temperature and entropy. "
     "Copies and mirror images do not share their fields with the original, and asking a state for a quantity does not change it.",
     "every state, gas, direction of flow and order of queries", TESTS, [AE + "model1D.py", AE + "unsteady1D.py"],
     [("state construction and functions", AE + "model1D.py"), ("unsteady states", AE + "unsteady1D.py")], over=("inputs", "histories"))

prop("C14", "Unsteady wave curves obey the jump and Riemann-invariant relations",
     "The velocity and density changes of a state through a shock to any higher pressure, or an expansion to any lower one, satisfy the Hugoniot relations or the Riemann invariant and constant entropy. "
     "They vanish without pressure change, are acoustic for weak waves, increase with the pressure, and are the same in a moving frame.",
     "every state, gas, final pressure and frame velocity", TESTS, [AE + "unsteady1D.py"], [("wave curves", AE + "unsteady1D.py delta_u_*, rho_through_*")])

prop("C15", "Riemann problem: star state and outer wave speeds",
     "For any two states, of different gases or not, pressure and velocity are continuous at the contact, each side's density lies on its Hugoniot or isentropic curve, and the outermost wave speeds are those of the shock or of the head of the expansion, with jump relations satisfied across shocks. "
     "Equal states stay as they are, the given states are not modified and later changes of them do not affect the problem.",
     "every pair of states and gases without vacuum, all four wave patterns", TESTS + "A few shock tubes in one gas are solved.",
     [IN + "riemann.py", AE + "unsteady1D.py"], [("star state", IN + "riemann.py riemann_pb")], over=("inputs", "histories"), note=VNN + ROOT)

prop("C16", "Sampling the Riemann solution gives the self-similar exact solution",
     "At every position over time the sampled density, velocity and pressure are those of the region it lies in: undisturbed state, expansion fan or star state of either side. "
     "A point exactly on a wave takes the value of one of its sides, there is one sample per point, the points are not modified, and a sampled solution keeps its values when the problem is sampled again.",
     "every problem, wave pattern and point, including points on the waves", TESTS + "Sampling at wave positions and patterns with different gases are not tested.",
     [IN + "riemann.py"], [("sampling", IN + "riemann.py qsol")], note=VNN + ROOT)

prop("C17", "Riemann solutions are Galilean invariant and mirror symmetric",
     "Adding a velocity to both states shifts all velocities and wave speeds by it and changes nothing else. Exchanging the two states with reversed velocities mirrors the solution, sampled fields included.",
     "every pair of states and gases, frame velocity and sample point", "Symmetries relate two runs; tests check single runs.",
     [IN + "riemann.py", AE + "unsteady1D.py"], [("Riemann solver", IN + "riemann.py")], note=VNN + ROOT)

prop("C18", "Nozzle regimes: limits and exit Mach number",
     "The pressure ratios separating the regimes are those of choked subsonic flow, a shock in the exit section and adapted supersonic flow for the section ratio, and are ordered. "
     "The exit Mach number matches outlet pressure when unchoked or with a shock in the diffuser (with mass conserved through throat and exit), is set by the section ratio otherwise, and is continuous at the limits; the fully expanded jet Mach number matches outlet pressure, through an oblique shock if over-expanded.",
     "every gas, exit section ratio and nozzle pressure ratio, all regimes", TESTS + "One section ratio per regime is sampled.",
     [IN + "nozzle.py"], [("regime limits and exit Mach", IN + "nozzle.py NPR_*, Ms_from_AsAc_NPR, Madapt_from_AsAc_NPR")], note=VNN + ROOT)

prop("C19", "Nozzle distributions conserve mass and total pressure, with one shock at most",
     "For every section law and pressure ratio the Mach number of each section solves the area relation on the branch of its regime, total pressure is constant except for the loss through the diffuser shock, static pressure follows from them and the exit is at outlet pressure in subsonic exits. "
     "A given section ratio is used; the result depends only on the last pressure ratio set, and equals the one of a nozzle built with it, whatever the number type of the arrays; distributions obtained before keep their values.",
     "every section law, gas and sequence of pressure ratios", TESTS, [IN + "nozzle.py"], [("nozzle distributions", IN + "nozzle.py class nozzle")],
     over=("inputs", "histories"), note=VNN + ROOT, state=[("nozzle fields", "Mach number, pressures and regime of the last set_NPR")])

prop("C20", "Engine cycles balance energy, power and momentum at every component",
     "For the gas generator, turbojet and turbofan, whatever the parameters and flight conditions: inlet, compressor, burner, turbines, fan and nozzles satisfy their energy, shaft-power, polytropic and pressure-loss balances, and thrust, efficiencies and consumption are those of the resulting jets. "
     "Without power to the fan the core is that of the turbojet; with all of it the core jet expands to ambient pressure; a core below ambient pressure has no jet.",
     "all engine parameters and flight conditions", "No engine class is covered by the tests.",
     [EN + "gasgenerator.py", EN + "turbojet.py", EN + "turbofan.py"], [("cycle update and performance", EN + "*.py update")])

prop("C21", "Every engine parameter acts, and an update forgets the previous one",
     "Each constructor parameter and each of flight temperature and Mach number changes the performance. An update after any earlier one, or after changed flight conditions, gives what a new engine gives; "
     "ambient pressure alone does not change specific performance, the default gas is not used, and one engine does not affect another.",
     "all parameters; any sequence of updates and flight conditions; several engines", "No engine class is covered by the tests.",
     [EN + "gasgenerator.py", EN + "turbojet.py", EN + "turbofan.py"], [("cycle update", EN + "*.py update, flight_conditions")], over=("inputs", "histories"),
     technique="dependence analysis and history comparison on the value graphs of the update methods")

prop("C22", "Staged turbofan cycles: balances, stage order and sibling implementations",
     "The staged turbofan cycles, with given fan pressure ratio or given work share, satisfy the energy, power, polytropic and loss balances of every stage and report the thrust, consumption and efficiencies of those jets. "
     "Any sequence of stage calls, once completed, reaches the same values; cycles do not affect each other; the stand-alone scripts give the same performance; the optimum fan temperature ratio they compute is the one that gives both jets of the ideal engine the same velocity, printed before the ratios and the fan temperature that go with it; "
     "and each figure of the parametric study shows the five performances, in order and under their names, against bypass ratio, compressor pressure ratio or turbine temperature over the given interval, the other parameters at the base engine's values (6.1, 32.8, 1410 K, 180 kg/s, half of the work to the fan).",
     "all cycle parameters, operating points and sequences of stage calls", "Neither module is covered by the tests.",
     [EN + "Cycle_Turbofan.py", EN + "propu_be.py", EN + "propu_be_double_corps.py"], [("staged cycle", EN + "Cycle_Turbofan.py"), ("scripts", EN + "propu_be*.py calculs")],
     over=("inputs", "histories"))

prop("C23", "Angles are in degrees, in the right quadrant",
     "The degree-based trigonometric functions are the trigonometric functions of the angle in degrees, inverse functions return degrees and invert them on their principal range, and the two-argument arctangent returns the angle of the point in every quadrant. "
     "All of them work entry by entry on arrays.",
     "every angle and argument", TESTS, [AE + "degree.py"], [("degree functions", AE + "degree.py")])

prop("C24", "No function modifies its arguments",
     "No public numerical function, state method, flow problem, nozzle or sampling routine writes into an array, list or object it is given, other than methods whose purpose is to change their own object.",
     "all public functions, all argument arrays", "Tests never look at their inputs after a call.",
     [AE + "MassFlow.py", AE + "ShockWave.py", AE + "Supersonic.py", AE + "IterativeSolve.py", AE + "model1D.py", IN + "riemann.py", IN + "nozzle.py"],
     [("stores through parameters", "every function of the package")], over=("inputs", "programs"),
     technique="interprocedural mutation/effect lint with aliasing, plus array-payload comparison in the abstract heap")

prop("C25", "Arrays are computed entry by entry, whatever their number type",
     "For every public numerical function and state function, entry i of the result for an array argument is the result for entry i, when one or all arguments are arrays of any shape (one entry, two dimensions, a column against a row) and when gamma is an array too, also for integer arrays, whose results are not truncated. A result keeps its values when the function is called again with other arrays. "
     "Taken one case per call: the angle of an oblique shock and its inverse, the Mach number from a total pressure ratio, the conical flow; the gamma of functions that solve an equation is a number.",
     "every array length and shape (lengths around the thresholds of the source up to 4000), mix of scalar and array arguments, and number type", "Tests use floating-point arrays of fixed length in one argument.",
     [AE + "Isentropic.py", AE + "MassFlow.py", AE + "ShockWave.py", AE + "Supersonic.py", AE + "Fanno.py", AE + "Rayleigh.py", AE + "model1D.py"],
     [("array handling", "all numerical functions")], note=VNN + ROOT)

prop("C36", "Inflow problem: total state, contact and wave",
     "Flow entering with prescribed total pressure and total temperature meets the initial state at a contact of equal pressure and velocity, has exactly that total state, and the gas behind the wave lies on the Hugoniot or isentropic curve of the initial state, which is not modified. Solving again with the same object gives what a new object gives and leaves the states handed out before.",
     "every initial state, gas and prescribed total state with inflow, one or two in a row", "One subsonic case is tested.",
     [IN + "unsteady_inflow.py"], [("inflow solver", IN + "unsteady_inflow.py solve_with_pt0_rtt0")], note=VNN + ROOT)

prop("C29", "Each Runge-Kutta step is a step of the method, within tolerance",
     "Integration starts at the given point and value, every recorded increment is one step of the fourth-order (fixed step) or Cash-Karp fourth/fifth-order (adaptive) tableau from the previous record, for scalars and systems of whole or real starting values, and the last record is at the end of the range. "
     "The adaptive method records only steps whose embedded error estimate is within the tolerance, and rejected steps leave no trace and are tried again shorter, never beyond the end of the range. The integration stops once the end is reached, is not given up before ten thousand attempted steps, and is not altered by earlier integrations.",
     "every right-hand side, initial state, step, tolerance and range, forward or backward; histories of up to three attempted steps", "Tests integrate one problem.",
     ["aerokit/common/_ode.py"], [("integrators", "aerokit/common/_ode.py RK4, RKF45")], over=("inputs", "histories"), note=VNN +
     "The right-hand side is an uninterpreted function given smooth instances; loops are peeled, longer histories repeat the same body. The initial step must not exceed the range.",
     technique="loop peeling and value numbering; every accept/reject path compared with the tableau")

prop("C30", "Real-gas and kerosene tables are thermodynamically consistent",
     "For air as a real gas and for kerosene, the enthalpy has the heat capacity as slope, the entropy function has Cp/(r T ln 10) as slope, and gamma is Cp/(Cp-r); all increase with temperature and the cold limit is a diatomic gas. "
     "The effective heating value of kerosene decreases with the fuel enthalpy and equals the lower heating value, 10300 kcal/kg, at 288 K.",
     "every temperature at which the fits give a positive heat capacity, 20 K upwards", "These modules are not covered by tests.",
     [AE + "ThermoRealGas.py", AE + "ThermoKerosen.py"], [("fitted tables", AE + "ThermoRealGas.py, " + AE + "ThermoKerosen.py")], note=VNN +
     "Slopes are derivatives of the extracted expressions, taken symbolically; published coefficients agree to 2e-4.",
     technique="symbolic differentiation of the extracted expressions and identity testing")

ST2, CO2 = "aerokit/stability/", "aerokit/common/"

prop("C26", "Chebyshev collocation is exact on polynomials, on any interval",
     "The collocation points run between the given bounds, both included, and the differentiation matrix of any order is exact for every polynomial of degree up to the number of intervals; matrices of higher order are compositions of the first, whatever was asked for before. "
     "Interpolation reproduces such polynomials at any point, and the Gaussian grid fit reaches the given points.",
     "every pair of bounds, polynomial and order of derivative; numbers of points 2 to 5, 9, 16 and 33 (65 thorough) and those around the whole numbers in the source; histories of requests; several grids", "Tests use one interval and sample functions within loose tolerances.",
     [CO2 + "numspectral.py"], [("collocation", CO2 + "numspectral.py ChebCollocation")], over=("inputs", "histories"), note=VNN + " The number of points is concrete in each obligation.",
     state=[("differentiation matrices", "cached per order in the object")])

prop("C27", "Stability models: settings act, may change, and are not shared",
     "Whatever was set and computed before, the operators and eigenvalue problem of a stability model are those of a new model with its present grid, base state, wave number and boundary conditions; a boundary condition may be given by name or dictionary and is left as it was, and unknown or incomplete settings are refused. "
     "Selecting and sorting eigenvalues keeps exactly those within the bounds with their own vectors, in order, and refining an eigenpair returns a Rayleigh quotient.",
     "every base state, boundary condition, wave number and history of settings up to the listed length; every eigenvalue list", "Tests build one model and solve it once.",
     [ST2 + "_base.py", ST2 + "Euler.py", ST2 + "OrrSommerfeld.py"],
     [("operators kept between calls", ST2 + "_base.py LinOperator; Euler.py; OrrSommerfeld.py"), ("selection and refinement", ST2 + "_base.py select_and_sort; OrrSommerfeld.py converge_eigenpair")],
     over=("inputs", "histories", "configurations"), note=VNN + " Eigenvalues themselves are uninterpreted.",
     technique="history comparison and effect analysis on the value graphs of the assembled operators",
     state=[("model settings", "grid, base state, wave number, boundary conditions"), ("operators", "assembled from them")])

prop("C28", "Stability operators are the linearised equations",
     "The Euler operator is the linearisation of the one-dimensional Euler equations about the base state at interior points, with symmetry, periodic or linearised Rankine-Hugoniot rows at the boundary they are asked for. "
     "The Orr-Sommerfeld operators are those of the base profile, wave and Reynolds numbers with no-slip walls, Poiseuille being the parabolic profile, and the eigenvalues are those of dq/dt = L q with time factor exp(-i omega t).",
     "every base state, wave number, Reynolds number, complex or real, interval and boundary condition; numbers of points 3 to 7 and 16 (24 thorough) and those around the whole numbers in the source", "Tests compare one eigenvalue spectrum with a published one.",
     [ST2 + "Euler.py", ST2 + "OrrSommerfeld.py", ST2 + "_base.py"], [("operator assembly", ST2 + "Euler.py compute_operators, setBC_*; OrrSommerfeld.py compute_operators")],
     note=VNN + " The number of points is concrete in each obligation; the generalised eigensolver is trusted.")

prop("C31", "The secant solver solves the equation, entry by entry",
     "The solver returns an argument whose residual equation it has solved: exact for affine equations from any start, including zero, within its tolerance for smooth equations once it stops, and never merely a starting point. "
     "For an array of right-hand sides each entry is solved on its own.",
     "every affine function, start, target and tolerance; smooth functions while iterations are within the peeled bound", "Tests solve one equation to the default tolerance.",
     [AE + "IterativeSolve.py"], [("secant iteration", AE + "IterativeSolve.py secant_solve")], note=VNN + " Loops are peeled; convergence is not decided.")

prop("C32", "Variable names are translated by the software asked for",
     "For each known software and each accepted spelling of its name, in any case, every listed variable is given the name that software uses, and the derived-variable expressions are the right formulas written in those names. "
     "An unknown software name or variable is refused without changing the dictionary in use, and choosing a dictionary again replaces the previous one entirely. Adding or renaming a variable changes that entry and no other.",
     "all names, spellings and histories of choices; all values of the named fields in expressions", "No test covers these modules.",
     [CO2 + "dicovar.py", CO2 + "extendvar.py"], [("dictionaries", CO2 + "dicovar.py"), ("expressions", CO2 + "extendvar.py")], over=("inputs", "histories", "configurations"),
     note=VNN + " Expression strings are parsed and compared with the formulas.", state=[("current dictionary", "of the last known software chosen")])

prop("C33", "Every reference in the package resolves",
     "In every module of the package each import finds its module and name, each name read is defined in a scope that reaches it, each attribute of a module or of self exists, and each call within the package can be made with the arguments it passes.",
     "every statement of every module, executed by tests or not", "Half of the modules are never imported by the tests; a missing name only shows when its line runs.",
     ["aerokit"], [("imports, names, attributes, calls", "every module under aerokit")], over=("programs",),
     note="Static: scopes, imports, attributes and arities resolved on the syntax tree. Attributes of objects other than self and dynamic attributes are not decided; a class that sets attributes dynamically is skipped.",
     technique="name, attribute and call-signature resolution on the syntax tree")

prop("C34", "Polar plots draw the polars they are named after",
     "The shock polar drawn on given or current axes is the locus of deflection and pressure ratio of all shocks between the Mach angle and a normal shock, on the left, right or both branches, with the sonic and detachment points on the curve, and the isentropic polar that of isentropic turning. "
     "Both start from the given deflection and pressure and are drawn as asked; a new pressure figure has a logarithmic pressure axis.",
     "every gas, Mach number, origin, number of points and options", "Plot modules are not covered by the tests.",
     [AE + "plot/shockpolar.py", AE + "plot/isentropicpolar.py", AE + "plot/defaultstyle.py"], [("curves and points", AE + "plot/shockpolar.py, plot/isentropicpolar.py")],
     note=VNN + " What reaches plot() is compared; matplotlib is trusted.")

prop("C35", "Conical shocks: Taylor-Maccoll flow from the shock to the cone",
     "The cone angle of a shock is the ray at which the flow behind that shock, following the Taylor-Maccoll equations from shock towards axis, becomes radial. "
     "The shock angle of a cone and the Mach number of a cone and shock solve the same relation, on the weak branch.",
     "every gas, Mach number and shock angle; integration steps as taken by the integrator, trusted to be a step of its method (C29)", TESTS + "Two tabulated cones are tested.",
     [AE + "ShockWave.py"], [("conical flow", AE + "ShockWave.py conical_deflection_Mach_sigma and inverses")], note=VNN + ROOT + " The stopping ray is decided within a number of peeled steps.")

# what static analysis of this code base cannot decide
prop("C37", "What is printed of an object is what it holds",
     "The text of a state lists its density, velocity and pressure, that of a Riemann or inflow problem those of each of its states under the right name, and the size of a state is the number of states it holds. "
     "A completed staged cycle prints each performance with its own name and unit, and the listing of the variable names gives every variable with its name in the selected software.",
     "all states, problems, completed cycles and name tables", "No test looks at the text of any object.",
     [AE + "model1D.py", IN + "riemann.py", IN + "unsteady_inflow.py", EN + "Cycle_Turbofan.py", "aerokit/common/dicovar.py"],
     [("texts", AE + "model1D.py, " + IN + "riemann.py, unsteady_inflow.py: __repr__"), ("reports", EN + "Cycle_Turbofan.py: show_perfo; aerokit/common/dicovar.py: printDatabase")],
     technique="value graphs of strings: literals and values of every printed line, compared with the object's own values")

prop("C38", "An argument left out means the same everywhere",
     "Calling a library function without its gas is calling it with specific heat ratio 1.4 (and gas constant 287.1 where one is taken), for each of them alone or both. "
     "An engine's component that is not described is without losses (efficiencies and pressure ratios 1), its gas is that gas, its fuel has a lower heating value of 42.8e6, and flight conditions left out are at rest at unit pressure and temperature. "
     "Inversions of the mass flow function with no start give the supersonic root, collocation without interval is on [-1, 1], with one end left out that end is the one of [-1, 1], and the adaptive integrator without tolerance uses 1e-6.",
     "all values of the arguments given, in each combination of given and omitted ones (one at a time and all)", "Tests pass the same gas as the default or nothing, at a few points.",
     [AE + "*.py", EN + "gasgenerator.py", EN + "turbojet.py", EN + "turbofan.py", CO2 + "numspectral.py", CO2 + "_ode.py"],
     [("gas functions", AE + "*.py"), ("engines", EN + "gasgenerator.py, turbojet.py, turbofan.py"), ("numerics", CO2 + "numspectral.py, _ode.py")], note=VNN + " Ms_from_AsAc_NPR, which takes the gas current at the call, is in C12.",
     technique="equality of value graphs of the calls with an argument omitted and written out")

prop("C41", "Every iterative inversion converges for every admissible argument",
     "Every function that finds its result by fixed-point, secant, Newton or bracketing iteration converges, for every admissible argument, within its iteration limit and to its tolerance.",
     "all admissible arguments of iterative functions", "Convergence is sampled at a few points.", [AE + "Supersonic.py", AE + "ShockWave.py", AE + "IterativeSolve.py", AE + "MassFlow.py"],
     [("iterations", AE + "IterativeSolve.py, scipy fsolve/newton calls")],
     na="Convergence depends on run-time iterates of scipy and secant iterations over real intervals; no static bound on them is in reach. The equations solved, their branch and starting points are decided (C05, C07, C08, C15, C31).")
prop("C42", "Computed eigenvalues converge to those of the continuous problem",
     "With enough collocation points the computed stability eigenvalues approach those of the continuous problem and the refined eigenpair converges.",
     "all base states, with growing numbers of points", "One spectrum is compared.", [ST2 + "_base.py", CO2 + "numspectral.py"], [("eigenvalues", ST2 + "_base.py solve_eig")],
     na="Spectral accuracy is a limit over run-time matrices computed by LAPACK; only the assembled operators and the selection are decidable from the source (C26, C27, C28).")
prop("C43", "Rounding errors stay small",
     "Results in double precision agree with exact arithmetic to a few units in the last place times the condition of the problem, also near Mach 1, small deflections and weak shocks.",
     "all floating-point arguments", "Tests use loose tolerances.", [AE + "ShockWave.py", AE + "Supersonic.py", AE + "Isentropic.py"], [("floating point", "all numerical functions")],
     na="The analysis decides identities over the reals; bounding rounding errors through inverse functions and library calls needs a run-time quantity analysis that no tool here offers for Python source.")
prop("C44", "Conical integration reaches the cone for every shock",
     "The march of conical flow from shock to cone ends for every attached shock and tolerance.",
     "all Mach numbers, shock angles and tolerances", "Two cones are tested.", [AE + "ShockWave.py"], [("march to the cone", AE + "ShockWave.py conical_deflection_Mach_sigma")],
     na="Termination of the loop depends on run-time iterates of an adaptive integrator; no ranking argument follows from the source. The equations, direction and stopping criterion are decided (C35).")
