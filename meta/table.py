AI = "static analysis: abstract interpretation over symbolic values (value numbering with algebraic normal forms), arbitrary array sizes"
BASE = ("Decides the property on the source of the current tree without executing it: {} Trusts the checker's models of Python, numpy and scipy "
        "(sa/interp.py, sa/npmodel.py); real arithmetic instead of floating point. Undetermined obligations are reported in the evidence and are not claimed.")

PROPERTIES = [
    {
        "id": "C01",
        "title": "Solvers create or destroy mass and momentum only through boundaries",
        "statement": "For every solver and every state, the updates of the cells (finite elements: lumped-mass weighted degrees of freedom) "
                     "telescope: their sum over any region equals the difference of the physical fluxes at its ends. On periodic domains the total "
                     "of every conserved quantity is unchanged by a time step, and walls let no water through; a bathymetry source changes only momentum.",
        "over": ["inputs", "configurations"],
        "forall": "every registered solver and flux, every mesh size, state, bathymetry, equation, and periodic or wall boundaries",
        "why": "Tests compare a few hand-computed right hand sides on 2-5 cells; conservation is a statement about every state, mesh size and solver combination.",
        "files": ["finite_volume/numerical_flux.py", "finite_volume/shallow_water", "finite_volume/scalar", "finite_element", "core/boundary.py"],
        "mechanism": [("numerical flux pairs (-F, F)", "finite_volume/numerical_flux.py, finite_volume/*/solver/*.py"),
                      ("node to cell flux transformation", "finite_volume/numerical_flux.py:NumericalFluxDependentRightHandSide"),
                      ("skew-symmetric gradient and flux corrections", "finite_element/discrete_gradient.py, finite_element/scalar/solver/mcl.py")],
        "technique": AI + "; telescoping sums",
        "note": BASE.format("the update terms of all solvers are derived for a mesh of N cells and their sums are shown to be identically the outer flux difference."),
    },
    {
        "id": "C02",
        "title": "Constant states and lakes at rest are steady, fluxes are consistent",
        "statement": "Trained corrections aside, a constant state stays as it is under every registered solver, with matching inflow data, and under a flat bathymetry. "
                     "The central, energy stable and low order shallow water schemes, also as targets of the MCL scheme, leave a lake at rest (level surface, no discharge) over any "
                     "bathymetry exactly as it is. Every numerical flux of equal states is the physical flux.",
        "over": ["inputs", "configurations"],
        "forall": "every registered solver and flux without a learned part, every mesh size, wet constant state including zero, surface level, bathymetry and boundary conditions",
        "why": "Tests apply fluxes to two or three fixed states on 2-4 cells; a steady state is destroyed by any mismatch of flux, source, boundary or limiter for some state or bottom.",
        "files": ["finite_volume/numerical_flux.py", "finite_volume/shallow_water", "finite_volume/scalar", "finite_element", "core/riemann_solver.py"],
        "mechanism": [("source balances flux differences", "finite_volume/shallow_water/numerical_flux.py"),
                      ("low order flux with height positivity fix", "finite_volume/shallow_water/solver/low_order.py"),
                      ("boundary states", "core/boundary.py, finite_volume/shallow_water/boundary.py")],
        "technique": AI + "; vanishing of update terms",
        "note": BASE.format("the update of a symbolic steady state is shown to be identically zero next to both ends and in the interior."),
    },
    {
        "id": "C03",
        "title": "Schemes, fluxes and wave speeds evaluate their documented formulas",
        "statement": "Each finite volume scheme (local Lax-Friedrichs, Lax-Wendroff, central, energy stable of first and second order, low order, MCL, antidiffusion, learned corrections) updates a cell by the formula "
                     "of its documentation or cited paper, including the bathymetry source. Physical fluxes, velocities, energies, entropy pairs, wave speeds and Riemann solvers "
                     "satisfy their definitions and the identities relating them (Rankine-Hugoniot, Tadmor's condition, symmetric bar states), also for dry cells.",
        "over": ["inputs", "configurations"],
        "forall": "every registered flux getter and solver and their combinations, every mesh size, wet state (dry where stated), bathymetry and parameter value",
        "why": "Tests compare a few digits for a few symmetric states; wrong averages, exchanged sides or components and wrong signs can vanish on them.",
        "files": ["finite_volume/shallow_water", "finite_volume/scalar", "core/riemann_solver.py"],
        "mechanism": [("Riemann solvers", "core/riemann_solver.py, finite_volume/shallow_water/core.py, finite_volume/scalar/core.py"),
                      ("numerical fluxes", "finite_volume/shallow_water/solver, finite_volume/scalar/solver"),
                      ("source term", "finite_volume/shallow_water/numerical_flux.py")],
        "technique": AI + "; comparison with reference formulas as normal forms",
        "note": BASE.format("the assembled update terms are compared with reference formulas (sa/ref.py) on a mesh of N cells."),
    },
    {
        "id": "C04",
        "title": "Admissible steps of low order schemes keep bounds and non-negative heights",
        "statement": "Wave speeds bound the characteristic speeds of both states, so bar states lie between the states and have non-negative heights, also after the bathymetry correction. "
                     "Steps below dx over the sum of a cell's two wave speeds (finite elements: the optimal time step) keep low order values between those of the neighbours and heights non-negative, also over dry bottoms. "
                     "Optimal time steps are the largest such steps of all nodes, the adaptive steps follow the current solution, and CFL violations are reported exactly when a step exceeds the optimal step of a stage, without ending the calculation.",
        "over": ["inputs", "configurations"],
        "forall": "every Lax-Friedrichs type scheme, equation, boundary condition, mesh size, state (also dry) and bathymetry",
        "why": "Tests check single right hand sides; positivity and monotonicity are inequalities over all states and bottoms and fail first at rare jumps, dry cells or steep steps.",
        "files": ["finite_volume/shallow_water", "finite_volume/scalar", "finite_volume/core.py", "finite_element/scalar/solver/cg_low.py", "finite_element/artificial_diffusion.py", "core/time_stepping.py", "core/riemann_solver.py"],
        "mechanism": [("maximal wave speeds and bar states", "finite_volume/shallow_water/core.py, finite_volume/scalar/core.py, core/riemann_solver.py"),
                      ("height positivity fix", "finite_volume/shallow_water/core.py:get_height_positivity_fix"),
                      ("artificial diffusion and lumped mass", "finite_element/artificial_diffusion.py, finite_element/scalar/solver/cg_low.py"),
                      ("CFL checker", "core/time_stepping.py:CFLChecker")],
        "technique": AI + "; sign certificates for differences of normal forms",
        "note": BASE.format("differences from bounds are decomposed into sums of products of terms whose signs follow from the normal form."),
    },
    {
        "id": "C05",
        "title": "Limited schemes keep values within their local bounds",
        "statement": "An admissible step of a limited (MCL) scheme keeps every value within the bounds formed from the bar states of the cell and its neighbours, whatever the target flux is: "
                     "scalar values and water heights (non-negative over any bottom), velocities over a flat bottom, and finite element values between those of the neighbouring nodes. "
                     "The limited scalar correction lies between zero and its target, and every limited correction only moves quantity from one side to the other.",
        "over": ["inputs", "configurations"],
        "forall": "every limited scheme and every target flux, equation, boundary condition, mesh size and state, and for heights every bathymetry",
        "why": "Limiters act only at steep data; tests compare a few small examples where most limits are inactive or equal on both sides.",
        "files": ["finite_volume/scalar/solver/mcl.py", "finite_volume/shallow_water/solver/mcl.py", "finite_element/scalar/solver/mcl.py", "core"],
        "mechanism": [("scalar limiter", "finite_volume/scalar/solver/mcl.py:limit"),
                      ("sequential limiting of heights and velocities", "finite_volume/shallow_water/solver/mcl.py:MCLFlux"),
                      ("element-wise limiter", "finite_element/scalar/solver/mcl.py:MCLRightHandSide")],
        "technique": AI + "; sign certificates for differences of normal forms",
        "note": BASE.format("high order target fluxes are replaced by arbitrary values; the distance from each bound is certified non-negative."),
    },
    {
        "id": "C06",
        "title": "Time stepping covers the simulated interval exactly",
        "statement": "A calculation starts at the benchmark's start time, takes positive steps that never exceed the requested step, and ends exactly at the "
                     "end time with as many steps as needed; remainders below the tolerance produce no extra step and vanishing steps are reported. "
                     "Adaptive steps follow the current solution, constant ones do not change. A second run of the same clock takes the same steps, and the "
                     "solution and its history record every step.",
        "over": ["inputs", "histories", "configurations"],
        "forall": "every duration, step size, CFL number, start time, adaptive or constant stepping, every registered solver",
        "why": "Tests use one or two durations with round numbers; remainders, the last step, re-iteration and the bookkeeping of the solve loop are sampled at most once.",
        "files": ["core/time_stepping.py", "core/solver.py", "core/discrete_solution.py"],
        "mechanism": [("clock and last step", "core/time_stepping.py:TimeStepping"), ("step size source", "core/time_stepping.py:TimeStepGenerator"),
                      ("solve loop", "core/solver.py:Solver.solve")],
        "technique": AI + "; loops unrolled for symbolic step sizes",
        "note": BASE.format("durations are fixed multiples (1/2 to 25/2) of a symbolic step, with symbolic start time and CFL number."),
    },
    {
        "id": "C07",
        "title": "Every Runge-Kutta method has its nominal order of convergence",
        "statement": "The time integrators are explicit, their stage times are consistent with their stages, and they satisfy all order conditions of "
                     "their nominal order: Euler 1, Heun 2, SSP 3, and the eleven stage method 8. A finite element space of degree p is integrated with a "
                     "method of order p+1 or higher (capped at 8).",
        "over": ["inputs", "configurations"],
        "forall": "every right hand side, initial value, time and step size; all 200 rooted trees up to order 8",
        "why": "Tests integrate a handful of scalar equations with a tolerance; a wrong coefficient can leave those equations exact or within tolerance.",
        "files": ["core/ode_solver.py", "finite_element/ode_solver.py"],
        "mechanism": [("coefficient tables", "core/ode_solver.py"), ("choice of method by degree", "finite_element/ode_solver.py:build_optimal_ode_solver")],
        "technique": "static analysis: tableau extraction by abstract interpretation, order conditions in exact arithmetic over Q(sqrt 21)",
        "note": BASE.format("the tableau is read off the source and all order conditions are evaluated exactly."),
    },
    {
        "id": "C08",
        "title": "Time integrator steps compose, record their stages truthfully and do not alias",
        "statement": "A step evaluates the right hand side exactly at the recorded stage times and values, advances time and value, and the next step "
                     "continues from there. Re-initialising is indistinguishable from constructing a new integrator. Arrays handed in and values recorded "
                     "earlier are never modified by later steps, and integrators do not influence each other.",
        "over": ["inputs", "histories"],
        "forall": "every integrator, right hand side, vector length or system shape, sequence of steps and re-initialisation",
        "why": "Tests run single scalar integrations and check end values; they do not observe aliasing, records or interleaved use.",
        "files": ["core/ode_solver.py", "core/solver.py"],
        "mechanism": [("stage loop", "core/ode_solver.py:ExplicitRungeKuttaMethod.execute"), ("private copy of the initial value", "core/ode_solver.py:_get_initial_value")],
        "technique": AI + " with an opaque right hand side; alias and effect tracking",
        "note": BASE.format("one and two steps with symbolic data are compared as terms for vectors of any length."),
    },
    {
        "id": "C09",
        "title": "The discrete solution never loses, corrupts or leaks its state",
        "statement": "A solver starts at the benchmark's start time with two-point Gauss averages (finite volumes) or nodal values (finite elements) of the initial data; "
                     "re-initialising it is indistinguishable from constructing it anew. An update sets value and time, histories keep time, value and step of every update "
                     "in order, and a value containing NaN or infinity is rejected with ValueError leaving time, value and history as they were. "
                     "Arrays handed in or out are independent of the stored ones, and a coarse solution shows the cell averages of the fine one.",
        "over": ["inputs", "histories"],
        "forall": "every plain, history, coarse and coarse-history solution, vector length, system or scalar value, position of a bad entry, sequence of updates, rewinds and re-initialisations, every registered solver",
        "why": "Tests update short vectors once or twice with finite values; aliasing, rejected updates and rewinds of histories, and agreement of re-initialisation with construction are not observed.",
        "files": ["core/discrete_solution.py", "core/interpolate.py", "finite_volume/space.py", "finite_volume/solver.py", "finite_element/space.py", "finite_element/solver.py"],
        "mechanism": [("update and rejection", "core/discrete_solution.py:DiscreteSolution.update"), ("history bookkeeping", "core/discrete_solution.py:DiscreteSolutionWithHistory"),
                      ("re-initialisation", "finite_volume/solver.py, finite_element/solver.py, finite_volume/shallow_water/solver/coarse.py")],
        "technique": AI + "; alias tracking of arrays handed in and out",
        "note": BASE.format("states after update sequences are compared entry by entry for vectors of any length; bad entries sit at an arbitrary position."),
    },
    {
        "id": "C10",
        "title": "Right hand sides are pure functions of time and state",
        "statement": "Evaluating the right hand side, flux, wave speed or entropy of any solver depends only on the given time and state (and, for Lax-Wendroff, the time step set last): "
                     "repeated, interleaved or previous evaluations, other solver instances, and arrays overwritten after they were handed in or out never change a result. "
                     "The given arrays, the solver's solution and earlier results are left unmodified.",
        "over": ["inputs", "histories"],
        "forall": "every registered finite volume, scalar and finite element solver, mesh size, state (dry cells included), boundary condition and sequence of evaluations with two states and buffers reused in between",
        "why": "Tests evaluate each right hand side once on a fresh object; stale caches, shared buffers, in-place changes of the state and cross-talk between instances need particular sequences of calls.",
        "files": ["finite_volume/numerical_flux.py", "finite_volume/shallow_water/core.py", "finite_volume/shallow_water/solver", "finite_volume/scalar", "finite_element", "core/system.py"],
        "mechanism": [("flux evaluation stores intermediate states", "finite_volume/shallow_water/solver/low_order.py:LowOrderFlux"), ("flux cache", "finite_element/flux_approximation.py:FluxApproximation"),
                      ("factorised matrices", "core/system.py:SystemMatrix"), ("time step of the flux", "finite_volume/shallow_water/solver/lax_wendroff.py:LaxWendroffFlux")],
        "technique": AI + "; alias and effect tracking of arrays handed in and out",
        "note": BASE.format("results of call sequences are compared entry by entry as algebraic normal forms for meshes of any size."),
    },
    {
        "id": "C12",
        "title": "Ghost values extend the state as prescribed; schemes keep its symmetries",
        "statement": "At each end of the domain the ghost values are those of the configured condition (periodic: wrapped around, outflow: edge cell, wall: edge cell with "
                     "reversed discharge, inflow: given data at the current time), edge cells are updated like interior cells with these neighbours, and unknown or incomplete "
                     "conditions are rejected. The right hand sides of all solvers commute with shifts of periodic states, and those of the Burgers and shallow water solvers "
                     "without a network with reflections of the domain (shallow water MCL: over flat bottoms).",
        "over": ["inputs", "configurations"],
        "forall": "every pair of boundary conditions, stencil radius 1-3, mesh size, state and time; every registered solver",
        "why": "Tests check single cells of 2-4 cell meshes with the same condition at both ends; mixed conditions, wide stencils, the last cells and symmetry of limiters and upwinding are not observed.",
        "files": ["core/boundary.py", "finite_volume/shallow_water/boundary.py", "core/index_mapping.py", "finite_volume/index_mapping.py", "finite_element/index_mapping.py", "finite_volume/solver.py"],
        "mechanism": [("ghost cells", "core/boundary.py:BoundaryConditionsBuilder, finite_volume/shallow_water/boundary.py"), ("node and cell neighbours", "core/boundary.py:BoundaryConditions"),
                      ("limiter bounds next to boundaries", "finite_volume/shallow_water/solver/mcl.py, finite_volume/scalar/solver/mcl.py"), ("periodic finite elements", "finite_element/index_mapping.py")],
        "technique": AI + "; comparison of symbolic right hand sides under index transformations",
        "note": BASE.format("entries next to both boundaries and at an arbitrary interior position are compared as algebraic normal forms for meshes of any size."),
    },
    {
        "id": "C13",
        "title": "Finite element operators are exact integrals of the basis functions",
        "statement": "Mass, lumped mass, gradient and artificial diffusion matrices contain the exact integrals of the Lagrange basis for every degree and mesh size, "
                     "elements and their derivatives are the polynomials of their degrees of freedom, and quadrature based flux gradients integrate exactly. "
                     "The semi-discretisations assemble these operators as documented: mass du/dt = flux gradient; lumped with diffusion (low order); with limited corrections inside the local bounds (MCL).",
        "over": ["inputs", "configurations"],
        "forall": "every mesh size and element length, degrees 1-4, every degree of freedom and state, advection and Burgers",
        "why": "Tests check single entries for degree 1 and 2 on one mesh of unit size; wrong nodes, weights, neighbours or under-integration for higher degrees is not observed.",
        "files": ["finite_element", "core/quadrature.py", "core/system.py", "core/local_bounds.py"],
        "mechanism": [("quadrature of the local element", "finite_element/space.py, core/quadrature.py"), ("assembly", "finite_element/mass.py, finite_element/discrete_gradient.py, core/system.py"),
                      ("schemes", "finite_element/scalar/solver")],
        "technique": AI + "; exact rational reference integrals",
        "note": BASE.format("every matrix entry and scheme term at every kind of degree of freedom is compared with exact rational integrals, for meshes of any size."),
    },
    {
        "id": "C14",
        "title": "Meshes tile their interval; coarsening preserves averages and rejects misfits",
        "statement": "The cells of a uniform mesh have equal length, follow each other without gap or overlap and cover exactly the domain, and cells are found by index including neighbours. "
                     "Coarsening by a factor dividing the number of cells merges consecutive cells and averages their values, so totals are kept, on meshes, solutions and histories alike; "
                     "other factors are rejected.",
        "over": ["inputs", "configurations"],
        "forall": "every interval, mesh size, coarsening degree, scalar or system values, and coarse solver over any scheme",
        "why": "Tests use a few meshes with 2-4 cells and round numbers; remainders, last cells, systems and offsets of the interval are sampled at most once.",
        "files": ["core/mesh.py", "core/discrete_solution.py", "core/vector_coarsener.py", "finite_volume/shallow_water/solver/coarse.py"],
        "mechanism": [("cells of a mesh", "core/mesh.py:UniformMesh"), ("averages", "core/vector_coarsener.py"), ("coarse solver", "finite_volume/shallow_water/solver/coarse.py")],
        "technique": AI,
        "note": BASE.format("cells, coarse meshes and averages are compared as terms for symbolic intervals and sizes."),
    },
    {
        "id": "C15",
        "title": "Quadrature, interpolation and norms compute exactly what they name",
        "statement": "Gauss rules with n nodes integrate polynomials of degree 2n-1 exactly on every interval, cell averages and nodal values are those of the function, and "
                     "temporal and spatial interpolation is piecewise linear in each component. L1, L2 and maximum norms evaluate their definition on every cell and component; "
                     "maxima, minima and minmod of arrays are taken entry by entry.",
        "over": ["inputs", "configurations"],
        "forall": "every interval, function, mesh size, number of components and time levels; rules with up to 5 nodes",
        "why": "Tests integrate a handful of polynomials on fixed intervals; moved intervals, sign changes, systems and rules of other sizes are not observed.",
        "files": ["core/quadrature.py", "core/interpolate.py", "core/norm.py", "core/function.py", "finite_volume/space.py"],
        "mechanism": [("nodes and weights", "core/quadrature.py"), ("averages and nodal values", "core/interpolate.py"), ("norms", "core/norm.py"), ("functions", "core/function.py")],
        "technique": AI + "; exact moments over algebraic numbers",
        "note": BASE.format("moments are evaluated exactly for up to five nodes and the Golub-Welsch matrix is checked for every size used."),
    },
    {
        "id": "C16",
        "title": "Command line options reach the calculation with the value given",
        "statement": "Every subcommand builds exactly the solvers selected, in order, each with its own options: mesh size, name, CFL number, end time, time integrator, flux, "
                     "benchmark and the remaining options reach the object they are meant for, whatever other options are given, in whatever order and under every spelling. "
                     "Defaults given explicitly change nothing, flags have an effect, meaningless values and unknown options are refused, and help texts can be printed.",
        "over": ["inputs", "configurations"],
        "forall": "every subcommand, problem, solver and option the parsers define; symbolic option values; all options together and options one at a time",
        "why": "The tests construct solvers directly; the command line layer (parsers, solver options, post-processing) is not executed by any of them.",
        "files": ["command/calculate.py", "command/plot.py", "command/animate.py", "command/error.py", "command/error_evolution.py", "command/generate_data.py",
                  "command/parameter_variation_test.py", "command/train_network.py", "core/solver.py", "core/type.py", "parser.py", "cls1"],
        "mechanism": [("solver command lines", "core/solver.py"), ("subcommands", "command/calculate.py"), ("validators", "core/type.py"), ("dispatch", "cls1")],
        "technique": AI + "; value-flow reachability through the abstract heap",
        "note": BASE.format("argparse is modelled (sa/stubs/argparse.py); the command is examined at the point where it would be executed."),
    },
    {
        "id": "C11",
        "title": "Plots and animations show every solution, at its time, under its name",
        "statement": "A plot draws each solver's solution at the end time over its own grid, the exact solution at this time, the initial data and the bottom if asked for, one plot per "
                     "quantity, each curve once and under its own name; files get the names asked for. Every frame of an animation shows all solutions, interpolated linearly to the time "
                     "displayed, between the start time and the end of the calculation, at the speed asked for. Failing solvers are left out, hidden figures are closed, and nothing drawn earlier remains.",
        "over": ["inputs", "configurations"],
        "forall": "arrays, grids, initial, exact and bottom functions as symbols; scalar and shallow water plots; with and without exact solution, initial data, saving, showing, start time and duration",
        "why": "The tests only construct plotters; what is drawn is looked at by nobody.",
        "files": ["command/plot.py", "command/animate.py", "core/interpolate.py"],
        "mechanism": [("plots", "command/plot.py"), ("animations", "command/animate.py")],
        "technique": AI + "; recorded drawing calls compared with the solution",
        "note": BASE.format("matplotlib and pandas are modelled (sa/stubs)."),
    },
    {
        "id": "C17",
        "title": "Training data, training and learned solvers fit together",
        "statement": "Each row generated holds, for one recorded time, the averages of the coarse cells around the chosen node and the fine minus the coarse numerical flux at this node, for "
                     "every drawn benchmark, whose parameters are listed in the same order. Training uses exactly these inputs and outputs from every skip-th row, scaled by their own moments, and a saved "
                     "network predicts the same after loading, without mixing up networks of different kinds. Learned solvers correct their flux by the prediction of their own saved network.",
        "over": ["inputs", "configurations", "histories"],
        "forall": "fine values, fluxes, networks and scaler moments as symbols; several radii, nodes, coarsening degrees, input widths, numbers of solutions, skips and seeds; both networks",
        "why": "The tests compare one generated file with itself; rows, columns, scaling and stored networks are never compared with the solution they come from.",
        "files": ["command/generate_data.py", "command/train_network.py", "command/delete_curvature.py", "finite_volume/shallow_water/solver/reduced_model.py",
                  "finite_volume/shallow_water/solver/reduced_llf.py", "finite_volume/shallow_water/solver/reduced_llf_2.py"],
        "mechanism": [("subgrid fluxes", "command/generate_data.py"), ("training", "command/train_network.py"), ("networks", "finite_volume/shallow_water/solver/reduced_model.py")],
        "technique": AI + "; opaque networks and fluxes keyed by all they depend on",
        "note": BASE.format("pandas, skorch, torch and scikit-learn are modelled (sa/stubs)."),
    },
    {
        "id": "C18",
        "title": "Error tables and error evolutions report the errors of the solutions",
        "statement": "Convergence tables list for every refinement the norms of the difference between the solution and the exact solution at the end time, and the orders log2 of consecutive errors, in the "
                     "column of their norm. Error evolutions are relative norms of the difference of two solutions at the times of the finer one, averages are taken at common times, and series and parameter "
                     "variations contain every solved initial data once, leave out failed ones, and store each result under its own name in the directory asked for.",
        "over": ["inputs", "configurations", "histories"],
        "forall": "solutions, norms and error histories as symbols; several refinements, time grids, orders of runs, failing runs and parameter selections",
        "why": "The tests check a few numbers of one advection run; columns, times, averages and file names are not tested.",
        "files": ["command/error.py", "command/error_evolution.py", "command/parameter_variation_test.py", "core/norm.py", "core/interpolate.py"],
        "mechanism": [("convergence tables", "command/error.py"), ("error evolutions", "command/error_evolution.py"), ("series", "command/parameter_variation_test.py")],
        "technique": AI + "; recorded tables and curves compared with the error defined",
        "note": BASE.format("matplotlib and pandas are modelled (sa/stubs)."),
    },
    {
        "id": "C19",
        "title": "Inspection commands show and keep exactly the data they are asked for",
        "statement": "analyze-data describes every file given, in order, with histograms if asked for. analyze-curvature draws the curvature of heights and discharges of both models against their subgrid "
                     "fluxes over common ranges, every pair once and under its own name, and delete-curvature keeps exactly the rows whose two curvatures are below the thresholds given. "
                     "print-network prints the saved parameters of the network chosen, help the page and test the tests asked for, and showing and saving follow the options.",
        "over": ["inputs", "configurations"],
        "forall": "tables whose entries are symbols, step lengths and thresholds as symbols, options of the command lines, all networks and help pages",
        "why": "None of these commands is tested.",
        "files": ["command/analyze_curvature.py", "command/analyze_data.py", "command/delete_curvature.py", "command/print_network.py", "command/help.py", "command/test.py", "core/data.py",
                  "finite_volume/shallow_water/solver/reduced_model.py"],
        "mechanism": [("curvature", "finite_volume/shallow_water/solver/reduced_model.py"), ("plots", "command/analyze_curvature.py"), ("selection of rows", "command/delete_curvature.py")],
        "technique": AI + "; drawn, stored and printed values compared with the columns of the tables",
        "note": BASE.format("matplotlib, pandas, skorch and argparse are modelled (sa/stubs)."),
    },
]

NOT_APPLICABLE = []
NOTES = ("All checks share one abstract interpreter (sa/interp.py) and differ in the obligations they generate. /repo is read from its working tree on every run "
         "(VERIF_REPO overrides the path for experiments); nothing is built or executed.")
