"""Sections 2 and 3 of DESIGN.md: how each property is decided."""
HOW = {
"C01": ("Assembled right hand sides and steps of every registered solver and flux (scalar and shallow water, finite volumes and finite elements) are derived for N cells; the sum of "
        "the updates over a region (a symbolic interior range, and the whole domain) telescopes to the outer numerical fluxes. Finite elements: the lumped mass weighted update of one element "
        "sums to the flux difference. Walls: the mass flux through the boundary is the zero term.",
        "telescoping of index-shifted terms (oracle: the sum rule itself)"),
"C02": ("A constant state, and a lake at rest over a symbolic bathymetry (h_i + b_i = const, q = 0, all wet), is substituted; the update of cells at both ends and in the interior must be the zero "
        "term. Fluxes of equal states must equal the physical flux (sa/ref.py).", "zero normal forms"),
"C03": ("Right hand sides and fluxes are compared with reference formulas (sa/ref.py, written from the docstrings and the cited papers) term by term; identities between physics functions "
        "(Rankine-Hugoniot, entropy potential, Tadmor's condition, bar states, dry cells, velocities of shallow cells with and without a threshold) are zero normal forms. The limited shallow water scheme is compared over any bottom.", "equality of normal forms with reference terms"),
"C04": ("For local Lax-Friedrichs, low order and the low order finite element scheme the step is written as a convex combination: weights and bar states are read off the derived term and certified non-negative by sign "
        "decomposition (sa/pos.py) under the assumption dt <= optimal step (also with fast one-sided waves). The optimal step is compared with the minimum of its definition; the CFL checker's report is compared with its condition in both directions.",
        "sign certificates"),
"C05": ("The target (high order) flux is replaced by a fresh symbol - 'whatever it is' - and the distance of the limited step from each bound is certified non-negative. Limited corrections: between zero and target, antisymmetric; targets with stencils wider than the low order flux see the same neighbours.",
        "sign certificates"),
"C06": ("The clock is unrolled for durations k*dt/2 with symbolic dt and start; the steps produced, their sum, the times recorded and the final time are compared as terms; adaptive steps are traced to the current solution; a restarted clock is compared with the first.",
        "equality of terms, heap comparison"),
"C07": ("The Butcher tableau is read off the abstract state of each integrator after interpretation of its constructor (also if computed), and checked exactly (rationals / algebraic numbers) against all rooted-tree order conditions up to order 8 (200 trees).",
        "exact order conditions"),
"C08": ("One and two steps with an uninterpreted right hand side f(t, u) on vectors of any length: every evaluation is recorded as an event; times, arguments, results compared with the tableau's formula; alias sets of arrays handed in and out are disjoint from what is written later; heap after re-initialise equals heap after construction.",
        "event traces, alias analysis, heap equality"),
"C09": ("Sequences of updates on symbolic vectors; the history is compared entry by entry; a bad entry is a flagged symbol at an arbitrary position; on the exceptional exit the heap must be the one before. Storage in single precision is a value of its own. Initial data: average / nodal values as terms of an uninterpreted function.",
        "heap equality on normal and exceptional exits, alias analysis"),
"C10": ("Purity: call sequences A, B, A are interpreted on one solver; the terms of both As must be equal, and equal to those of a fresh solver; arrays are overwritten with fresh symbols between calls to expose stored references; the written locations are compared with the argument's and the solution's.",
        "effect and alias analysis with value equality"),
"C11": ("Plot and Animate are interpreted with solvers of symbolic grids; the matplotlib model records figures, axes, curves, labels, files and frames; arrays drawn are compared with the solution at its time entry by entry. Variants: hidden, unsaved, failing solver, equal numbers of nodes/times, constant bottom, one to five solvers of which any fail with any exception type.",
        "recorded effects compared with reference terms"),
"C12": ("Ghost values at both ends for every pair of conditions are compared with their definitions, also on a second evaluation at another time and state; edge cells are compared with interior formulas on a padded state; the right hand side composed with a shift or reflection is compared with the shifted/reflected right hand side.",
        "equality of normal forms under substitution"),
"C13": ("Matrix entries for every kind of degree of freedom (left/right boundary, vertex, inner node) on N cells of symbolic length are compared with exact rational integrals of Lagrange polynomials; the sizes of the quadrature rules used are checked for degrees 1-8; the schemes are compared with their assembled definitions.",
        "exact rational comparison"),
"C14": ("Cells of a mesh over [a, b] with n cells as terms in the index; coarse meshes, averages, histories with their times, values set anew; the divisibility gate decides rejection.", "equality of terms"),
"C15": ("Moments of the Gauss rules exactly; the Golub-Welsch matrix entry by entry; interpolation and norms on uninterpreted functions, all components.", "exact moments, equality of terms"),
"C16": ("A modelled argparse (sa/stubs/argparse.py) interprets the program's parser; the abstract state at the execution point of the command is compared with the options given: each option alone, in pairs, in every spelling, before and after others, several solvers with separate options; defaults given explicitly; refused values; seeds, output paths and histories.",
        "dataflow from option to object"),
"C17": ("Data generation, training, saving, loading and the learned flux are interpreted with models of pandas, skorch and scikit-learn whose network and moments are uninterpreted functions; rows, scalings, files and corrections are compared as terms; command lines of train-network (resumed, with parameters, epochs, rows, seeds, confirmation) are followed to the training; files are there in part.",
        "recorded effects compared with reference terms"),
"C18": ("Convergence tables, error evolutions, averages, series and variations with uninterpreted norms and exact solutions; entries, columns, files and order compared; orders given by growing errors, errors without an own space and small reference norms are included.", "recorded effects compared with reference terms"),
"C19": ("Inspection commands on tables of symbols: every column drawn, row kept, parameter printed compared with the definition of the curvature, the columns and the saved networks; command lines interpreted from the options on.", "recorded effects compared with reference terms"),
}
FALSE_ALARMS = [
 "C03 first demanded the Jacobian's documented order; the existing test fixes the exchanged order, so the entries are a known finding instead of a repair.",
 "C11 first read the frame rate as an exact value; the program rounds (int), so a tolerance of one is allowed.",
 "C12 reflection of the shallow water MCL scheme over a bathymetry is not claimed: the scheme bounds velocities with the height of one side of the bottom jump; the property is stated over flat bottoms.",
 "C16 first required the options of the finite element solvers to have '+p' - they do not offer it; the obligation follows the parser's own option list.",
 "A fix (a4c493e, seeding in benchmark/) was reverted by 32238da: files below benchmark/ count as test-like files.",
]
KNOWN = [
 "C03: FluxJacobian's second row is exchanged (unused class, fixed by an existing test).",
 "C16: '-b random' is listed but cannot be built without a seed; the repair would be in benchmark/, which must not be edited.",
 "C18: parameter-variation-test glues 'out' (no trailing slash) to the names of its subdirectories; the file's name counts as a test's, the repair (97feed7) was reverted (2086264).",
]
MUTATION = """`meta/mutate.py` applies small syntactic changes (operators, constants, comparisons, swapped arguments, dropped
statements, negated conditions) to a copy of the source, runs the checks, and for survivors the test suite, so that what is missed by both is
listed and read by hand. Survivors were sorted into equivalent changes (messages, cosmetics), changes outside of every property, and gaps;
the gaps were closed by new obligations. `meta/seed.sh` validates a planted bug (demo, build, tests, checks) in a scratch copy,
`meta/refactor.py` runs the checks on behaviour-preserving rewrites of the source (section 7)."""
BENCHMARK = """The directory `benchmark/` of the original repository holds the problem definitions (initial values, exact solutions, names). It is read and
interpreted like all other source, but neither repaired nor seeded, since files below a directory of this name count as test
material: a repair there was reverted (a4c493e, 32238da). The same holds for `command/parameter_variation_test.py`, whose
name counts as a test's (97feed7, reverted by 2086264). Known oddities that stay: benchmarks that are built with zero parameters
fall back to defaults, `-b random` has no default seed (known finding)."""
