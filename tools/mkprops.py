#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)


prop("C01", "Superposition of electrode contributions",
     "The electrical potential derivative of an assembly, at any points, any derivative order and for either voltage kind (dc or rf), is the sum over its electrodes, in whatever order and number, of that electrode's own voltage of that kind times its unit-voltage contribution, optionally expanded to the full tensor. The table of individual contributions has one row per electrode in assembly order, each being that electrode's unit-voltage contribution. The instantaneous potential is the dc part plus cos(t) times the rf part.",
     ["inputs", "configurations"],
     "all assemblies (any number and kind of electrodes, zero or non-zero voltages), point sets, orders, voltage kinds, times",
     "Tests evaluate a handful of fixed electrodes one at a time at fixed points; no test compares a multi-electrode sum, and instantaneous potentials are never evaluated.",
     ["electrode/system.py"],
     [("sum over electrodes", "electrode/system.py: System.electrical_potential"),
      ("per-electrode rows", "electrode/system.py: System.individual_potential"),
      ("dc + cos(t) rf", "electrode/system.py: System.time_potential")],
     ["System.electrical_potential", "System.individual_potential", "System.time_potential"])

prop("C02", "Every electrode kind adds a contribution linear in its voltage",
     "For every kind of electrode, the requested potential derivative is proportional to the voltage scale passed in, is added onto the caller's accumulator (whatever it held before, without touching anything else of the caller's data) and that same accumulator is returned; without an accumulator a fresh result of one row per point and 2*order+1 columns holding exactly the contribution is returned; unless told otherwise the order is zero and the scale one. The contribution at one point does not depend on the other points of the batch; geometry given in whole numbers means the same as in floating point.",
     ["inputs", "configurations"],
     "all electrode kinds, geometries, points, orders, voltage scales, accumulator contents",
     "Tests call each electrode with its default accumulator and fixed scales; the accumulate path and linearity in the scale are sampled at single points only, and never for meshes.",
     ["electrode/electrode.py", "electrode/cexpressions.pyx", "electrode/expressions.py"],
     [("per-kind potential methods", "electrode/electrode.py"),
      ("compiled accumulation loops", "electrode/cexpressions.pyx"),
      ("interpreted accumulation loops", "electrode/expressions.py")],
     ["Electrode.potential of every subclass"])

prop("C03", "Point and polygon-edge formulas are consistent derivative chains",
     "For point patches and for closed polygon outlines, the stored components of order l+1 are exactly the partial derivatives of the stored components of order l that their names state, for every order 0 to 5, and every component is harmonic away from the electrode plane. Order zero of a point patch is area*z/(2*pi*r^3) and order zero of a polygon outline is the electrode's solid angle over 2*pi, with sign following z and the orientation of the outline.",
     ["inputs"],
     "all evaluation points off the plane, all patch positions, all polygon outlines, orders 0..5, every component",
     "Tests compare a few components against finite differences at a few points for a couple of shapes; most order 3-5 terms are never evaluated where an error would show.",
     ["electrode/cexpressions.pyx", "electrode/expressions.py", "electrode/utils.py"],
     [("closed-form components", "electrode/cexpressions.pyx: point_potential_expr, edge_potential_expr"),
      ("component naming table", "electrode/utils.py: _derivative_names")],
     ["PointPixelElectrode.potential", "PolygonPixelElectrode.potential"])

prop("C04", "Compiled and interpreted kernels compute the same contributions",
     "The interpreted fallback kernels return the same value, for every input accepted by both, as the compiled kernels they replace when the extension is unavailable: same sums, same cover-plane terms, same accumulation, same default result, including points on the electrode plane.",
     ["inputs", "configurations"],
     "all inputs of the three kernel entry points, orders 0..5, any cover expansion order",
     "The tests only ever import one of the two implementations (the compiled one), so the other is never run.",
     ["electrode/cexpressions.pyx", "electrode/expressions.py", "electrode/electrode.py"],
     [("fallback import", "electrode/electrode.py: module import"),
      ("two sibling implementations", "electrode/cexpressions.pyx, electrode/expressions.py")],
     ["point_potential, polygon_potential, mesh_potential of both modules"])

prop("C05", "Cover plane: image expansion and the cover's own potential",
     "For every surface electrode kind, the contribution with a cover at height h and expansion order N is the sum over k from -N to N of the cover-free contribution evaluated at height z + 2*k*h, with equal weights, for every derivative order, and reduces to the cover-free one for N=0 regardless of h. The cover electrode itself contributes scale*z/h, its gradient scale/h along z, and nothing at higher orders. Electrodes and covers made without a height are at the same height.",
     ["inputs", "configurations"],
     "all electrodes, points, cover heights, expansion orders, derivative orders",
     "Tests use the default expansion order 0 nearly everywhere and never compare orders of expansion.",
     ["electrode/cexpressions.pyx", "electrode/expressions.py", "electrode/electrode.py"],
     [("image loops", "electrode/cexpressions.pyx, electrode/expressions.py"),
      ("cover electrode", "electrode/electrode.py: CoverElectrode.potential")],
     ["Electrode.potential"])

prop("C06", "A mesh built from polygons equals the voltage-weighted polygons",
     "A mesh electrode made from an assembly of polygon electrodes (which share the cover parameters) contributes, for every point, order and scale, exactly the sum over those electrodes of their dc voltage times their own contribution times the scale, whatever the number of electrodes, outlines per electrode and vertices per outline. Each outline's edges connect consecutive vertices cyclically and carry the potential of the electrode they come from.",
     ["inputs", "configurations"],
     "all assemblies of polygon electrodes, all points, orders and scales",
     "Mesh electrodes are never constructed or evaluated by any passing test.",
     ["electrode/electrode.py", "electrode/cexpressions.pyx", "electrode/expressions.py"],
     [("mesh construction", "electrode/electrode.py: MeshPixelElectrode.from_polygon_system"),
      ("mesh kernel", "electrode/cexpressions.pyx: mesh_potential")],
     ["MeshPixelElectrode.potential"])

prop("C07", "Reduced and full derivative tensors convert consistently",
     "For every order 0 to 5 and any batch of values, expanding the 2*order+1 stored components gives the fully symmetric and traceless tensor whose entries carry the stored components under their names, and selecting from it gives the stored components back. Name-to-position, position-to-name and the rule that derives each component from a lower order one (by one more letter) agree with each other and cover every component.",
     ["inputs", "configurations"],
     "all component values, batch shapes, orders 0..5, every name and index",
     "Tests convert one random tensor per order and compare a few names.",
     ["electrode/utils.py"],
     [("table construction", "electrode/utils.py: _populate_maps"),
      ("expand / select", "electrode/utils.py: expand_tensor, select_tensor"),
      ("name lookups", "electrode/utils.py: name_to_deriv, deriv_to_name, construct_derivative, deriv_to_reduced_idx")],
     ["utils.expand_tensor", "utils.select_tensor", "utils.name_to_deriv", "utils.construct_derivative"])

prop("C08", "Tensor rotation contracts every index with the basis",
     "Rotating a batch of tensors of any degree contracts each of the tensor indices, and only those, with the first index of the supplied 3x3 basis, leaving the batch axes and the order of indices unchanged, for any (not only orthogonal or symmetric) basis. Omitting the degree means that all axes but the first are tensor indices.",
     ["inputs"],
     "all batches, degrees 0..4, all 3x3 bases",
     "Tests rotate one symmetric tensor per degree with one rotation, which cannot tell index order or transposition errors for general bases apart.",
     ["electrode/utils.py"],
     [("index contraction", "electrode/utils.py: rotate_tensor")],
     ["utils.rotate_tensor"])

prop("C09", "Pseudopotential and its derivatives, and the combined potential",
     "The ponderomotive potential is the squared norm of the rf field scaled by the rf coefficient, and its derivatives of order 1 to 4 are the full, symmetric partial derivatives of that square, at every point of a batch independently. The rf coefficient set from mass, charge, length and angular frequency is sqrt(q/m)/(2 l o). The combined potential is the dc potential plus that, with the dc or rf kind selecting just one of them. An unsupported order or kind is rejected with a value error instead of returning numbers.",
     ["inputs", "configurations"],
     "all points, assemblies, rf coefficients, orders 0..4 and beyond, kinds",
     "No passing test evaluates the pseudopotential at any order.",
     ["electrode/system.py"],
     [("product rule expansion", "electrode/system.py: System.pseudo_potential"),
      ("selection", "electrode/system.py: System.potential"),
      ("coefficient", "electrode/system.py: System.rf_scale")],
     ["System.pseudo_potential", "System.potential"])

prop("C10", "Temporary voltages are always restored",
     "After a block run with temporary dc and/or rf voltages ends, normally, by return or by any exception, and whatever the block did to the voltages, every electrode has again exactly the voltages of each given kind that it had before, and inside the block those that were asked for; a kind that was not given is left alone, and if entering the block fails half way all voltages are as before. Exceptions of the block reach the caller unchanged.",
     ["histories", "fault_sequences", "inputs"],
     "all assemblies and requested voltages, all block bodies and exits",
     "No test uses temporary voltages; exceptional exits cannot be sampled exhaustively.",
     ["electrode/system.py"],
     [("restore in finally", "electrode/system.py: System.with_voltages"),
      ("voltage vector accessors", "electrode/system.py: System.dcs, System.rfs")],
     ["Electrode.dc / Electrode.rf after the block"])

prop("C11", "Evaluations do not modify what the caller passed in",
     "Evaluating potentials, searching for minima or saddles, analysing modes, converting tensors, grouping, shimming or optimizing never changes the caller's points, tensors, voltages, constraint lists, bases or electrodes; only documented output arguments, setters and in-place builders modify what they are given.",
     ["inputs", "histories"],
     "all public entry points of the library, all argument values including arrays passed without copy",
     "Tests pass literals or fresh arrays and look at return values only.",
     ["electrode/system.py", "electrode/electrode.py", "electrode/utils.py", "electrode/pattern_constraints.py",
      "electrode/saddle.py", "electrode/grid.py", "electrode/polygons.py", "electrode/spherical_harmonics.py", "electrode/mathieu.py"],
     [("copies before in-place updates", "electrode/system.py: minimum, saddle, trajectory, shims"),
      ("fresh result arrays", "electrode/system.py, electrode/utils.py")],
     ["arguments after the call"])

prop("C12", "No state leaks from one call or instance into the next",
     "The result of an evaluation, construction or solve depends on its arguments and the objects it is given, not on earlier calls: no default argument value, class attribute or module/library wide setting that is changed by one call influences a later one, and what an earlier call returned is not changed by later ones.",
     ["histories"],
     "all sequences of calls into the library in one process",
     "Tests run each call once in a fresh fixture; a leak shows only across particular sequences of calls.",
     ["electrode/system.py", "electrode/electrode.py", "electrode/pattern_constraints.py", "electrode/utils.py",
      "electrode/polygons.py", "electrode/adjust.py", "electrode/mathieu.py", "electrode/grid.py"],
     [("solver options", "electrode/system.py: System._run_cvxopt"),
      ("default argument values", "all modules")],
     ["results of repeated calls"])

prop("C13", "Searches and solves report success only when the solver did",
     "Minimum search, saddle search, voltage optimization and multi-configuration solves return a result only if the underlying solver reported convergence (respectively an optimal solution), return that solver's own solution, and raise otherwise.",
     ["inputs", "fault_sequences"],
     "all starting points, constraint sets and all outcomes of the underlying solvers",
     "Tests only see converging solves; a swallowed failure needs a solver outcome that the samples never produce.",
     ["electrode/system.py", "electrode/saddle.py"],
     [("success checks", "electrode/system.py: minimum, saddle, _run_cvxopt, optimize, solve"),
      ("termination reason", "electrode/saddle.py: rfo")],
     ["return value or exception of System.minimum, saddle, optimize, solve"])

prop("C14", "Search value, gradient and curvature belong to the same function",
     "In minimum and saddle searches, for any choice of varied axes and any coordinate basis (not only orthogonal or symmetric), the gradient and curvature handed to the optimizer are the first and second derivatives of the value handed to it, namely of the combined potential at the basis-transformed position, with the coordinates that are not varied kept at their start values. The returned position has the found values at the varied coordinates and the start values elsewhere. Search options the caller gives reach the search.",
     ["inputs", "configurations"],
     "all start points, subsets and orders of axes, 3x3 bases, potentials",
     "No passing test runs either search; with the default identity basis a wrong rotation is invisible.",
     ["electrode/system.py"],
     [("objective closures", "electrode/system.py: System.minimum"),
      ("objective closures", "electrode/system.py: System.saddle")],
     ["functions passed to scipy.optimize.minimize and to the saddle optimizer"])

prop("C15", "Constraint objects translate into exactly the bounds they state",
     "A range constraint bounds every electrode voltage (or the one selected, including index zero) from below by its minimum and from above by its maximum when given (including bounds that are zero) and pins it when both are equal; a single-value constraint forces its quantity to the offset when given, keeps it at or above the minimum and at or below the maximum when given, and contributes an objective row exactly when it has a target value. A finite-difference voltage constraint bounds exactly the differences it describes; nothing else is emitted.",
     ["inputs", "configurations"],
     "all combinations of given/omitted/zero min, max, offset, value, index",
     "Tests use one range and plain targets; most combinations (offset, one-sided, index, zero bounds) are never exercised.",
     ["electrode/pattern_constraints.py"],
     [("range", "electrode/pattern_constraints.py: PatternRangeConstraint.constraints"),
      ("single value", "electrode/pattern_constraints.py: SingleValueConstraint")],
     ["relations passed to the convex solver"])

prop("C16", "Optimization uses every constraint and objective it is given",
     "Voltage optimization maximizes the common strength of all objective rows while keeping their values proportional to their targets and imposes every relation of every constraint; the returned strength times the targets equals the achieved values. A multi-configuration solve minimizes the sum of all local and global objective terms subject to all local and global relations, with one voltage vector per configuration.",
     ["inputs", "configurations"],
     "all numbers and kinds of constraints and objectives",
     "One test optimizes a single fixed set; multi-configuration solves are never run.",
     ["electrode/system.py"],
     [("row collection", "electrode/system.py: System.optimize"),
      ("term accumulation", "electrode/system.py: System.solve")],
     ["objective and relations handed to the convex solver"])

prop("C17", "Potential objectives are the named derivative in their own frame",
     "The row of a potential objective holds, for each electrode, the named partial derivative of that electrode's unit-voltage potential at the given point, taken in the rotated frame when a rotation is given (directions are the columns of the rotation), also for the names that are expressed through two others by Laplace's equation. A combined objective's row is the sum of its components' rows weighted by their values, skipping components without a value.",
     ["inputs", "configurations"],
     "all points, derivative names up to order 5, rotations, weights",
     "Tests use unrotated objectives with basis names only.",
     ["electrode/pattern_constraints.py", "electrode/utils.py"],
     [("row evaluation", "electrode/pattern_constraints.py: PotentialObjective.get"),
      ("weighted sum", "electrode/pattern_constraints.py: MultiPotentialObjective.get")],
     ["Constraint.get"])

prop("C18", "Grouping partitions electrodes into half-open voltage bins",
     "Grouping by voltages returns one electrode per bin of (-inf, t1), [t1, t2), ..., [tn, inf), in threshold order; every original electrode's outlines end up, unchanged and in order, in exactly the bin its voltage falls into, and the group's voltages are the means over its members. Voltages default to the dc voltages, may be given as any sequence, and the assembly grouped is left unchanged.",
     ["inputs", "configurations"],
     "all assemblies, thresholds (also repeated in the data) and voltages",
     "One test groups one solution; values on the bin edges and list inputs never occur.",
     ["electrode/system.py"],
     [("binning", "electrode/system.py: System.group")],
     ["System.group"])

prop("C19", "Grid index and coordinate maps agree and are mutually inverse",
     "For a regular grid of any centre, step and shape, node (i, j, k) lies at centre + step*((i, j, k) - (shape-1)/2) in all of the grid's views (node list, mesh, axis arrays, origin, index-to-coordinate map), and the coordinate-to-index map is the exact inverse of the index-to-coordinate map. Node lists enumerate the mesh in C order with one row per node.",
     ["inputs", "configurations"],
     "all centres, steps (per axis), shapes (also non-cubic), indices and coordinates",
     "No test touches the grid module.",
     ["electrode/grid.py"],
     [("maps", "electrode/grid.py: Grid")],
     ["Grid.*"])

prop("C20", "Gridded electrodes interpolate and differentiate with the right axes",
     "A gridded electrode interpolates derivative data of the requested order linearly at fractional index (x - origin)/spacing per axis for every component, whatever the number type of data and points, and finite-difference derivatives generated for missing orders differentiate, for each component, the stored lower order component along the axis its name adds, with that axis' own spacing. Data of available orders is kept as given and components of every generated order are filled.",
     ["inputs", "configurations"],
     "all grids (also anisotropic), spacings, origins, orders, points",
     "Tests use a cubic grid with unit-like spacing and low order only.",
     ["electrode/electrode.py", "electrode/utils.py"],
     [("interpolation", "electrode/electrode.py: GridElectrode.potential"),
      ("differences", "electrode/electrode.py: GridElectrode.derive, generate")],
     ["GridElectrode.potential", "GridElectrode.data"])

prop("C21", "Compiled kernels never touch memory outside their arrays",
     "For every call with arrays of any shape and contents, compiled kernels either reject the call with an exception or only read and write inside the arrays they were given: index arrays, accumulator size, and empty outlines included.",
     ["inputs"],
     "all shapes and contents of all array arguments of the compiled entry points, all derivative orders",
     "Tests pass consistent shapes only; an out-of-bounds access with checks disabled usually goes unnoticed when it happens.",
     ["electrode/cexpressions.pyx"],
     [("entry checks", "electrode/cexpressions.pyx: point_potential, polygon_potential, mesh_potential"),
      ("unchecked indexing", "electrode/cexpressions.pyx (boundscheck=False, wraparound=False)")],
     ["memory accesses of the compiled kernels"])

prop("C22", "C extension functions balance references and fail cleanly",
     "Every function of the compiled transformations extension releases exactly the references and buffers it acquired on every path, normal or failing, never uses an object after releasing it or when its creation failed, and reports every failure with an exception and an empty result.",
     ["inputs", "fault_sequences"],
     "all inputs and all allocation or conversion failures in all exported functions",
     "Tests never make an allocation or a conversion fail, and a leak or over-release does not change results.",
     ["electrode/transformations.c"],
     [("error exits", "electrode/transformations.c: every PyObject* py_* function"),
      ("converter", "electrode/transformations.c: PyConverter_*")],
     ["reference counts and raised exceptions of the exported functions"])

prop("C23", "Euler angle, quaternion and matrix conversions share one convention",
     "For all 24 axis conventions, the rotation matrix built from three angles is the product of the three elementary rotations in the order and frame that the convention names, and the quaternion built from the same angles represents the same rotation. Rotation matrices from axis and angle, from quaternions, and quaternion products follow the same (right-handed, active) convention, in both the interpreted and the compiled variants; the conversions from matrices back to angles and quaternions invert them, in gimbal lock and for homogeneously scaled matrices too; arguments of whole numbers count like floating point ones, and no argument is changed.",
     ["inputs", "configurations"],
     "all angles, 24 conventions, quaternions, axes",
     "Tests and doctests sample random angles and only ever run the compiled variant of those functions that have one.",
     ["electrode/transformations.py", "electrode/transformations.c"],
     [("convention table", "electrode/transformations.py: _AXES2TUPLE, _NEXT_AXIS"),
      ("builders", "electrode/transformations.py: euler_matrix, quaternion_from_euler, rotation_matrix, quaternion_matrix")],
     ["euler_matrix, euler_from_matrix, quaternion_from_euler, quaternion_matrix, quaternion_multiply"])

prop("C24", "Every entry point resolves the names and signatures it uses",
     "No function of the library refers to a name, imported attribute, method or argument that cannot exist at run time, or reads a local that no path assigns before: every call can bind its arguments and every referenced library function exists in the supported dependency versions.",
     ["programs", "inputs"],
     "all functions and methods of all modules, all paths through them",
     "More than half of the functions are never called by a test, so an unresolvable name in them cannot fail one.",
     ["electrode/*.py"],
     [("module namespaces", "electrode/*.py")],
     ["NameError, AttributeError, TypeError, UnboundLocalError at run time"])

prop("C25", "Mathieu/Floquet construction matches the equation it solves",
     "The Floquet matrix of the general Mathieu equation, for any number of harmonics, dimensions and band cutoff, couples value and derivative components of each frequency by exactly the stated equation, with every harmonic coupling both neighbours at its distance and nothing beyond the cutoff. The closed-form one-dimensional solutions' position, velocity and acceleration outputs are successive time derivatives of each other and of the stated Fourier series. Each characteristic exponent is the one its method names: from the integrated solution after one period, from the truncated determinant, or the small-parameter expansion.",
     ["inputs", "configurations"],
     "all coefficient matrices, harmonics, cutoffs; all a, q, times",
     "No test touches Mathieu analysis.",
     ["electrode/utils.py", "electrode/mathieu.py", "electrode/system.py"],
     [("Floquet matrix", "electrode/utils.py: mathieu"),
      ("mode selection", "electrode/system.py: System.mathieu"),
      ("series solutions", "electrode/mathieu.py: Mathieu.sol_y1, sol_y2")],
     ["utils.mathieu", "System.mathieu", "Mathieu.sol_y1, sol_y2"])

prop("C26", "Cartesian derivatives convert to real spherical harmonics",
     "For every order 0 to 5, the spherical-harmonic components computed from the stored cartesian derivatives are the coefficients of the fixed set of real, mutually orthogonal harmonics of that order with m running from -l to l: each output depends on the derivatives as the corresponding solid harmonic does, up to the one documented normalization per order.",
     ["inputs"],
     "all derivative values, orders 0..5, every component",
     "One test checks a single random tensor against recorded numbers for some orders.",
     ["electrode/utils.py"],
     [("conversion table", "electrode/utils.py: cartesian_to_spherical_harmonics")],
     ["utils.cartesian_to_spherical_harmonics"])

prop("C27", "Layout files are read back with the attributes they were written with",
     "The exporter writes one outline and (for named electrodes) one name label per polygon part and one path of the given width per boundary, on the layers asked for (none where the layer is None), in integer coordinates: the nearest grid point of length times scale over file unit; with a clipping edge, exactly the parts with area inside the square are written. The importer takes outlines, gap, route and bridge paths and name labels from the layers asked for, with their names, in length units, from the cell asked for (the first when none is named), and asking for a cell that the file does not contain is an error; with the same length scale and layer choice what one writes the other reads back. The reader of text layouts returns the corners of every P record up to its closing semicolon, in order and in length units (1e-8 per file unit), and nothing for the other records.",
     ["inputs", "configurations"],
     "all polygon sets, names, scales, file units and layer choices",
     "The one test of the file format needs a file that is not there; nothing writes and reads back.",
     ["electrode/polygons.py", "electrode/xic.py"],
     [("writer", "electrode/polygons.py: Polygons.to_gds"),
      ("reader", "electrode/polygons.py: Polygons.from_gds"),
      ("text reader", "electrode/xic.py: xic_to_list")],
     ["Polygons.to_gds", "Polygons.from_gds", "xic_to_list"])

prop("C28", "Conversions keep every electrode's identity and orientation",
     "Converting polygons to electrodes orients every exterior counter-clockwise and every hole clockwise without repeating the closing vertex, in two dimensions, skips invalid and empty parts, and keeps names and order; converting electrodes to polygons keeps names and order and puts every clockwise outline as a hole into the smallest counter-clockwise outline around it; converting polygon outlines to point patches keeps the name, dc and rf voltages and the cover parameters and gives each outline's signed area at its centroid.",
     ["inputs", "configurations"],
     "all polygon sets (with holes, nested, either orientation), all electrodes",
     "Tests convert a few shapes of one orientation.",
     ["electrode/polygons.py", "electrode/electrode.py", "electrode/utils.py"],
     [("orientation", "electrode/polygons.py: Polygons.to_system"),
      ("grouping", "electrode/polygons.py: Polygons.from_system"),
      ("point patches", "electrode/electrode.py: PolygonPixelElectrode.to_points"),
      ("area and centroid", "electrode/utils.py: area_centroid")],
     ["Polygons.to_system", "Polygons.from_system", "PolygonPixelElectrode.to_points"])

prop("C44", "The textual analysis states the right quantity in the right unit",
     "Each line that System.analyze_static yields (or logs, at the given level) for one or two ions states the quantity it names at the analysed point in the unit it names: parameters, offsets of the minimum and saddle found by searching along the given axes from the given offsets with the given method, potentials, forces, curvatures, pseudopotential and Mathieu frequencies with their mode vectors and Euler angles, field noise and heating, and for two ions their separation and modes at the equilibrium; a failing saddle search is stated and does not end the report.",
     ["inputs", "configurations"],
     "all points, voltages, masses, charges, lengths, frequencies, axes, offsets and search outcomes",
     "No passing test runs the analysis.",
     ["electrode/system.py"],
     [("report", "electrode/system.py: System._analyze_static"),
      ("front", "electrode/system.py: System.analyze_static")],
     ["System.analyze_static"])

prop("C45", "Polygon edits do the stated set operation and nothing else",
     "Removing overlaps takes from each electrode exactly what preceding ones cover; restricting keeps exactly the part inside the geometry (or centred square); unions keep the region, one per electrode or per name; gaps shrink each electrode by half the gap (or keep it where that is invalid); simplification uses the given tolerance; filtering keeps exactly what passes the test (by default areas above 1e-2), dropping electrodes with nothing left; smoothing treats every outline and keeps outlines with their electrode; the gap union has every boundary; validation raises exactly for invalid shapes; each pad is assigned the first free electrode under it and vice versa; pads around a square are spaced by the pitch in order from the corner. Names and order stay, and the given set is not changed.",
     ["inputs", "configurations"],
     "all polygon sets (several parts, holes, overlaps, equal names, empty), geometries, gaps, tolerances, tests and pads",
     "The tests only convert polygons; no edit is run.",
     ["electrode/polygons.py"],
     [("edits", "electrode/polygons.py: Polygons"),
      ("pads", "electrode/polygons.py: Polygons.assign_to_pad"),
      ("pad ring", "electrode/polygons.py: square_pads")],
     ["Polygons.remove_overlaps", "Polygons.restrict", "Polygons.filter", "square_pads"])

prop("C46", "Spherical harmonic analysis and synthesis are the stated sums",
     "Spherical and Cartesian coordinates (angle from z, azimuth from x) and small displacements in them convert exactly, the conversions being each other's inverses; the coefficient table holds every (n, m) with |m| <= n < nmax exactly once at the documented place; the sampled harmonics are the Condon-Shortley, orthonormal ones for every order (negative ones included); analysis is the Gauss-Legendre quadrature of the sampled function against the conjugate harmonics, and synthesis the sum of coefficients times harmonics, for real and complex input.",
     ["inputs", "configurations"],
     "all points, displacements, sampled functions and coefficients, all nmax",
     "The test functions in the module are not collected, and for nmax >= 2 the class could not be constructed with the installed numpy.",
     ["electrode/spherical_harmonics.py"],
     [("coordinates", "electrode/spherical_harmonics.py: spherical_to_cartesian"),
      ("displacements", "electrode/spherical_harmonics.py: derivatives_spherical_cartesian"),
      ("transforms", "electrode/spherical_harmonics.py: SphericalHarmonics")],
     ["spherical_to_cartesian", "derivatives_spherical_cartesian", "SphericalHarmonics.analysis", "SphericalHarmonics.synthesis"])

prop("C47", "Step-by-step adjustment keeps the trap, its record and its proposals consistent",
     "Adjust starts from the given (or found) minimum and its modes in descending order of their first component (or the order asked for). A proposal's voltage changes solve the stated linear equations for the chosen axis, distance, length scale and method over the grouped electrodes, applied on top of the last accepted voltages, never on top of an unaccepted proposal; it reports the minimum, offset, frequency and mode changes there. Accepting a proposal (or own changes) sets and records exactly those voltages, the last ones for every other electrode, and its minimum and curvatures; rejecting restores the last accepted voltages of all electrodes and records nothing; a proposal can be used once. RF amplitudes never change.",
     ["histories", "inputs"],
     "all sequences of proposals, acceptances, rejections and own changes; all voltages, groups, axes, distances and scales",
     "No test touches this module.",
     ["electrode/adjust.py"],
     [("start", "electrode/adjust.py: Adjust.set_move_init"),
      ("proposal", "electrode/adjust.py: Adjust.volt_change"),
      ("acceptance", "electrode/adjust.py: Adjust.next_step")],
     ["Adjust.set_move_init", "Adjust.volt_change", "Adjust.next_step"])

prop("C48", "Drawings show every electrode at its outline in its colour",
     "Drawing an electrode draws exactly its outlines (holes included) or, for point patches, one circle per patch at its centre with the patch's area, in the colour given, and labels it with the label given, else its name, in the middle of each outline (of the patches); an empty label draws none. Drawing an assembly draws each electrode once in assembly order in the palette's colours, cycling, with the given style. Drawing voltages colours each electrode by the colour map at (u/um + 1)/2, u being the given voltages or its dc voltage and um the given or largest absolute voltage (1 if all vanish). Drawing changes nothing.",
     ["inputs", "configurations"],
     "all outlines, patches, voltages, assemblies and style arguments",
     "The plot tests only run the functions; what is drawn is not looked at.",
     ["electrode/electrode.py", "electrode/system.py"],
     [("outlines", "electrode/electrode.py: PolygonPixelElectrode.plot"),
      ("patches", "electrode/electrode.py: PointPixelElectrode.plot"),
      ("colours", "electrode/system.py: System.plot_voltages")],
     ["Electrode.plot", "System.plot", "System.plot_voltages"])

prop("C49", "Adaptive refinement refines at potential jumps and returns its last solution",
     "Refinement starts from the given outlines, each closed by boundary segments of a marker of its own, at the given minimum angle and starting area. Every pass solves the given constraints on the fixed electrodes followed by one electrode per triangle, made of that triangle's images under the symmetry with the given electrode options; a triangle's next area limit is its area divided by the decrease factor if its potential differs from an adjacent triangle's (across a boundary there is none) by more than the threshold, and its area times the increase factor otherwise. Refinement ends at the first mesh with more triangles than the limit; the system, potentials and strength returned are those of the last mesh solved. The symmetry helper images every corner under each transformation, in reversed order for a transformation marked as orientation reversing.",
     ["inputs", "histories"],
     "all outlines, mesh sequences, potentials, thresholds and factors",
     "No test refines (the triangulation dependency is missing).",
     ["electrode/adaptive.py"],
     [("refinement pass", "electrode/adaptive.py: adapt_mesh"),
      ("triangulation input", "electrode/adaptive.py: paths_to_mesh"),
      ("symmetry images", "electrode/adaptive.py: transformed_copy")],
     ["adapt_mesh", "paths_to_mesh", "transformer"])

prop("C50", "Ion crystals sit at equilibria of the trap and their mutual repulsion",
     "For two or more ions with any charges, the search for equilibrium positions minimises the sum of the combined potential at every ion plus, once for every pair, the product of their charges over their distance, starting from the given positions; the gradient and curvature it uses are the first and second derivatives of that energy over all coordinates, ion by ion, at any distinct positions. The positions returned are those found; the eigenvalues and mode vectors are the eigensystem of the curvature there in ascending order, the mode vector indexed by ion, axis and mode.",
     ["inputs", "configurations"],
     "all assemblies, numbers of ions, charges and positions",
     "The tests of ion crystals are skipped.",
     ["electrode/system.py"],
     [("energy, gradient and curvature", "electrode/system.py: System.ions")],
     ["System.ions"])

prop("C29", "Modes are eigenpairs of the curvature, consistently ordered",
     "The curvatures and mode vectors returned for a point are the eigenvalues and eigenvectors of the second derivative of the combined potential there; sorting orders them by ascending curvature and permutes the vectors (columns) along with the values, so that each value stays with its vector.",
     ["inputs"],
     "all points and assemblies, sorted or not",
     "No passing test computes modes.",
     ["electrode/system.py"],
     [("eigen decomposition", "electrode/system.py: System.modes")],
     ["System.modes"])

prop("C30", "Trajectories integrate the instantaneous force on the varied axes",
     "A trajectory's acceleration callback delivers, at the time and the varied coordinates it is asked for and with the other coordinates at their start values, the gradient of the instantaneous potential along exactly the varied axes; integration starts from the given position, velocity and time and reports consecutive times in steps of the time step, without sharing the reported arrays with the integrator's state.",
     ["inputs", "histories"],
     "all start conditions, axis choices, times and step counts",
     "No test integrates a trajectory (the default integrator is not installed).",
     ["electrode/system.py"],
     [("callback and stepping", "electrode/system.py: System.trajectory")],
     ["System.trajectory"])

prop("C31", "Contour slices sample the plane they are labelled with",
     "A contour slice perpendicular to an axis at a given offset evaluates the potential exactly at the points whose coordinate along that axis is the offset and whose other two coordinates are the grid's node coordinates, row by row, and labels and returns extrema of exactly those values.",
     ["inputs", "configurations"],
     "all grids (also non-cubic), slice axes, offsets, potentials",
     "No test draws a slice.",
     ["electrode/system.py", "electrode/grid.py"],
     [("slice sampling", "electrode/system.py: System.plot_contour")],
     ["points at which the potential is evaluated"])

prop("C32", "Shim vectors isolate one objective each and leave the others at zero",
     "Each row of the shim matrix is the voltage set, normalized to unit strength, of an optimization in which exactly that row's objective has target one and all other requested objectives have target zero, under the same constraints; the rows follow the order of the request with additional objectives last. Afterwards, also when an optimization fails, the additional objectives have the targets they had before.",
     ["inputs", "configurations"],
     "all requested points, frames, derivatives, additional objectives and constraints",
     "No test computes shims.",
     ["electrode/system.py"],
     [("one-hot targets", "electrode/system.py: System.shims")],
     ["targets seen by each optimization, System.shims"])

prop("C33", "Lookup by name or position and voltage vectors follow assembly order",
     "Indexing an assembly by position behaves like a list, indexing by name yields the first electrode of that name or nothing; the name, dc and rf vectors list the electrodes' values in assembly order, and assigning a vector assigns position by position and changes nothing else.",
     ["inputs", "histories"],
     "all assemblies, names, positions and assigned vectors",
     "Tests read names and voltages of fixed assemblies.",
     ["electrode/system.py"],
     [("lookup", "electrode/system.py: System.__getitem__"),
      ("accessors", "electrode/system.py: System.names, dcs, rfs")],
     ["System[...], System.names, System.dcs, System.rfs"])

# ---- not applicable to static analysis (reasons in MANIFEST.json / DESIGN.md)
prop("C34", "Homogeneous transformation matrices do what they say and are undone",
     "Translation, reflection, rotation (angle, axis, centre), scaling (uniform or along a direction, about an origin), shear, projection (orthogonal, along a direction, perspective, pseudo), clipping, orthogonalisation, concatenation and inversion matrices are, for all parameters, the documented maps of homogeneous points, in both the interpreted and the compiled variants. The extractors recover from a matrix the parameters that rebuild it, decompose_matrix and compose_matrix are inverse to each other, degenerate or wrongly ordered arguments raise, arguments of whole numbers count like floating point ones, and no argument is changed.",
     ["inputs", "configurations"],
     "all points, directions, normals, factors, origins, angles, clipping boxes and perspectives",
     "The doctests sample random parameters, mostly of the compiled variants, and compare traces or products rather than the maps.",
     ["electrode/transformations.py", "electrode/transformations.c"],
     [("builders", "electrode/transformations.py: reflection_matrix, rotation_matrix, scale_matrix, projection_matrix, clip_matrix, shear_matrix, orthogonalization_matrix"),
      ("extractors", "electrode/transformations.py: *_from_matrix, decompose_matrix, compose_matrix"),
      ("compiled variants", "electrode/transformations.c")],
     ["return values and exceptions of the functions"])

prop("C35", "Vector helpers, interpolation, point set registration and the arcball",
     "Norms and unit vectors are the Euclidean ones along the axis asked for, whatever the memory layout of the data, with results in the given output arrays; vector product and angles follow their definitions. Quaternion interpolation moves along the great circle at the fraction asked for, the short way unless told otherwise, and two quaternions are the same if equal up to sign. Point set registration returns the transformation that takes the first set to the second (rigid, similarity or affine as asked). The arcball maps window to sphere coordinates, applies twice the rotation from the pressed to the current point, about the nearest axis when constrained. The compiled variants agree with the interpreted ones.",
     ["inputs", "configurations"],
     "all vectors, array layouts, axes, outputs, quaternions, fractions, point sets and cursor movements",
     "Doctests check single random values of contiguous arrays and only run the compiled variants.",
     ["electrode/transformations.py", "electrode/transformations.c"],
     [("helpers", "electrode/transformations.py: vector_norm, unit_vector, vector_product, angle_between_vectors, quaternion_slerp, is_same_quaternion"),
      ("registration", "electrode/transformations.py: affine_matrix_from_points, superimposition_matrix"),
      ("arcball", "electrode/transformations.py: Arcball, arcball_*"),
      ("compiled variants", "electrode/transformations.c")],
     ["return values, given outputs and exceptions of the functions"])

prop("C40", "Fragmenting a layout covers the field without overlaps",
     "Cutting a field yields each given outline's area within the square of the given edge, in order and under its name, followed (when gaps or routes are given) by the unnamed parts of what remains of the square after the gaps' neighbourhood of the given half width is removed, everything that routes and bridges together enclose is restored and the outlines and the routes' neighbourhood are removed: no two fragments overlap unless the given outlines do, and together they cover the field up to that width. Remaining parts keep their holes, with coordinates rounded to a decimal no finer than ten times the width. When names with positions are given, the fragments are those assigned to the positions in order, under those names, the others under their own.",
     ["inputs", "configurations"], "all gaps, routes, bridges, outlines, names and edges",
     "The reliable tests cut nothing.",
     ["electrode/polygons.py"], [("fragmentation", "electrode/polygons.py: Polygons.from_data")],
     ["Polygons.from_data"])
prop("C41", "Saddle searches converge to a first-order saddle point",
     "A converged saddle search ends at a point with vanishing gradient and exactly one negative curvature.",
     ["inputs"], "all potentials and start points",
     "Tests never run the search.",
     ["electrode/saddle.py"], [("rational function optimization", "electrode/saddle.py: rfo")],
     ["System.saddle"])
prop("C42", "Potentials stay accurate close to the plane and far away",
     "Rounding errors of the closed-form contributions stay within a small multiple of machine precision of the exact value for all points, including very close to the electrode plane and edges and very far away.",
     ["inputs"], "all points and geometries in double precision",
     "Tests sample moderate distances only.",
     ["electrode/cexpressions.pyx"], [("closed forms", "electrode/cexpressions.pyx")],
     ["Electrode.potential"])
prop("C43", "Adaptive refinement terminates with a mesh below its size limit",
     "Adaptive mesh refinement ends for every geometry and constraint set and returns the last solution computed on a mesh below the size limit.",
     ["inputs"], "all geometries, constraints and refinement parameters",
     "Tests never refine (the triangulation dependency is missing).",
     ["electrode/adaptive.py"], [("refinement loop", "electrode/adaptive.py: adapt_mesh")],
     ["adapt_mesh"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
