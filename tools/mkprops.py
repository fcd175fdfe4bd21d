#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop("C01", "Ranges always report the geometry their edit history implies",
 "Whatever sequence of construction, copying, assignment (also to itself), resizing, extruding, expanding, shifting and setting produced a range, it reports exactly the bounds that sequence implies, and its lengths, row-major strides (last dimension fastest) and volume are those of its current bounds; a range without dimensions has volume zero. "
 "An edit touches only the dimension it names and never another range object. "
 "Two ranges are equal exactly when dimension count and all bounds agree, one includes another exactly when the dimension counts agree and every bound is nested, and printing a range shows its bounds.",
 ["inputs", "histories"], "all edit histories over several ranges, any number of dimensions, any integer bounds with lower <= upper",
 "The tests make one edit on one 3-D range at a time and look at one dimension; no histories, no aliasing, no negative-bound edits, no self-assignment, no printing.",
 ["src/lib/range.h", "src/lib/range.cpp"],
 [("single writer of bounds and strides", "src/lib/range.cpp range::setup"), ("edits re-run setup on a copied bound list", "src/lib/range.cpp range::set")],
 [("bounds", "lower/upper per dimension", "range::_lower/_upper"), ("stride", "row-major strides", "range::_stride")],
 ["range public accessors", "operator==, operator<<"])

prop("C02", "Traversal visits every point of a sub-range once, in storage order",
 "Iterating a sub-range inside an enclosing range visits each of its points exactly once, in row-major order, terminates, and at every point reports the coordinates together with the storage offset those coordinates have in the enclosing range; the reported final offset is one past the last visited one. "
 "A sub-range that is empty, of another dimension count or not contained in the enclosing range yields no points. "
 "Stepping an iterator by hand along one dimension moves coordinate and offset together, copies of an iterator advance independently, and (in the range-checked build) a dimension number outside the iterator's dimensions is rejected.",
 ["inputs", "histories"], "all pairs of sub-range and enclosing range of any dimension count, and all interleavings of stepping, copying and assigning iterators",
 "The tests count the points of two 2-D iterations and check the first coordinates; order, offsets, more dimensions, empty ranges, stepping and copies are never looked at.",
 ["src/lib/indexer.h", "src/lib/indexer.cpp"],
 [("carry from the fastest dimension outwards", "src/lib/indexer.cpp indexer::recursive_increment_dim"), ("containment test at construction", "src/lib/indexer.cpp indexer::indexer")],
 [("position", "coordinates and linear offset", "indexer::_index/_linear_index")], ["indexer accessors"])

prop("C03", "Array operations change exactly the addressed elements",
 "In any history of construction, copying, assignment, resizing, filling, sub-range filling, sub-range or whole-array copying between arrays, swapping and element access, every element of every array holds the value the last operation addressing it gave it, and elements that an operation does not address keep theirs. "
 "Elements copied between two ranges correspond in row-major order, a copied array has the same shape and contents as its source and is independent of it, and access by iterator, by coordinates and by storage order reach the same element. "
 "Fills and copies whose ranges leave the array or whose volumes differ, and swaps of arrays of different volume, are rejected and change nothing.",
 ["inputs", "histories"], "all operation histories over several arrays of int, double and datachunks, any shapes and sub-ranges",
 "The tests fill and copy one 2-D block with a constant, so permuted, shifted or overlapping element correspondence is invisible; copies, rejection paths and histories are not reached.",
 ["src/lib/indexer_interface.h", "src/data/datachunk.cpp", "src/data/functions.h"],
 [("paired iterators over source and destination", "src/lib/indexer_interface.h pull, src/data/functions.h copy_to"), ("volume/containment checks", "src/lib/indexer_interface.h")],
 [("data", "row-major element store", "indexer_interface::_data")], ["data(), operator[], data(index)"])

prop("C04", "Decomposing a range yields a disjoint, complete set of sub-ranges",
 "Splitting a range into a given number of subdivisions per dimension yields exactly that many sub-ranges, each a valid (possibly empty) part of the original, such that every point of the original lies in exactly one of them. "
 "Sub-ranges are ordered like their grid position (a higher position along a dimension covers higher coordinates) and non-empty ones along a dimension have equal length except the last.",
 ["inputs"], "all ranges and subdivision counts >= 1 per dimension, also when the count does not divide the length or exceeds it",
 "No test touches range decomposition.",
 ["src/lib/range_set.h", "src/lib/range_set.cpp"], [("block size by ceiling division, clamped at the end", "src/lib/range_set.cpp range_set::setup")])

prop("C05", "Interior and ghost strips tile a variable's storage correctly",
 "A variable on an n-dimensional mesh with g ghost layers stores every mesh cell plus g layers on both sides of every mesh dimension, for every basis point and component, components varying fastest. "
 "Its interior is exactly the mesh; along each dimension the lower and upper ghost strips are the g layers just outside the mesh and the lower and upper boundary strips the g layers just inside, all spanning exactly the interior in the other dimensions. "
 "New storage reads zero, and resizing or copying a chunk keeps this geometry.",
 ["inputs", "configurations"], "all mesh dimension counts, bounds, ghost-layer counts, component and basis-point counts",
 "The single test checks the total volume for one 4-D mesh; no strip and no bound is ever checked.",
 ["src/data/extended_datachunk.cpp", "src/data/datachunk.cpp", "src/data/dataset.cpp", "src/variable/variable.cpp"],
 [("strip ranges derived from the interior range", "src/data/extended_datachunk.cpp resize"), ("data dimensions extruded behind mesh dimensions", "src/data/datachunk.cpp resize")])

prop("C06", "Periodic boundaries wrap the interior, and touch nothing else",
 "Applying periodic boundaries along a list of dimensions gives every ghost cell that lies outside the mesh along exactly one listed dimension (and inside along the others) the values of the interior cell one mesh length away, for every component of every listed variable. "
 "No interior cell, no ghost cell of an unlisted dimension, no corner ghost cell and no other variable changes. Applying it again changes nothing.",
 ["inputs", "histories", "configurations"], "all field contents, meshes of one to three dimensions at least as long as the ghost layers, any subset and order of dimensions, any number of variables",
 "No test runs a boundary condition.",
 ["src/solver/bc_periodic.cpp", "src/data/functions.h", "src/data/extended_datachunk.cpp"],
 [("strip-to-strip copies", "src/solver/bc_periodic.cpp solve"), ("row-major paired copy", "src/data/functions.h copy_to")])

prop("C07", "Wall boundaries mirror the interior with the right sign per component",
 "Copy-out, no-slip, free-slip and conducting-wall boundaries give each ghost cell outside the mesh along a listed dimension the value of its mirror image across that wall: unchanged for copy-out; with all three momentum components negated for no-slip; with only the wall-normal momentum negated for free-slip; with the electric field negated and the magnetic field unchanged for a conducting wall. "
 "Every other component is mirrored unchanged, and no interior cell, corner or unlisted ghost cell or other variable changes. Applying a wall again changes nothing.",
 ["inputs", "histories", "configurations"], "all field contents, meshes of one to three dimensions at least as long as the ghost layers, any list of dimensions, any number of variables",
 "No test runs a boundary condition.",
 ["src/solver/bc_copy_out.cpp", "src/solver/bc_no_slip.cpp", "src/solver/bc_free_slip.cpp", "src/solver/bc_conducting_wall.cpp", "src/data/datachunk.cpp"],
 [("slice-by-slice mirrored copy", "src/solver/bc_*.cpp solve"), ("sign flip of a component sub-range", "src/data/datachunk.cpp multiply_by_scalar")])

prop("C08", "A variable id denotes one storage for the life of its manager",
 "Requesting a variable for output creates it on first use, with zero contents and the id's name, components and basis on the manager's grid, and afterwards every request with an equal id, for reading or writing, reaches that same storage in any order of requests. "
 "Different ids never share storage, and creating or writing one variable never moves or changes another. "
 "Reading an id that was never created is rejected and creates nothing; an id that reuses a name with other component names is rejected; time and time step are returned as last set.",
 ["histories", "inputs"], "all histories of requests, writes and failed requests over any set of ids (names, bases, components)",
 "No test touches the manager.",
 ["src/variable/variable_manager.h", "src/variable/variable_manager.cpp", "src/variable/variable_id.h", "src/basis/basis.h"],
 [("ordered map from id to owned variable", "src/variable/variable_manager.cpp"), ("id ordering", "src/variable/variable_id.h operator<")],
 [("registry", "id -> variable", "variable_manager::_variables")], ["output_variable, input_variable"])

prop("C09", "Variable ids and bases are totally ordered; clones are always fresh",
 "Bases, and variable ids with consistent component lists, are strictly totally ordered: of two that differ exactly one precedes the other, the order is transitive, and neither precedes the other exactly when they compare equal, i.e. when name and number of points of bases, name and basis of ids agree. "
 "Comparing two ids of the same name but different component lists is rejected in either direction. "
 "A clone differs by name from its original and from every other clone made in the process, and keeps components and basis.",
 ["inputs", "histories"], "all pairs and triples of ids and bases; all clone histories",
 "No test compares ids or bases or makes clones.",
 ["src/variable/variable_id.h", "src/basis/basis.h", "src/basis/face_basis.cpp"],
 [("lexicographic comparison", "src/variable/variable_id.h operator<, src/basis/basis.h operator<"), ("process-wide tag counter", "src/variable/variable_id.cpp")])

prop("C10", "Any history of solver calls yields the state their definitions compose to",
 "For every sequence of fills, boundary conditions, time-level swaps, Runge-Kutta stages, Lorentz and current sources and prints applied to a set of variables, the contents of every variable after each call are those obtained by applying the calls' definitions one after the other. "
 "A swap exchanges complete contents (interior and ghost) of each listed pair, in list order, a fill sets every stored value, and printing shows each interior value once with its coordinates and changes nothing. Solver objects are independent of one another, and a copy of a configured solver acts as the original did when it was copied.",
 ["histories", "inputs"], "all call sequences over several fluid and field variables and all their contents",
 "No test runs a solver, let alone a sequence of them.",
 ["src/solver/swap.cpp", "src/solver/fill.cpp", "src/solver/print.cpp", "src/solver/solver.h", "src/variable/variable_manager.cpp"],
 [("vector swap of chunks", "src/lib/indexer_interface.h swap"), ("solver input/output id lists", "src/solver/solver.h")])

prop("C11", "Runge-Kutta stages compute their convex combinations, nothing else",
 "Stage k of the one-stage (forward Euler) and three-stage strong-stability-preserving integrators sets its own output, at every stored point and component, to u1 = u0 + dt*r, u2 = 3/4 u0 + 1/4 u1 + 1/4 dt*r and u3 = 1/3 u0 + 2/3 (u2 + dt*r) respectively, with the manager's current time step. "
 "It leaves its inputs, the other stages' outputs and all other variables unchanged, and a stage number the integrator does not have (each reports how many it has) changes nothing. "
 "With a zero right-hand side a full step reproduces the initial state.",
 ["inputs", "histories"], "all states, right-hand sides and time steps, meshes of one to three dimensions, any stage order",
 "No test runs an integrator.",
 ["src/solver/rk1.cpp", "src/solver/ssprk3.cpp"], [("pointwise loops over the full storage", "src/solver/ssprk3.cpp stage_0..2, src/solver/rk1.cpp stage_0")])

prop("C12", "Maxwell right-hand side is the limited upwind discretisation of the curls",
 "For every cell of the mesh the Maxwell solver adds to the right-hand side the sum over dimensions of (left face flux - right face flux)/dx, where the face flux of E is c^2 times, and that of B minus, the cross product structure of the curl evaluated from the mean of the two reconstructed face states, plus upwind dissipation -|c|/2 times their jump for the components transverse to the face and zero flux for the normal components. "
 "Face states are the neighbouring cell values extrapolated by half the smooth van Albada slope of that component, a*b*(a+b)/(a^2+b^2) for the differences a and b to its two neighbours (zero next to a flat stretch; the difference to the cell away from the face is regularised by 1e-12). Uniform fields give no contribution.",
 ["inputs", "configurations"], "all field contents, wave speeds and cell sizes, meshes of one to three dimensions",
 "No test evaluates a flux.",
 ["src/solver/maxwell.cpp"], [("per-dimension flux loops", "src/solver/maxwell.cpp solve_rusanov_mp")])

prop("C13", "Euler right-hand side is the limited HLL discretisation of the gas equations",
 "For every cell of the mesh the Euler solver adds to the right-hand side the sum over dimensions of (left face flux - right face flux)/dx of mass, momentum and energy, where the face flux is the HLL flux of the two reconstructed face states: the pure left or right physical flux when the flow is supersonic across the face in that direction and the weighted combination with signal speeds u_l-c_l and u_r+c_r (in ascending order, also where supersonic streams collide) otherwise. "
 "Pressure enters the momentum component normal to the face only, follows from total energy with the configured ratio of specific heats, and the face states are the neighbouring cell values extrapolated by half the smooth van Albada slope a*b*(a+b)/(a^2+b^2) of each conserved component, a and b being the differences to its two neighbours (regularised as for the Maxwell solver). Uniform states give no contribution.",
 ["inputs", "configurations"], "all admissible states (positive density and pressure), gamma > 1, cell sizes, meshes of one to three dimensions, subsonic and supersonic in both directions",
 "No test evaluates a flux.",
 ["src/solver/euler.cpp"], [("reconstruction and HLL selection per face", "src/solver/euler.cpp solve_HLL_mp")])

prop("C14", "Fluxes conserve: what leaves a cell through a face enters its neighbour",
 "On a mesh whose ghost cells were filled periodically, the contributions of the Euler and of the Maxwell solver to the right-hand side, and the change made by one stage of the advection solver, sum to zero over the interior for every component (up to rounding), whatever the field contents. "
 "With arbitrary ghost contents each contribution sums to the difference of the boundary face fluxes only, so changing one interior value changes the sum only through faces on the boundary.",
 ["inputs", "configurations"], "all field contents (admissible gas states), meshes of one to three dimensions, all cell sizes",
 "No test evaluates a flux or a conservation sum.",
 ["src/solver/euler.cpp", "src/solver/maxwell.cpp", "src/solver/ssprk2_advection.cpp"], [("each face flux is computed identically for both adjacent cells", "src/solver/euler.cpp, src/solver/maxwell.cpp"), ("flux subtracted upstream and added downstream", "src/solver/ssprk2_advection.cpp advection_iterate")])

prop("C15", "Advection stages transport with the limited upwind flux in flow direction",
 "Stage 0 of the advection solver sets every interior cell to its old value plus, for every dimension, inflow minus outflow of the limited upwind flux |v|dt/dx*(v_c + phi/4*(v_p - v_n)) taken from the upstream side for either sign of the velocity, where v_n, v_c, v_p are the cells behind, at and ahead of the upstream cell and phi = r(r+1)/(r^2+1) with r = (v_c - v_n)/(v_p - v_c) (phi = 1 where v_p = v_c); stage 1 sets it to the average of the initial and the stage-0 state plus half that update evaluated on the stage-0 state. "
 "A zero velocity component transports nothing along its dimension, uniform fields stay uniform, and neither stage changes its inputs.",
 ["inputs", "configurations"], "all field contents, velocity vectors of any sign including zero, time steps, cell sizes, one to three dimensions",
 "No test runs the advection solver.",
 ["src/solver/ssprk2_advection.cpp"], [("upwind stencil selected by the sign of the velocity", "src/solver/ssprk2_advection.cpp advection_inout")])

prop("C16", "Lorentz force and current sources couple fluids and field exactly",
 "For each mesh cell the Lorentz solver adds charge/mass times (rho*E + p x B) to the momentum and charge/mass times p.E to the energy right-hand side and nothing to density; the current solver adds -(1/eps0) * sum over species of charge/mass times momentum to the electric right-hand side and nothing to the magnetic one. "
 "Species are paired with charges and masses in the given order. "
 "Ghost cells of the right-hand side, the inputs and all other variables are left unchanged, and with one species the work done on the fluid and the energy taken from the field balance.",
 ["inputs", "configurations"], "all fluid and field contents, charges, masses, permittivities, species counts, one to three dimensions",
 "No test runs a source solver.",
 ["src/solver/lorentz_force.cpp", "src/solver/current_source.h", "src/solver/current_source.cpp"], [("paired iteration over fluid and field interiors", "src/solver/lorentz_force.cpp low_order_solve_idx, src/solver/current_source.cpp fv_solve_idx")])

prop("C17", "Spatial solvers only add to their target and only look two cells away",
 "Euler, Maxwell, Lorentz and current solvers add their contribution to whatever the right-hand side already holds in each mesh cell, so repeated or combined application adds up in any order, and they never change their inputs or any other variable. "
 "The contribution to a cell depends only on that cell and, for the flux solvers, on the two cells on either side of it along each axis, and it does not depend on where in the mesh the cell lies nor on which axis is called x (exchanging axes together with vector components exchanges the result).",
 ["inputs", "histories", "configurations"], "all contents, cell positions, application orders and axis permutations, one to three dimensions",
 "No test runs a spatial solver.",
 ["src/solver/euler.cpp", "src/solver/maxwell.cpp", "src/solver/lorentz_force.cpp", "src/solver/current_source.cpp"], [("accumulating writes, five-cell stencil by stride", "src/solver/euler.cpp, src/solver/maxwell.cpp")])

prop("C18", "Initial conditions set every mesh cell from its own position",
 "Each initial condition (shock tube, radial shock tube, Brio-Wu, GEM, Gaussian, magnetic pulse, plane electromagnetic wave) overwrites the complete mesh content of its output variables as a function of the cell centre and the configured parameters only, independent of previous contents and of the number of mesh dimensions (missing coordinates count as zero). "
 "Shock tubes are piecewise constant with the configured density, pressure and field jumps (a cell centred exactly on a jump is in one of the two states with all its components); the plane wave has E = c B x k with components along its direction uniform; Brio-Wu and GEM give both species the same number density, and all gas states have the configured pressure.",
 ["inputs", "configurations"], "all parameters, meshes of one to three dimensions, cells on either side of every interface",
 "No test runs an initial condition.",
 ["src/solver/shock_tube.cpp", "src/solver/radial_shock_tube.cpp", "src/solver/brio_wu_shock_tube.cpp", "src/solver/gem_challenge.cpp", "src/solver/gaussian.cpp", "src/solver/magnetic_pulse.cpp", "src/solver/electromagnetic_wave_1D.cpp"],
 [("per-cell evaluation at the cell centre", "src/solver/*.cpp solve")])

prop("C19", "Grid cells tile the domain: spacings add up, centres lie mid-cell",
 "On a rectilinear grid (indexed from zero) every dimension has equal spacing width/cells and cell i is centred at start + (i + 1/2) spacing, whether asked per dimension or for a whole cell, and ghost indices extrapolate this. "
 "On a structured grid, before and after any sequence of symmetric or linear biasing, spacings are positive and add up to the width, centres ascend and lie half a spacing from their cell's edges, symmetric biasing is mirror-symmetric, the spacings are those of the dimension's last biasing alone (linear with exponent p: edges at width (i/n)^(1/p) from the far end; symmetric: so in each half, from its outer end), and biasing one dimension leaves the others alone. Copies of a grid are independent: biasing one never shows in another. "
 "Start and width are reported as given.",
 ["inputs", "histories"], "all starts, widths, cell counts, biasing exponents >= 1 and biasing histories",
 "No test touches a grid.",
 ["src/grid/grid.cpp", "src/grid/rectilinear.cpp", "src/grid/structured.cpp"], [("spacing from width and length", "src/grid/rectilinear.cpp"), ("centres accumulated from spacings", "src/grid/structured.cpp recalculate_xcs")])

prop("C20", "VTK output states the grid and every interior value in VTK order",
 "A written file is a legacy ASCII structured-points data set whose dimensions are the cell counts plus one (one for missing dimensions), whose origin is the lower corner of the grid and whose spacing is the cell size, followed by the number of cells and, for each requested variable in order and each of its components in order, one scalar field, named variable.component, with the values of all interior cells, the first mesh dimension varying fastest. "
 "Values read back equal the stored ones to at least 15 significant digits, ghost cells never appear, and writing changes no variable.",
 ["inputs", "histories", "configurations"], "all grids of one to three dimensions, variables, component counts and finite values",
 "No test writes a file.",
 ["src/variable/variable_manager.cpp", "src/variable/variable.cpp", "src/data/datachunk.cpp", "src/grid/rectilinear.cpp"],
 [("header from grid", "src/grid/rectilinear.cpp write_vtk"), ("nested loops with stride arithmetic", "src/data/datachunk.cpp write_VTK")])

prop("C21", "Threaded loops are race-free: results do not depend on the schedule",
 "When built with OpenMP, every parallel loop of the solvers gives each result the value of the sequential computation (to rounding) whatever the number of threads and their interleaving: within a parallel loop no storage location written by one iteration is read or written by an iteration another thread may run at the same time, except by atomic updates.",
 ["schedules", "configurations"], "all thread counts and interleavings of the parallel loops of the advection, Euler, Maxwell and Runge-Kutta solvers",
 "The tests build without OpenMP and run no solver.",
 ["src/solver/ssprk2_advection.cpp", "src/solver/euler.cpp", "src/solver/maxwell.cpp", "src/solver/ssprk3.cpp", "src/lib/parallelization.h"],
 [("private scratch arrays, one writer per cell", "omp pragmas in src/solver")])

prop("C22", "Misuse is rejected with a message and leaves all data unchanged",
 "Calling a solver with the wrong number of input or output variables, copying or swapping between mismatched volumes, filling or copying outside an array, asking a grid for a dimension or cell outside it (range-checked build), biasing an odd cell count symmetrically, pairing unequal numbers of charges and masses, writing variables of different or unsupported bases or variables that do not exist, or reading a variable that does not exist raises the library's exception. "
 "The exception carries a readable non-empty message that survives copying and assignment, the contents of all variables and grids are as before the call, and a rejected solver call creates no variable.",
 ["inputs", "histories"], "all public calls with misuse detectable by the library, at any point of a history",
 "The tests provoke no error at all.",
 ["src/lib/exception.h", "src/solver", "src/lib/indexer_interface.h", "src/data/functions.h", "src/variable/variable_manager.cpp", "src/grid"],
 [("checks before effects", "solve() prologues, src/lib/indexer_interface.h"), ("message stream", "src/lib/exception.h")])

prop("C23", "The shipped simulations advance by complete, correctly ordered time steps",
 "In every shipped example each time step runs, per stage, boundary conditions for every evolved variable and every dimension on the stage's input, a reset of every right-hand side, all flux and source terms exactly once from that stage's input states, and then that stage of each integrator; after the last stage the new state of every evolved variable replaces the old one. "
 "No solver ever reads a variable that is uninitialised, has stale ghost cells or belongs to another stage, and time advances by one step per swap.",
 ["histories"], "the whole call history of each example, every step and stage",
 "No test runs an example.",
 ["src/example"], [("solver wiring and step loops", "src/example/*/*.cpp")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
