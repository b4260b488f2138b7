#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json (regenerates both)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state, observe, level_note, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, level_note=level_note, technique=technique))

G = "src/cpu/grid.cc"
prop("C01", "Generated grids place every node, ghost nodes included, at its cell centre",
 "For every bounding box, cell count, padding width and dimension, generating a grid yields node (i,j,k) at box_min + (index + 1/2)*cell_size along each axis of the grid, for interior nodes and for all ghost nodes, with cell_size = box extent / cell count and inverse cell size its reciprocal. Coordinates along axes the grid lacks are zero; the reported dimension, axis mask, cell counts, padding, total interior cell count and storage size agree with what was requested, and regenerating (with another box or another padding) gives exactly what a fresh grid would give.",
 ["inputs", "histories"], "all boxes, anisotropic cell counts >=1, paddings 0..5, dimensions 1-3, and sequences of re-padding/re-generation",
 "The unit tests look at one cubic box, equal cell counts and mainly padding 1; positions with wider ghost layers, anisotropic boxes and regeneration histories are an infinite family.",
 [G, "include/gals/utilities/grid.h"], [("node placement", "Grid::generate"), ("padding", "Grid::setPadding")],
 ["node coordinates", "cell size", "padding"], ["Grid::operator()", "Grid::x", "Grid::dX", "Grid::oneOverDX", "Grid::totalCells", "Grid::size"],
 "generated (dimension, box, cells, padding, regeneration history); oracle: closed-form node positions in long double")
prop("C02", "Index mapping is a bijection from padded nodes onto storage",
 "For every grid, the mapping from a padded node triple to its storage slot is one-to-one and onto [0, storage size), so no two nodes ever share a slot and no slot is unreachable. Indices along axes the grid does not have (including the 'unused' marker returned by cell lookup) never influence the slot, and every accessor of grids and fields (triple, node-id, flat) reaches the same element.",
 ["inputs", "histories"], "all grids (dimension, anisotropic counts, padding 0..5, regenerated) and all padded node triples of each",
 "Tests check the slot of a handful of nodes of one 10x10x10 grid with padding 1; collisions show only for particular aspect ratios and paddings.",
 [G, "src/cpu/array.cc"], [("3D->1D map", "Grid::index"), ("accessors", "Array::operator()/[]")], ["slot of each node"],
 ["Grid::index", "Grid::operator()", "Array::operator()"],
 "exhaustive enumeration of the padded nodes of each generated grid; oracle: injectivity + coverage + accessor agreement")
prop("C03", "Cell lookup returns the node cell that encloses a position",
 "For every grid and every position, the base node returned by cell lookup satisfies node(base) <= x < node(base+1) along each axis of the grid (up to floating-point rounding at the node itself), for positions between interior nodes, in the ghost layers on either side, and with negative indices. The returned id can be used directly to address the grid and any field on it.",
 ["inputs"], "all grids and all positions in the padded hull and around it, including positions next to nodes and in ghost layers",
 "Tests probe a few interior points of one symmetric box; truncation-versus-floor, offset and anisotropy errors appear only for negative indices, shifted boxes or other paddings.",
 [G], [("cell lookup", "Grid::baseNodeId")], ["box minimum", "inverse cell size"], ["Grid::baseNodeId", "Grid::operator()(node id)"],
 "generated grids x positions (incl. near-node and ghost positions); oracle: enclosing-cell predicate in long double")
prop("C04", "Fields behave as independent node-indexed stores over any operation history",
 "A field created on a grid starts with every slot (ghosts included) at the element type's zero value, and after any sequence of writes through any accessor, reads, assignments and copies, each read returns the last value written to that node of that field. Assigning one field to another copies every slot including ghosts, and afterwards neither field is affected by writes to the other.",
 ["histories", "inputs"], "all operation sequences over several fields of every element type on 1-3D grids",
 "Unit tests perform a single write/assign on a 1D grid; lost ghosts, aliasing after assignment or cross-slot writes need longer histories and other shapes.",
 ["src/cpu/array.cc", "include/gals/utilities/array.h"], [("storage", "Array::m_data"), ("assignment", "Array::operator=")], ["slot values"], ["Array::operator()", "Array::operator[]", "Array::data"],
 "stateful model-based sequences against a std::map model, full-content comparison after every mutating step")
prop("C05", "Small vectors and matrices obey their algebra for all component values",
 "For all component values, 3-vectors, N-vectors and 3x3 matrices follow component-wise construction, access, subtraction, scaling, vector product/quotient, minimum (the smallest component, ties included), Euclidean magnitude, row-major matrix addressing, and matrix-vector contraction over the row index (result_i = sum_j M(j,i) v_j, the form the gradient update needs). Equality means every component agrees (exactly for integers, within 1e-10 for reals) and is false as soon as any single component differs by more; operands are never modified, and text output lists the components in order.",
 ["inputs"], "all component values incl. ties, signs, magnitudes 1e-12..1e12, single-component differences at every position",
 "Tests use one or two fixed vectors; ties, individual component positions and mixed signs are where such code breaks.",
 ["src/cpu/vec3.cc", "src/cpu/mat3.cc", "src/cpu/vec_n.cc", "include/gals/utilities/utilities.h"],
 [("vector algebra", "Vec3"), ("matrix algebra", "Mat3"), ("tolerant equality", "is_equal")], [], ["Vec3/VecN/Mat3 operators"],
 "generated operands; oracle: long double / exact integer arithmetic")
prop("C06", "Second-order gradient is the central difference along each axis",
 "On every grid with at least one ghost layer and for every nodal field, the second-order gradient at each interior cell is (next - previous)/(2*cell size) along each axis, using ghost values at the borders, hence exact for quadratics. For a vector field, row r column c of the result is the derivative of component r along axis c. Input fields and ghost cells of the output are left untouched.",
 ["inputs"], "all dimensions, anisotropic boxes/counts, paddings, arbitrary nodal scalar and vector data",
 "Tests use isotropic grids and fields whose mistakes cancel (e.g. diagonal vector gradients); a wrong axis, spacing or component shows only for generic data on anisotropic grids.",
 ["src/cpu/gradient/second-order-central.cc", "src/cpu/gradient.cc"], [("stencil", "SecondOrderCentral::compute")], ["nodal data incl. ghosts"], ["Gradient<...,SecondOrderCentral>::compute output"],
 "arbitrary nodal data on generated anisotropic grids; oracle: independent long double stencil + exactness on quadratics")
prop("C07", "Third-order gradient is the biased cubic-exact difference along each axis",
 "On every grid with at least two ghost layers and for every nodal field, the third-order gradient at each interior cell is (2 f[+1] + 3 f[0] - 6 f[-1] + f[-2])/(6*cell size) along each axis, hence exact for cubics. For a vector field, row r column c of the result is the derivative of component r along axis c. Input fields and ghost cells of the output are left untouched.",
 ["inputs"], "all dimensions, anisotropic boxes/counts, paddings >=2, arbitrary nodal scalar and vector data",
 "Tests use isotropic grids and a single quadratic-like field; coefficient, axis or spacing errors can vanish on those.",
 ["src/cpu/gradient/third-order.cc", "src/cpu/gradient.cc"], [("stencil", "ThirdOrder::compute")], ["nodal data incl. ghosts"], ["Gradient<...,ThirdOrder>::compute output"],
 "arbitrary nodal data on generated anisotropic grids; oracle: independent long double stencil + exactness on cubics")
prop("C08", "Linear interpolation blends the two enclosing nodes everywhere",
 "For every 1D grid, nodal field and set of points inside the padded domain, linear interpolation returns the straight-line blend of the two enclosing nodes: it reproduces affine fields exactly, returns nodal values at nodes, never leaves the range of the two neighbours, and stores each result at the index of its query point. The field and the query points are not modified.",
 ["inputs"], "all 1D grids, nodal data, and query arrays on the same or a different grid, including points in ghost cells",
 "The test measures one average error on one symmetric setup; errors local to ghost cells, offsets or specific indices do not move it.",
 ["src/cpu/interpolation/linear-1d.cc", "src/cpu/interpolate.cc"], [("blend", "Linear::linearInterpolation")], ["nodal data"], ["Interpolate<...,Linear>::compute"],
 "generated grids/data/points; oracle: long double blend, bounds and affine exactness")
prop("C09", "Hermite interpolation equals the tensor-product cubic Hermite interpolant",
 "In 1, 2 and 3 dimensions, for arbitrary nodal values, first derivatives and mixed derivatives, interpolating at any point of the padded domain returns the value and the gradient of the tensor-product cubic Hermite polynomial of the enclosing cell; gradient components along axes the grid lacks are zero. In 3D the mixed derivatives are ordered xy, yz, zx, xyz.",
 ["inputs"], "all grids, arbitrary (non-smooth) nodal data per corner, all points incl. ghost-layer cells",
 "Tests compare average errors of one smooth radially symmetric field, which cannot tell apart a wrong corner, axis or mixed-derivative slot that is symmetric or tiny for that field.",
 ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc", "include/gals/cpu/interpolation/hermite.h"],
 [("Bernstein control net", "Hermite::interpolate")], ["previous-step value, gradient, mixed derivatives"], ["interpolated value and gradient"],
 "arbitrary nodal data; oracle: independently written classical Hermite basis in long double")
prop("C10", "Hermite interpolant is smooth, symmetric and consistent with its nodal data",
 "The Hermite interpolant reproduces nodal values and gradients at nodes, reproduces every polynomial of degree at most three per axis, is continuous with continuous gradient across cell faces, returns a gradient that is the derivative of the returned value, is linear in the nodal data, and commutes with translating, scaling and permuting the axes of grid and data. Bulk interpolation over an array of points stores at each point's index exactly the single-point result and leaves the source data unchanged.",
 ["inputs"], "all dimensions, grids, polynomial and arbitrary data, pairs of related inputs, bulk query arrays",
 "These are relations between pairs of calls over all inputs; the tests only average errors over one field.",
 ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc", "src/cpu/interpolate.cc"],
 [("interpolant", "Hermite::interpolate"), ("bulk driver", "Hermite::compute")], ["previous-step fields", "interpolated fields"], ["interpolate()", "Interpolate::compute"],
 "metamorphic relations on generated inputs, no reference implementation involved")
prop("C11", "Gradient limiting keeps endpoints and follows the published limiter",
 "Without limiting, the four control values of a cell edge are the end values and the end values moved one third of a cell along their slopes. With limiting enabled the end values are kept exactly, linear data is unchanged, the inner control values follow the published three-case limiter (each case tested in order), and scaling the data scales the result. The limited interpolant takes nodal values at nodes and, along any cell edge of a 1D, 2D or 3D grid, equals the limited one-dimensional interpolant of that edge.",
 ["inputs"], "all end values/slopes/cell sizes incl. those hitting each limiter branch; all dimensions",
 "No test enables limiting at all; its branches depend on sign patterns of five differences.",
 ["include/gals/cpu/interpolation/hermite.h", "src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc"],
 [("limiter", "get_control_points")], [], ["control points", "interpolate(..., use_gradient_limiting=true)"],
 "generated edge data steered into every branch; oracle: the published case list in long double with an explicit tie band; edge-restriction relation in 1-3D")
prop("C12", "Explicit Euler step subtracts dt times the velocity term, nothing else",
 "For every grid, field, velocity term and time step, the explicit Euler step sets each interior value to previous value minus dt times the first component of the velocity term at that cell. Ghost cells, previous values, gradients, mixed derivatives and the velocity are unchanged.",
 ["inputs", "histories"], "all dimensions, grids, data, time steps (zero, negative, large) and repeated steps",
 "The test applies one step to one constant setup; index mix-ups and touched ghosts stay invisible.",
 ["src/cpu/temporal-schemes/euler.cc", "src/cpu/temporal.cc"], [("update", "Euler::compute")], ["current/previous level set", "velocity term"], ["levelset current values"],
 "generated states and step sequences; oracle: closed form plus frame condition on all other state")
prop("C13", "Semi-Lagrangian step carries value and gradient along characteristics",
 "For every state whose characteristic feet x - dt*u lie in the padded domain, one semi-Lagrangian step sets the value at each interior cell to the Hermite interpolant of the previous state at the foot, and the gradient to (I - dt*grad u)^T applied to the interpolant's gradient there. Ghost cells of the result, the mixed derivatives, all previous-step fields and the velocity are unchanged.",
 ["inputs", "histories"], "all dimensions, anisotropic grids, arbitrary nodal data, velocities and non-symmetric velocity gradients, dt of either sign, repeated steps",
 "The unit tests only call the step on all-zero data and assert nothing, so any error passes.",
 ["src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/mat3.cc"], [("back-tracing", "SEMI_LAGRANGIAN::Euler::compute"), ("gradient update", "Mat3::dot")], ["previous fields", "velocity", "velocity gradient"], ["levelset value and gradient"],
 "feet generated first, velocities derived; oracle: independent tensor Hermite + matrix formula in long double; frame condition")
prop("C14", "Advection transports fields exactly where the scheme is exact",
 "With ghost values and mixed derivatives supplied exactly, transporting any polynomial of degree at most three per axis with a uniform velocity reproduces the translated polynomial and its gradient at every interior cell after any number of steps; zero velocity or zero time step leaves value and gradient as interpolated at the node. For an affine velocity field and an affine level set, value and gradient equal the exact pull-back along the traced characteristic.",
 ["inputs", "histories"], "all dimensions, polynomials, uniform/affine velocities, step counts, time steps with feet in the padded domain",
 "Whole-solver accuracy claims are over all fields, velocities and step sequences; no test runs an actual advection.",
 ["src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/interpolation", "src/cpu/gradient", "src/cpu/grid.cc"], [("advection step", "Temporal::compute")], ["level set state across steps"], ["value and gradient after each step"],
 "stateful multi-step runs; oracle: analytic solution")
prop("C15", "Circle initial condition is the signed distance at every cell",
 "For every grid, centre and radius, the circle level set sets each interior value to the Euclidean distance of that cell's position from the centre minus the radius (negative inside, zero on the circle, positive outside), reading the supplied positions and leaving ghosts, gradients and previous fields alone. A level-set name that is not defined leaves the field unchanged.",
 ["inputs"], "all dimensions, grids, centres, radii, position arrays, names",
 "The test only runs it on one configuration and asserts nothing about values.",
 ["src/cpu/analytical-fields/levelset.cc"], [("circle", "ANALYTICAL_FIELDS::Levelset::compute")], ["level set values"], ["levelset values"],
 "generated configurations; oracle: long double distance")
prop("C16", "Circular velocity field is a rigid rotation with its exact gradient",
 "In 2D and 3D, the circular velocity at each interior cell is a counter-clockwise rigid rotation about the configured centre at rate pi/3.15: u = w*(cy - y), v = w*(x - cx), no out-of-plane component, at every time. When the analytical gradient is requested the velocity gradient at every interior cell has d(u)/dy = -w, d(v)/dx = w and zeros elsewhere in the plane; otherwise the stored gradient is untouched, and an undefined velocity name changes nothing.",
 ["inputs"], "all grids, off-diagonal centres (cx != cy), times, gradient schemes, names",
 "The test uses a centre at the origin and never checks the gradient array.",
 ["src/cpu/analytical-fields/velocity.cc"], [("rotation", "ANALYTICAL_FIELDS::Velocity::compute")], ["velocity", "velocity gradient"], ["LevelsetVelocity fields"],
 "generated configurations; oracle: closed form; gradient also compared with a numerical derivative of the velocity")
prop("C17", "Input files are read back value for value, section by section",
 "For every valid configuration, parsing its text form yields exactly the written values in the matching fields, whatever the order of sections and keys, comments, flow or block style, number notation and quoting. Sections that are absent leave their fields as they were, and parsing several files in turn gives each section the values of the last file containing it.",
 ["inputs", "histories", "configurations"], "all generated configurations x textual renderings x parse histories",
 "The test parses a single file; swapped fields with equal values in that file (boxes and centres are symmetric there) go unnoticed.",
 ["src/cpu/input-parser.cc", "src/cpu/input-parser", "src/cpu/input-fields/input-fields.cc"], [("section parsers", "INPUT_PARSER::*::parse")], ["InputFields"], ["InputFields members"],
 "render-then-parse round trip over a YAML grammar; oracle: the generated configuration")
prop("C18", "Malformed input files are rejected with an error, never with corruption",
 "For every input file that lacks a required key, has a value of the wrong kind, fewer than three cell counts or a centre without exactly three components, or is not valid YAML, parsing raises a catchable error; it never crashes, reads out of bounds, terminates the process or loops. Files that parse are unaffected by unknown extra keys, and a rejected file does not affect how other files are read.",
 ["inputs", "fault_sequences"], "all single and multiple mutations (drop, retype, truncate, byte noise) of valid files",
 "Tests only ever parse one valid file.",
 ["src/cpu/input-parser.cc", "src/cpu/input-parser"], [("field extraction", "INPUT_PARSER::*::parse")], [], ["exception or success of InputParser::parse"],
 "mutational fuzzing of generated YAML under ASan in forked workers; oracle: throw-or-correct, process survives")
prop("C19", "Field text output lists every interior cell once with its position and value",
 "Writing a scalar or vector field produces exactly one line per interior cell, x index slowest and z index fastest, each holding the cell's three coordinates followed by the value's components separated by tabs, readable back to the printed precision. Writing to a file produces the same text, replacing previous content.",
 ["inputs", "histories"], "all dimensions, grids, element types and data; rewriting the same file",
 "The tests write a file and never look at its content.",
 ["include/gals/utilities/array.h", "include/gals/utilities/vec3.h", "src/cpu/file-utils.cc"], [("stream output", "operator<<(Array)"), ("file write", "FileUtils::write")], ["field values"], ["output text"],
 "generated fields written and re-parsed; oracle: cell order, position and value at printed precision")
prop("C20", "File utilities report and change exactly the paths they are given",
 "Over any history of creating directories (nested included), writing, checking and removing files and directories, each operation's result and the file system's state match a model: existence is reported truthfully, creating an existing directory succeeds, removal succeeds only if the target existed, and no other path is affected. The root directory set is the root directory returned.",
 ["histories", "inputs"], "all operation sequences over generated relative paths inside a scratch directory",
 "The test performs one create/write/remove cycle, and is not even built in this environment.",
 ["src/cpu/file-utils.cc"], [("path operations", "FileUtils")], ["directory tree"], ["return values and directory tree"],
 "stateful sequences in a scratch directory against an in-memory tree model (third-party path library replaced by a stand-in)")
prop("C21", "The advection program runs to completion and writes the right velocity field",
 "For every valid 2D input file whose characteristics stay in the padded domain, the advection program terminates successfully, performs no out-of-bounds access and writes, in the configured output directory (created if needed), one velocity line per cell with the cell's position and the configured rotation there. A missing argument or missing input file ends with a message and no output.",
 ["inputs", "configurations"], "all boxes, cell counts, centres, radii, time settings (fixed and dynamic step), output directories",
 "The program has no test and is not built by the test build.",
 ["applications/advection/main.cc", "src/cpu"], [("driver", "main")], ["configuration", "output directory"], ["exit status, stdout, velocity file"],
 "generated input files run through the real program (ASan) in scratch directories; oracle: closed form rotation")
prop("C22", "The production build gives the same results as the test build",
 "Compiled without the test switch, the library gives identical results for every valid call: no valid construction, parse, field evaluation, interpolation or time step terminates the process, prints an error, or changes a value. Only operations documented as unimplemented or wrong-sized inputs may end the program.",
 ["configurations", "inputs"], "all valid call sequences, built with and without the test define",
 "Unit tests are always compiled with the test switch, which changes error handling inside the library.",
 ["include/gals/utilities/utilities.h", "src/cpu/vec3.cc", "src/cpu/analytical-fields/velocity.cc"], [("error macros", "GALS_ABORT, GALS_FUNCTION_NOT_IMPLEMENTED")], [], ["bitwise output of both builds"],
 "differential: the same generated programs run against both builds, output traces compared byte for byte")
prop("C23", "Reference building blocks are mutually consistent",
 "In the reference solver (each committed copy of its headers), the Hermite value/gradient functions equal the tensor cubic Hermite interpolant for all corner data (the one-dimensional function its edge version), the velocity-gradient functions are the derivatives of the velocity functions and divergence free, the initial gradients and cross derivative are the derivatives of the initial level set, the velocity reverses about half its period and does not cross the unit box's walls, and the mixed-derivative update is exact for fields whose cross derivative is linear (full-grid and column-range versions and both header copies that have it agreeing on any data). Initial matrices hold these functions at the nodes, and the writer appends one block of comma separated rows per call. The reference and library 2D interpolants agree on identical data.",
 ["inputs"], "all points, times, periods, corner data, grid sizes",
 "No test touches the reference solver.",
 ["src/reference/Hermite.h", "src/reference/VortexVelocity.h", "src/reference/InitializeLevelSet.h", "src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode", "src/reference/OldSerialCode"], [("interpolant", "hp/hermx/hermy"), ("velocity", "Velx/Vely/grad*"), ("cross derivative", "update_mixed_derivatives")], [], ["function values"],
 "generated arguments; oracles: independent long double Hermite, high-order numerical differentiation, library differential")
prop("C24", "Reference time step transports value and gradient consistently",
 "For every grid, time, step size, period and scheme choice, one reference step sets the value at each node whose traced point lies strictly inside the domain to the interpolant there, and with the super-consistent scheme sets the gradient to the exact derivative of 'interpolant composed with back-tracing'; or, with Heun's scheme, to the two-stage update of the gradient equation. Tracing follows Euler or the three-stage RK3 rule at every node. Points traced outside are classified by which coordinate leaves and updated by the boundary rules (interpolation along the boundary, explicit first-order terms across it, gradient along the boundary by Heun); cell search returns the cell containing each traced point. Column-range versions do the same on their columns and touch no others.",
 ["inputs", "histories"], "all grids >= 3x3, domains, times, steps, periods, back-tracing and gradient schemes, arbitrary nodal data",
 "No test touches the reference solver; errors in rarely used scheme combinations are invisible in plots.",
 ["src/reference/TimeSteppingMethods.h", "src/reference/AdvectionPointCalcs.h", "src/reference/SerialCode"], [("back-tracing", "advection_point*"), ("cell search", "find_advection_point_location*"), ("update", "update_levelset_data*"), ("gradient schemes", "SuperConsistentScheme/Heuns_*")], ["node data"], ["updated node data"],
 "generated steps; oracles: dual-number differentiation of the composed map, enclosing-cell predicate")
prop("C25", "Serial, OpenMP, MPI and hybrid reference programs give the same answer",
 "For the same settings, those they ship with included, the serial, OpenMP, two-process MPI and hybrid reference programs write the same level set, gradients, cross derivative and velocity at every printed step, with no data race, for any number of threads, message timing and domain with an even number of x nodes (the documented restriction of the MPI programs), matching to the printed precision up to rounding.",
 ["schedules", "configurations", "inputs"], "all generated settings x thread counts x program variants",
 "Agreement must hold for every thread count, schedule and domain; nothing in the test suite runs any variant.",
 ["src/reference/GALS_Advection_OpenMP.cpp", "src/reference/GALS_Advection_MPI.cpp", "src/reference/GALS_Advection_MPI_OpenMP.cpp", "src/reference/SerialCode/GALS_Advection.cpp", "src/reference/AdvectionPointCalcs.h"], [("work sharing", "omp parallel regions"), ("data exchange", "MPI_Send/MPI_Recv pairs")], ["node data", "message buffers"], ["phi/psi/velocity text files"],
 "generated settings fed to all four programs (message layer and OpenMP runtime stand-ins, race detector, injected delays), outputs compared; N-version differential")
prop("C26", "Results never depend on unrelated history and no access leaves its field",
 "Over any interleaving of operations on several grids, fields, level sets and velocities of mixed dimensions - generation, evaluation, gradients, interpolation, both time steps, assignment, output, destruction - each operation's result depends only on its own inputs: repeating it in a fresh process gives bitwise identical results, no operation changes objects it was not given, and no memory outside the fields is accessed, nor any undefined arithmetic performed.",
 ["histories", "inputs"], "all generated interleavings of library operations on multiple live objects",
 "Hidden shared state, dangling references and out-of-bounds accesses depend on object lifetimes and shapes that single-purpose tests never combine.",
 ["src/cpu", "include/gals"], [("all library operations", "src/cpu")], ["all live objects"], ["object contents before/after each operation", "sanitizer reports"],
 "stateful sequences over a pool of objects; oracle: bitwise re-execution in isolation, frame condition by content hashes, ASan+UBSan")
prop("C27", "The CUDA reference program gives the serial program's answer",
 "For the same settings, those they ship with included (the super-consistent gradient scheme with RK3 tracing, the combination the CUDA program supports), the CUDA reference program writes the same level set, gradients, cross derivative and velocity as the serial program at every printed step, to the printed precision up to rounding, for any grid shape, domain, tile size (whether or not it divides the grid), time step and final time, and in whatever order the device runs its threads and blocks. Kernels touch only device memory and never outside the arrays given to them; the host reads results only after copying them back.",
 ["schedules", "configurations", "inputs"], "all generated settings x tile sizes x thread orders",
 "Nothing in the test suite builds or runs the CUDA program, and thread orders, ragged tiles and stale copies show only on particular shapes and schedules.",
 ["src/reference/CUDA/GALS_Advection.cu", "src/reference/CUDA"], [("kernels", "__global__ functions"), ("copies", "cudaMemcpy"), ("launch", "dimGrid/dimBlock")], ["device arrays", "host arrays"], ["phi/psi/velocity text files"],
 "generated settings fed to the CUDA program built over a host stand-in for the device (permuted thread orders, separated memories, ASan) and to the serial program; N-version differential")
prop("C28", "Threads working on separate objects never interfere",
 "Several threads may use the library at once, each on its own grids, fields, level sets and velocities, while all of them read one common grid, level set, velocity and field that nobody writes: there is no data race, and every thread gets bitwise the results it would get alone. This covers construction, grid generation, circle and rotation fields (defined and undefined names), gradients, interpolation, both time steps, assignment, copying and text output; reading input files and the file utilities are not included.",
 ["schedules", "histories", "inputs"], "all schedules of 2-4 threads over generated operation lists on objects of the same or different types",
 "Tests are single threaded; hidden shared scratch data is harmless in every sequential history and fails only under particular interleavings.",
 ["src/cpu", "include/gals", "src/cpu/analytical-fields"], [("all library operations", "src/cpu"), ("name tables", "levelset_name_map/velocity_name_map")], ["objects of each thread", "process-wide tables"], ["results of each thread", "race reports"],
 "generated operation lists run concurrently under ThreadSanitizer (happens-before, so independent of the schedule that happens to run); oracle: bitwise the results of the same lists run one after another")
prop("C29", "Library step and reference Euler step are the same map on the same data",
 "On the same nodes, nodal values, gradients and cross derivatives, with the reference solver's velocity and velocity gradient sampled into the library's velocity, one library semi-Lagrangian step and one reference step (Euler tracing, super-consistent gradients; full-grid or column-range functions of either header copy) give the same value and gradient, up to rounding, at every node whose traced point lies strictly inside the node range - for any domain, node counts, time, step, period and state, including states the reference solver evolved itself.",
 ["inputs", "histories"], "all generated domains, node counts, times, steps, periods and states, over one to four reference steps",
 "Nothing compares the two implementations of the method; each could drift on its own.",
 ["src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/interpolation/hermite-2d.cc", "src/reference/AdvectionPointCalcs.h", "src/reference/TimeSteppingMethods.h", "src/reference/SerialCode"], [("library step", "SEMI_LAGRANGIAN::Euler::compute"), ("reference step", "advection_point/find_advection_point_location/update_levelset_data")], ["node data"], ["updated node data of both implementations"],
 "differential between the two implementations over generated states; tolerance from the conditioning of the interpolant")
prop("C30", "Level sets and velocities keep their fields apart over any history",
 "A level set created on a grid has eight separate fields (value, gradient and mixed derivatives, current and previous, and interpolated value and gradient) and a velocity two (velocity and velocity gradient), all zero at first and sized for that grid. Over any history of writes to any field, assignments between fields of the same or other objects, copies and destruction of whole objects, and regeneration of grids, each field holds what was last stored in it; the const and non-const accessors of a field always refer to the same field of the same object, on the grid the object was created with.",
 ["histories", "inputs"], "all operation sequences over up to three level sets with velocities in 1, 2 and 3 dimensions",
 "Tests set and read a few fields of one object; aliasing between fields or objects needs particular sequences.",
 ["include/gals/cpu/levelset.h", "include/gals/cpu/levelset-velocity.h", "src/cpu/levelset.cc", "src/cpu/levelset-velocity.cc", "src/cpu/array.cc"], [("field accessors", "Levelset::phi ... psiInterpPrev, LevelsetVelocity::velocity/velocityGradient")], ["ten fields per object pair"], ["field contents through every accessor"],
 "stateful sequences against a model of every field, checked through const and non-const accessors after each operation")
prop("C31", "A run of the serial reference program is the run its settings describe",
 "For any settings (domain, node counts from 2 x 2 on, time step, final time, block interval, animation option, gradient and tracing scheme, period) the serial reference program takes as many whole steps as fit in the final time, each step being the documented sequence (trace, locate, update, cross derivatives, copy back) from the state of the step before at its own time, and ends normally. phi, psix, psiy, psixy and the two velocity files hold one block of ny rows of nx values for the initial state and one after every printstep-th step (with the animation switched off: the initial and the final state), each the state and velocity of that time to ten decimals; details.txt holds counts, spacings, limits, number of steps, time step and block interval in that order. Files left by an earlier run are replaced.",
 ["configurations", "inputs", "histories"], "all generated settings, first and repeated runs in one directory",
 "Nothing in the test suite builds or runs the program; step counts, block intervals and carried-over data go wrong only for particular settings.",
 ["src/reference/SerialCode/GALS_Advection.cpp", "src/reference/SerialCode/Allocation.h", "src/reference/SerialCode/Setting.h"], [("time loop", "main"), ("output", "fileprint, details")], ["master and temporary matrices", "output files"], ["phi/psi/velocity text files, details.txt"],
 "generated settings run through the real program; oracle: the documented step sequence composed in the harness, closed-form velocities, and the settings themselves")
prop("C32", "A simulation is unchanged by relabelling, mirroring or adding idle axes",
 "Several semi-Lagrangian steps with the library - previous state assigned from the current one, mixed derivatives from the library's central differences, velocity gradients given or from its central or third-order differences - give the same history of values and gradients, up to rounding, when the same problem is posed with the axes relabelled, mirrored (not with the one-sided third-order differences), shifted or scaled, with time rescaled, or in more dimensions with axes along which nothing varies (whose gradient stays zero). This holds for any grid, padding, data, velocities with feet inside the padded grid, positive or negative steps.",
 ["inputs", "histories"], "all generated simulations of one to eight steps and all combinations of the named changes of coordinates",
 "Each dimension has its own code (1D, 2D and 3D interpolation, axis by axis differences); tests compare none of them with each other.",
 ["src/cpu/interpolation/hermite-1d.cc", "src/cpu/interpolation/hermite-2d.cc", "src/cpu/interpolation/hermite-3d.cc", "src/cpu/temporal-schemes/semi-lagrangian/euler.cc", "src/cpu/gradient/second-order-central.cc", "src/cpu/gradient.cc", "src/cpu/grid.cc"], [("step", "SEMI_LAGRANGIAN::Euler::compute"), ("differences", "Gradient<..., SecondOrderCentral|ThirdOrder>::compute")], ["level set and velocity fields"], ["phi and psi after every step"],
 "metamorphic: the same generated simulation on two equivalent set-ups; tolerance measured by repeating one with rounding-size noise")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
with open(os.path.join(out, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], state=[dict(name=x, meaning=x, where=p["files"][0]) for x in p["state"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
CLAIMED = set(open(os.path.join(out, "tools", "claimed.txt")).read().split())
man = dict(version=1, setup_cmd="python3 /verif/run.py setup",
 checks=[dict(property=p["id"], quick_cmd=f"python3 /verif/run.py check {p['id']} quick",
              thorough_cmd=f"python3 /verif/run.py check {p['id']} thorough",
              technique="property-based testing (choice-sequence generator with shrinking, forked %s workers): " % ("TSan" if p["id"] == "C28" else "ASan") + p["level_note"],
              level="exploration", level_note=p["level_note"], evidence_file=f"evidence/{p['id']}.json") for p in P if p["id"] in CLAIMED],
 not_applicable=[dict(property=p["id"], reason="check under construction") for p in P if p["id"] not in CLAIMED],
 notes="All checks rebuild from /repo's working tree into a scratch directory; see DESIGN.md.")
with open(os.path.join(out, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1); f.write("\n")
