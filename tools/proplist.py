TODO = "check under construction"
TECH_V = "value-flow abstract interpretation of the source into hash-consed value graphs, compared by normal form"

prop("G01", "Every shape's signed distance, dimension and box describe the documented solid",
     "For every parameter and every query point, the value a disk, ball, rectangle, cube, torus, cylinder or prism returns equals the closed-form signed function of that solid (negative inside, zero on its surface, positive outside). Each shape reports its true spatial dimension and a bounding box that encloses the whole solid.",
     ["inputs"], "all shape parameters and all query points, batches of any order",
     "Tests evaluate a few shapes through whole meshes with fixed parameters; a wrong axis, radius or face sign at other parameters or points is never evaluated.",
     [SD, FG], [("shape classes and _d* helpers", SD), ("box kernels", FG)],
     technique=TECH_V + " against closed forms",
     note="Decides the value for all real parameters and points in exact arithmetic; floating-point rounding is not modelled. Box kernels are taken as their reference value here (K01 decides them).")

prop("G02", "Union, intersection, difference and repetition obey set algebra",
     "For every list of two or more domains and every point, a union is negative exactly where some operand is, an intersection exactly where all are, and a difference exactly where the first is negative and every other is positive; with a positive smoothness the value is the documented quadratic blend of the operands in order. The reported box encloses what the operation can contain, the corners of all operands are kept, operands of different dimensions are rejected, and a repeated domain is the periodic copy of its cell cut by the given box.",
     ["inputs"], "all operand lists (2 or more), smoothness values and points, 2D and 3D",
     "Tests mesh a handful of two-operand combinations; three or more operands, smoothing of differences and operand order are not sampled.",
     [SD], [("Union/Intersection/Difference/Repeat", SD)],
     technique=TECH_V + " (min/max lattice normal forms over uninterpreted operands)",
     note="Operands are uninterpreted functions, so the result holds for every domain; shown for 2 and 3 operands in 2D and 3D.")

prop("G03", "Stretch, rotation and translation move a shape, its box and nothing else",
     "For every shape and every combination of stretch vector, rotation angles and translation, the transformed shape has at the image of a point the value the plain shape has at the point. Its bounding box contains the image of the plain shape's bounding box.",
     ["inputs", "configurations"], "all shapes, transform parameters and their combinations, all points",
     "Tests apply one rotation or one stretch with fixed numbers; wrong order or transposed matrices cancel for the sampled symmetric inputs.",
     [SD], [("_manipulate and _configure_manipulations", SD)],
     technique=TECH_V + " modulo trigonometric identities",
     note="Every single transform and representative combinations per shape; a few box bounds remain undecided by normal form and are listed in the evidence.")

prop("K01", "Compiled kernels return the documented formula for every row of their input",
     "For every input, each compiled geometry kernel returns for every row the documented quantity: the signed distance of every point to a rectangle or block, the same for every vertex of every cell in cell order, the circumcentre and squared circumradius of every cell, the six dihedral angles of every tetrahedron (one per edge, each a number in [0, pi] even for degenerate cells), the 3x3 and 4x4 determinants, the gradients of volume and squared circumradius used to move slivers, and each undirected edge of an edge list exactly once. No row is skipped, mixed up with another or left unwritten.",
     ["inputs"], "all arrays of any length and any coordinates",
     "Tests call the kernels on one or two small meshes; a wrong term or index that cancels for those coordinates passes.",
     [FG, DC[0]], [("kernels and their numpy wrappers", FG), ("circumballs", DC[0])], technique='abstract interpretation of the C++ sources over the clang syntax tree: concrete array sizes, symbolic contents, traces partitioned by the comparisons they make; value graphs of every returned cell compared with the formula by normal form and by random interpretation over a prime field',
     note='Decided for 0, 1 and 3 rows (2 for the gradients) with symbolic contents: loop bodies do not depend on the number of rows. Exact arithmetic; degenerate cells of the dihedral angles are interpreted in doubles. Constructions of CGAL are taken by their specification.')

prop("K02", "Compiled kernels never read or write outside the arrays they are given",
     "For every input array, including empty arrays, arrays of the wrong size and indices out of range of the point table, the compiled extensions either raise an error or access memory only inside the buffers they were given or allocated, whatever the memory layout of the array. The returned arrays own memory of exactly the advertised shape, every element of it written.",
     ["inputs"], "all array sizes, shapes, layouts and contents",
     "Out-of-bounds accesses usually go unnoticed at run time, and tests only pass well-formed arrays.",
     [FG, CU, HJ] + DC, [("pybind11 wrappers and kernels", FG), ("where_to2/3", CU), ("limgrad", HJ), ("triangulation handles", DC[1])], technique='abstract interpretation of the C++ sources over the clang syntax tree: concrete array sizes, symbolic contents, traces partitioned by the comparisons they make; bounds, initialisation and lifetime obligation at every access; layout fixed by the parameter type',
     note='Bounded: array sizes around every size the kernels divide by, index tables with every boundary value (-1, last, one past, far away). Duplicate entries in the lists of remove and move are not covered (a vertex removed twice is misuse of the handle).')

prop("K03", "The gradient limiter only lowers sizes and bounds growth between neighbours",
     "For every field of positive sizes and every grid shape, the gradient limiter never raises a size, lowers a size only to that of another grid point plus the allowed growth (spacing times grade) for each step between them, and leaves a field that already obeys the grade as it is. It treats as neighbours exactly the grid points adjacent along each of the three axes, and given enough iterations it stops only when no size exceeds a neighbour's by more than the allowed growth (up to its relative tolerance); zero iterations change nothing.",
     ["inputs"], "all 2D/3D grids, sizes, spacings and grades",
     "One test limits one 2D field; 3D neighbour arithmetic, boundaries and other axes are never checked.",
     [HJ], [("limgrad", HJ)], technique='abstract interpretation of the C++ sources over the clang syntax tree: concrete array sizes, symbolic contents, traces partitioned by the comparisons they make (linear inequalities over the sizes, Fourier-Motzkin elimination settles comparisons)',
     note='Bounded: one small size at every point of grids up to 3x4x2 (larger in the thorough tier), every field on grids of two and three points; sizes, spacing and grade symbolic. Assertions are compiled out as in the build.')

prop("K04", "The triangulation objects keep vertex numbers, rows and cells in step",
     "For every sequence of calls on the incremental 2D and 3D triangulation objects: inserted points are numbered in the order given, starting at the number of vertices already there; get_finite_vertices returns the coordinates of every finite vertex once and renumbers the vertices so that row i is vertex i; get_finite_cells lists every finite cell once, in the orientation the triangulation has, with those numbers; the counts are those of the finite vertices and cells; remove and move act on exactly the vertices named by their rows, each with its own new position; get_edges lists each edge of the selected cells (those marked 1, in cell order) exactly once. The one-shot 2D and 3D triangulations return rows that index the points given.",
     ["histories", "inputs"], "all sequences of operations and all internal orders of vertices and cells",
     "Tests insert, move and remove points of one mesh in the order CGAL happens to keep; a mismatch only shows once the internal order differs from the insertion order.",
     DC, [("DelaunayTriangulation bindings", DC[1]), ("DelaunayTriangulation3 bindings", DC[2]), ("_delaunay2/_delaunay3", DC[0])], technique='abstract interpretation of the C++ sources over the clang syntax tree: concrete array sizes, symbolic contents, traces partitioned by the comparisons they make; the triangulation is a stand-in with vertex and cell orders of its own, against which the events and tables of the bindings are checked',
     note='CGAL itself is trusted: the stand-in accepts any order and any neighbourhood. Bounded: triangulations of up to a few cells with and without infinite neighbours, every selection of cells.')

prop("K05", "The export table lists exactly the points a neighbouring rank needs",
     "For every point and cell table and every pair of neighbouring boxes (below, above), where_to2 and where_to3 return a table whose first row holds the number of points for the box below and for the box above, followed by the rows for the box below and then those for the box above, each with the point's own coordinates and index, in increasing index order, and rows of -1 for the rest. A point is listed at most once; it is listed if and only if one of its non-degenerate cells, with a bounding box overlapping that of one of the two boxes, has a circumscribed ball meeting one of the boxes, and then for a box that such a ball meets.",
     ["inputs"], "all meshes, all boxes and all outcomes of the geometric tests",
     "Tests export the points of one mesh cut in two; a wrong box, a skipped cell or a shifted row shows only for particular positions of the cells.",
     [CU], [("where_to2, where_to3", CU)], technique='abstract interpretation of the C++ sources over the clang syntax tree: concrete array sizes, symbolic contents, traces partitioned by the comparisons they make; every outcome of the geometric predicates is a trace, whose table is compared with the decision the predicates require',
     note='Bounded: tables of none, one and two cells, all outcomes of overlap, degeneracy and intersection tests; predicates of CGAL are uninterpreted. The bounding-box filter in front of the ball test is part of the statement.')

prop("M01", "Cells always index the vertex array they are returned with",
     "For every input, whenever a function of the library returns or stores a vertex array together with a cell array (after triangulating, adding or deleting ghosts, removing cells, deleting or merging vertices, aggregating ranks), every index in the cell array refers to the row of that vertex array holding the vertex the cell was built on.",
     ["inputs", "histories"], "all meshes and all sequences of clean-up operations",
     "Tests count vertices and sum areas for a few meshes; a permuted or stale index array only shows for meshes with unused or duplicate vertices.",
     [MG, SU, MI], [("fix_mesh", SU), ("aggregate", MI), ("generate_mesh", MG)], technique=TECH_V + " against a reference model of the mesher; an interpretation of both value graphs in sample worlds only suppresses differences of form" + "; typestate of the triangulation handle; pairing of vertex and cell contents at every indexing",
     note='Interpreted graphs: a differing graph is a violation only if a returned cell means no cell of the argument. The compiled triangulation is a stand-in that numbers its vertices in an order of its own.')

prop("M02", "Cleaning a mesh leaves no duplicate, unused or inverted entity",
     "For every vertex and cell array, cleaning a mesh merges vertices that coincide up to the relative tolerance, removes repeated cells, reverses exactly the cells whose signed volume is negative by exchanging two of their vertices, and on request drops exactly the vertices no cell uses. Cells are otherwise unchanged and vertex coordinates are never altered.",
     ["inputs"], "all vertex arrays, connectivity tables, dimensions and flag combinations",
     "Tests use one mesh per dimension without duplicates in most positions.",
     [SU], [("fix_mesh, unique_rows, simp_vol", SU)], technique=TECH_V + " against a reference model, with an interpretation of both value terms on sampled inputs only to suppress differences of form",
     note='Exact for the value term the source denotes; a form that differs from the reference without a differing value is left undecided. Tolerance arithmetic is taken literally. Facet winding: only the sign of the volume is decided.')

prop("M03", "Every exit of the mesh generator returns a cleaned mesh inside the domain",
     "Whatever the options, the mesh returned to the user on the root process has passed the removal of cells whose centroid lies outside the domain and, after that, the final clean-up that drops unused vertices and orients cells; nothing modifies it afterwards. The mesh optimizer for slivers likewise returns a cleaned mesh on both of its exits.",
     ["inputs", "configurations"], "all option combinations, dimensions and exits",
     "Only a few option combinations are run; a wrong exit shows only for inputs that leave stray cells there.",
     [MG], [("exits of generate_mesh and sliver_removal", MG)], technique=TECH_V + " against a reference model of the mesher; an interpretation of both value graphs in sample worlds only suppresses differences of form",
     note='A differing graph is a violation only if the returned value denotes an unclean mesh in a sample world.')

prop("M04", "The triangulation handle always holds the points the mesher is working with",
     "At every use of the incremental triangulation (insertion of a rank's ghosts, sliver moves, reading of vertices and cells), the handle has been filled with exactly the current points: the serial mesher starts a new handle each iteration, the sliver remover moves exactly the vertices whose position changed since the handle was last read, with matching indices and coordinates. Vertices and cells are read from the same handle with no modification in between.",
     ["histories", "inputs"], "all iteration histories",
     "Tests only look at the final mesh; a stale handle gives plausible meshes.",
     [MG] + DC[1:], [("insert/move/get_finite_* sequence", MG)], technique="typestate analysis of the triangulation handle over the event trace of the abstract interpretation; " + TECH_V + " against a reference model of the mesher; an interpretation of both value graphs in sample worlds only suppresses differences of form",
     note='Objects created in one round and used in the next are outside the abstraction (left undecided).')

prop("M05", "Fixed points stay fixed",
     "For every set of fixed points given by the user (or taken from the corners of the domain that lie on its boundary) in a serial run, the points are part of the point set the generator starts from (unless the user supplies that set), no iteration applies a force to the vertices nearest to them, and the final smoothing does not move them.",
     ["inputs", "histories"], "all fixed points and iteration counts",
     "Tests use one or two fixed points with generous tolerances.",
     [MG, SU], [("pfix handling", MG), ("laplacian2_fixed_point", SU)], technique=TECH_V + " against a reference model of the mesher; an interpretation of both value graphs in sample worlds only suppresses differences of form",
     note='Serial runs, points given or generated, corners of geometry objects; levels of subdomains are left out because they may move fixed points by design.')

prop("M06", "Laplacian smoothing keeps connectivity, boundary vertices and fixed points",
     "For every 2D mesh, both Laplacian smoothers return the connectivity they were given, every boundary vertex and every requested fixed point keeps its coordinates, and every other vertex is moved to the average of the vertices it shares a cell edge with (repeatedly, or as the solution of that system). They refuse 3D meshes.",
     ["inputs"], "all 2D meshes and fixed points",
     "Tests smooth one mesh and look at mean quality.",
     [SU], [("laplacian2, laplacian2_fixed_point", SU)], technique=TECH_V + " against a reference model, with an interpretation of both value terms on sampled inputs only to suppress differences of form",
     note='The linear solver (pyamg) is taken as an uninterpreted solution operator on the assembled system; the smoothed positions themselves are compared for the averaging smoother.')

prop("M07", "Clean-up deletes only poor boundary cells or overlapping cells",
     "For every mesh, deleting poor boundary cells removes exactly the cells that touch the boundary and whose quality is below the threshold; the linter additionally removes, for every pair of overlapping cells, the one of lower quality. All other cells survive (up to the vertex renumbering of the clean-up).",
     ["inputs"], "all meshes and thresholds",
     "Tests use one mesh where several wrong selections give the same result.",
     [SU], [("delete_boundary_entities, linter, do_any_overlap", SU)], technique=TECH_V + " against a reference model, with an interpretation of both value terms on sampled inputs only to suppress differences of form",
     note="The overlap predicate for whole meshes uses the repository's own membership test, decided by M09.")

prop("M08", "Edge, facet, boundary and adjacency tables are complete",
     "For every connectivity table, the edge table lists every edge of every cell, the facet table every facet, the boundary tables exactly the edges (2D) or facets (3D) that belong to one cell, the boundary vertices and boundary cells exactly those touching them, and the vertex-to-cell table lists for every vertex exactly the cells that use it.",
     ["inputs"], "all 2D and 3D connectivity tables",
     "Tests check counts on one or two meshes; a repeated or missing column pair keeps many counts.",
     [SU, MG], [("get_edges, get_facets, get_boundary_*, vertex_to_entities", SU), ("_get_edges", MG)], technique=TECH_V + " against a reference model, with an interpretation of both value terms on sampled inputs only to suppress differences of form",
     note='Includes the edge table the mesher builds for its forces.')

prop("M09", "Geometric measures of cells are the documented formulas",
     "For every mesh, the signed volume, centroid, triangle quality and radius-to-edge ratio of a cell are the documented formulas of that cell's own vertices; the membership test accepts exactly the points inside the cell; and the sliver detector selects exactly the cells with a dihedral angle outside the requested bounds (on either side).",
     ["inputs"], "all meshes, points and bounds",
     "Tests compare sums over a mesh; sign or index errors on particular cells cancel.",
     [SU, MG], [("simp_vol, simp_qual, calc_re_ratios, vertex_in_entity", SU), ("_calc_dihedral_angles", MG)], technique=TECH_V + " against a reference model, with an interpretation of both value terms on sampled inputs only to suppress differences of form",
     note='Exact real arithmetic; the compiled dihedral and circumball kernels are taken at their documented value (K01).')

prop("P01", "Point-to-point communication pairs up on every rank and cannot deadlock",
     "For every number of ranks (two or more) and every distribution of points that leaves no rank without points, including neighbours with nothing to exchange, every message one rank sends is received by exactly the rank it is addressed to, with the same tag and in the same order, and every receive has a matching send. The pairing holds even if sends block until they are received. What a rank sends to the rank below or above it is exactly the set of its points selected for that rank, in their order.",
     ["schedules", "configurations", "inputs"], "all rank counts, all point distributions, all MPI buffering choices",
     "Tests run with 2 ranks and points everywhere, and small messages are buffered by MPI so blocking sends never block.",
     [MI, MG], [("exchange, localize_points, localize_sizing_function, aggregate", MI)], technique="matching of the communication events of the ranks\x27 abstract programs (guarded event traces per rank, rendezvous semantics, every feasible combination of branch conditions); value-graph comparison of the payloads",
     note='The ranks are concrete (2 to 4), the data are not: conditions on data that differ from rank to rank are taken independently, up to three rounds of the main loop (two rounds reach every pair of consecutive rounds).')

prop("P02", "Every rank takes part in the same collectives in the same order",
     "For every rank count and input, all ranks execute the same sequence of collective operations with the same root and compatible operands, in the mesh generator, the sizing function and the plotting helper; no rank returns or leaves a loop while the others wait, and a wrong option of the mesh generator or an option the sizing function does not know raises on every rank. Every variable a rank returns or uses is defined on that rank.",
     ["schedules", "configurations", "inputs"], "all rank counts, options and inputs",
     "Tests run the parallel path with one configuration and two ranks.",
     [MG, MI, SZ], [("bcast/allreduce/Reduce sites", MG)], technique="matching of the collective operations of the ranks\x27 abstract programs under every feasible combination of branch conditions; definite-assignment analysis per rank; raise events compared across ranks",
     note='Ranks 2 to 4 concrete. Broadcast values are the same on every rank, values derived from a rank\\x27s own data are independent.')

prop("P03", "Ghost vertices are removed exactly at the end of every parallel iteration",
     "In every parallel iteration, the vertices inserted are exactly the points received from the neighbours, the vertices deleted at its end are exactly those received from the neighbours in that iteration (none when nothing was received), and the rank's own vertices, updated, continue in the same order.",
     ["histories", "schedules", "inputs"], "all iterations, rank counts and numbers of received vertices",
     "Tests compare final counts in one configuration with ghosts on both sides.",
     [MG, MI, SU], [("_add_ghost_vertices and deletion", MG)], technique=TECH_V + " per rank against a reference model of the parallel loop; an interpretation of both value graphs in sample worlds only suppresses differences of form",
     note='Received points are uninterpreted and differ from round to round; ranks 2 to 4.')

prop("P04", "Decomposition gives each point to exactly one rank and describes it truly",
     "For every point set, rank count and axis such that no block is empty, each point belongs to exactly one block, and is the start of the rank of that number; the extents published for a rank are the lower corner followed by the upper corner of its own points, widened along the decomposition axis only; and the neighbour search is given, below and above, the extents of the previous and the next rank, with boxes that catch nothing beyond the first and last rank. The local size function of a rank is the global one sampled on the rank's part of the box.",
     ["inputs", "configurations"], "all point sets, rank counts, axes and dimensions",
     "Tests use two or four ranks and one axis.",
     [BL, MG, MI, SU], [("blocker", BL), ("_form_extents", MG), ("enqueue", MI)], technique=TECH_V + " per rank against a reference model, with broadcast and received values replaced by what their senders send",
     note='Corners handed to the neighbour search are compared coordinate by coordinate; ranks 2 to 4, blocks 1 to 5.')

prop("P05", "Aggregation concatenates the ranks' meshes with shifted connectivity",
     "For every rank count, the mesh gathered on the root is the concatenation in rank order of every rank's vertices and cells, where the cells of a rank are shifted by the total number of vertices of the ranks before it; no other rank returns a mesh.",
     ["inputs", "configurations"], "all rank counts and local mesh sizes",
     "With two ranks the offset of the second rank is right for several wrong formulas.",
     [MI], [("aggregate", MI)], technique=TECH_V + " per rank against a reference model, with received values replaced by what their senders send",
     note='Ranks 2 to 4.')

prop("P06", "Only the root process reads or writes files and prints progress for all",
     "On every rank count, velocity models are read, output files written, figures saved and the size field built by the root process alone; other ranks return without touching the file system.",
     ["configurations", "inputs"], "all rank counts and options",
     "Tests run in serial for I/O.",
     [SZ], [("comm.rank == 0 guards", SZ)], technique="effect analysis of every path under a symbolic non-root rank (abstract interpretation with path facts)",
     note='File, figure and limiter calls are recognised by the names of the libraries used for them.')

prop("S01", "Mesh sizes respect the requested minimum and maximum",
     "For every velocity model and every combination of sizing strategies, the size field handed to the later stages is the smaller of the requested strategies' sizes at each grid point (the minimum edge length when none is requested), raised to the minimum edge length and capped at the maximum edge length, in that order and before the time-step and gradation limits.",
     ["inputs", "configurations"], "all velocity models and option values",
     "Tests use one model where the caps hardly act.",
     [SZ], [("get_sizing_function_from_segy", SZ)], technique=TECH_V + " (clamp as lattice normal form per grid point)",
     note='Decided per grid point on small symbolic grids (all values symbolic) in 2D and 3D, through the public entry only; the moving average of scipy is uninterpreted. Exact real arithmetic.')

prop("S02", "The time-step limit yields exactly the sizes that bound the Courant number",
     "For every velocity, size, time step, Courant bound and polynomial order, a size is changed only where the Courant number of the simulation would exceed the bound, is then set to the size at which it equals the bound, and therefore never decreases; the limit is inactive exactly when the time step or the bound is zero, and negative parameters are rejected.",
     ["inputs"], "all positive velocities, sizes and parameters, 2D and 3D",
     "Tests use one time step at order one.",
     [SZ], [("_enforce_courant_sizing", SZ)], technique=TECH_V + " (max normal form, sign-aware comparison canonicalisation)",
     note='Exact real arithmetic; positive velocities and parameters are the stated assumption.')

prop("S03", "Wavelength and gradient sizing follow the documented rules",
     "For every velocity model, wavelength sizing is velocity divided by frequency times cells per wavelength, and gradient sizing is inversely proportional to the normalised local variance of velocity, finite everywhere (also for a uniform model) and largest where velocity is smooth; an inactive strategy never determines the result, and negative parameters are rejected.",
     ["inputs"], "all velocity models and parameters",
     "Tests use one smooth model.",
     [SZ], [("_wavelength_sizing, _gradient_sizing", SZ)], technique=TECH_V + " over an uninterpreted moving average",
     note='The moving average of scipy is uninterpreted; its window and both of its arguments are compared.')

prop("S04", "Size lookup, domain padding and bounding box stay consistent",
     "For every model, the size grid is looked up at coordinates that span exactly the reported bounding box in axis order (z, x, y); domain padding lowers the top of the first axis and widens both ends of the others by the pad width, pads sizes and velocities by the same number of grid points on the same sides, and leaves box and grid unchanged when no pad is requested.",
     ["inputs", "configurations"], "all models, boxes, pads and styles in 2D and 3D",
     "Tests use symmetric domains in which swapped axes or sides go unnoticed.",
     [SZ], [("_build_domain_pad, _get_vectors, _build_sizing_function", SZ)], technique=TECH_V + " of box, coordinate vectors and padded grid",
     note='Symbolic boxes for vectors and bounding box; padded contents on concrete spacings with symbolic values (1, 2 and 4 points on the axes).')

prop("S05", "Velocity models are read, converted and written with the right layout and units",
     "For every file and every layout option, a binary model is read with the requested type, byte order and sort order, reshaped to the axis sizes in file order, transposed to (z, x, y) and flipped so that the first axis points up; SEG-Y traces become columns. Units are converted to m/s by the documented factors exactly once, water cells get the water velocity after conversion, and the written file holds the model with the true shape and unit.",
     ["inputs", "configurations"], "all files, axis orders, byte orders and units",
     "Tests read two files with default axis order.",
     [SZ], [("_read_bin, _read_segy, write_velocity_model", SZ)], technique=TECH_V + " over a file of distinct symbolic values",
     note='All axis orders and sort orders on a 2x3x4 file of distinct symbols; numpy and segyio readers are modelled.')

prop("U01", "Caller-supplied data is never modified",
     "No public function of the library writes into an array, list, dictionary or shape supplied by the caller (points, cells, fixed points, velocity data, centres, rotate/stretch/translate vectors, bounding boxes, lists of domains), nor does any of them change a default argument, a class attribute or a module-level default that later calls see.",
     ["inputs", "histories"], "all public functions and arguments",
     "Tests rarely look at their inputs after a call, and aliasing shows only on the second call.",
     ALLPY, [("public functions", MG)], technique='static analysis: alias and effect analysis (ownership tags on heap cells, gated by path conditions, through views, no-copy conversions and merges) over the abstract interpretation of every public function',
     note="Objects supplied by callers are the library's own classes, arrays, lists, tuples and dictionaries; what user callbacks do is theirs. A new attribute on a caller's object and tables that start empty are not counted here.")

prop("U02", "Wrong calls are rejected and documented calls are accepted",
     "Every option name that generate_mesh, sliver_removal or get_sizing_function_from_segy does not know is rejected, on every rank and whatever its value, by an error that names it. Before anything is triangulated, generate_mesh and sliver_removal reject a non-positive minimum edge length or iteration budget, a negative or unknown verbosity, a domain that is neither a shape nor callable, sizes that are neither a size function, a callable nor a scalar, and a bounding box that is missing for a domain given as a function, is not a tuple or holds integers; sliver_removal rejects points in the plane. A size function rejects a box that is no tuple and sizes that are not callable. Building sizes from velocities (serially) rejects negative wl, freq, grad, grade, dt, cr_max and domain_pad, a space_order below 1, a box of neither 4 nor 6 numbers, an unknown pad style, and a velocity of water outside 1300 to 1800 when there is water. Shapes reject stretch vectors and translations of the wrong length, set operations over domains of different dimension, and a torus or cylinder without positive radii or height; the parallel point blocker rejects an axis or dimension it does not support. Conversely the documented options and values are accepted.",
     ["inputs", "configurations"], "all option names and values, in serial and on each rank",
     "Tests try one or two wrong options; an unknown name that is skipped, or a value rejected only after the work or only on one rank, is not sampled.",
     [MG, SZ, BL, SU, SD], [("_parse_kwargs and validations", MG), ("sizing options", SZ), ("shape constructors", SD)], technique='path-sensitive abstract interpretation of each call: guards on every path to a return or to the first triangulation, for option names and values that are kept symbolic',
     note='Names: every identifier-like word the sources mention and fresh names (any name that is not an option behaves like a fresh one unless the source spells it). Values: symbolic over the rejected region. What rank 0 broadcasts is opaque to the other ranks, so numeric values are decided on rank 0.')

prop("U03", "Documented options take effect and have their documented defaults",
     "For every option, the value given by the user (or the documented default when absent) is the one that reaches the step the documentation names: tolerances, time step, seed, axis, iteration budget, dihedral bounds, point rejection, smoothing and linting switches, subdomains and verbosity; dimension-dependent steps use the routine of the right dimension.",
     ["configurations", "inputs"], "all options and values, 2D and 3D",
     "Tests run few options one at a time and only look at coarse results.",
     [MG, SZ], [("option handling", MG)], technique=TECH_V + " against a reference model of the mesher; an interpretation of both value graphs in sample worlds only suppresses differences of form",
     note='One combination of switches per graph; documented defaults are part of the reference.')

prop("U04", "A silent run prints nothing",
     "With verbosity zero, mesh generation, sliver removal and the clean-up routines they call (deletion of boundary cells, overlap test, linting, manifold test) print nothing, on any path that returns; with verbosity one they print nothing during an iteration that is followed by another one (only start and end messages); with a larger value the root process prints progress in every such iteration.",
     ["configurations", "inputs"], "all paths of the mesher with each verbosity",
     "Tests do not look at output.",
     [MG, SU], [("print guards", MG)], technique='static analysis: effect analysis by abstract interpretation - the number of messages is a cell of the abstract state, its value graph and its change per loop iteration are decided for each verbosity',
     note='Messages are print calls, writes to the standard streams and loggers made by the Python sources; messages of errors that end the call do not count.')

prop("U05", "Meshing is deterministic for a given seed",
     "Two calls with the same arguments give the same mesh, whatever was called before or between: every random draw that influences it comes, on every path, after the generator has been seeded in the same call with the seed option (or its default), and neither the clock, the process environment nor anything an earlier call of the library left behind (of the mesh generator, the sliver remover, the shapes, the sizing functions or the mesh utilities, in either dimension) influences the results of any of these functions.",
     ["histories", "inputs"], "all call sequences and seeds",
     "Tests fix the seed and run once.",
     [MG, SD, SZ, SU], [("np.random.seed before draw", MG)], technique='static analysis: source-to-result dependence analysis (every outside value in the result value graph is a draw dominated by a seeding in the same call) and non-interference: the value graph after other calls equals the one in a fresh state',
     note='Earlier calls are other calls of the library with other arguments, including ones that differ in a single argument; user callbacks are taken to be functions of their arguments.')

prop("U06", "The mesher stops after exactly the requested number of iterations",
     "For every positive iteration budget, mesh generation triangulates exactly that many times (rounded up when fractional) and then returns; sliver removal triangulates at most that often and returns earlier only when no sliver is left. No loop can miss its stopping test.",
     ["inputs", "histories"], "all budgets",
     "Tests use budgets at which an off-by-one is invisible.",
     [MG], [("count and max_iter tests", MG)], technique=TECH_V + " against a reference model of the mesher; an interpretation of both value graphs in sample worlds only suppresses differences of form",
     note='Rounds are the point sets triangulated; the sliver remover may stop early only without slivers.')

prop("X01", "Generated meshes satisfy quality bounds",
     "Meshes produced by the generator have a minimum cell quality above a useful threshold, and sliver removal ends with every dihedral angle within the requested bounds.",
     ["inputs"], "all domains and sizing functions",
     "Quality depends on the whole optimisation run.", [MG], [("force iteration", MG)],
     na="Convergence of a numerical optimisation: the quality of the final mesh is a runtime quantity that no sound static argument bounds.")
prop("X02", "Meshes approximate the domain's volume and boundary",
     "The total volume of the cells approaches the volume of the domain and boundary vertices lie on its boundary to the stated tolerance.",
     ["inputs"], "all domains", "Depends on convergence.", [MG], [("Newton projection", MG)],
     na="Depends on convergence of a bounded number of Newton steps on user-supplied functions.")
prop("X03", "Cells of the triangulation satisfy the empty-circumsphere property",
     "Before cells outside the domain are removed, no vertex lies inside the circumsphere of a cell.",
     ["inputs"], "all point sets", "Numerical.", DC, [("CGAL", DC[1])],
     na="Guaranteed by CGAL's exact predicates, which are outside the repository; nothing in the repository's source decides it.")
prop("X04", "Cell sizes follow the sizing function",
     "Edge lengths of the final mesh follow the requested size at their midpoint.",
     ["inputs"], "all sizing functions", "Depends on convergence.", [MG], [("forces", MG)],
     na="Conformity to the size field is an outcome of the force iteration, a runtime quantity.")
prop("X05", "Parallel and serial runs produce equivalent meshes",
     "A parallel run covers the same domain with a mesh of the same quality as a serial run.",
     ["schedules", "inputs"], "all rank counts", "Only two ranks run.", [MG, MI], [("parallel Delaunay", MG)],
     na="Relates two whole numerical runs; the structural obligations behind it are claimed as P01-P05 instead.")
prop("X06", "The smoothing solver converges",
     "The algebraic multigrid solve returns the solution of the smoothing system to its tolerance.",
     ["inputs"], "all meshes", "Numerical.", [SU], [("pyamg", SU)],
     na="Convergence of an external iterative solver cannot be decided from this source.")
