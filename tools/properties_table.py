# id, title, statement, over, quantifier text, why, files, mechanism
prop("C01", "Dense vector and matrix operations equal their entrywise definitions",
     "Every operation on the library's small dense vectors and matrices (construction, entry access, addition, subtraction, entrywise and scalar products and quotients, matrix products including those with a transposed factor, transposition, diagonal and identity matrices) yields exactly the entries that the mathematical definition of that operation prescribes. In-place forms change only the object they are applied to, and all other operands keep their values. Accessing an entry outside the dimensions aborts in debug mode.",
     ["inputs", "configurations"], "all entries, all positions, all listed shapes (square and rectangular), both float types, assertions on and off",
     "The tests touch a handful of entries of fixed small vectors; a wrong index for a rectangular shape or in one overload never shows there.",
     ["dense_la.hxx"], [("class template SmallMat and free operators", "include/HyperHDG/dense_la.hxx")])
prop("C02", "Dense division throws exactly when a divisor is zero",
     "Dividing a dense vector or matrix, entrywise or by a scalar, throws the documented exception if any divisor that is used equals zero (of either sign), and never throws otherwise; without an exception all quotients are the entrywise quotients.",
     ["inputs", "configurations"], "all bit patterns of the entries including signed zeros, infinities and NaN; every position and number of zero entries; assertions on and off",
     "Tests would need one run per position and bit pattern; none exists for the exception at all.",
     ["dense_la.hxx"], [("DivByZeroException in operator/ and operator/=", "include/HyperHDG/dense_la.hxx")])
prop("C03", "Scalar products and norms of dense objects are the mathematical ones",
     "The scalar product is the sum of products of corresponding entries and symmetric; the 2-norm is the non-negative root of the sum of squares; the 1-norm is the largest absolute column sum, the infinity-norm the largest absolute row sum, and the p-norm agrees with the vector p-norm.",
     ["inputs"], "all real entries in a box, all sign patterns, all positions of the maximum",
     "Which column or row attains the maximum, and with which signs, is a choice over all inputs that single examples do not vary.",
     ["dense_la.hxx"], [("scalar_product, norm_1, norm_2, norm_infty, norm_p", "include/HyperHDG/dense_la.hxx")])
prop("C04", "Dense objects are compared entrywise and strictly ordered",
     "Two dense objects compare equal exactly if all their entries do, inequality is the negation of equality, and the less-than relation is the lexicographic order of the entries; for entries that are not NaN it is a strict total order, so that dense points can be sorted and used as keys.",
     ["inputs"], "all bit patterns of floating point and integer entries (order laws: all that are not NaN) of up to four to six entries per operand, triples of operands for transitivity",
     "Order laws quantify over pairs and triples of arbitrary values including signed zeros and infinities.",
     ["dense_la.hxx"], [("operator==, operator!=, operator<", "include/HyperHDG/dense_la.hxx")])
prop("C05", "Dense linear solves return the solution or report singularity",
     "Dividing a right hand side (one or several columns) by a regular square matrix returns X with A X = B and leaves constant operands unchanged; for a singular matrix the documented exception is thrown and no result is returned.",
     ["inputs"], "all matrices with entries in a box and determinant bounded away from zero, all right hand sides, singular matrices with a vanishing row or column at any position",
     "Pivoting, storage order and leading dimensions depend on the values and shapes; tests exercise no solve.",
     ["dense_la.hxx", "wrapper/lapack.hxx"], [("operator/ for matrices", "include/HyperHDG/dense_la.hxx"), ("lapack_solve", "include/HyperHDG/wrapper/lapack.hxx")],
     "LAPACK ?gesv is replaced by its contract (exact solve, info on singularity).")
prop("C06", "QR decompositions and determinants of dense matrices are correct",
     "The QR decomposition of a matrix with at least as many rows as columns yields an orthogonal Q with determinant +1 and an upper triangular R with Q R equal to the input, with non-negative diagonal entries of R except possibly the first; the variants returning only Q, only R or both agree. The determinant of a square matrix is its determinant, and for a rectangular one its square is the determinant of the Gram matrix.",
     ["inputs"], "all matrices within the bounds, including those for which elimination steps are trivial (already triangular columns, axis aligned vectors)",
     "The failing inputs are measure-zero sets (an already reduced column) or need rectangular shapes; no test covers QR.",
     ["dense_la.hxx", "wrapper/lapack.hxx"], [("qr_decomp_q, qr_decomp_r, qr_decomp, determinant", "include/HyperHDG/dense_la.hxx"), ("lapack_qr_decomp*, lapack_det", "include/HyperHDG/wrapper/lapack.hxx")],
     "LAPACK ?geqr2 is replaced by its documented contract (any reflectors) and by a reference implementation.")
prop("C07", "Vector helpers and conjugate gradients deliver what they promise",
     "On coefficient vectors of any length the inner product, the norm and linear combinations (also when the result aliases an operand) are the mathematical ones and do not modify their other operands. The conjugate gradient method returns a vector whose residual is below the requested tolerance or throws, never applies the operator more often than the iteration limit allows, solves positive definite systems of n unknowns within n iterations, and leaves the right hand side unchanged.",
     ["inputs", "configurations"], "all vectors in a box up to length 5, symmetric positive definite systems, right hand sides including the zero vector, iteration limits and tolerances",
     "Early termination, iteration limits and aliasing are input dependent branches that one numerical example does not separate.",
     ["sparse_la.hxx"], [("inner_product, norm_2, linear_combination, conjugate_gradient", "include/HyperHDG/sparse_la.hxx")])
prop("C08", "Combinatorics of the unit hypercube",
     "The unit hypercube of any dimension has 2^d vertices and 2d faces. Decomposing a linear index into its tensorial digits yields digits smaller than the range that recompose to the index, lowest dimension first (an index that does not fit aborts in debug mode), and the tensorial point of an index has exactly the one-dimensional coordinates its digits select.",
     ["inputs", "configurations"], "every index and every range within the bounds, every dimension 0..4, symbolic one-dimensional coordinates, assertions on and off",
     "Index arithmetic errors appear for particular digit patterns in higher dimensions only; no test covers them.",
     ["hypercube.hxx"], [("Hypercube::index_decompose, tensorial_pt, n_faces, n_vertices", "include/HyperHDG/hypercube.hxx")])
prop("C09", "Degrees of freedom are numbered and transferred node by node without overlap",
     "For any number of hypernodes and degrees of freedom per hypernode every degree of freedom belongs to exactly one hypernode, numbers are consecutive and smaller than the total, and the number and the hypernode determine each other. Reading, adding to and setting the values of a hypernode in a global vector touches exactly the entries of that hypernode, in order, and nothing else; hypernode indices that do not exist and vectors of wrong length abort in debug mode.",
     ["inputs", "configurations"], "every node count and node index that the index type can represent, all vector contents, all positions, 0..5 dofs per node, assertions on and off",
     "The property is a bijection for all sizes; tests check single sizes at most.",
     ["hypernodefactory.hxx"], [("HyperNodeFactory", "include/HyperHDG/hypernodefactory.hxx")])
prop("C10", "Hyperedges share hypernodes exactly where their hyperfaces coincide",
     "In the hypergraph of a regular grid, at every refinement level, two hyperfaces have the same hypernode exactly if they are the same part of space; every hypernode belongs to some hyperedge, indices are smaller than the number of hypernodes, and the numbers of hyperedges and hypernodes are those of the grid. In a hypergraph read from a file unrefined hyperedges have exactly the hypernodes of the file, and after refinement hyperfaces share a hypernode exactly if they are the same part of the same original hypernode or of the interior of the same hyperedge. Results do not depend on earlier refinements or on copying, and hyperedges that do not exist are rejected in debug mode.",
     ["inputs", "histories", "configurations"], "all pairs of hyperedges and hyperfaces of all listed grids and refinement levels, arbitrary incidence in files, any sequence of two refinements, assertions on and off",
     "Two hyperedges disagreeing about one shared face for one orientation and refinement is invisible to examples; the stable test builds no topology.",
     ["topology/cubic.hxx", "topology/file.hxx", "wrapper/tpcc.hxx"], [("Topology::Cubic", "include/HyperHDG/topology/cubic.hxx"), ("Topology::File", "include/HyperHDG/topology/file.hxx"), ("tensor product cell complexes", "include/HyperHDG/wrapper/tpcc.hxx")],
     "The submodule TPCC is absent from the tree and replaced by a stand-in with its documented meaning.")
prop("C11", "Hypergraph files are read as written and broken files are rejected",
     "Reading a hypergraph (.geo) file yields exactly the numbers, points, hypernodes, types and vertices that the file contains, in the file's order, whatever the layout (comments, blank lines, further columns, missing final newline). In debug mode a file that is missing, lacks a keyword, announces other dimensions than requested, is truncated, or describes an inconsistent domain is rejected.",
     ["inputs", "configurations"], "all coordinates, indices and types within the bounds; 16 textual layouts; every single missing keyword, truncation, and kind of inconsistency; assertions on and off",
     "Readers fail on particular combinations of layout and content; the single test reads no file.",
     ["read_domain.hxx"], [("read_domain, read_domain_geo, DomainInfo", "include/HyperHDG/read_domain.hxx")],
     "Streams are an in-memory model during symbolic execution; native replays use real files.")
prop("C12", "A domain is accepted exactly if it is consistent",
     "The consistency check of a domain succeeds exactly if every hypernode and point index used by a hyperedge exists, no hyperedge lists a hypernode or point twice, no two hyperedges have the same hypernodes or points, and no two points coincide; with assertions enabled an inconsistent domain aborts instead.",
     ["inputs", "configurations"], "all index assignments and coordinates within the bounds, valid and invalid, assertions on and off",
     "Acceptance of every consistent and rejection of every inconsistent domain ranges over all index assignments.",
     ["read_domain.hxx"], [("DomainInfo::check_consistency, is_unique", "include/HyperHDG/read_domain.hxx")])
prop("C13", "Epsilon neighborhood graphs connect exactly the points closer than epsilon",
     "From a file with points and a radius the library constructs the hypergraph whose points are the given ones (coordinates unchanged), with exactly one hyperedge for each pair of points closer than the radius and none else, whose hypernodes, end points and hyperface types are the numbers of its two points. In debug mode files whose points are not connected or not unique, that contain no points, have another dimension, or lack a positive radius are rejected.",
     ["inputs", "configurations"], "all coordinates and radii in a box, any order of up to four points in one to three dimensions",
     "The graph is a function of all pairwise distances; digits lost on output change it for particular coordinates only.",
     ["epsilon_neighborhood_graph.hxx", "read_domain.hxx"], [("make_epsilon_neighborhood_graph", "include/HyperHDG/epsilon_neighborhood_graph.hxx"), ("read_domain", "include/HyperHDG/read_domain.hxx")],
     "Streams are an in-memory model with an arbitrary rounding error of the written precision; native replays use real files.")
prop("C14", "Affine mappings: points, measures and normals of a mapped hyperedge",
     "An affine mapping of the reference cube maps each point to matrix times point plus translation, and mapping back returns the point. Its functional determinant is the measure of the image and that of a hyperface is the measure of the image of that hyperface. Local normals are unit vectors orthogonal to their hyperface that point away from the hyperedge, inner normals of a hyperedge are unit normals of its hyperfaces within the hyperedge, outer normals are orthogonal to the hyperedge, and inner and outer normals together form a positively oriented orthonormal frame. Using a mapping does not change it, and normal indices that do not exist abort in debug mode.",
     ["inputs", "configurations"], "all translations, points and full rank matrices within the bounds for hyperedge dimensions 1..3 in space dimensions up to 3, every hyperface, assertions on and off",
     "Signs of normals and determinants depend on the matrix through QR; particular matrices flip them.",
     ["mapping/linear.hxx", "dense_la.hxx", "wrapper/lapack.hxx"], [("Mapping::Linear", "include/HyperHDG/mapping/linear.hxx")],
     "LAPACK routines are replaced by their documented contracts. inner_normal of hyperedges that are not orthogonal is a known finding.")
prop("C15", "Geometries place every hyperedge and describe its shape correctly",
     "For every hyperedge of the unit cube grid or of a domain file, at every refinement level, mapping reference points (also in place) yields the affine image spanned by the corners of that hyperedge, so that the refined parts tile the original hyperedge. Spanning vectors, areas of hyperedges and hyperfaces, barycenters of hyperfaces, local and outer normals, and the factors Q and R belong to that same image: areas are non-negative and those of the spanned parallelotopes, normals have unit length, are orthogonal to what they are normal to, and local ones point out of the hyperedge. Lexicographic points of a hyperedge or of one of its boundaries are the images of the tensorial points. The properties of a hyperedge are those of the file, and invalid indices and points abort in debug mode.",
     ["inputs", "histories", "configurations"], "all hyperedges of all listed grids, all points of files and full rank hyperedges within the bounds, all reference points, refinement histories, assertions on and off",
     "Errors appear for particular orientations, refinements and dimensions only; the stable test builds no geometry.",
     ["geometry/unit_cube.hxx", "geometry/file.hxx", "mapping/linear.hxx", "wrapper/tpcc.hxx"], [("Geometry::UnitCube", "include/HyperHDG/geometry/unit_cube.hxx"), ("Geometry::File", "include/HyperHDG/geometry/file.hxx")],
     "The submodule TPCC is replaced by a stand-in and LAPACK by its contract. inner_normal of hyperedges from files is a known finding.")
prop("C16", "Hyperfaces have the boundary types of the cube or file at every refinement",
     "On the unit cube the type of a hyperface encodes exactly the sides of the cube that contain it (for direction i the digit i of the number to base three: 1 for the lower side, 2 for the upper side, 0 otherwise); for a hypergraph from a file it is the type given in the file. Hyperfaces that arise by refinement inherit the type of the original hyperface they are part of, and have type zero inside of an original hyperedge. The result does not depend on how or in how many steps the refinement was reached nor on copying, and hyperedges that do not exist are rejected in debug mode.",
     ["inputs", "histories", "configurations"], "all hyperedges and hyperfaces of all listed grids, all types in files, any sequence of two refinements, copies, assertions on and off",
     "Dirichlet conditions are imposed at the wrong places if one side or refinement level is wrong; no test looks at the types.",
     ["node_descriptor/cubic.hxx", "node_descriptor/file.hxx", "topology/cubic.hxx", "wrapper/tpcc.hxx"], [("NodeDescriptor::Cubic", "include/HyperHDG/node_descriptor/cubic.hxx"), ("NodeDescriptor::File", "include/HyperHDG/node_descriptor/file.hxx")],
     "The submodule TPCC is replaced by a stand-in with its documented meaning.")
prop("C17", "A hypergraph is a consistent container of its hyperedges",
     "Iterating over a hypergraph (forwards, backwards, with prefix or postfix steps) visits every hyperedge exactly once, in order, with the topology, geometry, node description and data that belong to it; access by index returns the same. The data of a hyperedge start in their initial state, persist between accesses, and are shared with no other hyperedge or hypergraph. Refinement refines all parts consistently and yields one data object per new hyperedge, and the counts of hyperedges, hypernodes and degrees of freedom follow.",
     ["inputs", "histories"], "arbitrary incidence of hyperedges and hypernodes within the bounds, any sequence of two refinements, any written data",
     "Iterators, data and refinement interact over histories of calls; tests do not iterate over a hypergraph at all.",
     ["hdg_hypergraph.hxx", "hy_data_container.hxx", "hypernodefactory.hxx"], [("HDGHyperGraph", "include/HyperHDG/hdg_hypergraph.hxx"), ("HyDataContainer", "include/HyperHDG/hy_data_container.hxx")],
     "Topology, geometry and node descriptor are stand-ins with the documented interface.")
prop("C18", "The elliptic global operator is the assembly of the local operators",
     "Applying the condensed operator of an elliptic problem to a vector yields, at every degree of freedom of a hypernode, the sum over all hyperedges that contain the hypernode of their local contributions, computed from the values of their own hypernodes; the residual flux is the same sum of local residuals. Indices declared to be of Dirichlet type have zero entries in the result. Errors are summed once per hyperedge and postprocessed, the size of the system and the zero vector match the hypergraph also after refinement, the time is passed on, and the argument is not changed.",
     ["inputs", "configurations"], "arbitrary incidence of up to 3 hyperedges and 5 hypernodes (also hyperedges that contain a hypernode twice), symbolic local operators, vectors and times, Dirichlet indices, local solvers with different optional interfaces",
     "Assembly errors show for particular incidences and dof counts only; no test applies the operator.",
     ["global_loop/elliptic.hxx", "global_loop/prototype.hxx", "hypernodefactory.hxx"], [("GlobalLoop::Elliptic", "include/HyperHDG/global_loop/elliptic.hxx"), ("prototype_mat_vec_multiply, prototype_errors", "include/HyperHDG/global_loop/prototype.hxx")],
     "Topology, geometry, node descriptor and local solver are stand-ins with the documented interface.")
prop("C19", "The assembled sparse matrix is the matrix of the global operator",
     "The value, row and column lists that describe the matrix of the elliptic condensed operator have equal lengths and indices within the system, and multiplying the described matrix (repeated entries are added) with any vector yields the result of applying the operator to it, also when Dirichlet indices have been declared.",
     ["inputs", "configurations"], "arbitrary incidence within the bounds, symbolic local operators and vectors, up to two Dirichlet indices",
     "Equality of two code paths for every operator, incidence and vector.",
     ["global_loop/elliptic.hxx", "global_loop/prototype.hxx"], [("GlobalLoop::Elliptic::trace_to_flux_mat", "include/HyperHDG/global_loop/elliptic.hxx")],
     "Topology, geometry, node descriptor and local solver are stand-ins with the documented interface.")
prop("C20", "The parabolic global loop assembles operators and advances data in time",
     "In the time-dependent loop operator and residual are the sums of the local contributions at the given time; initial values at the requested time are placed at the degrees of freedom of every hyperedge; setting the data of a step hands each hyperedge its own values exactly once and the following residual uses the data stored for that hyperedge. Errors are accumulated from the initial error once per hyperedge, sizes follow refinement and arguments are not changed.",
     ["inputs", "histories"], "arbitrary incidence within the bounds, symbolic local operators, vectors and (non-integer) times, sequences of two time steps",
     "The loop carries state between calls; errors need a history of steps and non-integral times.",
     ["global_loop/parabolic.hxx", "global_loop/prototype.hxx", "hy_data_container.hxx"], [("GlobalLoop::Parabolic", "include/HyperHDG/global_loop/parabolic.hxx")],
     "Topology, geometry, node descriptor and local solver are stand-ins with the documented interface.")
prop("C21", "Eigenvalue global loops assemble operators, masses, Jacobians and Dirichlet sets",
     "In the eigenvalue loops (mass approximation, shifted inverse, nonlinear) the operator, the mass operator and the Jacobian at a given point of linearisation are the sums of the local contributions with the given shift or eigenvalue; initial values are those of the local solvers at the degrees of freedom of every hyperedge; the Dirichlet indices are exactly the degrees of freedom of hypernodes of Dirichlet type, sorted and without repetition, at every call and after every refinement; arguments are not changed.",
     ["inputs", "histories"], "arbitrary incidence and hyperface types within the bounds, symbolic local operators, vectors, shifts and eigenvalues, calls before and after refinements",
     "Index sets depend on shared hypernodes and the history of calls; no test covers the loops.",
     ["global_loop/mass_approx_eigenvalue.hxx", "global_loop/shifted_inverse_eigenvalue.hxx", "global_loop/nonlinear_eigenvalue.hxx", "global_loop/prototype.hxx"], [("GlobalLoop::MassEigenvalue, ShiftedEigenvalue, NonlinearEigenvalue", "include/HyperHDG/global_loop/nonlinear_eigenvalue.hxx")],
     "Topology, geometry, node descriptor and local solver are stand-ins with the documented interface.")
prop("C22", "Diffusion local solvers solve the local problem and return its flux",
     "For diffusion (with a coefficient that may vary, and in its uniform variant) applying the local solver to the trace of a hyperedge yields, for every hyperface and test function, the integral of the numerical flux q.n + tau (u - trace) of the solution (q, u) of the mixed local problem on the mapped hyperedge with that trace; the residual additionally contains source and boundary data, and Dirichlet faces get no flux and take the prescribed values in the residual and none otherwise. The trace is not modified and the output is overwritten whatever it contained. Errors are the squared L2 errors of the local solution against the reference, the mass flux is the one of the local solution as source, and the values for plotting are those of (q, u) at the requested points. The solver declares the sizes of its discretisation (degrees of freedom per hyperface, components of the solution), and the error contributions of the hyperedges are added and rooted to the L2 norm.",
     ["inputs", "configurations"], "all traces, all affine source, boundary and reference functions, all Dirichlet faces, several stabilisations and shapes of hyperedges, hyperedge dimensions 1..3, degrees 1 and 2, assertions on and off",
     "A wrong sign, index or weight in one term shows only for particular shapes, dimensions, boundary types or data; no test solves a local problem.",
     ["local_solver/diffusion_ldgh.hxx", "local_solver/diffusion_uniform_ldgh.hxx"], [("LocalSolver::Diffusion", "include/HyperHDG/local_solver/diffusion_ldgh.hxx"), ("LocalSolver::DiffusionUniform", "include/HyperHDG/local_solver/diffusion_uniform_ldgh.hxx")],
     "The submodule TPP (shape functions, quadrature) is a stand-in with its documented meaning and LAPACK solves by its contract. The oracle is an independent discretisation in a monomial basis.")
prop("C23", "Bilaplacian local solvers solve the local problem and return its fluxes",
     "For the bilaplacian (with varying coefficient, and uniform) the local solver yields for every hyperface both numerical fluxes of the solution of the mixed fourth order local problem on the mapped hyperedge with the given traces of the unknown and its Laplacian; residual_flux additionally contains source and boundary data and pairs fluxes and traces in the same way, so that the residual at zero data is the operator. Boundary types fix the trace of the unknown, of the Laplacian, or both; errors are squared L2 errors, added over hyperedges and rooted to the L2 norm, and plotted values those of the local solution. The declared sizes are those of the discretisation, and traces are not modified.",
     ["inputs", "configurations"], "all traces, all affine source, boundary and reference functions, boundary types of all kinds, several stabilisations and shapes, hyperedge dimensions 1..3, degrees 1 and 2, assertions on and off",
     "The solver couples two halves of every array; exchanging them in one place shows only with both kinds of data present.",
     ["local_solver/bilaplacian_ldgh.hxx", "local_solver/bilaplacian_uniform_ldgh.hxx"], [("LocalSolver::Bilaplacian", "include/HyperHDG/local_solver/bilaplacian_ldgh.hxx"), ("LocalSolver::BilaplacianUniform", "include/HyperHDG/local_solver/bilaplacian_uniform_ldgh.hxx")],
     "The submodule TPP is a stand-in with its documented meaning and LAPACK solves by its contract.")
prop("C24", "Plot options act as documented and plot files are valid and faithful",
     "Setting a plot option changes exactly that option, and the call (also without a value) returns its current value; unknown options, file types and empty names abort in debug mode. Plotting writes one well-formed VTU file with the configured directory, name and number, with one cell per plotted hyperedge and boundary, point coordinates those of the geometry at the scaled corners, consistent connectivity, offsets and types, and for every hyperedge the values of the local solver computed from the values of its own hypernodes at the given time, every point carrying all components. The file number advances after each plot exactly if requested, and the solution and all other options stay unchanged, also when plotting through the global loops.",
     ["inputs", "histories", "configurations"], "arbitrary incidence, geometry, trace values, times and scales within the bounds, hyperedge dimensions 1..3, every combination of options, sequences of plots",
     "Files are compared with nothing in the stable test; structure and values depend on dimensions, component counts and options.",
     ["plot.hxx", "hypercube.hxx"], [("plot, plot_vtu, set_plot_option, PlotOptions", "include/HyperHDG/plot.hxx"), ("plot_solution, plot_option", "include/HyperHDG/global_loop/elliptic.hxx")],
     "Values on boundaries and the number of subintervals are known findings. Streams and directories are an in-memory model during symbolic execution; native replays use real files.")
prop("C25", "Eigenvalue local solvers are consistent linearisations of the local problem",
     "For the eigenvalue variants of diffusion and bilaplacian the flux at a given eigenvalue is the numerical flux of the local solution of the shifted problem; the Jacobian at a point of linearisation (trace and eigenvalue) is the derivative of that flux in the direction of the given trace and eigenvalue; initial traces are the face projections of the initial functions with zero at Dirichlet faces; errors (added and rooted to the L2 norm) and plotted values are those of the local solution. The declared sizes are those of the discretisation, and no input is modified.",
     ["inputs", "configurations"], "all traces, linearisation traces and eigenvalue directions, affine initial and reference functions, boundary types, several stabilisations and shapes, hyperedge dimensions 1..3, degrees 1 and 2, assertions on and off",
     "Newton's method converges to the wrong pair or not at all if a term of the derivative is missing; no test evaluates it.",
     ["local_solver/diffusion_eigs_ldgh.hxx", "local_solver/bilaplacian_eigs_ldgh.hxx"], [("LocalSolver::DiffusionEigs", "include/HyperHDG/local_solver/diffusion_eigs_ldgh.hxx"), ("LocalSolver::BilaplacianEigs", "include/HyperHDG/local_solver/bilaplacian_eigs_ldgh.hxx")],
     "The submodule TPP is a stand-in with its documented meaning and LAPACK solves by its contract. Coefficients that depend on time are outside (the solver uses the eigenvalue as time).")
prop("C26", "Time stepping local solvers perform the steps of the theta scheme",
     "For the parabolic variants of diffusion (theta scheme) and bilaplacian (implicit Euler) the flux of a step is the numerical flux of the local solution of the time step problem, the residual contains source, boundary data and the data of the previous step, make_initial stores the projected initial value and returns its face projections (zero at Dirichlet faces), and set_data stores the local solution of the step, so that sequences of steps are those of the scheme. Errors (added and rooted to the L2 norm) and plotted values are those of the current local solution; the declared sizes are those of the discretisation and traces are not modified.",
     ["inputs", "histories", "configurations"], "all traces of two consecutive steps, all affine source, boundary, initial and reference functions, boundary types, several thetas, stabilisations and shapes, hyperedge dimensions 1..3, degrees 1 and 2, assertions on and off",
     "Errors show only after a step with stored data, with theta between 0 and 1, or at particular faces; no test performs a time step.",
     ["local_solver/diffusion_parab_ldgh.hxx", "local_solver/bilaplacian_parab_ldgh.hxx"], [("LocalSolver::DiffusionParab", "include/HyperHDG/local_solver/diffusion_parab_ldgh.hxx"), ("LocalSolver::BilaplacianParab", "include/HyperHDG/local_solver/bilaplacian_parab_ldgh.hxx")],
     "The submodule TPP is a stand-in with its documented meaning and LAPACK solves by its contract. The bilaplacian is checked for theta = 1 only.")
prop("C27", "The Timoshenko beam solver returns the forces and moments of the local beam",
     "For a beam of a network in space the local solver computes displacement, rotation, force and moment of the Timoshenko beam with the given traces at its ends, whatever the direction and orientation of the beam, and returns at each end the numerical fluxes (force and moment in global coordinates, with the stabilisation); the residual additionally contains loads, boundary data and material data, and Dirichlet ends take the prescribed values and get no flux. Errors are the squared L2 errors against the reference, added and rooted to the L2 norm, the declared sizes are those of the discretisation, the default data form a solvable consistent problem, and traces are not modified.",
     ["inputs", "configurations"], "all traces, all affine loads, boundary and reference functions, all choices of Dirichlet ends, beams in several directions with both orientations, with and without material data, several stabilisations, degrees 1 and 2, assertions on and off",
     "Coupling between the local and the global frame shows only for beams in general position with all components present; no test solves a beam.",
     ["local_solver/timoshenko_network.hxx"], [("LocalSolver::TimoshenkoBeam", "include/HyperHDG/local_solver/timoshenko_network.hxx")],
     "The submodule TPP is a stand-in with its documented meaning and LAPACK solves by its contract. Beams in 3D only (the only implemented case).")
prop("C28", "Advection-reaction, interior penalty and postprocessing solvers are correct",
     "The diffusion-advection-reaction solver, the interior penalty solver and the postprocessing solver return for every trace the numerical fluxes of the solution of their local problem on the mapped hyperedge, with all coefficients evaluated at the given point and time; residuals contain source and boundary data, Dirichlet faces get no flux and take the prescribed values in the residual only. Errors are the squared L2 errors of the local solution (of the postprocessed solution of higher degree, for the postprocessing solver), added over hyperedges and rooted to the L2 norm, plotted values are those of the local solution, the declared sizes are those of the discretisation, and traces are not modified.",
     ["inputs", "configurations"], "all traces, all affine source, boundary and reference functions, Dirichlet faces, several stabilisations and shapes, coefficients that vary in space and time, hyperedge dimensions 1..3, degrees 1 and 2, assertions on and off",
     "Wrong coefficients, times or signs in one term show only for particular data; no test runs these solvers.",
     ["local_solver/diffusion_advection_reaction_ldg.hxx", "local_solver/diffusion_ip.hxx", "local_solver/diffusion_ldgh_pp.hxx"], [("LocalSolver::DiffusionAdvectionReaction", "include/HyperHDG/local_solver/diffusion_advection_reaction_ldg.hxx"), ("LocalSolver::DiffusionIP", "include/HyperHDG/local_solver/diffusion_ip.hxx"), ("LocalSolver::DiffusionPostprocess", "include/HyperHDG/local_solver/diffusion_ldgh_pp.hxx")],
     "The submodule TPP is a stand-in with its documented meaning and LAPACK solves by its contract.")
prop("C29", "Just-in-time imports deliver the module of the configuration and the sources",
     "Importing a problem from Python (HyperHDG.include) returns the wrapper class of exactly the configured problem: the C++ class, the data types, the own code, the included files and the debug mode of the given configuration, independently of which other problems were imported before, in the same or in an earlier process. The module is never older than any file it is made of (headers included directly or indirectly by components, user files and own code, templates, the import code, the CMake options, the Python header), whatever was changed since and whichever compilation step failed in between; nothing is compiled if nothing has changed. If cython, the compiler or the linker fails, the import fails, and it fails only then. Inconsistent configurations, unknown components and other Python versions are rejected, and the configuration object is not changed.",
     ["inputs", "histories", "crash_points", "configurations"], "every set of files changed between imports, every sequence of configurations, processes and failing tools within the bounds, every include relation among three (four) headers including cycles, all components of the real include tree, with and without -O",
     "A stale or wrong module depends on the history of edits, failures and imports; the only Python test performs one import and needs the submodules.",
     ["import/HyperHDG/import_cxx/include.py", "import/HyperHDG/import_cxx/compile_prep.py", "import/HyperHDG/import_cxx/names.py", "import/HyperHDG/import_cxx/cpp.py", "import/HyperHDG/import_cxx/config.py"], [("include", "import/HyperHDG/import_cxx/include.py"), ("need_compile, own_code", "import/HyperHDG/import_cxx/compile_prep.py"), ("files", "import/HyperHDG/import_cxx/names.py"), ("find_definition", "import/HyperHDG/import_cxx/cpp.py")],
     "cython, compiler and linker are stand-ins that record what they read; modification times are symbolic. Headers included by other forms than <HyperHDG/...> and those of the submodules are not tracked by design.", py=True)
prop("C30", "Python wrappers pass every call on to the C++ object unchanged",
     "An object of an imported wrapper class holds exactly one C++ object, constructed from the given arguments (topology; topology and local solver; topology and geometry, with the announced default 1 for the local solver; all three), and deletes it once. Every method calls the C++ method of its name exactly once with all arguments in order, given by position or by keyword, times that are not given being 0, and returns its result; refine reads or sets the refinement and returns it, the sparse matrix comes as columns, rows and values, and Python strings are converted to C++ strings and back.",
     ["inputs", "histories", "configurations"], "all five global loops, all argument values, strings, bytes and other objects, all forms of construction, all sequences of up to two (three) calls",
     "Only one wrapper is used by the only Python test, which needs the submodules; exchanged arguments or a lost time show only in particular methods.",
     ["cython/elliptic.pyx", "cython/parabolic.pyx", "cython/nonlinear_eigenvalue.pyx", "cython/mass_approx_eigenvalue.pyx", "cython/shifted_inverse_eigenvalue.pyx"], [("extension classes", "cython/*.pyx"), ("declarations of the C++ classes", "cython/*.pxd")],
     "C++ constructs of Cython (pointer member, new, del) are rewritten to Python; the C++ class is what the .pxd declares, with arbitrary results. Replays use the real Cython and g++.", py=True)
prop("C31", "The time stepping advection solver performs the steps of its scheme",
     "For the advection problem the flux of a step is the upwind flux of the local solution of the time step, the residual contains source, inflow data and the previous step, and stored data are those of the scheme, so that sequences of steps are those of the theta scheme.",
     ["inputs", "histories"], "all traces of two consecutive steps, all affine source, inflow and initial functions",
     "Errors show only after a step with stored data and for particular directions of the flow; no test performs a time step.",
     ["local_solver/advection_parab_ldgh.hxx"], [("LocalSolver::AdvectionParab", "include/HyperHDG/local_solver/advection_parab_ldgh.hxx")],
     na="The solver rests on integrals of the absent submodule TPP over parts of faces cut by the flow (functions *_cutwind*), whose meaning is documented nowhere in this repository; a stand-in would be a guess, and no claim about the result could be trusted.")
