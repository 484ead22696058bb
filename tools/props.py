def P(id, title, statement, over, text, why, files, mechanism, technique, level_note, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=observe or []),
                technique=technique, level_note=level_note)


NOT_APPLICABLE = {
}
REF = "The oracle (harness/ref.hpp) is an independent tensor-product finite element model; floating point agreement is required to 1e-12 of the largest entry. Assumes PETSc and MPI are right."
PROPERTIES = [
    P("C01", "Nested velocity/pressure grids, and who owns which node and element",
      "For every requested pressure grid, set of periodic directions and process count, the mesh consists of a pressure grid with the requested number of points and a velocity grid with half its spacing (2n-1 points per direction, one node per period in periodic directions), with one velocity component per space dimension and one pressure component. Every velocity and pressure node, and every velocity and pressure element, belongs to exactly one process. Each process holds with its ghosts all nodes of its elements, and pressure elements coincide with 2x2(x2) velocity elements of the same process.",
      ["inputs", "configurations"], "all grid shapes, all subsets of periodic directions, 2D and 3D, any process count",
      "The tests run a couple of square meshes on at most four processes and only look at whether the program ends; a wrongly attributed element shows up as a wrong number somewhere.",
      ["cafes/fem/mesh.hpp"], [("createMesh pairs the two DMDAs with matching ownership ranges", "cafes/fem/mesh.hpp"), ("get_DM_bounds / get_global_bounds / get_element ownership boxes", "cafes/fem/mesh.hpp")],
      "exhaustive enumeration of grid shapes x periodicities x process counts on the real code against a reference grid model",
      "Every grid with 2..N points per direction (2D and 3D), every periodicity, np in {1,2,3,4,6} (quick) or 1..8 (thorough). Assumes PETSc DMDA itself is right; grids PETSc refuses are skipped and counted."),
    P("C02", "Matrix-free operators are the finite element forms",
      "On every mesh, periodicity and process count, in 2D and 3D, the matrix-free operators (vector Laplacian, strain-rate form 2D(u):D(v), velocity and pressure mass, divergence and its negative transpose, and the complete Stokes and mass matrices built from them) are exactly the Q1 velocity / Q1 double-spaced pressure bilinear forms. Applying one is linear, does not change its input, and does not depend on how the grid is distributed.",
      ["inputs", "configurations"], "all grid shapes and spacings, periodicities, process counts, all input vectors (decided on a basis, by linearity)",
      "The tests solve one or two problems per operator and look at convergence of the solver only; a wrong coefficient on an element of a non-square or periodic mesh changes nothing they check.",
      ["cafes/fem/matrixFree.hpp", "cafes/fem/matElem.hpp", "cafes/fem/operator.hpp", "cafes/petsc/vec.hpp", "cafes/problem/stokes.hpp"],
      [("element matrices", "cafes/fem/matElem.hpp"), ("element loop and ghost accumulation", "cafes/fem/matrixFree.hpp, cafes/petsc/vec.hpp")],
      "exhaustive enumeration of meshes, process counts and basis vectors on the real operators against a reference operator", REF + " Linearity reduces all vectors to the enumerated unit vectors."),
    P("C03", "Assembled and matrix-free Stokes matrices are the same operator",
      "With the same options, the assembled Stokes matrix and the matrix-free one are the same operator, namely the finite element matrix whose rows of non-periodic boundary velocity unknowns are replaced by identity rows; the same holds for their preconditioning matrices (velocity block plus pressure mass matrix). The assembled matrix carries exactly the constant pressure as its null space. This holds for the Laplacian and strain formulations, every periodicity and any process count.",
      ["inputs", "configurations"], "all 2D grid shapes, aspect ratios, periodicities, both formulations, any process count",
      "The tests run each of the two paths on its own, on a square closed box, and never compare them.",
      ["cafes/problem/stokes.hpp", "cafes/fem/assembling.hpp", "cafes/fem/matElem.hpp", "cafes/fem/bc.hpp"],
      [("element-by-element MatSetValuesStencil assembling", "cafes/fem/assembling.hpp"), ("identity rows", "cafes/fem/bc.hpp"), ("null space", "cafes/problem/stokes.hpp")],
      "exhaustive enumeration of meshes, formulations, process counts and basis vectors on the real matrices against a reference matrix", REF),
    P("C04", "Dirichlet conditions act on exactly the boundary unknowns they name",
      "For every combination of per-side and per-component conditions, setting Dirichlet data on a vector or on a right-hand side overwrites exactly the velocity unknowns on non-periodic sides that carry a condition, with the condition's value at that node's coordinates (zero for the homogeneous variants), and leaves every other unknown alone; on an operator it makes exactly those rows identity rows. The outcome does not depend on the number of processes.",
      ["inputs", "configurations"], "all subsets of conditioned (side, component) pairs, grid shapes, periodicities, 2D and 3D, any process count",
      "The tests use one complete set of conditions on a square; a condition applied to a wrong side, corner or component passes them.",
      ["cafes/fem/bc.hpp"], [("set_dirichlet_impl family loops over the faces of the ghosted local grid", "cafes/fem/bc.hpp")],
      "exhaustive enumeration of condition subsets, meshes and process counts on the real code against a reference model",
      "All 2^8 subsets of (side, component) in 2D on every small grid; in 3D all pairs and all-but-pairs (all 2^18 in the thorough tier on two grids). Where two conditions meet in a corner either value is accepted."),
    P("C05", "Body forces enter the right-hand side as the mass matrix applied to their nodal values",
      "Setting a right-hand side adds to each velocity component that has a source exactly the mass matrix times the nodal values of the source at the nodes' coordinates, and changes neither the other components nor the pressure; components without a source stay as they were. In a Stokes problem Dirichlet nodes then hold the boundary data. All of this is independent of the number of processes and includes periodic directions.",
      ["inputs", "configurations"], "all nodal source values (decided on a basis of unit pulses plus polynomials), component subsets, grids, periodicities, 2D and 3D, any process count",
      "The tests use one smooth source on one mesh.",
      ["cafes/fem/rhs.hpp", "cafes/problem/stokes.hpp"], [("set_rhs: sample, then mass matrix", "cafes/fem/rhs.hpp")],
      "exhaustive enumeration of nodal pulses, component subsets, meshes and process counts against a reference model", REF),
    P("C06", "Diagonals handed to the solvers are the diagonals of the operators",
      "The diagonal provided for the matrix-free Laplacian and mass operators, on the velocity grid, the pressure grid or both grids at once, without boundary conditions, equals the diagonal of that operator, on every grid, periodicity and process count and whatever the result vector held before.",
      ["inputs", "configurations"], "all grid shapes, spacings, periodicities, 2D and 3D, any process count",
      "The tests only see the number of iterations of a Jacobi smoother.",
      ["cafes/fem/matrixFree.hpp", "cafes/fem/operator.hpp"], [("diag_*_mult", "cafes/fem/matrixFree.hpp")],
      "exhaustive enumeration of meshes, spacings and process counts against the probed operator and a reference matrix", REF),
    P("C07", "Every way of solving the Stokes problem gives the discrete solution",
      "For given boundary data and body force, in 2D and 3D, the Stokes problem gives the same velocity and the same pressure up to a constant, namely the solution of its finite element system, whichever solver path the options select: assembled with a direct solver (assembling is 2D), assembled or matrix-free with a Krylov method, or the pressure-mass-matrix preconditioned solver with its multigrid velocity block; for the Laplacian and the strain formulation, with or without periodic directions, on any number of processes. Data whose exact solution is linear is reproduced exactly. Solving again gives the same solution, and the solution is linear in the data.",
      ["inputs", "configurations"], "solver options x formulations x grids x box shapes x periodicities x process counts x data",
      "The tests check convergence of one square problem per solver and never compare two solver paths or two process counts.",
      ["cafes/problem/stokes.hpp", "cafes/problem/options.hpp", "cafes/problem/matMult.hpp", "cafes/fem/assembling.hpp", "cafes/fem/matrixFree.hpp"],
      [("setup_RHS / setup_KSP / solve", "cafes/problem/stokes.hpp"), ("option handling", "cafes/problem/options.hpp")],
      "exhaustive enumeration of solver configurations x meshes x data on the real solver against a dense reference solution", "Relative agreement 1e-6 with Krylov tolerances 1e-12. The preconditioned multigrid solver on grids with one coarse level only (deeper hierarchies: C08)."),
    P("C08", "Every level of the multigrid hierarchy is the operator of its own grid",
      "The multigrid preconditioner of the velocity block has the documented number of levels, and the operator on each level is the velocity operator (Laplacian or strain form, whichever the options select) of the correspondingly coarsened grid with that grid's spacing, with identity rows at its Dirichlet nodes; and linear fields are interpolated exactly between levels. This holds in 2D and 3D, for non-square grids, stretched boxes, periodic directions and any process count.",
      ["inputs", "configurations"], "grids, aspect ratios, periodicities, forms, process counts",
      "A wrong coarse operator only slows the solver down; the tests only look at convergence.",
      ["cafes/problem/stokes.hpp", "cafes/problem/options.hpp", "cafes/problem/context.hpp", "cafes/fem/matrixFree.hpp"],
      [("createLevelMatrices", "cafes/problem/options.hpp"), ("context", "cafes/problem/context.hpp")],
      "exhaustive enumeration of meshes and basis vectors on the real level operators against a reference matrix of each coarsened grid", REF),
    P("C09", "Boxes of mesh points behave as sets of points",
      "A box stands for the set of mesh points between its corners: iterating visits each of them once with the first direction fastest, length counts them, membership tests agree with them, two boxes intersect exactly when their sets have a common point, and the overlap of two boxes is the intersection of the sets. This holds for integer and real corners, in 2D and 3D.",
      ["inputs"], "all pairs of boxes, all points",
      "The tests try one or two overlapping boxes; a box that touches, contains or passes another diagonally is not among them.",
      ["cafes/particle/geometry/box.hpp", "cafes/algorithm/iterate.hpp"], [("check_box_inside, overlap_box, intersect, point_inside", "cafes/particle/geometry/box.hpp"), ("iterate", "cafes/algorithm/iterate.hpp")],
      "exhaustive enumeration of all boxes, pairs of boxes and points up to a size on the real code against sets", "All pairs up to the size bound; address and undefined-behaviour sanitizers on."),
    P("C10", "Vectors, positions, velocities, forces, cross products and quaternions obey their algebra",
      "The operators of vector, position, velocity and force do what their name says component by component, do not change operands they should not, and compound and binary forms agree; cross products are those of the right-handed frame in every overload (2D and 3D, scalar or vector angular velocity); a quaternion built on an angle and axis rotates by that angle about that axis (also when the axis is not normalised), preserves lengths, and conjugating undoes it; differences and distance of two particles are those of their centres and velocities; linspace places the requested number of equally spaced values.",
      ["inputs"], "all operand values, axes and angles",
      "The tests add two specific forces and velocities.",
      ["cafes/particle/geometry/vector.hpp", "cafes/particle/geometry/position.hpp", "cafes/particle/physics/velocity.hpp", "cafes/particle/physics/force.hpp", "cafes/particle/geometry/cross_product.hpp", "cafes/particle/geometry/quaternion.hpp", "cafes/particle/geometry/linspace.hpp", "cafes/particle/particle.hpp"],
      [("operators", "cafes/particle/geometry/vector.hpp"), ("rotate", "cafes/particle/geometry/quaternion.hpp")],
      "exhaustive enumeration of operand tuples over a small value alphabet on the real code against componentwise definitions", "The operators are polynomials of low degree in their operands, the alphabets have more points per variable than their degree."),
    P("C11", "A shape is one set of points, however it is described",
      "For every super ellipsoid (circle, sphere and ellipsoids included), with any centre, half axes, exponents and rotation, the inside test, the parametric surface points, the sampled surface, the bounding boxes and the rotated copies describe the same set of points: parametric and sampled points lie on the implicit surface, go once around it without gaps larger than requested or repetition, the bounding box contains the shape, and volume, surface area and the friction constants of circles and spheres are those of the ball.",
      ["inputs"], "all centres, half axes, exponents, rotations and points",
      "The tests write sampled points to a file; rotated and translated 3D shapes are not compared with anything.",
      ["cafes/particle/geometry/super_ellipsoid.hpp", "cafes/particle/geometry/circle.hpp", "cafes/particle/geometry/sphere.hpp", "cafes/particle/geometry/uniform_sampling.hpp", "cafes/particle/geometry/quaternion.hpp"],
      [("contains, surface, bounding_box", "cafes/particle/geometry/super_ellipsoid.hpp"), ("sampling", "cafes/particle/geometry/uniform_sampling.hpp")],
      "exhaustive enumeration of shape parameters and lattice points on the real code against the implicit equation", "Finite lattice of parameters; known finding: the perimeter of a super ellipsoid other than a circle is 1."),
    P("C12", "Particles are discretised completely and shared out among the processes without loss or overlap",
      "For all particles inside the domain, the mesh nodes inside a particle are its control points, each on the process that owns the node and in mesh order; every sampled surface point is on exactly one process, with the element that contains it and its offset in this element, the nodes of that element being present on the process; its radial vector is the point minus the particle's centre; point counts are global and do not depend on the number of processes, nor on earlier calls with the same containers.",
      ["inputs", "configurations", "histories"], "all particle positions, sizes and numbers, meshes, periodicities, process counts",
      "The tests run one or two fixed particles and look at nothing but that the program ends.",
      ["cafes/particle/particle.hpp", "cafes/particle/geometry/box.hpp", "cafes/particle/geometry/super_ellipsoid.hpp"],
      [("find_fluid_points_insides, find_surf_points, find_radial_surf_points, set_materials", "cafes/particle/particle.hpp")],
      "exhaustive enumeration of particle centres on a lattice, radii, pairs, meshes and process counts on the real code against point membership", "Balls (the only shapes the solvers accept) on a lattice of centres finer than the mesh."),
    P("C13", "Transfers between fluid and particles are exact linear maps and their transposes",
      "For any fluid field, layer, control, particles and process count, in 2D and 3D: the velocity on a particle's surface points is the multilinear interpolation of the fluid velocity there, minus v + w x r when the rigid motion is asked for; spreading a layer to the right-hand side is the transpose of that interpolation weighted with the surface share of each point, with nothing on Dirichlet nodes, in the pressure, or left from before; a simple layer loses its mean and its rotation; a control acts as the mass matrix times its values (plus density times force when asked) at the particle's nodes and adds to the right-hand side, which then gets the fluid's own data and boundary values or homogeneous ones; the projection is the mean velocity and moment over the particle's integration points; the restriction is the velocity at the control nodes with or without that rigid motion; forces and torques are the volume weighted sums and moments of the control.",
      ["inputs", "configurations"], "all fields, layers and controls (decided on bases), particle positions, meshes, conditions, process counts",
      "The tests only run whole solvers on one or two particles and look at nothing but convergence; a wrong weight, missing process contribution or wrong component still converges.",
      ["cafes/problem/particle_operator.hpp", "cafes/particle/forces_torques.hpp", "cafes/fem/quadrature.hpp", "cafes/petsc/vec.hpp", "cafes/fem/bc.hpp"],
      [("interp_fluid_to_surf, SL_to_Rhs, simple_layer, set_rhs_problem, init_problem, projection, compute_y", "cafes/problem/particle_operator.hpp"), ("forces_torques_with_control", "cafes/particle/forces_torques.hpp")],
      "exhaustive enumeration of particle placements, meshes, process counts and basis vectors on the real operators against reference transfer matrices", "Linearity reduces all fields, layers and controls to the enumerated unit vectors plus one dense one."),
    P("C14", "The smooth extension solver moves force-carrying particles rigidly",
      "For particles carrying forces, in 2D and 3D, the operator of the smooth extension method is the linear map control to remaining non-rigid motion, independent of everything applied or solved before; its right-hand side is minus the affine part (fluid data and forces); after solve the fluid is the one driven by the control found together with density times force and the fluid's own data, its residual is within the requested tolerance and, wherever the control resolves the surface points, each particle's surface moves rigidly; velocities, forces and torques reported are those of that fluid and control. Solving again gives the same result, changed forces give that of a fresh solver, and none of this depends on the number of processes, the formulation or the assembling.",
      ["inputs", "configurations", "histories"], "particles, forces, fluid data, formulations, process counts, histories of applications and solves",
      "The tests check that one solve converges.",
      ["cafes/problem/sem.hpp", "cafes/problem/particle_operator.hpp", "cafes/particle/forces_torques.hpp", "cafes/problem/stokes.hpp"],
      [("sem_matrix, setup_RHS, solve, get_new_velocities, get_new_forces_torques", "cafes/problem/sem.hpp")],
      "exhaustive enumeration of configurations, operator columns and a fixed history of operations on the real solver against a dense reference of the coupled system", "One linear history of nine operations per configuration; all operator columns. In 3D the Stokes solves inside use the matrix-free operator with an exact preconditioner of the harness."),
    P("C15", "The Dirichlet to Neumann solver gives the fluid the particles' motion on their surfaces",
      "For particles with prescribed velocity and rotation, in 2D and 3D and without singularity, the operator is the linear map control to velocity in the particles of the layer of its trace, independent of everything applied or solved before; its right-hand side is minus the affine part (fluid data and rigid motions); after solve the fluid is the one driven by the control found and the fluid's own data, its residual is within the requested tolerance, and wherever the control resolves the surface points the fluid moves with v + w x r on every particle's surface. Solving again gives the same result, changed motions give that of a fresh solver, and none of this depends on the number of processes, the formulation or the assembling.",
      ["inputs", "configurations", "histories"], "particles, motions, fluid data, formulations, process counts, histories of applications and solves",
      "The tests check that one solve converges.",
      ["cafes/problem/dton.hpp", "cafes/problem/particle_operator.hpp", "cafes/problem/stokes.hpp"],
      [("DtoN_matrix, setup_RHS, solve, solve_last_problem", "cafes/problem/dton.hpp")],
      "exhaustive enumeration of configurations, operator columns and a fixed history of operations on the real solver against a dense reference of the coupled system", "One linear history of nine operations per configuration; all operator columns. The solver's own start-up flags (default) only. In 3D the Stokes solves inside use the matrix-free operator with an exact preconditioner of the harness."),
    P("C16", "Saved files hold the solution and describe it",
      "save_hdf5 writes, in 2D and 3D, velocity and pressure of every global mesh node exactly, in an order that does not depend on the number of processes, leaves the solution as it was, and replaces an older file of that name entirely; the XDMF file beside it is well formed and names, for velocity and for pressure, the array in that file with this array's extents on a grid with that many nodes (slowest direction first), at the origin, with the spacing of that grid, periodic directions included.",
      ["inputs", "configurations", "histories"], "meshes (also non-square), periodicities, values, process counts, sequences of saves",
      "The tests write files and never read them.",
      ["cafes/io/hdf5.hpp"], [("save_hdf5, create_xdmf", "cafes/io/hdf5.hpp")],
      "exhaustive enumeration of meshes, process counts and a history of saves on the real code against the values by global node", "The HDF5 library reads the files back; ParaView itself is not run."),
    P("C17", "A field view is a window on one field of the global vector",
      "A view on one field of a vector shows and changes that field only: values written locally reach the global vector when pushed (added over all processes and ghost copies, or those of the owner), the window with its ghost nodes, across periodic borders and process borders, equals the global field once pulled, global values can be read and written directly, and closing and reopening views, read-only ones included, loses and invents nothing.",
      ["inputs", "histories", "configurations"], "all sequences of view operations, fields, meshes, periodicities, process counts",
      "The tests use views through whole solvers on one process layout.",
      ["cafes/petsc/vec.hpp", "cafes/fem/mesh.hpp"], [("petsc_vec", "cafes/petsc/vec.hpp"), ("createMesh", "cafes/fem/mesh.hpp")],
      "exhaustive exploration of all operation sequences up to a depth on the real view in lockstep with an explicit model state", "Insertion is left out where PETSc itself refuses it (a periodic direction on one process)."),
    P("C18", "A refined solution is the same finite element function",
      "linear_interpolation gives a pair of grids refined by the factor asked for in each direction, with the same periodicity, and on every node of each the value of the coarse velocity or pressure there by multilinear interpolation, whatever the process count; the coarse solution is left as it was, and refining it again by another factor or refining a refinement obeys the same rule.",
      ["inputs", "configurations", "histories"], "fields (decided on bases), meshes, periodicities, factors, process counts",
      "The tests refine a solution by 2 x 2 on one process and never look at the result.",
      ["cafes/posttraitement/interpolation.hpp", "cafes/fem/quadrature.hpp"], [("linear_interpolation", "cafes/posttraitement/interpolation.hpp")],
      "exhaustive enumeration of meshes, factors, process counts and basis vectors on the real code against tensor-product interpolation", "Linearity reduces all fields to the enumerated ones."),
    P("C19", "The lubrication field of two close particles is a consistent flow",
      "For two close particles (circles or spheres of any radii, positions, order and relative velocity), the lubrication field is described in an orthonormal frame at the first particle's tip whose normal points to the second; its velocity is divergence free, its gradient is the derivative of its velocity, it moves with half the approach velocity at either tip, is that of the truncated thin film in the gap, and vanishes beyond the cut-off; the pressure is the truncated pressure of the thin film; values in the frame and in global coordinates are the same vectors and tensors; the box of cells covers the field's region and hardly more; and the forces are the film's pressure on the particles, summed over all pairs of a crowd. The truncation function and its derivatives are those of one smooth step.",
      ["inputs"], "all radii, gaps, directions, orders, velocities, mesh sizes and evaluation points",
      "The tests solve one configuration of two particles on the first axis and look at convergence.",
      ["cafes/particle/singularity/singularity.hpp", "cafes/particle/singularity/UandPNormal.hpp", "cafes/particle/singularity/truncation.hpp", "cafes/particle/singularity/add_singularity.hpp"],
      [("singularity, get_u_sing, get_grad_u_sing, get_p_sing, get_box", "cafes/particle/singularity/singularity.hpp"), ("ux_sing_normalMvt2D/3D ...", "cafes/particle/singularity/UandPNormal.hpp"), ("compute_singular_forces", "cafes/particle/singularity/add_singularity.hpp")],
      "exhaustive enumeration of pairs of particles and of a lattice of points across each gap on the real code against a reference thin film field", "Finite lattice of parameters. Gaps below 1/20 of the radii; cut-off below the particles' radii (meshes finer than the particles)."),
    P("C20", "The lubrication field enters the fluid problem once, and comes out of it",
      "For particles close to each other the right-hand side of the fluid gets, for every pair, minus the stress of the pair's lubrication field integrated against the gradients of the velocity functions and nothing else; the solution of the regular part gets the field's mean value around each node (over the integration points of its cells in the gap, weighted by the node's function) added, and nothing else; and the Dirichlet to Neumann solver with singularity uses them so that its operator stays the linear one, its right-hand side is minus the affine part with the field, its residual is within the requested tolerance and the final velocity is the driven fluid plus the field. None of this depends on the number of processes, the order of the particles, earlier calls or other particles far away.",
      ["inputs", "configurations", "histories"], "pairs and crowds of particles, motions, meshes, fluid data, process counts, two solves",
      "The tests solve one pair on one mesh and look at convergence.",
      ["cafes/particle/singularity/add_singularity.hpp", "cafes/particle/singularity/singularity.hpp", "cafes/problem/dton.hpp", "cafes/problem/particle_operator.hpp"],
      [("add_singularity_in_fluid, add_singularity_to_last_sol", "cafes/particle/singularity/add_singularity.hpp"), ("use_sing", "cafes/problem/dton.hpp")],
      "exhaustive enumeration of particle placements, meshes, process counts and operator columns on the real code against a reference quadrature and a dense reference of the coupled system", "Particles larger than a cell. The field itself is the one C19 checks."),
    P("C21", "The problem is the one its options describe",
      "Every option sets its own quantity, in every combination with the others, and an option that is not given leaves it at its value (by default 17 points per direction, length 1, no periodic direction, Laplacian, matrix-free, no pressure mass matrix solver). A Stokes problem built from them has the number of points, the periodic directions and the spacing they say (a period is one length of the box), the operator and preconditioner of the chosen form, assembled or not (assembling is 2D), and the pressure-mass-matrix solver if and only if it was asked for.",
      ["inputs", "configurations", "histories"], "all combinations of options and values, 2D and 3D, any process count",
      "The tests give one fixed set of options each and look at convergence; an option that is ignored or acts on another quantity passes them.",
      ["cafes/problem/options.hpp", "cafes/problem/stokes.hpp", "cafes/fem/mesh.hpp"], [("process_options", "cafes/problem/options.hpp"), ("constructor of stokes, setup_KSP", "cafes/problem/stokes.hpp")],
      "exhaustive enumeration of combinations of options on the real options and the real problem against a table of quantities", "The values of numeric options are two per option."),
    P("C22", "Pieces saved for VTK make up the solution on its mesh",
      "save_VTK has every process write one piece of the velocity and one of the pressure: a structured grid whose extent, points and values are those of the mesh's nodes and of the solution there, the process's own nodes included; and one list of pieces that names every piece with its true extent, announces the arrays the pieces have and the extent of the whole mesh, every cell of which is in a piece. The solution is left as it was. saveParticles writes every particle's centre and radius, and its force and torque when given, once, in 2D and 3D.",
      ["inputs", "configurations", "histories"], "meshes, periodicities, values, process counts, crowds of particles",
      "No test saves VTK files.",
      ["cafes/io/vtk.hpp"], [("save_VTK, saveParticles", "cafes/io/vtk.hpp")],
      "exhaustive enumeration of meshes, process counts and crowds on the real code, with the VTK library replaced by a recording stand-in, against the values by global node", "VTK is not installed: the stand-in (harness/vtk) follows its documented interface. In periodic directions pieces may reach beyond the whole extent."),
    P("C23", "Triangulations of points are Delaunay's in the plane and the convex hull's in space",
      "For points of the plane that are not all on a line, triangulation gives triangles of three distinct points of the list that cover the convex hull of the points once, use every point, and have no other point inside their circle; for points of space that are not all in a plane, it gives the triangulated surface of their convex hull: closed, every edge between two triangles, all points on one side of each, no triangle flat. This holds for lattices (many points on a circle or plane) and any order of the points.",
      ["inputs"], "all finite sets of points and orders",
      "No test of the suite calls it; the sampled ellipsoid in tests/ only prints a count.",
      ["cafes/particle/geometry/triangulation.hpp"], [("triangulation_ (2D, 3D)", "cafes/particle/geometry/triangulation.hpp")],
      "exhaustive enumeration of all subsets of lattices and of points in general position on the real code with exact predicates", "Repeated points and flat sets are left out."),
    P("C24", "Nothing reads or writes outside its memory, whatever the mesh, the distribution or the particles",
      "Creating meshes and applying, assembling, transferring, interpolating, saving and solving on them - including with particles that lie across, on or outside the borders, with meshes of the smallest sizes, with periodic directions and with processes that own nothing of a particle - never reads or writes outside the memory it owns, never uses memory after it was freed or a value outside its type (null or dangling references, misaligned access, signed overflow, shifts), and the results do not come from such an access even where they happen to look right.",
      ["inputs", "configurations", "histories"], "all meshes, distributions over processes, particles, options and sequences of operations",
      "The tests run without sanitizers, on a few square 2D meshes; an access one entry too far mostly changes no exit code.",
      ["cafes/petsc/vec.hpp", "cafes/fem", "cafes/problem", "cafes/particle", "cafes/io"], [("petsc_vec::at, at_g", "cafes/petsc/vec.hpp"), ("all kernels", "cafes/fem"), ("particle_velocity, SL_to_Rhs", "cafes/particle")],
      "exhaustive enumeration of the bounded cases of the other properties on the real code, with the address and undefined-behaviour sanitizers as monitors", "Cases of the expensive solvers are a fixed part of the enumeration in the quick tier, all of them in the thorough tier. PETSc, MPI and HDF5 are not instrumented."),
    P("C25", "The film between two bodies sliding along each other is a consistent flow",
      "For two bodies a gap apart moving in opposite directions along their tangent plane (any curvatures, flat walls included, any gap, velocity and truncation), the tangential lubrication fields in 2D and 3D are those of the truncated thin film: the pressure solves Reynolds' equation, the velocity is divergence free, is plus and minus half the sliding velocity on the two surfaces and has no component through them where nothing is truncated, every derivative function - in Cartesian and, in 3D, in cylindrical components, on the axis too - is the derivative of the component it names, the functions returning the divergence give zero, and velocity, derivatives and pressure are exactly zero beyond the truncation. (In 2D the first coordinate is the normal one, the curvature of the first body comes first; in 3D the third coordinate is the normal one and the curvature of the second body comes first.)",
      ["inputs"], "all curvatures, gaps, velocities, truncations and evaluation points",
      "No test calls these functions.",
      ["cafes/particle/singularity/UandPTang.hpp", "cafes/particle/singularity/truncation.hpp"],
      [("ux_sing_tangMvt2D ... DIVCART_tangMvt2D", "cafes/particle/singularity/UandPTang.hpp"), ("U0_tang3D ... DIVCART_tangMvt3D", "cafes/particle/singularity/UandPTang.hpp")],
      "exhaustive enumeration of curvatures, gaps, velocities and truncations and of a lattice of points across each film on the real code against a reference film", "Finite lattice of parameters and points. The cylindrical divergence is not asked for on the axis itself, where it divides by the radius."),
]
