"""What decides each property: harnesses, process counts, shards, bounds, oracle."""


def H(name, quick, thorough=None, shards=None, tshards=None, **kw):
    return dict(name=name, quick=dict(np=quick, shards=shards or {}), thorough=dict(np=thorough or quick, shards=tshards or shards or {}), **kw)


NPQ = [1, 2, 3, 4, 6]
NPT = [1, 2, 3, 4, 5, 6, 7, 8]
SAN = dict(cxxflags=["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
FE = "independent tensor-product finite element model (harness/ref.hpp), global dense matrices with explicit periodic wrap-around; 1e-12 of the largest entry"
LIN = "floating point: linear maps are decided on a basis plus one dense vector (linearity)"
ENV = "PETSc, MUMPS, MPI and the compiler are right; process counts beyond the bound are not explored"

def M(name, np=(1, 2, 4), part=None, **kw):
    """a harness run for the sanitizers' sake"""
    return H(name, list(np), list(np), argsets=[["-vp_mem"]], part=part, **SAN, **kw)


PROPS = {
    "C01": dict(harnesses=[H("h_mesh", NPQ, NPT)],
                bounds=dict(quick="2D pressure grids n,m=2..12, 3D 2..5 per direction, all periodicities, np in {1,2,3,4,6}",
                            thorough="2D 2..24, 3D 2..7, all periodicities, np 1..8"),
                oracle="closed-form grid: owner maps gathered from all processes must partition nodes and elements; ghost boxes must contain the element's nodes", assumptions=[ENV]),
    "C02": dict(harnesses=[H("h_operators", NPQ, NPT)],
                bounds=dict(quick="2D n<=5 x 3-4 spacings, 3D n<=3 x 2 spacings, all periodicities, every unit vector, np in {1,2,3,4,6}",
                            thorough="2D n<=7, 3D n<=4, np 1..8"), oracle=FE, assumptions=[LIN, ENV]),
    "C03": dict(harnesses=[H("h_assembly", NPQ, NPT)],
                bounds=dict(quick="2D n<=6, 2 aspect ratios, Laplacian and strain forms, all periodicities, every unit vector, np in {1,2,3,4,6}",
                            thorough="n<=9, np 1..8"), oracle=FE, assumptions=[LIN, ENV]),
    "C04": dict(harnesses=[H("h_dirichlet", NPQ, NPT)],
                bounds=dict(quick="2D n<=4: all 256 (side, component) masks x periodicities; 3D n<=3: masks with at most 2 bits set or clear; matrix rows n<=6; np in {1,2,3,4,6}",
                            thorough="2D n<=6, 3D all 2^18 masks for 2 periodicities, matrix n<=9, np 1..8"),
                oracle="set of (node, component) on the named sides, value of the condition at the node's coordinates; corners of two conditions accept either", assumptions=[ENV]),
    "C05": dict(harnesses=[H("h_rhs", NPQ, NPT)],
                bounds=dict(quick="2D n<=5, 3D n<=3, all component subsets, nodal pulses and polynomials, all periodicities, np in {1,2,3,4,6}",
                            thorough="2D n<=7, 3D n<=4, np 1..8"), oracle=FE, assumptions=[LIN, ENV]),
    "C06": dict(harnesses=[H("h_diagonal", NPQ, NPT)],
                bounds=dict(quick="2D n<=5, 3D n<=3, 3 spacings, all periodicities, np in {1,2,3,4,6}", thorough="2D n<=8, 3D n<=4, np 1..8"),
                oracle=FE + "; and the operator probed on unit vectors", assumptions=[ENV]),
    "C07": dict(harnesses=[H("h_stokes", [1, 2, 4], [1, 2, 3, 4, 6])],
                bounds=dict(quick="grids 3x3,4x3,3x5,5x5, 2 shapes of the box, both forms, 3 periodicities, 5 solver configurations, 8 data fields (linear exact solutions, rough data); 3D grids 3x3x3, 4x3x3, 3x3x4, both forms, 15 data fields, matrix-free with an exact preconditioner and pressure-mass preconditioned multigrid; np in {1,2,4}",
                            thorough="7 more grids, np in {1,2,3,4,6}"),
                oracle="dense direct solve of the reference finite element system; exact linear fields; 1e-6 relative (Krylov tolerance 1e-12)", assumptions=[ENV, "iterative solvers are asked for 1e-12 residual reduction"]),
    "C08": dict(harnesses=[H("h_mglevels", [1, 2, 4], [1, 2, 3, 4, 6])],
                bounds=dict(quick="pressure grids 4..17 (subset reaching 1..3 levels), non-square, periodicities, both forms, 3D 3x3x3 .. 7x5x5 in all 8 periodicities; every unit vector of every level up to 700 unknowns, np in {1,2,4}",
                            thorough="grids up to 33, np in {1,2,3,4,6}"), oracle=FE + " on the coarsened grid, with identity Dirichlet rows", assumptions=[LIN, ENV]),
    "C09": dict(harnesses=[H("h_boxes", [1], **SAN)],
                bounds=dict(quick="2D all pairs of boxes with corners in -1..3, 3D all pairs with corners in 0..2, every point of a surrounding lattice", thorough="2D -2..4, 3D -1..2"),
                oracle="sets of lattice points", assumptions=["address and undefined-behaviour sanitizers on"]),
    "C10": dict(harnesses=[H("h_algebra", [1], **SAN)],
                bounds=dict(quick="2D and 3D: all pairs of small integer vectors, all pairs of particles on them, rotations about all axes with components in -1..1 by multiples of pi/6, linspace of 0..6 points",
                            thorough="larger component range and finer angles"),
                oracle="componentwise definitions, determinant cross products, Rodrigues' formula", assumptions=["address and undefined-behaviour sanitizers on"]),
    "C11": dict(harnesses=[H("h_shapes", [1], **SAN)],
                bounds=dict(quick="centres x half axes x exponents x rotations (2D multiples of pi/6; 3D axes and angles) and lattice of points around each; measures of circles and spheres of 7 radii",
                            thorough="more axes, exponents and angles"),
                oracle="implicit equation evaluated by the harness in the rotated frame; quadrature for the measures", assumptions=["address and undefined-behaviour sanitizers on"]),
    "C12": dict(harnesses=[H("h_materials", NPQ, NPT)],
                bounds=dict(quick="2D meshes 5x5,9x4,11x11,16x8 in all periodicities, 3D 4x4x4 and 3x5x4; balls of 4 (2) radii centred on every node of a 9x9 (5x5x5) lattice; pairs; 2 refinement scales; np in {1,2,3,4,6}",
                            thorough="17x17 (7x7x7) lattice, 4 scales, 2 sampling steps, np 1..8"),
                oracle="point membership computed from the ball's equation, gathered over all processes; nodes within 1e-9 of a border accept either way but must agree with one process",
                assumptions=[ENV, "particles lie inside the domain"]),
    "C13": dict(harnesses=[H("h_transfer", NPQ, NPT)],
                bounds=dict(quick="2D meshes 5x5, 9x4 in all periodicities, 3D 3x3x3, 3x4x3; one ball of 2 radii on a lattice of centres off the nodes, every third ordered pair, a triple, an overlapping pair; 2 refinement scales; full or partial Dirichlet conditions; every unit vector of the fluid, of the layers and of the control; np in {1,2,3,4,6}",
                            thorough="4 more meshes, all pairs, 3 scales, np 1..8"),
                oracle="dense transfer matrices written from the definitions (multilinear interpolation at the points' coordinates, its transpose, ball moments, mass matrix); 1e-10", assumptions=[LIN, ENV, "positions of the points are those C12 checks"]),
    "C14": dict(harnesses=[H("h_sem", [1, 2, 4], [1, 2, 3, 4, 6], shards={1: 3, 2: 3, 4: 2}, tshards={1: 4, 2: 3, 3: 2, 4: 2, 6: 1})],
                bounds=dict(quick="2D meshes 6x6 .. 8x8, 3 boundary and body force data, both forms, assembled (all np) and matrix-free (np 1), 1..3 balls, two x- or y-periodic meshes; 3D 4x3x4, 4x4x4, two spheres in 6x4x3, x-periodic 5x4x4, matrix-free with an exact preconditioner; every column of the operator before and after a solve, history: apply, setup, solve, apply, setup, solve, other forces, setup, solve; np in {1,2,4}",
                            thorough="6 more particle layouts, matrix-free on all np, np in {1,2,3,4,6}"),
                oracle="dense reference of the whole fluid-particle system (harness/coupled.hpp)", assumptions=[ENV, "Stokes solves are asked for 1e-13; operator compared to 1e-7"]),
    "C15": dict(harnesses=[H("h_dton", [1, 2, 4], [1, 2, 3, 4, 6], shards={1: 3, 2: 3, 4: 2}, tshards={1: 4, 2: 3, 3: 2, 4: 2, 6: 1})],
                bounds=dict(quick="as C14, with velocities instead of forces",
                            thorough="as C14"),
                oracle="dense reference of the whole fluid-particle system (harness/coupled.hpp)", assumptions=[ENV, "Stokes solves are asked for 1e-13; operator compared to 1e-7"]),
    "C16": dict(harnesses=[H("h_output", NPQ, NPT, libs=["-L/usr/lib/x86_64-linux-gnu", "-lhdf5_openmpi"])],
                bounds=dict(quick="2D pressure grids 2..7 x 2..7, 3D 2..4 per direction, all periodicities, history of five saves (over itself, over a larger mesh's file, under another name), np in {1,2,3,4,6}",
                            thorough="2D 2..12, 3D 2..6, np 1..8"),
                oracle="values by global node, read back with the HDF5 library alone; the description parsed as XML and compared with the arrays' extents, names and places", assumptions=[ENV, "HDF5 is right"]),
    "C17": dict(harnesses=[H("h_view", NPQ, NPT)],
                bounds=dict(quick="views of velocity and pressure of the composite mesh and of the velocity grid alone, 2D 3x4, 5x3 in all periodicities: every sequence of 4 of 10 operations; 3D 3x4x3: every sequence of 2; np in {1,2,3,4,6}",
                            thorough="sequences of 5 (2D) and 3 (3D), np 1..8"),
                oracle="plain arrays: the global field and every process's window with its ghost nodes; exact equality", assumptions=[ENV]),
    "C18": dict(harnesses=[H("h_interp", NPQ, NPT)],
                bounds=dict(quick="2D 2..5 x 2..5, factors 1..3 per direction; 3D 2..3, factors 1..3; all periodicities; every unit vector on the smallest meshes; several refinements of one solution and the refinement of a refinement; np in {1,2,3,4,6}",
                            thorough="2D 2..7, factors 1..5, 3D 2..4, np 1..8"),
                oracle="tensor-product interpolation on the global grid, 1e-12", assumptions=[LIN, ENV]),
    "C19": dict(harnesses=[H("h_lubrication", [1], shards={1: 8}, tshards={1: 8})],
                bounds=dict(quick="3 x 3 radii, 3 gaps, 12 (2D) and 28 (3D) directions, 10 and 28 relative velocities, 2 meshes, every fifth combination; up to 65 (2D) or 325 (3D) points across each gap; truncation on 9 parameter pairs; crowds of 0 to 5",
                            thorough="every combination, 24 directions in 2D"),
                oracle="lub::Pair (harness/lub.hpp): thin film field written from the lubrication equations, automatic second derivatives; 1e-7 of the largest value; forces by quadrature", assumptions=["one process: the field has no distributed part"]),
    "C20": dict(harnesses=[H("h_singular", NPQ, NPT, shards={1: 4, 2: 3, 3: 2, 4: 2, 6: 1}, tshards={1: 4, 2: 3, 3: 2, 4: 2})],
                bounds=dict(quick="pairs in several directions and orders, crowds of 3, 2D and 3D right-hand sides and last solutions, 2D and 3D DtoN with singularity: operator, right-hand side, two solves; np in {1,2,3,4,6}",
                            thorough="more meshes, turns and data, np 1..8"),
                oracle="quadrature of the code's own pair field (checked by C19) on the code's documented integration points, and the dense reference of the coupled system (harness/coupled.hpp)", assumptions=[ENV, "Stokes solves are asked for 1e-13"]),
    "C21": dict(harnesses=[H("h_options", NPQ, NPT)],
                bounds=dict(quick="options alone: every combination of 9 options (2D: 3 choices each) and 12 options (3D: given or not; all 4 forms of the switches), from the defaults and from other values; whole problems: all 512 combinations of given options in 2D, every third of 2048 in 3D; np in {1,2,3,4,6}",
                            thorough="options alone with all choices (2D 82944, 3D 531441), all 2048 whole problems in 3D, np 1..8"),
                oracle="one value per option; mesh, spacing, response of the matrices and kind of solver of the problem built", assumptions=[ENV]),
    "C22": dict(harnesses=[H("h_vtk", NPQ, NPT, include=["vtk"])],
                bounds=dict(quick="2D pressure grids 2..5 x 2..5, 3D 2..3 x 2..3 x 2..4, all periodicities, two saves each, 0..4 particles with and without forces; np in {1,2,3,4,6}",
                            thorough="2D 2..7, 3D 2..4, np 1..8"),
                oracle="values by global node, the list of pieces parsed as XML; the VTK library is a recording stand-in", assumptions=[ENV, "VTK writes what it is given"]),
    "C23": dict(harnesses=[H("h_hull", [1], qhull=True, **SAN)],
                bounds=dict(quick="all subsets of 3 to 12 points of a 4x3 lattice and of 10 points in general position (plane), all subsets of 4 to 8 points of a 2x3x2 lattice and of 4 to 10 of 10 points in general position (space), two orders each; 36 sampled curves and surfaces",
                            thorough="5x3 lattice, subsets up to 12 points, three orders"),
                oracle="exact integer predicates: empty circles, areas and edges (plane); supporting planes, closed surface, Euler's formula (space)", assumptions=["address and undefined-behaviour sanitizers on (cafes, not qhull)"]),
    "C24": dict(memory=True,
                harnesses=[M("h_mesh"), M("h_operators"), M("h_assembly"), M("h_dirichlet"), M("h_rhs"), M("h_diagonal"), M("h_materials"), M("h_transfer"), M("h_view"), M("h_interp"),
                           M("h_vtk", include=["vtk"]), M("h_output", libs=["-L/usr/lib/x86_64-linux-gnu", "-lhdf5_openmpi"]), M("h_options"), M("h_mglevels", (1, 2), part=4), M("h_stokes", (1, 2), part=8),
                           M("h_sem", (1, 2), part=24), M("h_dton", (1, 2), part=24), M("h_singular", (1, 2), part=12), M("h_lubrication", [1], part=32)],
                bounds=dict(quick="the quick cases of C01-C06, C12, C13, C16-C18, C21 and C22, and, on one and two processes, every fourth of C08, every eighth of C07, every twelfth of C20, every 24th of C14 and C15, every 32nd of C19; np in {1,2,4}",
                            thorough="the thorough cases of all of these, np in {1,2,4}"),
                oracle="address and undefined-behaviour sanitizers on everything compiled from cafes", assumptions=[ENV, "PETSc, HDF5 and MPI are not instrumented: what they do with wrong arguments is seen only where they crash"]),
    "C25": dict(harnesses=[H("h_tangential", [1], shards={1: 4}, tshards={1: 8})],
                bounds=dict(quick="4 x 4 curvatures from 0 to 5 (not both 0), 3 gaps, 3 velocities, 9 truncations; 18 distances to the axis in the plateau, the ramp and beyond, both sides (2D) or 7 directions (3D), 7 or 5 places across the gap, both surfaces and the axis included",
                            thorough="7 curvatures (one concave), 6 gaps, 45 distances, 11 directions"),
                oracle="tang::film (harness/tang.hpp): the film written from Reynolds' equation, derivatives by Taylor polynomials; 1e-9 of the largest value; Reynolds' equation, divergence and surface values checked apart", assumptions=["one process: the fields have no distributed part"]),
}
