NOTES = {
 "C01": dict(cost="6 s, about 4000 meshes", why="A wrong ownership range only shows on particular (grid, periodicity, process count) triples, all of which up to the bound are visited."),
 "C02": dict(cost="20 s", why="On a basis every entry of every operator is compared, so an error in one coefficient of one element in one corner cannot hide."),
 "C03": dict(cost="22 s"),
 "C04": dict(cost="9 s"),
 "C05": dict(cost="7 s"),
 "C06": dict(cost="11 s"),
 "C07": dict(cost="29 s", why="All solver paths are compared with one dense solution, so they are compared with each other."),
 "C08": dict(cost="27 s"),
 "C09": dict(cost="18 s"),
 "C10": dict(cost="20 s"),
 "C11": dict(cost="24 s"),
 "C12": dict(cost="10 s"),
 "C13": dict(cost="20 s"),
 "C14": dict(cost="90 s", note="Histories matter here: the solver keeps its context, the particles, the control and the last right-hand side between calls. The enumerated history applies, solves, applies again, changes the forces and solves again, and compares with a fresh solver at each point."),
 "C15": dict(cost="115 s"),
 "C16": dict(cost="16 s"),
 "C17": dict(cost="10 s", note="This is a classical explicit state exploration: the alphabet has ten operations (fill, set owned, set all, push add, push insert, pull insert, pull add, fill global, set global, reopen), all words up to the depth are run on the real view and on the model, the whole global vector and every process's window are compared after every operation."),
 "C18": dict(cost="9 s"),
 "C19": dict(cost="42 s, 9561 states"),
 "C20": dict(cost="140 s"),
 "C21": dict(cost="9 s", note="Options are a product of small independent choices, so all combinations can be tried; that none of them touches another's quantity is visible only on combinations."),
 "C22": dict(cost="10 s", note="VTK is not installed. The harness puts a stand-in for the VTK classes on the include path that records what the writers are given (and complains about wrong tuple sizes, writes outside an array, a double delete); io/vtk.hpp itself is compiled unchanged."),
 "C23": dict(cost="15 s", note="The repository's copy of qhull is compiled and linked as its CMakeLists.txt says. Lattice points are the hard case: many points on one circle or plane; coordinates are small integers, so the predicates of the oracle are exact."),
 "C24": dict(cost="280 s, most of it compiling with sanitizers and the solvers", note="The harnesses of the other properties, compiled with -fsanitize=address,undefined; what they compare is ignored here (-vp_mem), only a sanitizer report, replayed alone, is a violation, so a wrong value alone never raises C24. PETSc's arrays come from malloc, which the sanitizer instruments, so accesses one entry outside a vector's array are seen."),
 "C25": dict(cost="14 s, 2430 films, 2 million point evaluations", note="The fields are some thousand lines of generated formulas nobody calls yet; the reference is four lines of lubrication theory and a Taylor polynomial. It showed one wrong derivative (on the axis), repaired, and that the 3D functions take the second body's curvature first (they are consistent with each other that way; the statement says so)."),
}
SEED_NOTES = {
 "c20-far": "C20 (missed at first: crowds with a particle far away were added)",
 "c13-moment3d": "C13 (the processes disagree and part ways: reported as a hang of the case)",
}
