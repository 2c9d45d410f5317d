"""Registry of the checks: harness sources, builds explored, bounds."""
BOTH = ["asan", "opt"]
COMMON_ASSUME = ["g++ 13 on x86-64, 64-bit IEEE doubles; long double is the 80-bit format",
                 "the choice menus (shapes, values, operations) named under bounds stand for the rest of the input space"]


def H(src, technique, bounds, **k):
    d = dict(src=[src], variants=BOTH, level="model_checking", technique=technique, bounds=bounds, assumptions=list(COMMON_ASSUME))
    d["assumptions"] += k.pop("assume", [])
    d.update(k)
    return d


SEQ = "explicit enumeration of operation sequences on the real code, in lockstep with a reference model"
INP = "explicit enumeration of bounded inputs and call sequences on the real code, in lockstep with a reference model"

CHECKS = {
    "C01": H("h_range.cpp", SEQ,
             "all sequences of up to 3 operations (2 in the sanitised build, 4 when thorough; 12 operations with arguments) on two ranges from menus of 18 and 6 shapes with 0-6 dimensions; all pairs of boxes with bounds in [-1,2] and up to 3 dimensions; shapes of up to 7 dimensions and 65000 cells per dimension",
             assume=["volumes and strides stay below 2^31"]),
    "C02": H("h_cursor.cpp", SEQ,
             "all sub-ranges of all small ranges in 1-3 dimensions, complete walks by ++ and next(), all sequences of moves, resets and copies up to the depth in the harness"),
    "C03": H("h_store.cpp", SEQ,
             "all sequences of 2 operations (3 when thorough) on pairs of containers of 1-3 dimensions, sub-ranges from a menu that includes empty, overlapping, touching and out-of-range ones; block copies between all small sub-ranges and between all pairs of shapes of equal volume (to 30 cells)"),
    "C04": H("h_rset.cpp", INP,
             "every length and piece count in one and two dimensions up to the menus' bounds, menus of lengths and piece counts in 3 and 4 dimensions; construction, re-setup and copies"),
    "C05": H("h_ghost.cpp", INP,
             "meshes of 1-3 dimensions, 0-4 ghost layers, 1-3 points, 1-6 components, any position; re-allocation over every previous shape"),
    "C06": H("h_bc.cpp", INP,
             "meshes of 1-3 dimensions with 2 or more cells per dimension, 1-3 ghost layers, every subset and order of dimensions, several fields, three-call sequences with other boundary conditions, every cell tagged with its own value",
             assume=["edge and corner ghost cells are not specified; at least as many interior cells as ghost layers"]),
    "C07": H("h_bc.cpp", INP, "as C06, for the copy-out, no-slip and free-slip conditions", must_compile=["all_headers.cpp"],
             assume=["edge and corner ghost cells are not specified; at least as many interior cells as ghost layers"]),
    "C08": H("h_bc.cpp", INP, "as C06, for the conducting wall",
             assume=["edge and corner ghost cells are not specified; at least as many interior cells as ghost layers",
                     "the sign of the normal electric component is left open"]),
    "C09": H("h_reg.cpp", SEQ,
             "all sequences of 5 requests (6 when thorough) from a menu of identifiers that agree in some of name, components and basis; up to hundreds of variables; clock and step of new managers; every sequence of 3 settings (4 when thorough) of time and step from 15 values"),
    "C10": H("h_rk.cpp", INP,
             "shapes up to 1100 cells in 1-3 dimensions, 1-6 components, 1-3 ghost layers; every sequence of 4 stage tags (5 when thorough) including invalid tags; steps of q'=aq against the stability polynomial",
             assume=["equality up to 1e-13 of the terms' magnitude"]),
    "C11": H("h_euler.cpp", INP,
             "periodic meshes of up to 5 cells with every assignment of palette gas states to cells, larger meshes up to 16x17 and 400 cells with patterned states, several steps; sums over the interior against round-off of the flux magnitudes"),
    "C12": H("h_euler.cpp", INP,
             "all sequences of palette gas states over the stencil along each axis, all shapes of the menu up to 3 dimensions, sub- and supersonic faces, magnitudes from 1e-30 to 1e30, differences down to 1e-12; long-double reference of the limited HLL flux",
             assume=["cells whose reconstructed face state is unphysical are not specified", "equality up to 1e-9 of the fluxes' magnitude"]),
    "C13": H("h_maxwell.cpp", INP,
             "all sequences of palette fields over the stencil along each axis in 1-3 dimensions, all shapes of the menu (up to 2000 cells), periodic sums, cyclic permutation of axes, sequences of calls, magnitudes from 1e-100 to 1e100",
             assume=["equality up to 1e-9 of the fluxes' magnitude"]),
    "C14": H("h_source.cpp", INP,
             "all vectors with palette entries for momentum, E and B in one cell, fields of 7 magnitudes, shapes of 1-3 dimensions, sequences of 5 calls for two species and two fields (6 when thorough)"),
    "C15": H("h_source.cpp", INP,
             "species lists of length 0-4 (with repetitions) and up to 40, fields of 7 magnitudes, palettes of charges and masses, shapes of 1-3 dimensions, sequences of set-up and solve calls, refused configurations"),
    "C16": H("h_advect.cpp", INP,
             "all palette value sequences over the stencil along each axis, all directions of the velocity in 1-3 dimensions, magnitudes from 1e-320 to 1e150, shapes up to 700 cells, three periodic steps for every pattern, linear profiles, sequences of stages and tags",
             assume=["ghost cells of the result are not specified"]),
    "C17": H("h_vtk.cpp", INP,
             "meshes of 1-3 dimensions up to 700 cells, 4 geometries, lists of up to 100 variables and 33 components, every list of up to 3 variables (5 when thorough), sequences of 5 exports and changes (6), every listed value in every cell of a small mesh; the written file is parsed by an independent reader",
             link=["-ldl"]),
    "C18": H("h_vtk.cpp", "exhaustive fault enumeration below the output stream of the real code", "file-size limit at every byte (every 5th for the larger file in quick), every single and double failing, interrupted or short write call, 7 unwritable targets (one of them: no file descriptor left), for files of 3 sizes (4 when thorough)",
             link=["-ldl"], level="fault_enumeration",
             rule="a case is one export under one fault plan (a file-size limit, a set of failing/short/interrupted write calls, or an unwritable target), followed by an export without faults; cases are distinct if the outcome and the bytes left in the file differ"),
    "C19": H("h_grid.cpp", INP,
             "uniform grids of 1-3 dimensions over menus of index ranges, starts and widths; every cell of every grid; sequences of copies and assignments"),
    "C20": H("h_grid.cpp", INP,
             "non-uniform grids of 1-3 dimensions, every biasing of every dimension with a menu of powers from 0.125 to 12, sequences of 3-4 biasings (one more when thorough)"),
    "C21": H("h_ic.cpp", INP,
             "7 initial conditions with 3-6 parameter sets on menus of meshes and geometries in 1-3 dimensions, three previous contents, one object on two meshes in turn, lists of 0-3 fields",
             assume=["cells whose centre lies on a discontinuity of the profile are not specified"]),
    "C22": H("h_omp.cpp", "controlled scheduling of the real OpenMP build: dynamic partial-order exploration with a checker-owned runtime",
             "25 solver calls and 5 call sequences on 7 meshes (8 when thorough) with team sizes 2-8, 12 and 16 (to 24), meshes of 3001 cells and 61x70 cells with teams of 2 and 8, ascending and descending thread order; every access in a parallel region is recorded; a run without conflicting accesses represents all its interleavings, conflicting accesses are explored with every single forced preemption (teams of 2 and 3; to 4 and two preemptions when thorough); the same calls also run under the real libgomp",
             variants=["mcomp", "omp"], runtime={"mcomp": ["omp_shim.cpp"]},
             assume=["sequentially consistent interleavings of the accesses that gcc's thread instrumentation reports",
                     "with more than 100 (1000) conflict points the preemptions are thinned out evenly; the current tree has none"]),
    "C23": H("h_compose.cpp", SEQ,
             "every sequence of 4 calls (3 in the sanitised build, 5 when thorough) from a menu of 15 on 2 meshes; complete coupled steps for 1-2 species on 5 meshes with every creation order and several call orders; pairs of programs one after another at the same addresses; two problems advanced alternately with one set of solver objects"),
    "C24": H("h_arity.cpp", INP,
             "every number of inputs and outputs from 0 to one more than each solver takes, every position of a missing input; sequences of 5 operations on exceptions (6 when thorough)"),
    "C25": H("h_grid.cpp", INP,
             "every dimension index from a menu including the extremes of int, every coordinate near and far outside, for cursors, containers and both grids of 1-3 dimensions",
             variants=["asan", "dbg"]),
    "C26": H("h_copy.cpp", SEQ,
             "all sequences of 4 copies, assignments, writes and re-allocations (3 in the sanitised build, one more when thorough) on blocks, fields and variables of different shapes"),
    "C27": H("h_fill.cpp", SEQ,
             "shapes of 1-3 dimensions, every list of up to 4 fills and swaps with refusals, longer lists of up to 70 fields, all sequences of 5 operations (6 when thorough)"),
    "C28": H("h_example.cpp", "enumeration of histories of complete simulation runs of the real code, every frame checked",
             "all ordered pairs of the 4 short simulations in one process, each against a process of its own; the 2 longer ones twice; creation failures at 6 frames of each short one; when thorough also the first frames of the reconnection challenge",
             variants=["plain"], examples=True, link=["-ldl"], stall=400),
    "C29": H("h_print.cpp", INP,
             "meshes of 1-4 dimensions up to 700 cells, 1-5 components, 1-2 points, 0-2 ghost layers; every list of up to 4 fields and some of 9 and 20; all sequences of 5 listings, changes and refused requests (6 when thorough); 15 values under 15 stream formats"),
    "C30": H("h_pure.cpp", SEQ,
             "22 solvers; every sequence of 3 operations (2 in the sanitised build, one more when thorough) from solving on 6 problems with two objects, changing settings, copying, assigning, replacing objects and refused requests; every ordered pair of solvers on every pair of problems; repetition in one manager; 70000 calls of one object (1100 sanitised, 400000 thorough) and 140 (40, 400) different meshes, each twice; each reference result comes from a process of its own in which nothing else ran",
             assume=["ghost cells are compared for boundary conditions, fill and swap only"]),
    "C31": H("h_oom.cpp", "exhaustive fault enumeration: every allocation of every call of the real code fails once",
             "22 solvers on 3 meshes (2 in the sanitised build) with and without existing outputs, in solving, set-up, copying and assigning; requests, exports and look-ups of a variable manager; 12 kinds of copies, assignments and set-ups between 5 shapes; every single allocation failing alone or with all later ones (when thorough also a second failure while the request is repeated); the failed call is repeated on the same object, after another assignment, or the object is destroyed",
             level="fault_enumeration",
             rule="a case is one call under one plan of failing allocations, followed by its repetition; states count distinct calls by their number of allocations",
             assume=["memory is taken through operator new", "outside OpenMP parallel regions (the OpenMP runtime ends the program when an exception leaves one)", "an object whose own assignment or set-up ran out of memory is only assigned, set up again or destroyed"]),
    "C32": H("h_threads.cpp", "controlled scheduling of the real code: dynamic partial-order exploration of two threads with a checker-owned scheduler",
             "all ordered pairs of 22 solvers on pairs of 3 problems in two threads with objects of their own (also on one grid), one solver object shared by both, one manager shared with different outputs; all ordered pairs of 14 operations on values, managers, files and identifiers; both thread orders; every access is recorded; a run without conflicting accesses represents all its interleavings, every conflicting access is explored as a preemption point (a second preemption when thorough)",
             variants=["mthr"], runtime={"mthr": ["omp_shim.cpp"]},
             assume=["sequentially consistent interleavings of the accesses that gcc's thread instrumentation reports", "two threads", "with more than 100 (600) conflict points the preemptions are thinned out evenly"]),
    "C33": H("h_sym.cpp", "exhaustive exploration of pairs of executions of the real code",
             "4 programs (gas, fields, two gases with fields, advection) of complete steps with every boundary condition: all 48 (16) signed relabellings of the axes in 1-3 dimensions and all additions of uniform dimensions; all arrangements of 3 states on 5 (6) cells under all turns that keep the axis; all shifts round periodic boxes; 4^4 (6^4) combinations of units of length, time, density and field from 2^-44 to 2^38",
             assume=["units are powers of two"]),
    "C34": H("h_spoil.cpp", "exhaustive fault injection into the data of the real code, compared with the run without the fault",
             "6 programs (gas, fields, two gases with fields, advection, one-stage steps of gas and of fields), every boundary condition, 1-3 dimensions, 1 step (2 for one-stage steps): every component of every cell of every variable, scratch variables included, replaced by nan, inf, -inf, 1e300 and a negative value",
             assume=["one value is spoiled at a time"]),
    "C35": H("h_vtk.cpp", "explicit enumeration of sequences of surroundings on the real code, files parsed by an independent reader",
             "sequences of 2 (3) exports, each with one of 14 surroundings: none, 4 global locales, settings of the standard output, 3 rounding modes, a stale error number, another thread, closed standard streams, an exception on its way, another working directory; meshes of 1-3 dimensions of 3 (4) sizes",
             link=["-ldl"]),
}
