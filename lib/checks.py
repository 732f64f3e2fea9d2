"""Which workloads decide which property, on which build variants, with how many cases."""

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1"]
VARIANTS = {
    "asan": {"flags": ["-O0"] + SAN, "ld": ["-fsanitize=address,undefined"]},
    "asan1": {"flags": ["-O1"] + SAN, "ld": ["-fsanitize=address,undefined"]},
    "asandbg": {"flags": ["-O0", "-DNF_DEBUG=1"] + SAN, "ld": ["-fsanitize=address,undefined"]},
    "tsan": {"flags": ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"], "ld": ["-fsanitize=thread"]},
    "tsan0": {"flags": ["-O0", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"], "ld": ["-fsanitize=thread"]},
    "plain": {"flags": ["-O1", "-g1"], "ld": []},
    "plain0": {"flags": ["-O0", "-g1"], "ld": []},
    "opt": {"flags": ["-O3", "-DNDEBUG"], "ld": []},
}
SOURCES = {
    "core": ["core/database/database.cpp", "core/database/collection.cpp", "core/database/document.cpp",
             "core/dictionary.cpp", "core/demangle.cpp", "core/tokenList.cpp",
             "finiteVolume/cellCentred/stencil/stencilDataBase.cpp", "linearAlgebra/utilities.cpp"],
    "all": ["core/*.cpp", "core/primitives/*.cpp", "core/database/*.cpp", "executor/*.cpp", "dsl/*.cpp",
            "timeIntegration/timeIntegration.cpp", "mesh/unstructured/*Mesh.cpp",
            "linearAlgebra/utilities.cpp",
            "finiteVolume/**/*.cpp",
            # in no build of the project, and does not compile
            "!finiteVolume/cellCentred/operators/expression.cpp"],
}
ASSUME = {
    "core": ["clang 18 sanitizers and libstdc++ behave as documented", "x86-64 Linux"],
    "kokkos": ["the stand-in in shim/kokkos implements the documented semantics of the Kokkos subset used; Kokkos's own back ends are not exercised",
               "clang 18 sanitizers and libstdc++ behave as documented", "double precision, 32-bit labels, x86-64 Linux"],
}
CORE = SOURCES["core"]

def core(name, harness, quick, thorough, variant="asan", **kw):
    g = dict(name=name, harness=harness if isinstance(harness, list) else [harness], kokkos=False, src=CORE, quick=quick, thorough=thorough, variant=variant)
    g.update(kw)
    return g

def kok(name, harness, quick, thorough, variant="asan", src=(), **kw):
    """workload on the monitoring Kokkos stand-in"""
    g = dict(name=name, harness=harness if isinstance(harness, list) else [harness], kokkos=True,
             src=["executor/*.cpp"] + list(src), quick=quick, thorough=thorough, variant=variant)
    g.update(kw)
    return g

CHECKS = {}
NOT_APPLICABLE = {}
LEVEL_NOTES = {
    "core": "Holds on every execution observed; the real sources run under sanitizers against an independent model. Trusts the compiler, libstdc++ and the model in harness/.",
    "kokkos": "Holds on every execution observed; the real sources run on a monitoring Kokkos stand-in under sanitizers. Trusts the compiler, the stand-in's rendering of Kokkos semantics and the reference computation in harness/.",
}

CHECKS["C01"] = dict(
    groups=[core("history", "c01_dictionary.cpp", 400, 20000)],
    rule="a case is a seeded history of 120 (thorough 400) operations on a pool of 1-4 dictionaries; it is non-trivial when operations were executed, distinct by its operation/key sequence")
CHECKS["C02"] = dict(
    groups=[core("access", "c02_dictionary_access.cpp", 1200, 60000)],
    rule="a case is a random (nested) dictionary on which 40 (thorough 120) rounds of failing and read-only accesses are made; distinct by dictionary contents")
CHECKS["C03"] = dict(
    groups=[core("history", "c03_tokenlist.cpp", 1000, 50000)],
    rule="a case is a seeded history of 100 (thorough 300) operations on 1-3 token lists (insert, remove, pop, indexed and sequential reads with right and wrong types, copies); distinct by operation sequence")
CHECKS["C04"] = dict(
    groups=[core("history", "c04_document_ids.cpp", 120, 6000),
            core("race", "c04_document_ids.cpp", 100, 4000, variant="tsan"),
            core("contention", "c04_document_ids.cpp", 6, 200, variant="opt", shards=1, defs=["-DDOCS_PER_THREAD=6000"])],
    rule="a case creates documents concurrently on 2-8 threads released by a barrier (every id ever generated is recorded and must be new) and then runs 60 operations on a pool of documents; distinct by thread count, kinds and operation sequence")
CHECKS["C05"] = dict(
    groups=[core("history", "c05_document_validation.cpp", 500, 20000)],
    rule="a case constructs 12 documents from random nested dictionaries with a spying (half of the time vandalising) validator whose verdict depends on the contents, then modifies and re-validates them and their copies; distinct by contents")
CHECKS["C06"] = dict(
    groups=[core("history", "c06_collections.cpp", 500, 40000)],
    rule="a case is a history on one collection (two mixin types, one hand-written), plain and type-erased, with queries compared to a model after every step; distinct by operation sequence")
CHECKS["C07"] = dict(
    groups=[core("history", "c07_database.cpp", 800, 40000)],
    rule="a case is a history of 90 (thorough 250) insert/remove/look-up operations over 3 collection types with all references held and re-checked after every step; distinct by operation and name sequence")
CHECKS["C08"] = dict(
    groups=[core("history", ["c08_factory.cpp", "c08_other_unit.cpp"], 400, 15000)],
    rule="a case is a history of 60 creations, destructions, listings and failing look-ups (each in a forked child whose exit code and output are observed) over 5 bases with 48 registered classes and overlapping names; distinct by operations and names")
CHECKS["C09"] = dict(
    groups=[core("history", "c09_stencildb.cpp", 1200, 60000)],
    rule="a case is a history of 100 (thorough 300) insertions and reads with right and wrong types, re-checking every stored object by address and value after each step; distinct by operations and keys")
CHECKS["C10"] = dict(
    groups=[core("release", ["c10_errors.cpp", "c10_throwing.cpp"], 240, 8000, probe=["c10_throwing.cpp"]),
            core("debug", ["c10_errors.cpp", "c10_throwing.cpp"], 240, 8000, variant="asandbg", inc=["shim/kokkos"], probe=["c10_throwing.cpp"])],
    rule="a case fires 30 randomly chosen throwing checks, one process-ending check in a child, one length check and 30 name decodings, in release and in debug (NF_DEBUG) builds; distinct by macro kinds, truth values and operands")

# ---------------------------------------------------------------------------------------------- fields
CHECKS["C11"] = dict(
    groups=[core("threads", "c11_threads.cpp", 150, 8000, variant="tsan"),
            core("records", "c11_threads.cpp", 200, 10000),
            core("contention", "c11_threads.cpp", 150, 8000, variant="opt")],
    rule="a case runs 2-8 scripts on objects of their own (dictionaries, token lists, documents, collections, stencil caches, factories, names, errors, inputs) on as many threads at once and alone, then as many readers of shared objects, and compares the records of every script; distinct by scripts and seeds")
CHECKS["F01"] = dict(
    groups=[kok("history", "f01_field_values.cpp", 400, 20000)],
    rule="a case is a history of 50 (thorough 150) constructions, copies, moves, assignments, resizes, swaps and destructions on up to 7 fields of one element type over the three executors; distinct by operations and operands")
CHECKS["F02"] = dict(
    groups=[kok("ops", ["f02_field_arithmetic.cpp", "f02_mixed.cpp"], 400, 20000, probe=["f02_mixed.cpp"])],
    rule="a case applies every operator and free function to 16 operand pairs (4 element types, all lengths from zero, three executors, aliased operands, mismatched lengths); distinct by type, length and values")
CHECKS["F03"] = dict(
    groups=[kok("ranges", "f03_fill_map.cpp", 600, 30000)],
    rule="a case fills, maps and sets 12 fields over a random sub-range (whole, prefix, suffix, interior, single, empty) five times each; distinct by length and range")
CHECKS["F04"] = dict(
    groups=[kok("schedules", "f04_parallel.cpp", 600, 30000),
            kok("threads", "f04_parallel.cpp", 100, 4000, variant="tsan", defs=["-DNFM_THREADS"])],
    rule="a case runs 6 loops, reductions or scans over random ranges with hostile iteration order, chunking and delayed device kernels; distinct by executor, range and kind")
CHECKS["F08"] = dict(
    groups=[kok("partition", "f08_segmented.cpp", 300, 15000)],
    rule="a case builds 12 segmented fields of four value/index types from random lengths (zeros, empty lists) on the three executors and compares every access path; distinct by lengths and executor")
CHECKS["F11"] = dict(
    groups=[kok("release", "f11_views.cpp", 400, 20000), kok("debug", "f11_views.cpp", 300, 12000, variant="asandbg")],
    rule="a case builds views, sub-views and field views of four element types over random parts of buffers, in release and debug builds, with accesses inside and (debug) outside; distinct by type and range")
CHECKS["F10"] = dict(
    groups=[kok("double", "f10_vector.cpp", 500, 40000, src=["core/primitives/*.cpp"]),
            kok("single", "f10_vector.cpp", 300, 20000, src=["core/primitives/*.cpp"], defs=["-UNEOFOAM_DP_SCALAR"])],
    rule="a case evaluates every operator on 40 operand pairs (zeros, signed zeros, denormals, infinities, huge and dyadic values, aliased operands), in double and single precision; distinct by operands")
MESH = ["mesh/unstructured/*Mesh.cpp", "finiteVolume/cellCentred/stencil/stencilDataBase.cpp", "core/primitives/*.cpp", "core/demangle.cpp"]
CHECKS["F09"] = dict(
    groups=[kok("layout", "f09_boundary_layout.cpp", 250, 10000, src=MESH)],
    rule="a case is a history of 25 (thorough 60) constructions, copies, moves, assignments and writes on up to 5 domain fields over random patch layouts (empty patches, no patches) and executors; distinct by operations and layouts")
CHECKS["M01"] = dict(
    groups=[kok("sizes", "m01_mesh1d.cpp", 160, 2000, src=MESH)],
    rule="case i < 150 checks the 1D mesh of i+1 cells on the three executors, later cases random sizes up to 700 (thorough 5000); every 10th case also the single-cell mesh; distinct by size")
CHECKS["M02"] = dict(
    groups=[kok("access", "m02_mesh_access.cpp", 300, 15000, src=MESH)],
    rule="a case assembles 3 meshes of arbitrary connectivity, geometry and patch layout on random executors and reads every list and per-patch slice; distinct by connectivity and layout")
CHECKS["M03"] = dict(
    groups=[kok("stencil", "m03_cell_face_stencil.cpp", 400, 20000, src=MESH + ["finiteVolume/cellCentred/stencil/cellToFaceStencil.cpp"])],
    rule="a case computes the stencil of 4 meshes (random connectivity, hubs, boxes, no faces, several boundary faces per cell) twice each; distinct by connectivity and layout")
CHECKS["M04"] = dict(
    groups=[kok("pattern", "m04_sparsity.cpp", 400, 20000, src=MESH + ["finiteVolume/cellCentred/linearAlgebra/*.cpp"])],
    rule="a case builds, updates and caches the patterns of 4 meshes (random connectivity, hubs, stars of up to 255 faces, boxes); distinct by connectivity")
GEOM = MESH + ["finiteVolume/cellCentred/stencil/*.cpp"]
CHECKS["M05"] = dict(
    groups=[kok("geometry", "m05_geometry.cpp", 300, 15000, src=GEOM)],
    rule="a case compares the schemes of 3 pairs of meshes (non-uniform boxes with permuted numbering, arbitrary geometry) with the reference formulas; distinct by connectivity and layout")
INTERP = GEOM + ["finiteVolume/cellCentred/interpolation/*.cpp", "finiteVolume/cellCentred/faceNormalGradient/*.cpp"]
for _id, _n, _t in (("I01", 1, "linear interpolation"), ("I02", 2, "upwind interpolation (signs drawn per face, zeros and denormals included)"), ("I03", 3, "the face-normal gradient")):
    CHECKS[_id] = dict(
        groups=[kok("faces", "i_interp.cpp", 300, 15000, src=INTERP, defs=["-DWHAT=%d" % _n])],
        rule="a case evaluates " + _t + " on 3 random meshes, scalar and vector fields, from dictionary and token inputs, copied schemes; distinct by connectivity and layout")
FVALL = SOURCES["all"]
_OPS = {1: ("O01", "explicit divergence"), 2: ("O02", "implicit divergence"), 3: ("O03", "explicit Laplacian"), 4: ("O04", "implicit Laplacian"),
        5: ("O05", "source and time-derivative terms, explicit and implicit"), 6: ("O06", "the Gauss gradient"), 7: ("O07", "surface integration")}
for _n, (_id, _t) in _OPS.items():
    CHECKS[_id] = dict(
        groups=[kok("cells", "o_ops.cpp", 250, 12000, src=FVALL, defs=["-DWHAT=%d" % _n])],
        rule="a case evaluates " + _t + " on 3 random meshes (arbitrary connectivity and geometry, hubs, boxes, several boundary faces per cell), scalar and vector fields, plain and field coefficients, every entry point (strategy, clone, operator object, copy, equation language), executors and kernel schedules; distinct by connectivity and layout")
CHECKS["O08"] = dict(
    groups=[kok("histories", "o08_history.cpp", 150, 12000, src=FVALL)],
    rule="a case is a history of 40 (thorough 80) evaluations on two meshes of the same size at a time, between which fields, fluxes, diffusivities, coefficients, old-time values and boundary values change (in place or by assignment), operators, schemes and expressions are scaled or replaced by copies and a mesh is replaced by another one of the same size at the same address; every evaluation of the long-lived objects is compared with the sums over the current data; distinct by connectivity and layout")
CHECKS["S01"] = dict(
    groups=[kok("settings", "s01_settings.cpp", 400, 30000, src=FVALL)],
    rule="a case builds equations of random terms on random (similar) field names from random settings (built-in schemes and schemes registered by the harness, decoys in other entries and sections), twice (thorough four times) with different settings, evaluates and solves them; or boundary conditions, interpolations, gradients and operators made directly; then settings that must be refused; distinct by mesh and terms")
for _id, _n, _t in (("B01", 1, "calculated, empty, extrapolated, fixed-value and fixed-gradient conditions on volume fields"), ("B02", 2, "calculated, empty and fixed-value conditions on surface fields")):
    CHECKS[_id] = dict(
        groups=[kok("patches", "b_boundary.cpp", 300, 15000, src=MESH, defs=["-DWHAT=%d" % _n])],
        rule="a case puts random " + _t + " on the patches of 4 random meshes and makes 5 corrections each (whole field, copies, changed internal or boundary values, single conditions, other orders); distinct by connectivity, layout and kinds")
LINALG = MESH + ["finiteVolume/cellCentred/linearAlgebra/*.cpp", "linearAlgebra/utilities.cpp"]
CHECKS["L01"] = dict(
    groups=[kok("entries", "l_linalg.cpp", 300, 15000, src=LINALG, defs=["-DWHAT=1"])],
    rule="a case builds 3 matrices (double, single and vector coefficients, three index types; empty, full, sorted and unsorted rows, or a mesh pattern) and reads, writes, copies and converts them inside kernels on random executors; accesses outside the structure run in a child process; distinct by structure, type and executor")
CHECKS["L02"] = dict(
    groups=[kok("systems", "l_linalg.cpp", 300, 15000, src=LINALG, defs=["-DWHAT=2"])],
    rule="a case builds 3 linear systems of random structure, computes residuals against the dense computation and copies, converts, views and resets them; distinct by structure, type and executor")

CHECKS["L03"] = dict(
    groups=[kok("backends", "l03_backends.cpp", 300, 12000, src=LINALG + ["linearAlgebra/ginkgo.cpp"], inc=["shim/ginkgo", "shim/petsc"],
                defs=["-UNF_WITH_GINKGO", "-UNF_WITH_PETSC", "-DNF_WITH_GINKGO=1", "-DNF_WITH_PETSC=1", "-DKOKKOS_ENABLE_CUDA"])],
    rule="a case is a history of 10 (thorough 24) creations, copies, moves, removals and solves of up to 6 solver objects (Ginkgo, PETSc, user-defined) on up to 4 random systems, with 4 random settings dictionaries handed over; distinct by systems, solvers and executor")

def mpi(name, harness, quick, thorough, variant="asan", **kw):
    """workload on the monitoring MPI stand-in (and the Kokkos one, which the headers need)"""
    src = kw.pop("src", [])
    kw["inc"] = ["shim/mpi"] + kw.pop("inc", [])
    kw["defs"] = ["-DNF_WITH_MPI_SUPPORT", "-DNF_REQUIRE_MPI_THREAD_SUPPORT"] + kw.pop("defs", [])
    return kok(name, [harness, "../shim/mpi/nfm_mpi.cpp"], quick, thorough, variant, src=["core/mpi/*.cpp", "core/primitives/*.cpp"] + src, **kw)

CHECKS["P01"] = dict(
    groups=[mpi("release", "p01_half_duplex.cpp", 600, 30000), mpi("debug", "p01_half_duplex.cpp", 200, 10000, variant="asandbg")],
    rule="a case is a history of 18 (thorough 60) messages of 8 value types through one buffer in a world of 1-6 ranks whose other ends are played by the driver with random delays, with resizing, dropped messages, copies and (debug build, in a child process) uses out of order; distinct by operations, sizes and types")

CHECKS["P02"] = dict(
    groups=[mpi("exchange", "p02_duplex.cpp", 500, 25000), mpi("debug", "p02_duplex.cpp", 100, 3000, variant="asandbg"),
            mpi("race", "p02_duplex.cpp", 100, 4000, variant="tsan")],
    rule="a case runs 1-3 simultaneous exchanges of 1-3 (thorough 6) rounds among 1-6 (8) ranks, with random (asymmetric, sparse) size matrices, 8 value types and random delays, ranks interleaved at random in one thread or each on its own thread; every 97th case uses two names that share a tag; distinct by names, sizes and types")

CHECKS["P03"] = dict(
    groups=[mpi("collectives", "p03_collective.cpp", 400, 20000), mpi("race", "p03_collective.cpp", 80, 3000, variant="tsan")],
    rule="a case builds a world of 1-6 ranks (threads) and a random communicator in it, reduces values of 4 of 17 types with every operation and vectors with four, and exchanges messages of those types with random tags, sizes and delays; distinct by world, communicator and seed")

CHECKS["P04"] = dict(
    groups=[mpi("fields", "p04_exchange.cpp", 400, 20000, src=["mesh/unstructured/communicator.cpp"]),
            mpi("debug", "p04_exchange.cpp", 80, 3000, variant="asandbg", src=["mesh/unstructured/communicator.cpp"])],
    rule="a case runs 1-4 (thorough 6) simultaneous exchanges of 1-3 rounds of fields of one type on random executors among 1-5 ranks with random send and receive maps, ranks interleaved at random; distinct by names")

for _id, _n, _t in (("D01", 1, "registrations, creations from existing fields, modifications and refused requests"), ("D02", 2, "registrations, modifications and requests for old-time fields (new, repeated, of old-time fields, constant)")):
    CHECKS[_id] = dict(
        groups=[kok("history", "d_fielddb.cpp", 200, 10000, src=MESH + ["core/database/*.cpp", "core/dictionary.cpp", "core/tokenList.cpp"], defs=["-DWHAT=%d" % _n])],
        rule="a case is a history of 25 (thorough 60) " + _t + " over scalar and vector fields in 4 collections of 1-2 databases, with every registered field, document, query and link re-checked after every step; distinct by operation sequence")

CHECKS["E01"] = dict(
    groups=[kok("trees", "e_expr.cpp", 150, 8000, src=FVALL)],
    rule="a case builds 3 random expression trees (up to 60 terms, spatial and temporal, explicit and implicit, probing and real operators, scaled by numbers, fields and coefficients, grouped with all operators, also with themselves), evaluates them and the operands they were built from, and checks coefficient products; distinct by tree")
_EQ = {"E02": (2, "a steady equation, solved 1-3 times in a row"), "E03": (5, "an equation (40 % with a time derivative) kept as an assembled system: 1-3 (thorough 5) rounds of assembling, copying, taking residuals of random fields, pinning a cell and solving"), "T01": (1, "an equation in time, explicit Euler, 1-4 (thorough 8) steps of changing size"), "T02": (3, "an equation in time, implicit Euler, 1-4 (thorough 8) steps of changing size")}
for _id, (_n, _t) in _EQ.items():
    CHECKS[_id] = dict(
        groups=[kok("equations", "e_solve.cpp", 150, 8000, src=FVALL, defs=["-DWHAT=%d" % _n], **({"probe": ["e_solve.cpp"]} if _id == "E03" else {}))],
        rule="a case solves 3 times " + _t + ", made of up to 6 (thorough 9) random terms with number and field coefficients on a random mesh and executor, with an exact dense solver registered with the library; distinct by connectivity and layout")
CHECKS["T04"] = dict(
    groups=[kok("equations", "e_solve.cpp", 150, 8000, src=FVALL + ["timeIntegration/rungeKutta.cpp"], defs=["-DWHAT=4"], inc=["shim/sundials"], leaks=True)],
    rule="a case solves 3 times an equation in time by the Runge-Kutta integrator, 1-4 (thorough 8) steps of changing size, with equations and states replaced between steps, on a stand-in of the ODE solver; distinct by connectivity and layout")
CHECKS["T03"] = dict(
    groups=[kok("courant", "t_conum.cpp", 250, 12000, src=FVALL)],
    rule="a case computes the Courant number (return value and printed maximum and mean) on 5 random meshes with fluxes that are random, zero, one-sided, on one face or of very different magnitudes, three times each (also twice the step, and other flux directions); distinct by connectivity and layout")

# every object of the library is released with its owner: the workloads under the leak checker
_L = dict(leaks=True)
CHECKS["R01"] = dict(
    groups=[core("dictionaries", "c01_dictionary.cpp", 40, 4000, shards=2, **_L), core("tokens", "c03_tokenlist.cpp", 60, 6000, shards=2, **_L),
            core("collections", "c06_collections.cpp", 60, 6000, shards=2, **_L), core("databases", "c07_database.cpp", 100, 8000, shards=2, **_L),
            core("factories", ["c08_factory.cpp", "c08_other_unit.cpp"], 60, 4000, shards=2, **_L),
            kok("objects", ["multi.cpp", "multi_life.cpp", "multi_solve.cpp"], 240, 20000, src=FVALL, **_L)],
    rule="cases of the workloads of C01, C03, C06, C07, C08, D02, E01, F01, F09, L02, T02 and T03; after each case the leak checker walks all memory and the executor allocations are balanced; distinct as in those workloads")
CHECKS["R02"] = dict(
    groups=[core("containers", "r02_faults.cpp", 200, 20000, **_L),
            kok("work", ["multi_fault.cpp", "multi_life.cpp", "multi_ops1.cpp", "multi_ops2.cpp", "multi_mesh.cpp", "multi_solve.cpp", "f02_mixed.cpp"], 40, 6000, src=FVALL, **_L),
            kok("fields", "r02_fields.cpp", 6, 3000, src=FVALL, **_L)],
    rule="a case is a history of 25 (thorough 60) operations on dictionaries, token lists, documents, collections, a database, a stencil cache and a factory, each of them repeated with every single one of its allocations, and of its calls of the caller's code, failing; group work: cases of the other workloads with random single allocations failing; group fields: histories of 8 (thorough 30) operations on fields, meshes, cached mesh data, linear systems, registered and old-time fields, each repeated with every single allocation failing; distinct by operations")
# kernels under the race detector, iterations on real threads
CHECKS["F06"] = dict(
    groups=[kok("kernels", ["multi.cpp", "multi_ops1.cpp", "multi_ops2.cpp", "multi_mesh.cpp", "multi_solve.cpp", "f02_mixed.cpp"], 880, 60000, variant="tsan0", defs=["-DNFM_THREADS"], src=FVALL)],
    rule="cases of the workloads of F02, F03, F08, M01, M03-M05, I01-I03, O01-O07, B01-B02, E03, L02, T02 and T03 in turn, with the iterations of every parallel kernel spread over 2-6 real threads in a random order, under the race detector; distinct as in those workloads")
_ALL = ["multi_ops1.cpp", "multi_ops2.cpp", "multi_mesh.cpp", "multi_solve.cpp", "f02_mixed.cpp"]
CHECKS["F05"] = dict(
    groups=[kok("separate", ["multi_same.cpp"] + _ALL, 440, 30000, hflags=["-DWHAT=5"], src=FVALL)],
    rule="a case runs one case of a workload (F02, F03, F08, M01, M03-M05, I01-I03, O01-O07, B01-B02, E03, L02, T02, T03 in turn) on the serial executor and twice, under other schedules, on the executor whose memory host code cannot touch and whose kernels cannot touch host memory, and compares all values read; distinct as in those workloads")
CHECKS["F07"] = dict(
    groups=[kok("schedules", ["multi_same.cpp"] + _ALL, 330, 30000, hflags=["-DWHAT=7"], src=FVALL),
            kok("threads", ["multi_same.cpp"] + _ALL, 220, 30000, variant="plain0", hflags=["-DWHAT=7"], defs=["-DNFM_THREADS"], src=FVALL)],
    rule="a case runs one case of a workload (as for F05) on the serial executor, three times on the parallel host executor and once on the executor with separate memory, each under another iteration order and asynchrony (group threads: on 2-6 real threads), and compares all values read; distinct as in those workloads")
# in debug builds every access of a kernel to a view is checked
CHECKS["F11"]["groups"].append(kok("kernels", ["multi.cpp", "multi_life.cpp"] + _ALL, 120, 20000, variant="asandbg", src=FVALL))
CHECKS["F11"]["rule"] += "; group kernels: cases of the workloads of F01-F03, F08, F09, M01, M03-M05, I01-I03, O01-O07, B01-B02, D02, E01, E03, L02, T02 and T03 in turn in a debug build, every access of their kernels to views being checked"
# quick counts: as many cases as fit in about as much time as the build takes
_MORE = {"C11": 3, "C01": 2, "C02": 3, "C03": 3, "C04": 4, "C05": 3, "C07": 6, "C08": 6, "C09": 4, "C10": 6, "F04": 6, "F10": 6, "F11": 2,
         "R01": 1.5, "F05": 1.5, "F06": 1, "F07": 1.5, "C06": 1, "M04": 4, "M05": 3, "I01": 4, "L01": 3, "D01": 4, "D02": 3}
for _id, _c in CHECKS.items():
    for _g in _c["groups"]:
        _g["quick"] = int(_g["quick"] * _MORE.get(_id, 5))
