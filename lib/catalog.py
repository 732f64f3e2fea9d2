"""Catalogue of the properties: the single source of properties.jsonl (python3 lib/catalog.py writes it)."""
import json, os

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": quant},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": m.split(" @ ")[0], "where": m.split(" @ ")[1]} for m in mech],
            "observe_at": observe or ["public API, sanitizer runtime"],
            "hook_needed": None,
        },
    })


I = "include/NeoFOAM/"
S = "src/"
FV = "finiteVolume/cellCentred/"
DB = "core/database/"

# ------------------------------------------------------------------------------------ C: core
prop("C01", "Dictionary is a faithful keyed store of typed values",
     "After any sequence of insertions, removals, typed accesses and nested-dictionary accesses, a dictionary contains exactly the keys inserted and not removed, each with the last value written to it, bit for bit and with its own type. "
     "A dictionary is a value: copies (also of nested dictionaries) never share state with the original, and references obtained from it write through to the stored value.",
     ["histories", "inputs"], "every history of dictionary operations, over all keys and value types, including copies taken in between and nested dictionaries",
     "The tests run a handful of fixed insert/get sequences over three keys; aliasing, stale references, removal and re-insertion, copy independence and nested histories are never exercised.",
     [I + "core/dictionary.hpp", S + "core/dictionary.cpp"],
     ["unordered_map<string, any> @ " + I + "core/dictionary.hpp", "insert/remove/operator[]/subDict/keys @ " + S + "core/dictionary.cpp"])
prop("C02", "Dictionary access never fabricates, converts or corrupts a value",
     "Accessing a key that is absent (at any nesting level, const or not) throws std::out_of_range, and asking for a value as a type other than the stored one throws std::bad_any_cast; reads of absent keys are reported on the error stream with the key asked for and the available keys, mistyped reads with the key and both types. "
     "A failed or read-only access (lookup, contains, isDict, keys, const get) leaves the dictionary exactly as it was: no key is created and no value is converted or default-constructed.",
     ["histories", "inputs"], "every dictionary state and every failing or read-only access to it",
     "One test accesses one missing key; no test asks for a wrong type, checks the state after a failed access, or does so through const or nested access.",
     [I + "core/dictionary.hpp", S + "core/dictionary.cpp", I + "core/demangle.hpp"],
     ["logOutRange and rethrow @ " + S + "core/dictionary.cpp", "logBadAnyCast and rethrow @ " + I + "core/demangle.hpp"])
prop("C03", "TokenList is a faithful sequence with an exact read cursor",
     "A token list holds exactly the tokens inserted and not removed, in insertion order with their own types; removal by index and popping the front remove exactly the addressed token. "
     "Sequential reading returns the tokens one after another, each exactly once, starting at the given start index; a failed read (past the end, or of the wrong type) throws std::out_of_range or std::bad_any_cast, neither advances the reader nor changes the list, and copies read independently from the position copied.",
     ["histories", "inputs"], "every history of token list operations interleaved with sequential reads, failed reads, and copies",
     "No test of the token list is part of the stable suite; upstream tests read one fixed list.",
     [I + "core/tokenList.hpp", S + "core/tokenList.cpp", I + "core/input.hpp"],
     ["nextIndex_ advanced only after a successful get @ " + I + "core/tokenList.hpp", "insert/remove @ " + S + "core/tokenList.cpp"])
prop("C04", "Document identifiers are unique and stable, for any creation schedule",
     "Every document created without an identifier of its own receives one no other such document in the process has, also when documents are created concurrently from many threads. "
     "An identifier supplied by the user is kept, and the identifier of a document never changes when the document is read, modified under other keys, validated, copied or moved.",
     ["schedules", "histories"], "all interleavings of document creation on several threads, and all histories of use of a document",
     "The tests create a few documents on one thread and check that ids are not empty.",
     [I + DB + "document.hpp", S + DB + "document.cpp"],
     ["generateID with an atomic counter @ " + I + DB + "document.hpp", "constructor keeps a supplied id @ " + S + DB + "document.cpp"])
prop("C05", "Documents that fail validation cannot come into existence",
     "Constructing a document whose validator rejects its contents throws std::runtime_error, a document accepted at construction has all contents it was given plus an id, and re-validating at any later time reports the validator's verdict on the current contents (true, or std::runtime_error). "
     "The validator sees the complete document (including its id), is consulted on every validation, and cannot alter the document.",
     ["histories", "inputs"], "all validators, document contents and later modifications",
     "One accepting and one rejecting validator are tried at construction; validation after modification and what the validator is shown are not observed.",
     [I + DB + "document.hpp", S + DB + "document.cpp"],
     ["validate in the constructor @ " + S + DB + "document.cpp"])
prop("C06", "Collections find, order and hand out exactly the documents they hold",
     "For any set of documents in a collection, size counts them, a query returns the identifiers of exactly the documents satisfying the predicate (each once), the sorted key list is the strictly increasing list of all identifiers, and fetching by identifier yields that document itself (changes through it are visible to later queries); fetching an unknown identifier throws std::out_of_range. "
     "The same answers are given through the type-erased collection, which reports the name, type and database of the collection it wraps, gives the concrete collection back only as the type it really has (std::bad_cast otherwise), and survives being moved.",
     ["histories", "inputs"], "all document sets, predicates, modification histories and moves of the collection",
     "Tests hold one or two documents and one predicate.",
     [I + DB + "collection.hpp", S + DB + "collection.cpp"],
     ["CollectionMixin::find/doc/sortedKeys @ " + I + DB + "collection.hpp", "CollectionModel type erasure @ " + I + DB + "collection.hpp"])
prop("C07", "Database keeps each registered collection until it is removed",
     "After any history of insertions, removals and lookups, the database contains exactly the collections inserted and not removed under their names; inserting under a taken name leaves the registered collection untouched and returns it, removal reports whether something was removed, and looking up an unknown name throws std::out_of_range without registering anything. "
     "References to registered collections stay valid and keep denoting the same collection whatever else is inserted or removed.",
     ["histories"], "all histories of insert, remove, contains, at and typed at, with references held across them",
     "Tests insert one to three collections and look them up at once; rehashing, duplicates, removal and stale references are not exercised.",
     [I + DB + "database.hpp", S + DB + "database.cpp"],
     ["try_emplace into a node-based map @ " + S + DB + "database.cpp"])
prop("C08", "Runtime selection creates exactly the registered class, or fails loudly",
     "Every class registered with a base class before main is listed exactly once among that base's entries, has its own documentation and schema (also through the global documentation registry by base name), and creating by its name yields a fresh object of exactly that class constructed from exactly the arguments given. "
     "Creating by a name not registered with that base terminates the process with exit code 1 after a message naming the unknown key and every valid one, whatever other bases know that name; failed look-ups, queries, creation and destruction of objects never change what is registered.",
     ["histories", "programs", "inputs"], "all sets of bases and registered classes, names, constructor arguments and histories of creation and destruction",
     "Tests register two bases with one class each and create them once with a valid name; failing look-ups, argument forwarding and cross-base separation are not observed.",
     [I + "core/runtimeSelectionFactory.hpp", I + "core/error.hpp"],
     ["static table per base, keyExistsOrError @ " + I + "core/runtimeSelectionFactory.hpp", "NF_ERROR_EXIT @ " + I + "core/error.hpp"])
prop("C09", "Stencil cache computes-once: first value stored under a key wins",
     "A stencil cache returns, for every key, the very object first stored under it, by reference and with its type, for as long as the cache lives; storing again under the same key changes nothing, other keys are unaffected. "
     "Reading an unknown key throws std::out_of_range and reading with the wrong type throws std::bad_any_cast, in both cases without creating or changing an entry.",
     ["histories", "inputs"], "all histories of insert, contains, const and non-const access, with references held across insertions",
     "There is no stable test of the stencil cache.",
     [I + FV + "stencil/stencilDataBase.hpp", S + FV + "stencil/stencilDataBase.cpp"],
     ["emplace never overwrites @ " + I + FV + "stencil/stencilDataBase.hpp"])
prop("C10", "Violated checks are loud: assertions, throws and diagnostics always fire",
     "A checked condition that is false always either throws the documented exception type or ends the process with exit code 1, and the message contains the caller's text, the failed condition and the source file and line; a condition that is true has no effect, evaluates its operands exactly once and its message not at all, and every macro is one statement wherever it stands. "
     "Debug-only checks behave the same in debug builds and, like the debug diagnostics, have no effect at all in release builds, and readable type names are produced for every type without changing names that cannot be decoded.",
     ["inputs", "configurations"], "all check macros, conditions, messages and both build modes, and all type names",
     "The unit tests only run paths on which the conditions hold.",
     [I + "core/error.hpp", I + "helpers/exceptions.hpp", I + "core/info.hpp", I + "core/demangle.hpp", S + "core/demangle.cpp"],
     ["NF_ASSERT / NF_THROW / NF_ERROR_EXIT macros @ " + I + "core/error.hpp", "abi::__cxa_demangle with fallback @ " + S + "core/demangle.cpp"])
prop("C11", "Separate objects serve different threads, shared ones any number of readers",
     "Dictionaries, token lists, documents, collections, databases, stencil caches and factory-made objects have no hidden state in common: threads that each work on objects of their own, and threads that only read objects they share (through const access other than the reading cursor of a token list), "
     "run free of data races and get exactly the results, exceptions and objects they would get running alone, whatever the others create, change, look up in vain or destroy at the same time.",
     ["schedules", "histories"], "all numbers of threads, interleavings and histories of operations on separate objects, and of reads of shared ones",
     "The unit tests use every object from one thread; a race shows only in particular interleavings.",
     [I + "core/dictionary.hpp", I + "core/tokenList.hpp", I + DB + "document.hpp", I + DB + "collection.hpp", I + DB + "database.hpp", I + "core/runtimeSelectionFactory.hpp", I + FV + "stencil/stencilDataBase.hpp", I + "core/error.hpp", S + "core/demangle.cpp"],
     ["lookup tables and REGISTERED flags @ " + I + "core/runtimeSelectionFactory.hpp", "Document::generateID @ " + I + DB + "document.hpp"])

# ------------------------------------------------------------------------------------ F: fields
prop("F01", "Fields are values: copies never alias, storage is freed exactly once",
     "A field constructed, copied (also to another executor), assigned, moved, resized or swapped holds exactly the values the equivalent sequence container would hold, on the executor asked for; no copy shares storage with its source, and writing to one field never changes another. "
     "Every allocation is released exactly once, in the memory space it came from, with none left when all fields are gone, over any history including empty fields and self-assignment.",
     ["histories", "inputs", "configurations"], "all histories of construct, copy, assign, move, resize and destroy on every pair of executors and all sizes including zero",
     "Kokkos-based tests are not in the stable suite, and those upstream sample single copies; leaks, double frees and aliasing are invisible to them.",
     [I + "fields/field.hpp", I + "fields/operations/sum.hpp", I + "core/executor/executor.hpp"],
     ["alloc/free/realloc through the executor @ " + I + "core/executor/executor.hpp", "copy, move, resize @ " + I + "fields/field.hpp"])
prop("F02", "Field arithmetic is exact elementwise arithmetic and rejects size mismatch",
     "Addition, subtraction, multiplication, scalar scaling and the in-place variants of them on fields give, at every index, the same operation on the operands' elements, on any executor, leave their (other) operands unchanged, and are correct when an operand is the target itself. "
     "Operands of different length are rejected with an exception before any element is changed.",
     ["inputs", "configurations"], "all lengths, values, executors and operand aliasing patterns",
     "Upstream tests use constant-valued fields of one size, where index mix-ups and partial ranges are invisible.",
     [I + "fields/field.hpp", I + "fields/fieldFreeFunctions.hpp"],
     ["fieldBinaryOp and scalar_mul @ " + I + "fields/fieldFreeFunctions.hpp"])
prop("F03", "Filling and mapping a field touches exactly the requested index range",
     "Filling, setting from another range, or mapping a function over a field writes to every index of the requested half-open range exactly the value requested for that index and leaves every index outside the range as it was; without a range the whole field is covered. "
     "This holds for empty, single-element, prefix, suffix and interior ranges on any executor.",
     ["inputs", "configurations"], "all fields, sub-ranges, mapping functions and executors",
     "Upstream tests fill whole fields and one sub-range.",
     [I + "fields/fieldFreeFunctions.hpp", I + "fields/field.hpp", I + "core/view.hpp"],
     ["map, fill, setField over a pair range @ " + I + "fields/fieldFreeFunctions.hpp"])
prop("F04", "Parallel loops run every index exactly once; reductions and scans are exact",
     "A parallel loop invokes its body exactly once for every index of the range and never for another, on every executor and iteration order, and its effects are complete when results are read back. "
     "A reduction returns the reduction of the elements of the range with the given reducer (its identity on an empty range), and a prefix scan returns the partial sums and the total that a sequential scan would give.",
     ["schedules", "inputs", "configurations"], "all ranges (including empty), reducers, executors, chunkings and iteration orders",
     "Upstream tests run one contiguous range with sums in one order.",
     [I + "core/parallelAlgorithms.hpp", I + "core/executor/executor.hpp"],
     ["parallelFor/parallelReduce/parallelScan dispatch by executor @ " + I + "core/parallelAlgorithms.hpp"])
prop("F05", "Host code and device kernels never touch each other's memory",
     "With executors whose memory is separate, every field, boundary, mesh, sparsity, matrix and operator computation only dereferences memory of the space it executes in, and data crosses between spaces only through explicit copies whose contents arrive complete and unchanged. "
     "A result computed on such an executor equals the host result.",
     ["configurations", "inputs", "programs"], "all library operations on an executor with separate memory, over all meshes and inputs generated",
     "On the machines that run the tests all executors share one address space, so a host access to device data goes unnoticed.",
     [I + "core/executor/GPUExecutor.hpp", I + "fields/field.hpp", S + FV + "operators/gaussGreenDiv.cpp", S + "mesh/unstructured/unstructuredMesh.cpp"],
     ["copyToHost/copyToExecutor mirrors @ " + I + "fields/field.hpp", "executor-owned allocation @ " + I + "core/executor/GPUExecutor.hpp"])
prop("F06", "Parallel kernels are free of data races",
     "No two iterations of a parallel kernel of the library access the same memory location without synchronisation when at least one of them writes, for meshes of any connectivity, including cells with many faces and several boundary faces.",
     ["schedules", "inputs"], "all interleavings of the iterations of every kernel, over meshes of arbitrary connectivity",
     "The test executor runs few iterations in order on tiny 1D meshes with at most one boundary face per cell, where races cannot show.",
     [S + FV + "operators/gaussGreenDiv.cpp", S + FV + "operators/gaussGreenGrad.cpp", S + FV + "operators/surfaceIntegrate.cpp", S + FV + "operators/gaussGreenLaplacian.cpp", S + FV + "linearAlgebra/sparsityPattern.cpp", S + FV + "stencil/basicGeometryScheme.cpp"],
     ["Kokkos::atomic_add/sub on shared cells @ " + S + FV + "operators/gaussGreenDiv.cpp"])
prop("F07", "Results do not depend on executor, iteration order or number of threads",
     "Any computation of the library gives the same result on every executor, for every order in which a parallel space may execute iterations and complete kernels, up to floating-point reassociation where contributions to one cell are summed.",
     ["schedules", "configurations", "inputs"], "all executors, iteration orders, thread counts and asynchronous completion times of kernels",
     "Tests compare against constants in one order; an order dependence or a missing synchronisation only shows on other schedules.",
     [I + "core/parallelAlgorithms.hpp", S + FV + "operators/gaussGreenDiv.cpp", I + "fields/segmentedField.hpp"],
     ["order-independent kernels, atomics, fences @ " + I + "core/parallelAlgorithms.hpp"])
prop("F08", "Segmented fields partition their values exactly by the given segment lengths",
     "A segmented field built from segment lengths has exactly one segment per length, with exactly that many values; segments are contiguous, disjoint, in order and cover all values, empty segments included. "
     "Reading or writing through a segment touches exactly its values, and range, iterator-style and bounds access to a segment all agree.",
     ["inputs", "configurations"], "all sequences of segment lengths (including zeros and empty sequences) and executors",
     "Upstream tests use a few equal or small increasing lengths.",
     [I + "fields/segmentedField.hpp"],
     ["segmentsFromIntervals prefix scan @ " + I + "fields/segmentedField.hpp", "SegmentedFieldView::view/range/bounds @ " + I + "fields/segmentedField.hpp"])
prop("F09", "Boundary data of a field is laid out patch by patch, without overlap",
     "For any mesh, the boundary values, reference values, gradients, fractions and types of a field have one slot per boundary face and patch respectively, and the index range of each patch is exactly the range of that patch's faces in the mesh, so that patches cover all boundary faces without overlap. "
     "Domain fields and boundary fields copy as values: changing a copy never changes the original.",
     ["inputs", "histories", "configurations"], "all patch layouts (including empty patches), executors and copy histories",
     "Upstream tests use two patches of one face each.",
     [I + "fields/boundaryFields.hpp", I + "fields/domainField.hpp", S + "mesh/unstructured/boundaryMesh.cpp"],
     ["offset_ of the boundary mesh @ " + I + "fields/boundaryFields.hpp"])
prop("F10", "Vector arithmetic satisfies componentwise algebra",
     "Addition, subtraction, scaling (from either side), in-place forms, inner product, magnitude and comparison of 3-component vectors equal the componentwise textbook result for every operand, including operands aliasing the target, and never modify their other operands.",
     ["inputs"], "all vectors including zeros, negative, tiny, huge and aliased operands",
     "Upstream tests evaluate one pair of vectors.",
     [I + "core/primitives/vector.hpp", I + "core/primitives/scalar.hpp", I + "core/primitives/traits.hpp", S + "core/primitives/vector.cpp"],
     ["Vector operators @ " + I + "core/primitives/vector.hpp"])
prop("F11", "Views never reach outside the data they were given",
     "A view of a range exposes exactly the elements given, sub-views expose exactly the requested sub-range of the parent, and both write through. "
     "In debug builds every access with an index outside the view is detected and terminates (or aborts) the program with a diagnostic, and no access inside the view is; the kernels of the library itself make no access outside their views on valid input.",
     ["inputs", "configurations"], "all views, sub-views and indices, valid and invalid, in debug and release builds",
     "Upstream tests index one view within bounds and check one out-of-range access.",
     [I + "core/view.hpp", I + "fields/field.hpp"],
     ["bounds check in operator[] under debug @ " + I + "core/view.hpp"])

# ------------------------------------------------------------------------------------ M: mesh
prop("M01", "The uniform 1D mesh is geometrically consistent for every size",
     "For any number of cells, the generated 1D mesh of the unit interval has cell volumes summing to the interval length, faces between neighbouring cell centres, owner and neighbour lists connecting each consecutive pair of cells exactly once, one boundary face per end with outward normal, and every cell closed (its outward face area vectors sum to zero). "
     "Boundary lists (face cells, centres, areas, normals, distances, weights, inverse distances, patch offsets) agree with the corresponding internal cells and faces.",
     ["inputs", "configurations"], "all numbers of cells from one upwards, on every executor",
     "Tests build meshes of a few fixed sizes and check counts or single entries.",
     [S + "mesh/unstructured/unstructuredMesh.cpp", S + "mesh/unstructured/boundaryMesh.cpp", I + "mesh/unstructured/unstructuredMesh.hpp"],
     ["create1DUniformMesh / createSingleCellMesh @ " + S + "mesh/unstructured/unstructuredMesh.cpp"])
prop("M02", "Mesh and boundary accessors return exactly the data supplied",
     "A mesh assembled from arbitrary connectivity and geometry reports exactly those data, counts and per-patch slices: every per-patch slice of every boundary list consists of exactly the entries from the patch's start up to the next patch's start.",
     ["inputs", "configurations"], "all meshes, patch layouts including empty patches, and executors",
     "Upstream tests slice one small boundary mesh.",
     [I + "mesh/unstructured/boundaryMesh.hpp", S + "mesh/unstructured/boundaryMesh.cpp", I + "mesh/unstructured/unstructuredMesh.hpp", S + "mesh/unstructured/unstructuredMesh.cpp"],
     ["extractSubView by offset @ " + S + "mesh/unstructured/boundaryMesh.cpp"])
prop("M03", "The cell-to-face stencil is exactly the inverse of the face-to-cell lists",
     "For any mesh, the faces listed for a cell are exactly the faces (internal and boundary) of which it is owner, neighbour or boundary cell, each exactly once, so every internal face appears in exactly two cells and every boundary face in exactly one.",
     ["inputs", "schedules", "configurations"], "all mesh connectivities, executors and iteration orders",
     "Upstream tests check a 1D mesh with at most two faces per cell.",
     [S + FV + "stencil/cellToFaceStencil.cpp", I + FV + "stencil/cellToFaceStencil.hpp"],
     ["count, scan and fill with atomics @ " + S + FV + "stencil/cellToFaceStencil.cpp"])
prop("M04", "The sparsity pattern is exactly the cell adjacency plus the diagonal",
     "For any mesh, the matrix pattern has one row per cell containing exactly the diagonal and one entry per internal face of the cell. The recorded positions of the diagonal, owner and neighbour coefficients of each face address exactly the (row, column) entries (owner, neighbour), (neighbour, owner) and (cell, cell).",
     ["inputs", "schedules", "configurations"], "all mesh connectivities, executors and iteration orders",
     "Upstream tests check a 10-cell 1D mesh.",
     [S + FV + "linearAlgebra/sparsityPattern.cpp", I + FV + "linearAlgebra/sparsityPattern.hpp"],
     ["SparsityPattern::update @ " + S + FV + "linearAlgebra/sparsityPattern.cpp"])
prop("M05", "Geometric interpolation weights and distances match the mesh geometry",
     "For any mesh, interpolation weights on internal faces lie in [0,1], measure the relative normal distance of the face to the two cell centres (so that interpolation is exact for linear profiles when the face lies on the connecting line), boundary weights are one, and the difference coefficients are the inverse of the distance between the points they connect (the non-orthogonal ones of the distance along the face normal, at least a twentieth of the full distance). "
     "The values are computed once per mesh and shared by all users of that mesh.",
     ["inputs", "configurations"], "all non-degenerate meshes and executors",
     "Upstream tests check uniform 1D meshes, where every weight is one half.",
     [S + FV + "stencil/basicGeometryScheme.cpp", S + FV + "stencil/geometryScheme.cpp"],
     ["BasicGeometryScheme::updateWeights / updateDeltaCoeffs @ " + S + FV + "stencil/basicGeometryScheme.cpp", "GeometryScheme::readOrCreate caches in the mesh @ " + S + FV + "stencil/geometryScheme.cpp"])

# ------------------------------------------------------------------------------------ I: interpolation
prop("I01", "Linear interpolation is the weighted mean, bounded by the two cell values",
     "On every internal face linear interpolation gives w*owner + (1-w)*neighbour with the mesh's weights, hence is exact for constants, linear in the field and bounded by the two adjacent values; on every boundary face it gives the boundary value of the field.",
     ["inputs", "configurations"], "all meshes, cell and boundary values, scalar and vector fields, executors",
     "Upstream tests interpolate constants on uniform meshes.",
     [S + FV + "interpolation/linear.cpp", I + FV + "interpolation/linear.hpp", I + FV + "interpolation/surfaceInterpolation.hpp"],
     ["computeLinearInterpolation @ " + S + FV + "interpolation/linear.cpp"])
prop("I02", "Upwind interpolation takes exactly the upstream cell's value",
     "On every internal face upwind interpolation gives the owner value where the flux is non-negative and the neighbour value otherwise, never a mixture, and on every boundary face the boundary value; the sign test is on the flux of that very face, and the weights reported are 1 or 0 accordingly. Without a flux the program ends with a message instead of producing values.",
     ["inputs", "configurations"], "all meshes, flux signs per face including zero, cell values and executors",
     "Upstream tests use one flux sign on all faces.",
     [S + FV + "interpolation/upwind.cpp", I + FV + "interpolation/upwind.hpp", I + FV + "interpolation/surfaceInterpolation.hpp"],
     ["computeUpwindInterpolation @ " + S + FV + "interpolation/upwind.cpp"])
prop("I03", "Face-normal gradient is the difference quotient along the face normal direction",
     "On every internal face the uncorrected face-normal gradient is (neighbour - owner) times the face's difference coefficient, and on every boundary face (boundary value - cell value) times the boundary difference coefficient; it is zero for constants, linear in the field and exact for linear profiles on orthogonal meshes.",
     ["inputs", "configurations"], "all meshes, cell and boundary values and executors",
     "Upstream tests evaluate one linear profile on one uniform mesh.",
     [S + FV + "faceNormalGradient/uncorrected.cpp", I + FV + "faceNormalGradient/faceNormalGradient.hpp"],
     ["computeFaceNormalGrad @ " + S + FV + "faceNormalGradient/uncorrected.cpp"])

# ------------------------------------------------------------------------------------ O: operators
prop("O01", "Explicit divergence is conservative: what leaves one cell enters its neighbour",
     "For any mesh, flux and field, volume times the explicit divergence in a cell equals the signed sum over its faces of flux times interpolated face value (outward positive) times the operator coefficient, so internal contributions cancel exactly in the global sum, which equals the net boundary flux; a constant field with a divergence-free flux gives zero.",
     ["inputs", "configurations", "schedules"], "all meshes, fluxes, scalar and vector fields, interpolation schemes, coefficients and executors",
     "Upstream tests use constant fields on uniform 1D meshes, where sign and index errors cancel.",
     [S + FV + "operators/gaussGreenDiv.cpp", I + FV + "operators/gaussGreenDiv.hpp", I + FV + "operators/divOperator.hpp"],
     ["computeDiv accumulates +flux to owner, -flux to neighbour @ " + S + FV + "operators/gaussGreenDiv.cpp"])
prop("O02", "The implicit divergence is the same operator as the explicit one",
     "For any mesh, flux, upwind field, coefficient and boundary values given by the boundary conditions, the assembled matrix and right-hand side satisfy A*x - b = volume * coefficient * explicit divergence of x for every x satisfying the boundary conditions, and entries unrelated to a face are untouched.",
     ["inputs", "configurations", "schedules"], "all meshes, fluxes, fields, coefficients, fixed-value boundary data and executors",
     "Upstream tests compare on a 10-cell 1D mesh with a constant flux.",
     [S + FV + "operators/gaussGreenDiv.cpp", I + FV + "operators/divOperator.hpp"],
     ["computeDivImp @ " + S + FV + "operators/gaussGreenDiv.cpp"])
prop("O03", "Explicit Laplacian is conservative and vanishes on constants and linear profiles",
     "For any mesh, diffusivity and field, volume times the explicit Laplacian in a cell equals the signed sum over its faces of diffusivity times face-normal gradient times face area times the coefficient: internal contributions cancel in the global sum, constants give zero, and the result scales linearly with field, diffusivity and coefficient.",
     ["inputs", "configurations", "schedules"], "all meshes, face diffusivities, scalar and vector fields, boundary data, coefficients and executors",
     "Upstream tests use unit diffusivity on uniform 1D meshes.",
     [S + FV + "operators/gaussGreenLaplacian.cpp", I + FV + "operators/gaussGreenLaplacian.hpp", I + FV + "operators/laplacianOperator.hpp"],
     ["computeLaplacianExp @ " + S + FV + "operators/gaussGreenLaplacian.cpp"])
prop("O04", "The implicit Laplacian is the same operator as the explicit one",
     "For any mesh, diffusivity, coefficient and fixed-value or fixed-gradient boundary data, the assembled matrix and right-hand side satisfy A*x - b = volume * coefficient * explicit Laplacian of x for every x satisfying the boundary conditions; the internal part of the matrix is symmetric with zero row sums.",
     ["inputs", "configurations", "schedules"], "all meshes, diffusivities, fields, coefficients, boundary data and executors",
     "Upstream tests use unit diffusivity on a 10-cell 1D mesh.",
     [S + FV + "operators/gaussGreenLaplacian.cpp", I + FV + "operators/laplacianOperator.hpp"],
     ["computeLaplacianImpl @ " + S + FV + "operators/gaussGreenLaplacian.cpp"])
prop("O05", "Source and time-derivative terms are local and consistent between both forms",
     "The explicit source term adds coefficient times field in each cell and nothing elsewhere, and its implicit form adds exactly volume times that coefficient to the diagonal of that cell. "
     "The explicit time derivative is (field - old field)/dt times the volume, its implicit form adds volume/dt to the diagonal and volume/dt times the old value to the right-hand side, and for any field the two forms agree.",
     ["inputs", "configurations"], "all meshes, coefficients, fields, old fields, time steps and executors",
     "Upstream tests use constant coefficients and fields on uniform meshes.",
     [S + FV + "operators/sourceTerm.cpp", S + FV + "operators/ddtOperator.cpp", I + FV + "operators/sourceTerm.hpp", I + FV + "operators/ddtOperator.hpp"],
     ["SourceTerm::implicitOperation, DdtOperator::implicitOperation @ " + S + FV + "operators/sourceTerm.cpp"])
prop("O06", "The Gauss gradient is exact for constants and satisfies the divergence theorem",
     "In every cell, volume times the gradient equals the sum over its faces of outward area vector times interpolated face value, so a constant field on a mesh of closed cells has zero gradient and a linear profile on a uniform orthogonal mesh has its slope as gradient in every cell.",
     ["inputs", "configurations", "schedules"], "all meshes, fields and executors",
     "Upstream tests check one linear profile on one mesh.",
     [S + FV + "operators/gaussGreenGrad.cpp"],
     ["computeGrad @ " + S + FV + "operators/gaussGreenGrad.cpp"])
prop("O07", "Surface integration sums each face into its cells with the right sign",
     "Surface integration of a face flux gives in each cell the coefficient times the sum of outgoing minus incoming internal fluxes plus boundary fluxes, divided by the cell volume; globally the volume-weighted sum equals the net boundary flux.",
     ["inputs", "configurations", "schedules"], "all meshes, face fluxes, coefficients and executors",
     "Upstream tests use a constant flux on a uniform 1D mesh.",
     [S + FV + "operators/surfaceIntegrate.cpp", I + FV + "operators/surfaceIntegrate.hpp"],
     ["surfaceIntegrate kernel @ " + S + FV + "operators/surfaceIntegrate.cpp"])
prop("O08", "Operators follow their data: results depend on current values, not on the past",
     "For any history of evaluations, interpolation schemes, face-normal gradients, divergence, Laplacian, source, time-derivative, gradient and surface-integral operators, expressions made of them, and boundary conditions give the result determined by the current content of the fields, fluxes, diffusivities, coefficients, old-time values and time step they refer to and by the mesh they were made for, however often they were evaluated, scaled or copied before and whichever other meshes (also of the same size, also earlier ones at the same address) exist or existed. "
     "A divergence, Laplacian, gradient or interpolation evaluated into a field replaces whatever that field held; explicit and implicit operations of operators add to their source or system.",
     ["histories", "inputs", "configurations"], "all sequences of evaluations, data changes, copies and mesh replacements, meshes and executors",
     "Upstream tests evaluate each operator once or twice on freshly made data.",
     [S + FV + "operators/gaussGreenDiv.cpp", S + FV + "operators/gaussGreenLaplacian.cpp", S + FV + "operators/gaussGreenGrad.cpp", S + FV + "operators/sourceTerm.cpp", S + FV + "operators/ddtOperator.cpp", S + FV + "stencil/basicGeometryScheme.cpp", I + "dsl/operator.hpp", S + FV + "linearAlgebra/sparsityPattern.cpp"],
     ["computeDivExp, computeLaplacianExp, computeGrad @ " + S + FV + "operators/gaussGreenDiv.cpp", "readOrCreate @ " + S + FV + "linearAlgebra/sparsityPattern.cpp"])

prop("S01", "Settings select exactly the schemes and conditions they name, or fail loudly",
     "Every term of an equation uses exactly the scheme its settings name for its operator and its pair of fields, made with the remaining tokens of that entry, once per build; every patch uses the boundary condition of its own settings and its values, every time-dependent solve the time integration named under ddtSchemes, and every linear solve the solver named in the solution settings. This holds for schemes registered by users, whatever other entries and sections contain, also after copying, and building again with other settings replaces the earlier choice. "
     "Reading settings never changes them. A missing section, entry or value throws std::out_of_range, one of another type std::bad_any_cast, and an unknown name ends the process with exit code 1 and a message naming it and the known ones; a term whose scheme was never set ends the process with exit code 1 instead of being evaluated.",
     ["inputs", "configurations", "histories"], "all settings, field names, registered schemes, equations and boundary layouts",
     "Upstream tests use one fixed set of built-in schemes.",
     [I + FV + "operators/divOperator.hpp", I + FV + "operators/laplacianOperator.hpp", I + FV + "operators/gaussGreenDiv.hpp", I + FV + "operators/gaussGreenLaplacian.hpp", I + FV + "interpolation/surfaceInterpolation.hpp", I + FV + "faceNormalGradient/faceNormalGradient.hpp", I + FV + "boundary/volumeBoundaryFactory.hpp", I + FV + "boundary/surfaceBoundaryFactory.hpp", I + "timeIntegration/timeIntegration.hpp", I + "dsl/solver.hpp", I + "dsl/expression.hpp", I + "linearAlgebra/solver.hpp"],
     ["DivOperator::build @ " + I + FV + "operators/divOperator.hpp", "LaplacianOperator::build @ " + I + FV + "operators/laplacianOperator.hpp", "dsl::solve @ " + I + "dsl/solver.hpp", "TimeIntegration @ " + I + "timeIntegration/timeIntegration.hpp"])

# ------------------------------------------------------------------------------------ B: boundary
prop("B01", "Volume boundary conditions set exactly their patch to the prescribed relation",
     "Correcting boundary conditions gives on every face of a patch the prescribed value (fixed value), the adjacent cell value (extrapolated), or the cell value plus the prescribed gradient times the face distance (fixed gradient), for scalar and vector fields, and leaves calculated and empty patches, all other patches and all internal values untouched. "
     "Correcting twice gives the same as correcting once, each patch uses its own condition and data, and the data used by implicit assembly (value fraction, reference value, reference gradient) describe the same relation.",
     ["inputs", "histories", "configurations"], "all patch layouts, assignments of conditions to patches, values and executors",
     "Upstream tests apply each condition to one-face patches on a 1D mesh.",
     [I + FV + "boundary/volume/fixedValue.hpp", I + FV + "boundary/volume/fixedGradient.hpp", I + FV + "boundary/volume/extrapolated.hpp", I + FV + "boundary/volumeBoundaryFactory.hpp", I + FV + "fields/volumeField.hpp"],
     ["correctBoundaryCondition per patch @ " + I + FV + "boundary/volumeBoundaryFactory.hpp"])
prop("B02", "Surface boundary conditions set exactly their patch's faces",
     "Correcting the boundary conditions of a surface field writes the prescribed value to every face of a fixed-value patch, both in the boundary data and in the face field itself, and leaves all other faces (calculated, empty and other patches, internal faces) untouched; repeating it changes nothing.",
     ["inputs", "histories", "configurations"], "all patch layouts, assignments of conditions, values and executors",
     "Upstream tests use one-face patches on a 1D mesh.",
     [I + FV + "boundary/surface/fixedValue.hpp", I + FV + "boundary/surfaceBoundaryFactory.hpp", I + FV + "fields/surfaceField.hpp"],
     ["setFixedValue on boundary and internal slices @ " + I + FV + "boundary/surface/fixedValue.hpp"])

# ------------------------------------------------------------------------------------ L: linear algebra
prop("L01", "Sparse matrix entry access addresses exactly the requested entry",
     "For any sparsity structure, reading or writing entry (i,j) of the compressed matrix reads or writes exactly that stored coefficient and no other; entries addressed by their offset within the row agree; access to an entry outside the structure is rejected, never served from another entry. "
     "Copies of a matrix to another executor or value precision keep structure and values.",
     ["inputs", "configurations"], "all sparsity structures (including empty rows), entries and executors",
     "Upstream tests use one dense and one fixed 3x3 pattern.",
     [I + "linearAlgebra/CSRMatrix.hpp"],
     ["CSRMatrixView::entry @ " + I + "linearAlgebra/CSRMatrix.hpp"])
prop("L02", "Matrix-vector products and residuals equal the dense computation",
     "For any matrix, vector and right-hand side, the sparse matrix-vector product and the residual equal A*x and A*x - b as computed densely, do not modify the operands, and a linear system copied or converted keeps matrix and right-hand side unchanged.",
     ["inputs", "configurations"], "all sparse matrices, vectors, executors",
     "Upstream tests multiply one fixed matrix.",
     [I + "linearAlgebra/linearSystem.hpp", I + "linearAlgebra/utilities.hpp"],
     ["spmv / residual kernels @ " + I + "linearAlgebra/linearSystem.hpp"])

prop("L03", "A linear solve hands the system to the chosen back end and stores its solution",
     "Solver(exec, settings).solve(system, x) runs exactly one solve of the back end named by the entry 'solver', with the matrix, right-hand side and (Ginkgo) starting values of the arguments and the settings of the solver's construction, and leaves the back end's solution in x; the system is unchanged, systems of any number of unknowns and any sequence of systems and solvers are served, copies and moved solvers work alike by themselves, a user's own solver is given the caller's objects, nothing of the back end is left behind. Settings reach Ginkgo key by key with their kind (text, integer, real, nested), any other kind is refused with an exception naming the key; a missing or unknown solver is refused.",
     ["inputs", "histories", "configurations"], "all systems, settings, solvers and sequences of solves, on all executors",
     "Upstream tests need the external libraries and solve one or two 3x3 systems.",
     [I + "linearAlgebra/solver.hpp", I + "linearAlgebra/ginkgo.hpp", I + "linearAlgebra/petsc.hpp", I + "linearAlgebra/petscSolverContext.hpp", "src/linearAlgebra/ginkgo.cpp", "src/linearAlgebra/utilities.cpp"],
     ["Solver::solve @ " + I + "linearAlgebra/solver.hpp", "parse @ src/linearAlgebra/ginkgo.cpp", "petscSolverContext::initialize @ " + I + "linearAlgebra/petscSolverContext.hpp"])

# ------------------------------------------------------------------------------------ D: field database
prop("D01", "Registered fields are stored once, found by their keys, and stay in place",
     "Registering a field in a field collection stores it under its own document with the name, time index, iteration and sub-cycle index given, retrievable by identifier, name or query as the very same field object; the registered field knows its database, collection and identifier, and further registrations never move it or change it.",
     ["histories", "inputs"], "all histories of registering, looking up and modifying fields",
     "Upstream tests register a few fields once.",
     [I + DB + "fieldCollection.hpp", S + DB + "fieldCollection.cpp"],
     ["registerField and FieldDocument @ " + I + DB + "fieldCollection.hpp"])
prop("D02", "Old-time fields form a consistent chain, created once from the current field",
     "Asking for the old-time field of a registered field creates it once as a copy of the field's values at that moment under its own name, and returns the same object ever after; old-of-old chains, next/previous links and levels are mutually inverse and each field has its own chain.",
     ["histories", "inputs"], "all histories of requesting, modifying and chaining old-time fields of several fields",
     "Upstream tests request one chain of two levels.",
     [I + DB + "oldTimeCollection.hpp", S + DB + "oldTimeCollection.cpp"],
     ["OldTimeCollection::getOrInsert @ " + I + DB + "oldTimeCollection.hpp"])

# ------------------------------------------------------------------------------------ E/T: equations
prop("E01", "An expression is the algebraic sum of its signed and scaled terms",
     "Building an expression from operators with addition, subtraction and scaling by numbers or fields yields, when evaluated explicitly or assembled implicitly, exactly the sum of the contributions of its terms, each multiplied by its accumulated coefficient, whatever the grouping and order of construction; operands are not modified and terms are classified explicit, implicit or temporal as declared.",
     ["programs", "inputs", "configurations"], "all expression trees, coefficients (scalar and field) and term types",
     "Upstream tests build a few two-term expressions of constant operators.",
     [I + "dsl/expression.hpp", I + "dsl/spatialOperator.hpp", I + "dsl/temporalOperator.hpp", I + "dsl/coeff.hpp", S + "dsl/coeff.cpp"],
     ["Expression::addOperator and operator overloads @ " + I + "dsl/expression.hpp", "Coeff products @ " + S + "dsl/coeff.cpp"])
prop("E02", "Solving a steady equation yields the field that satisfies it",
     "Solving an equation without time derivative assembles implicit terms into the matrix and subtracts explicit terms (times volume) from the right-hand side, so that with an exact linear solver the resulting field satisfies the equation: implicit terms of the new field plus explicit terms evaluated at the old field vanish in every cell, and the boundary conditions hold.",
     ["inputs", "programs", "configurations"], "all combinations of implicit and explicit terms, coefficients, meshes and fields giving a regular system",
     "Upstream tests assemble one equation and need an external solver.",
     [I + "dsl/solver.hpp", I + "dsl/expression.hpp", I + "linearAlgebra/solver.hpp"],
     ["dsl::solve @ " + I + "dsl/solver.hpp"])
prop("E03", "An assembled equation is the matrix and right-hand side of its terms",
     "A finite volume Expression (fvcc::Expression) built from an equation and a field gives, whenever it is assembled, a linear system for which A*y - b equals the sum of the implicit terms (with the time derivative) evaluated at y and the explicit terms evaluated at the field, for any y and independent of what was assembled before; `expression & field` returns exactly this residual, setReference changes the diagonal coefficient and the right-hand side of its cell only, solve hands the assembled system to the configured linear solver and stores its solution, copies have a system of their own, and none of these changes the other fields.",
     ["histories", "inputs", "configurations"], "all equations of implicit, explicit and time-derivative terms, fields, meshes and executors",
     "There is no upstream test of this class; parts of it did not compile.",
     [I + "finiteVolume/cellCentred/dsl/expression.hpp", I + "dsl/expression.hpp"],
     ["Expression::assemble, setReference, solve, operator& @ " + I + "finiteVolume/cellCentred/dsl/expression.hpp"])
prop("T01", "Explicit Euler steps advance by exactly dt times the right-hand side",
     "One explicit Euler step sets the solution to the stored old value minus dt times the sum of the explicit terms evaluated at the values the field has when the step starts, in every cell, then enforces the boundary conditions; over any number of steps the stored old value is the solution of the previous step.",
     ["histories", "inputs", "configurations"], "all expressions, time steps, step counts and executors",
     "Upstream tests take one step with a constant source.",
     [I + "timeIntegration/forwardEuler.hpp", I + "timeIntegration/timeIntegration.hpp", I + "dsl/solver.hpp"],
     ["ForwardEuler::solve @ " + I + "timeIntegration/forwardEuler.hpp"])
prop("T02", "Implicit Euler steps satisfy the discrete equation at the new time level",
     "After one implicit Euler step with an exact linear solver, V*(new - stored old)/dt plus the implicit terms of the new solution plus V times the explicit terms of the values the field had before is zero in every cell, the boundary conditions hold, and over any number of steps the stored old value is the solution of the previous step.",
     ["histories", "inputs", "configurations"], "all expressions with implicit and explicit terms, time steps and step counts giving a regular system",
     "Upstream tests run implicit time integration only with an external solver and a single source term.",
     [I + "timeIntegration/backwardEuler.hpp", I + "dsl/expression.hpp"],
     ["BackwardEuler::solve @ " + I + "timeIntegration/backwardEuler.hpp"])
prop("T03", "The Courant number reported is the true maximum (and mean) over all cells",
     "For any mesh, face flux and time step, the maximum Courant number is the maximum over cells of half the sum of absolute face fluxes divided by the volume, times dt, each face counted in each of its cells; it is non-negative, zero for zero flux and linear in dt.",
     ["inputs", "configurations", "schedules"], "all meshes, fluxes, time steps and executors",
     "Upstream tests use a constant flux on a uniform mesh.",
     [S + FV + "auxiliary/coNum.cpp"],
     ["computeCoNum @ " + S + FV + "auxiliary/coNum.cpp"])
prop("T04", "Runge-Kutta integration gives the exact stage combination from the current state",
     "For any equation of explicit terms, each solve by the Runge-Kutta integrator (also one kept over many steps, copied or moved, with the equation or the state replaced in between) hands the current state and minus the sum of the explicit terms to the ODE solver, advances by exactly the requested step, stores the result as new and old value and leaves the boundary conditions holding; unsupported methods are refused and all solver memory is released.",
     ["histories", "inputs"], "all expressions, states, time steps and step counts",
     "Upstream tests need SUNDIALS and integrate one decay equation.",
     [S + "timeIntegration/rungeKutta.cpp", I + "timeIntegration/rungeKutta.hpp", I + "timeIntegration/sundials.hpp"],
     ["explicitRKSolve callback @ " + I + "timeIntegration/sundials.hpp"])

# ------------------------------------------------------------------------------------ P: parallel communication
prop("P01", "A half-duplex buffer never loses, mixes or exposes data of another message",
     "Over any history of initialising, filling, starting, finishing and resizing communications with any value types and per-rank sizes, the slice for a rank has exactly the requested number of values, slices of different ranks never overlap, and data are kept until finalised; in debug builds use out of order (resizing or re-initialising while busy, finalising or writing when idle) is rejected, and the buffer is reusable afterwards.",
     ["histories", "inputs"], "all histories of buffer use with all sizes (including zero) and value types",
     "Upstream tests run one size and one round on a real MPI communicator.",
     [I + "core/mpi/halfDuplexCommBuffer.hpp", S + "core/mpi/halfDuplexCommBuffer.cpp"],
     ["setType/initComm/finaliseComm state checks @ " + I + "core/mpi/halfDuplexCommBuffer.hpp"])
prop("P02", "Duplex exchange delivers every rank exactly what each other rank sent it",
     "For any number of ranks, any (also asymmetric) communication sizes and any order in which ranks start, test and wait, after completion every rank's receive slice from a rank contains exactly what that rank put in its send slice for it; communication is reported complete only when all messages have arrived, and the buffers are reusable for further rounds of other sizes and types.",
     ["schedules", "inputs", "histories"], "all rank counts, size matrices, value types, message delays and repeated rounds",
     "Upstream tests run a symmetric exchange of one value per rank.",
     [I + "core/mpi/fullDuplexCommBuffer.hpp", I + "core/mpi/halfDuplexCommBuffer.hpp", S + "core/mpi/halfDuplexCommBuffer.cpp"],
     ["send_ / receive_ buffers @ " + I + "core/mpi/fullDuplexCommBuffer.hpp"])
prop("P03", "Collective operations combine the contributions of all ranks",
     "An all-reduce over scalars or vectors leaves on every rank the sum (or product, minimum, maximum, logical combination) of all ranks' contributions, component by component for vectors, in place, for every supported value type; tagged sends are matched with the receive for the same rank and tag.",
     ["inputs", "schedules"], "all reduction operations, value types and rank counts",
     "Upstream tests reduce one scalar sum.",
     [I + "core/mpi/operators.hpp", I + "core/mpi/environment.hpp"],
     ["getOp/getType/reduceAllScalar @ " + I + "core/mpi/operators.hpp"])

prop("P04", "Field exchange between ranks updates exactly the mapped entries",
     "Exchanging a field through a communicator sets, on every rank, exactly the entries named in its receive maps to the values the sending ranks' fields held at the mapped positions when they started the exchange, leaves every other entry and every other field untouched, and works for fields on any executor. "
     "Any number of exchanges may be under way at once under different names and be polled and finalised in any order and repeatedly; completion is only reported when everything has arrived, and in debug builds unknown or already used names are rejected.",
     ["schedules", "inputs", "histories"], "all rank counts, maps, value types, executors, numbers of simultaneous exchanges and orders",
     "Upstream tests exchange one integer field once.",
     [I + "mesh/unstructured/communicator.hpp", S + "mesh/unstructured/communicator.cpp"],
     ["Communicator::startComm / finaliseComm @ " + I + "mesh/unstructured/communicator.hpp"])

prop("R01", "Everything acquired is released exactly once, and nothing is used afterwards",
     "Over any history of creating, copying, moving, reassigning, cloning, replacing, removing and abandoning (also by exceptions) dictionaries, token lists, documents, collections, databases, factory-made objects, fields, boundaries, meshes, old-time fields, matrices, expressions and integrators, no memory of the host or of an executor stays allocated once the last owner is gone, none is freed twice, and none is read or written after it was freed.",
     ["histories", "inputs"], "all histories of object lifetimes through the public interface",
     "Tests run without a leak checker or address checker; a double free or stale read usually goes unnoticed in a short-lived test.",
     [I + "core/dictionary.hpp", S + "core/database/collection.cpp", I + "core/runtimeSelectionFactory.hpp", I + "fields/field.hpp", S + "core/database/database.cpp", I + "timeIntegration/rungeKutta.hpp", I + "dsl/spatialOperator.hpp"],
     ["Field destructor / executor free @ " + I + "fields/field.hpp", "type-erased clone and move @ " + I + "dsl/spatialOperator.hpp", "SUNContext and N_Vector ownership @ " + I + "timeIntegration/rungeKutta.hpp"])

prop("R02", "A failed operation harms nothing: the failure is reported, all else is unchanged",
     "When an operation cannot be completed because memory (of the host or of an executor) runs out at any one of its allocations, or because code supplied by the caller (the copy of a stored value, a predicate, a validator, the constructor of a created class) throws, that failure reaches the caller, everything acquired on the way is released, and nothing else changes: a dictionary, token list, document, collection, database, stencil cache or factory holds exactly the entries it held before (no lost, half-made or empty entry; only the target of a whole assignment may hold either state), a field keeps its size and memory, the operands of field, mesh and operator work keep their values, no half-registered field and no old-time field without its link (or link without its field) stays in a database, and the same operation succeeds afterwards with the result it would have had without the failure. What was completed on the way may stay: data cached with a mesh, if it is complete, and collections created on demand, if they are empty.",
     ["faults", "histories"], "all operations and all single points of failure (allocations, calls of user code) within them",
     "Tests never run out of memory and supply no code that throws; each operation has dozens to hundreds of points at which it can stop.",
     [S + "core/dictionary.cpp", I + "core/tokenList.hpp", S + "core/database/database.cpp", I + "core/database/collection.hpp", I + "core/database/fieldCollection.hpp", I + "core/database/oldTimeCollection.hpp", I + "core/runtimeSelectionFactory.hpp", I + "finiteVolume/cellCentred/stencil/stencilDataBase.hpp", S + "finiteVolume/cellCentred/stencil/geometryScheme.cpp", I + "fields/field.hpp"],
     ["Dictionary::insert @ " + S + "core/dictionary.cpp", "TokenList::popFront @ " + I + "core/tokenList.hpp", "Database::insert @ " + S + "core/database/database.cpp", "FieldCollection::registerField @ " + I + "core/database/fieldCollection.hpp", "OldTimeCollection::getOrInsert @ " + I + "core/database/oldTimeCollection.hpp", "Field::resize @ " + I + "fields/field.hpp"])

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        for f in p["anchors"]["files"]:
            assert os.path.exists("/repo/" + f), f
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
