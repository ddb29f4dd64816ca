#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, note=note, na=na))

CM = "rstsr-common/src/"
CO = "rstsr-core/src/"
NI = "rstsr-native-impl/src/"

prop("C01", "Chained views denote exactly the elements their definitions select",
 "After any chain of slicing, axis permutation, flipping, squeezing, axis insertion, diagonal extraction and broadcasting, every element of the resulting view is the element of the original array that the composed definitions select, and the shape is the composed shape. Reading an element through indexing, full selection or an owned copy gives that element, and writing through a mutable view changes exactly the selected elements of the original and nothing else.",
 ["inputs", "programs"], "all base arrays of any rank, strides of either sign, padding and offset, and all finite chains of view operations with valid arguments (negative indices, steps of either sign, out-of-range slice ends, empty axes included); an explicit end of -1 together with a negative step is excluded, since its meaning differs between conventions",
 "tests fix a handful of shapes and single operations on mostly contiguous arrays; the claim is about every composition over every stride pattern",
 [CM+"layout/indexer.rs", CM+"layout/layoutbase.rs", CM+"layout/broadcast.rs", CO+"tensor/indexing.rs", CO+"tensor/manipulation/"],
 [("offset/shape/stride arithmetic of each view operation", CM+"layout/indexer.rs, layoutbase.rs"), ("axis normalisation", CM+"axis_index.rs"), ("view constructors sharing storage", CO+"tensor/manipulation/*.rs, tensor/indexing.rs")],
 observe=["raw buffer with shape/stride/offset of each view", "indexing operators", "buffer after a write"],
 technique="online monitor comparing every step of random view chains over a uniquely labelled buffer with an independent position model; buffer diff after writes")

prop("C02", "Reshape and layout changes keep the element sequence",
 "Reshaping (by view, copy or in place), changing contiguity, changing preferred order or moving to another memory layout yields an array whose elements, listed in the order that the request names (row- or column-major), are the original's elements in that same order, with the requested shape or layout. A result reported as sharing memory really aliases the original's elements, a copy is made (or, when copying is forbidden, the request refused) exactly when no strides can express the result, and a shape whose size differs is refused.",
 ["inputs"], "all source shapes and strides (negative, padded, permuted, broadcast, empty), all compatible and incompatible target shapes with at most one inferred extent, both orders, all copy policies",
 "whether a reshape can avoid a copy depends on the joint pattern of extents and strides; tests try a few contiguous examples",
 [CM+"layout/reshape.rs", CM+"layout/rearrangement.rs", CO+"tensor/manipulation/reshape.rs", CO+"tensor/manipulation/to_contig.rs", CO+"tensor/manipulation/to_layout.rs", CO+"tensor/manipulation/into_compatible_shape.rs", NI+"cpu_serial/assignment.rs", NI+"cpu_rayon/assignment.rs"],
 [("stride-compatible reshape search", CM+"layout/reshape.rs"), ("copying between arbitrary layouts", NI+"cpu_serial/assignment.rs, cpu_rayon/assignment.rs")],
 technique="differential monitor of random reshape/layout requests against an element-sequence model, with aliasing observed through buffer addresses")

prop("C03", "Elementwise operations broadcast and apply the scalar function to each element",
 "For every elementwise unary, binary, comparison and mapping operation, the result's shape is the broadcast shape of the operands under the array's order, and each result element is the scalar operation applied to the corresponding operand elements. This holds whatever the operands' strides, ownership (owned, borrowed, shared), scalar-or-array mix, sizes relative to the library's fast-path and parallel thresholds, device and thread count, and it leaves every borrowed operand unchanged.",
 ["inputs", "configurations"], "all broadcastable shape pairs, stride patterns, element types in {bool, signed/unsigned integers, f32, f64, complex}, ownership combinations and device/thread-count choices",
 "the implementation selects between contiguous, strided, serial and parallel kernels and reuses owned operands' memory; tests exercise few of the combinations",
 [CO+"tensor/operators/", CO+"tensor/map_elementwise.rs", NI+"cpu_serial/op_with_func.rs", NI+"cpu_rayon/op_with_func.rs", CO+"device_cpu_serial/operators/", CO+"feature_rayon/auto_impl/"],
 [("broadcast of layouts", CM+"layout/broadcast.rs"), ("kernels and thresholds", NI+"cpu_serial/op_with_func.rs, cpu_rayon/op_with_func.rs"), ("operand memory reuse", CO+"tensor/operators/op_binary_arithmetic.rs")],
 technique="differential monitor: random operations on random layouts compared element by element with the scalar definition, operands re-read afterwards")

prop("C04", "In-place operations change exactly the target elements",
 "Assignment, filling, compound assignment, operations with a given output and in-place mapping leave each target element equal to the defined value, computed with broadcasting of the source to the target's shape. No memory outside the target's elements changes, the source is unchanged, and each target element is updated exactly once.",
 ["inputs", "configurations"], "all target views (strided, reversed, padded, with gaps), all sources broadcastable to them, all devices and thread counts, sizes on both sides of every fast-path and parallel threshold",
 "writing outside the view or updating twice shows only for particular stride patterns and sizes that tests do not reach",
 [CO+"tensor/assignment.rs", CO+"tensor/operators/op_binary_assign.rs", CO+"tensor/operators/op_binary_arithmetic.rs", CO+"tensor/map_elementwise.rs", NI+"cpu_serial/assignment.rs", NI+"cpu_rayon/assignment.rs", NI+"cpu_serial/op_with_func.rs", NI+"cpu_rayon/op_with_func.rs"],
 [("broadcast-to-first and element loop", CM+"layout/broadcast.rs, rearrangement.rs"), ("parallel splitting of layouts", CM+"layout/iterator.rs, par_iter.rs")],
 technique="canary monitor: whole-buffer diff of a uniquely labelled buffer after each in-place operation against the expected write set")

prop("C05", "Reductions equal the reduction of exactly the selected elements",
 "Sum, product, minimum, maximum, mean, variance, standard deviation, norm, any, all, nonzero count and closeness, over all axes or any set of axes, give for each output position the reduction of exactly the elements along the reduced axes, within floating-point reassociation error and exactly for integers and selections. The output shape is the input shape without the reduced axes.",
 ["inputs", "configurations"], "all shapes (also with empty reduced or kept axes where defined), stride patterns including broadcast, axis subsets in any order and sign, element types, devices and thread counts, sizes around the chunk and parallel thresholds",
 "reductions are blocked, unrolled and split across threads depending on layout; tests compare a few fixed arrays",
 [CO+"tensor/reduction.rs", NI+"cpu_serial/reduction.rs", NI+"cpu_rayon/reduction.rs", CO+"device_cpu_serial/reduction.rs", CO+"feature_rayon/auto_impl/reduction.rs"],
 [("axis splitting and blocked accumulation", NI+"cpu_serial/reduction.rs, cpu_rayon/reduction.rs")],
 technique="differential monitor with exact integer oracles and compensated floating-point oracles with error bounds")

prop("C06", "Arg-reductions name the first extremal element in logical order",
 "The position returned by index-of-minimum and index-of-maximum, over all axes or any subset, flat or as a multi-index, denotes an element equal to the extremum of the reduced elements, and among equal extrema it is the first in row-major order of the reduced axes (as listed in the request). The answer does not depend on memory layout, device or thread count.",
 ["inputs", "configurations"], "all shapes with at least one reduced element, stride patterns, tie patterns, axis subsets, orders, devices and thread counts",
 "ties across thread or block boundaries and permuted layouts are where a wrong position appears; tests use distinct values",
 [CO+"tensor/reduction.rs", NI+"cpu_serial/reduction.rs", NI+"cpu_rayon/reduction.rs"],
 [("index-carrying reduction and thread-local merge", NI+"cpu_serial/reduction.rs, cpu_rayon/reduction.rs")],
 technique="differential monitor on arrays with dense ties, many thread counts")

prop("C07", "Matrix products follow the matmul rules for every layout and device",
 "The matrix product of two arrays of any rank combination (vector, matrix, stacks with broadcasting) has the shape and the values of the mathematical definition, within rounding error and exactly for integers, for every stride pattern, element type, device and thread count. With a given output and scale factors the output becomes alpha times the product plus beta times its former contents (its former contents ignored when beta is zero) with no other memory touched, and the vector inner product conjugates its first operand over the requested axis.",
 ["inputs", "configurations"], "all rank pairs 1..4, broadcastable batch shapes, extents including zero and one, strides including transposed/reversed/padded, element types {f32, f64, complex, integers}, alpha/beta, orders, devices serial/faer/OpenBLAS, thread counts",
 "dispatch by rank, contiguity, symmetric operands and type selects different kernels; tests cover standard shapes with contiguous operands",
 [CO+"tensor/linalg/matmul.rs", CO+"tensor/linalg/vecdot.rs", CM+"layout/matmul.rs", CO+"device_cpu_serial/linalg/", CO+"device_faer/matmul.rs", CO+"device_faer/matmul_impl.rs", "crates-device/rstsr-openblas/src/", NI+"cpu_serial/matmul_naive.rs"],
 [("layout dispatch of matmul rules", CM+"layout/matmul.rs"), ("gemm/gemv/syrk/dot backends", CO+"device_faer/matmul_impl.rs, crates-device/rstsr-openblas/src/matmul_impl.rs")],
 technique="differential monitor against a straightforward definition with rounding-error bounds; canaries around the output")

prop("C08", "Results do not depend on device, thread count or concurrent use",
 "For any program of array operations, running it on the serial device, on a thread-pool device with any number of threads, from inside another thread pool, or at the same time from many user threads sharing devices and read-only arrays yields equal results (exactly for exact operations, within rounding for floating-point accumulation). Every such run terminates, and the devices' thread settings are what they were before.",
 ["schedules", "programs", "configurations"], "all operation programs, thread counts, nestings in the caller's own thread pools, and interleavings of concurrent callers",
 "the test suite runs each operation alone with one pool configuration; schedule-dependent results, deadlocks between nested pools and leaked thread settings are invisible to it",
 [CO+"feature_rayon/", NI+"cpu_rayon/", CM+"par_iter.rs", CO+"device_faer/", "crates-device/rstsr-openblas/src/threading.rs", "crates-device/rstsr-openblas/src/matmul_impl.rs"],
 [("pool selection and nested-pool detection", CO+"feature_rayon/device.rs"), ("thread-count save/restore around BLAS calls", "crates-device/rstsr-openblas/src/threading.rs")],
 technique="differential replay of the same random program over devices/thread counts/nesting under contention, deadlock watchdog, thread-setting invariants")

prop("C09", "Iterators visit every element exactly once in the promised order",
 "Element, indexed-element and axis iterators, forward, reversed, mutable, partially consumed from both ends, split or run in parallel, visit each element (or sub-array) exactly once, in the requested iteration order, and report its true index and remaining length. Mutable iteration writes exactly the visited elements and sub-arrays handed out never overlap.",
 ["inputs", "histories", "schedules"], "all shapes and stride patterns, iteration orders, interleavings of front/back consumption, split points, and parallel schedules",
 "tests collect whole iterators front to back; mixed-end consumption and splits over permuted layouts have many more states",
 [CM+"layout/iterator.rs", CM+"par_iter.rs", CO+"tensor/iterator_elem.rs", CO+"tensor/iterator_axes.rs", CO+"feature_rayon/par_iter.rs"],
 [("cursor arithmetic of double-ended layout iterators", CM+"layout/iterator.rs"), ("producer splitting", CM+"par_iter.rs")],
 technique="history monitor: random consumption histories checked against a deque model; parallel visits recorded and checked exactly-once")

prop("C10", "Advanced indexing, joining and splitting place every element correctly",
 "Selecting by index lists or boolean masks, concatenating, stacking, unstacking, mesh-grid construction and diagonal construction produce arrays whose every element is the element of the inputs that the definition names, with the defined shape. Splitting a joined array returns the parts.",
 ["inputs"], "all input shapes, strides, axes (negative too), index lists with repeats, masks of any pattern, any number of inputs, devices and thread counts",
 "tests use a few contiguous examples; the copying kernels depend on axis, layout and size",
 [CO+"tensor/adv_indexing.rs", CO+"tensor/creation_from_tensor.rs", CO+"tensor/tensor_view_list.rs", NI+"cpu_serial/adv_indexing.rs", NI+"cpu_rayon/adv_indexing.rs"],
 [("index-select kernels", NI+"cpu_serial/adv_indexing.rs, cpu_rayon/adv_indexing.rs"), ("concatenation by slice assignment", CO+"tensor/creation_from_tensor.rs")],
 technique="differential monitor on uniquely labelled inputs")

prop("C11", "Created arrays hold the requested values in the requested layout",
 "Ranges, linear spacings, identity, constant-filled, uninitialised-then-filled, nested-array, triangular and like-another-array creation, and wrapping of existing vectors, slices or scalars, produce the requested shape, element type and every requested value, in memory laid out in the requested or default order. Range lengths and end values follow the mathematical definition for every sign and size of step.",
 ["inputs"], "all shapes, start/stop/step combinations per element type (negative, non-dividing, empty), element counts, orders, devices",
 "tests check a few values; off-by-one lengths depend on rounding of particular start/stop/step triples",
 [CO+"tensor/creation.rs", CO+"tensor/asarray.rs", CO+"device_cpu_serial/creation.rs", CO+"feature_rayon/auto_impl/creation.rs", CO+"storage/creation.rs"],
 [("element generation and layout", CO+"device_cpu_serial/creation.rs, tensor/creation.rs")],
 technique="differential monitor against the definitions")

prop("C12", "Row-major and column-major modes are mirror images",
 "An operation in column-major mode gives the result that the same operation gives in row-major mode on axis-reversed operands and arguments, reversed back, whether the mode is chosen per device at run time or as the build's default. The value of the mode never changes the values of operations that do not refer to element order or broadcasting alignment.",
 ["inputs", "configurations"], "all operations that consult the order (broadcast, reshape, flatten order, iteration, indices of arg-reductions, matmul batches, creation), all shapes, both builds",
 "the two modes are exercised by separate, few tests; nothing compares them",
 [CM+"flags.rs", CM+"layout/broadcast.rs", CM+"layout/matmul.rs", CO+"tensor/", CO+"device_cpu_serial/"],
 [("order-dependent dispatch", CM+"layout/broadcast.rs, layout/matmul.rs, layout/iterator.rs")],
 technique="metamorphic monitor: mirrored random programs in both modes and in both builds")

prop("C13", "Invalid requests are refused with an error and change nothing",
 "A request whose shapes, axes, indices, slices, layouts or devices are inconsistent is answered with an error (or a clean panic from the non-fallible spelling), never with a value, a crash or a hang. Arguments passed to a refused request, outputs included, are unchanged afterwards.",
 ["inputs"], "all fallible operations with arguments violating one of their preconditions, including extreme extents and indices",
 "tests probe few error paths; the space of inconsistent arguments is unbounded",
 [CM+"error.rs", CM+"axis_index.rs", CM+"layout/", CO+"tensor/"],
 [("precondition checks returning errors", CM+"error.rs macros, used throughout")],
 technique="negative-input monitor: generated invalid requests must yield an error, with operands compared before and after")

prop("C14", "No memory error, use of uninitialised data or leak-by-corruption in safe use",
 "No sequence of safe operations with valid or invalid arguments reads or writes outside an allocation, uses freed or uninitialised memory, frees memory with the wrong size or alignment, or drops a value twice. This holds for all layouts, element types and sizes, on serial and thread-pool devices.",
 ["inputs", "programs"], "all programs of safe calls; element types with and without destructors; empty, tiny and threshold-crossing sizes",
 "tests only see wrong values; out-of-bounds reads and uninitialised data often yield plausible values",
 [CM+"alloc_vec.rs", CM+"pack_array.rs", CO+"storage/", CO+"tensor/ownership_conversion.rs", NI+"cpu_serial/", NI+"cpu_rayon/"],
 [("unchecked element access guarded by layout checks", NI+"**"), ("uninitialised result buffers filled by kernels", CO+"tensor/operators/, "+NI+"*/reduction.rs"), ("aligned allocation", CM+"alloc_vec.rs")],
 technique="AddressSanitizer over the random workloads of the other monitors and the Miri interpreter over small ones")

prop("C15", "Parallel execution is free of data races",
 "While operations run on thread-pool devices, alone or concurrently on shared read-only operands and disjoint mutable views, no two threads access the same memory without ordering where one of them writes. This holds for every layout, including broadcast and interleaved ones, and every thread count.",
 ["schedules", "inputs"], "all parallel kernels, layouts, thread counts and interleavings of concurrent callers",
 "a race seldom changes a test's result; only a detector sees it",
 [NI+"cpu_rayon/", CM+"par_iter.rs", CO+"feature_rayon/", CO+"tensor/iterator_axes.rs"],
 [("disjoint partition of output layouts among threads", CM+"par_iter.rs, "+NI+"cpu_rayon/")],
 technique="ThreadSanitizer (instrumented standard library) and Miri's race detector over parallel workloads")

prop("C16", "Ownership conversions isolate data and release it exactly once",
 "Converting between borrowed, owned, copy-on-write and shared arrays never changes the elements; owned copies are independent of their source, while views and shared arrays see the same memory, and a write through a shared or copy-on-write array never shows in other holders. Every element value is dropped exactly once, whatever chain of conversions and failures occurred; when an element's own clone or an operator panics, values may be leaked, but none is dropped twice or read after its release.",
 ["histories", "programs", "fault_sequences"], "all chains of ownership conversions and mutations over all layouts, with panics injected in element clones and operators",
 "tests convert once and compare values; isolation and release are properties of histories",
 [CO+"storage/data.rs", CO+"storage/device.rs", CO+"tensor/ownership_conversion.rs", CO+"tensor/asarray.rs", CO+"tensor/tensor_mutable.rs"],
 [("ownership enum and copy-on-write", CO+"storage/data.rs"), ("conversion that may reuse memory", CO+"tensor/ownership_conversion.rs")],
 technique="history monitor with counted elements (live-object ledger) and mutation probes for isolation; injected panics")

prop("C17", "Dense linear algebra results satisfy their defining equations",
 "Factorisations, solvers, inverses, determinants, eigen- and singular decompositions return results that satisfy their defining equations (reconstruction, orthogonality, ordering, triangularity, residual) within error bounds proportional to working precision, for every operand layout, order, element type and backend. Operands passed by reference are unchanged, and non-definite inputs to a Cholesky factorisation are reported as errors; a singular matrix gets the determinant zero and never a plausible inverse or solution (an error, or non-finite or huge numbers).",
 ["inputs", "configurations"], "all matrix sizes (empty and one included where supported), strides, triangle choices, element types {f32,f64,complex}, backends faer and OpenBLAS, orders",
 "tests compare checksums of a few fixed random matrices in one layout",
 ["rstsr-linalg-traits/src/", "crates-device/rstsr-openblas/src/", "rstsr-blas-traits/src/"],
 [("backend implementations", "rstsr-linalg-traits/src/faer_impl/, blas_impl/"), ("LAPACK builders behind the BLAS devices", "rstsr-blas-traits/src/lapack_*/")],
 technique="postcondition monitor (residual and structure checks) on random and ill-structured matrices")

prop("C18", "BLAS/LAPACK wrappers honour any operand layout and flags",
 "The structured BLAS operations (general, symmetric and Hermitian products and triangular solves) compute the documented formula and the LAPACK builders (factorisations, solvers, eigen- and singular value drivers) satisfy their defining equations for every combination of side, triangle, transposition, scaling and operand layout, referencing only the documented triangle. A given output is written at its own elements only, operands passed by reference are unchanged.",
 ["inputs", "configurations"], "all flag combinations, strides (row-/column-major, padded, reversed), scalings including zero, element types {f32,f64,c32,c64}",
 "row-major operands are handled by flipping flags or copying; tests sample few flag combinations",
 ["rstsr-blas-traits/src/blas3/", "rstsr-blas-traits/src/lapack_solve/", "rstsr-blas-traits/src/lapack_eigh/", "rstsr-blas-traits/src/lapack_svd/", "rstsr-blas-traits/driver_impl/"],
 [("layout normalisation before the driver call", "rstsr-blas-traits/src/blas3/, lapack_*/"), ("driver wrappers", "rstsr-blas-traits/driver_impl/")],
 technique="differential monitor against the formula with poisoned unreferenced triangles and canaries")

prop("C19", "Triangular packing and array packing are exact and invertible",
 "Taking the lower or upper triangle, packing a triangle into a vector in row- or column-major order, unpacking with the chosen symmetry, and packing elements into fixed-size arrays or back place each element at its defined position, zero or mirrored elsewhere. Unpacking what was packed restores the triangle, for all layouts, orders, batch shapes and devices.",
 ["inputs"], "all matrix sizes, diagonals offsets, batch shapes, strides, symmetry and triangle flags, orders, devices",
 "tests use one or two sizes per function",
 [NI+"cpu_serial/op_tri.rs", NI+"cpu_rayon/op_tri.rs", CO+"tensor/operators/op_tri.rs", CO+"tensor/pack_array.rs", CM+"pack_array.rs"],
 [("triangle index arithmetic", NI+"cpu_serial/op_tri.rs, cpu_rayon/op_tri.rs"), ("arrays of fixed length over the last or first axis", CO+"tensor/pack_array.rs")],
 technique="differential and round-trip monitor on uniquely labelled arrays")

prop("C20", "Type promotion and casting are consistent",
 "The result type of an operation on two element types can represent the values of both to the documented degree, does not depend on operand order, and converting an operand to it preserves the value whenever it is representable. Casting real to complex sets a zero imaginary part, and closeness comparison of finite values is the documented inequality.",
 ["inputs"], "all pairs of element types and all values, including the extremes",
 "the promotion table is large and tested on few entries and values",
 ["rstsr-dtype-traits/src/", CO+"tensor/operators/"],
 [("promotion and cast tables", "rstsr-dtype-traits/src/promotion.rs")],
 technique="differential monitor over all type pairs with boundary values")

prop("C21", "Pairwise distances and quadrature satisfy their definitions",
 "Each entry of a pairwise distance matrix equals the metric's formula (as SciPy defines it) applied to the two rows, for every metric, weight, layout and thread count, and operands that do not fit are refused. Lebedev quadrature nodes lie on the unit sphere and the rule integrates every spherical polynomial up to its order exactly within rounding (weights normalised to one).",
 ["inputs"], "all point sets, dimensions, metrics, weights, layouts, orders and thread counts, user-defined metrics included; all orders of the quadrature",
 "tests compare fixed data for each metric",
 ["rstsr-sci-traits/src/distance/metric.rs", "rstsr-sci-traits/src/distance/native_impl.rs", "rstsr-sci-traits/src/distance/impl_cpu_serial.rs", "rstsr-sci-traits/src/distance/auto_impl_rayon.rs", "rstsr-sci-traits/src/integrate/lebedev.rs"],
 [("metric kernels and batching", "rstsr-sci-traits/src/distance/"), ("quadrature tables", "rstsr-sci-traits/src/integrate/lebedev.rs")],
 technique="differential monitor against the formulas")

prop("C22", "Moving arrays between devices and containers preserves them",
 "Converting an array between devices, exporting it to a plain vector or scalar, and importing it back preserves shape and every element, for every layout and ownership. Borrowed conversions alias the same memory and mutable borrowed conversions write through.",
 ["inputs"], "all layouts, ownerships, element types and device pairs",
 "tests convert one contiguous array per device",
 [CO+"storage/conversion.rs", CO+"tensor/device_conversion.rs", CO+"device_cpu_serial/conversion.rs", CO+"device_faer/conversion.rs", "crates-device/rstsr-openblas/src/conversion.rs"],
 [("per-device conversion impls", CO+"device_faer/conversion.rs, crates-device/*/conversion.rs")],
 technique="round-trip monitor with write-through probes")

prop("C23", "Contractions by subscripts or axes equal the sum of products",
 "A tensor contraction given by einsum subscripts or by axes of tensordot (a number of axes or pairs of axes) gives, for every result index, the sum over the labels that do not appear in the result of the products of the operands' elements, provided that the tensor library underneath multiplies and adds what it is given. A given output receives exactly that result and nothing outside of it is written, operands are unchanged, inconsistent subscripts, axes, shapes or devices are refused with an error, and the library's number of threads during the call is that of the device and afterwards what it was before, errors included.",
 ["inputs", "fault_sequences"], "all subscripts (repeated, summed, reordered and non-ASCII labels, scalars, implicit results) and axes pairs of either sign, operand counts, shapes, strides of either sign, broadcast operands, element types {f32,f64,c32,c64}, row- and column-major devices, thread counts, given outputs of any layout; invalid requests of every kind",
 "the repository has three tests of contraction, which need the TBLIS library to be installed; none has a given output, an error or a strided operand",
 ["crates-plugin/rstsr-tblis/src/einsum_impl.rs", "crates-plugin/rstsr-tblis/src/tensordot_impl.rs", CM+"tensordot_to_einsum.rs", CO+"tensor/tensor_view_list.rs"],
 [("description of operands and output for the tensor library", "crates-plugin/rstsr-tblis/src/einsum_impl.rs"), ("axes of tensordot to subscripts", CM+"tensordot_to_einsum.rs")],
 observe=["results, outputs and operands", "what the C functions of TBLIS are called with"],
 technique="differential monitor against the definition, with a recording stand-in for the C functions of TBLIS",
 note="The TBLIS library is not installed: its C functions are defined by the monitor as a plain loop over the labels which records thread settings and checks its arguments, so TBLIS itself is not examined. Bounded by the workload (counts in the evidence file); trusts that loop, the model, rustc.")

prop("C24", "Printed arrays show their elements in place",
 "Printing an array (display, debug, lower and upper exponential forms, with any width and precision) shows each element exactly as the element type prints it, in index order, with brackets nested as the axes are. An axis shorter than the print limit is shown in full; where an axis is abbreviated, exactly its first and last entries (as many as the minimum says) are shown around an ellipsis. Printing finishes for every shape, empty ones included, and changes nothing.",
 ["inputs", "configurations"], "all shapes, strides of either sign, broadcast, padded and empty arrays, element types, formatting options, print limits (the maximum larger than twice the minimum) and devices",
 "tests print a few arrays and do not look at the text",
 [CO+"format/format_tensor.rs"],
 [("walk over rows with brackets and ellipses", CO+"format/format_tensor.rs")],
 observe=["the text"],
 technique="parser of the printed text checked against the model")

plan = json.load(open(os.path.join(ROOT, "plan.json")))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        q = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["observe"]:
            q["anchors"]["observe_at"] = p["observe"]
        q["anchors"]["hook_needed"] = None
        f.write(json.dumps(q) + "\n")
NOTE = ("Bounded by the workload: random cases over layouts, sizes around the library's thresholds, devices and thread counts "
        "(counts in the evidence file); trusts the independent reference model in h/src/model.rs, rustc and the sanitizer runtimes.")
m = dict(version=1, setup_cmd="python3 check.py --build-all", checks=[], not_applicable=[])
for p in P:
    if p["na"]:
        m["not_applicable"].append(dict(property=p["id"], reason=p["na"]))
    elif p["id"] in plan:
        m["checks"].append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick",
                                thorough_cmd=f"python3 check.py {p['id']} thorough",
                                technique=p["technique"], level="exploration", level_note=p["note"] or NOTE))
    else:
        m["not_applicable"].append(dict(property=p["id"], reason="no check yet: its monitor is still being built"))
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
