
prop("C11", "Parallel traversals are race-free, complete and exactly-once",
     "Traversing in parallel (OpenMP, TBB, std::execution, traverser ranges, parallel planners) handles every element exactly once and each section of the outermost dimension by one thread, in order, with the same states as the sequential traversal. "
     "All calls have finished when the parallel call returns, and the library introduces no data race.",
     ["schedules", "inputs", "programs"], "all schedules and splittings, thread counts, traversed structures and orders",
     "tests never run the parallel interfaces under a race detector, nor with planners", [IO + "omp.hpp", IO + "tbb.hpp", IO + "std_para.hpp", IO + "planner_iter.hpp", IO + "traverser_iter.hpp"],
     [("omp_for_each, tbb_for_each, std_for_each, *_for_sections", IO + "tbb.hpp"), ("range splitting constructor", IO + "tbb.hpp")],
     "runtime monitoring: ThreadSanitizer with schedule-perturbing runtime stand-ins, ASan with the real runtimes, event log judged by the reference model",
     NOTE + "Races are judged with stand-ins for the TBB/OpenMP runtimes since TSan cannot see inside the real ones.")
prop("C12", "Parallel reduction accumulates every element once, without conflicts",
     "tbb_reduce combines the previous output with every input element exactly once, at the output element its state denotes, for any associative and commutative operation, schedule and splitting. "
     "Private copies are filled with neutral elements once, used by one thread, joined exactly once after all accumulation and freed; a shared output is never written by two threads at one element.",
     ["schedules", "inputs", "programs"], "all schedules, thread counts, input orders and output structures (dims incl. or not incl. the outermost one)",
     "the existing test runs one schedule of two reductions without a race detector", [IO + "tbb.hpp"], [("tbb_reduce", IO + "tbb.hpp")],
     "runtime monitoring: ThreadSanitizer with a schedule-perturbing TBB stand-in, ASan+LSan with the real TBB, offline exactly-once checker of the reduction's event log",
     NOTE + "Races are judged with a stand-in for the TBB runtime. Three recorded findings (output shared although tasks collide).")
prop("C13", "A plan calls each of its functions for exactly its sections and elements",
     "A planner over any bags, with any order and any nesting of section functions, calls every section function once per combination of its dimensions and the element function once per element, in the documented nested order, with the right state and references to the right elements. "
     "Planner ranges, sub-ranges and iterators cover the same sections, the iterators by the laws of random access.",
     ["programs", "inputs", "histories"], "all plans: sections in any dimensions, orders added before or after, element functions with and without state, sub-ranges",
     "tests run two fixed plans over arrays", [EX + "planner.hpp", IO + "planner_iter.hpp"], [("planner_t::for_each_impl, planner_endings", EX + "planner.hpp"), ("planner_range_t", IO + "planner_iter.hpp")],
     GEO, NOTE)
IN = "include/noarr/structures/introspection/"
prop("C16", "Reported strides and partial offsets agree with the real layout",
     "For every dimension and every assignment of the others, stride_along equals the real distance between neighbouring elements along it and offset_along is the part of the element's offset the dimension is responsible for; "
     "neither is reported for a dimension the structure does not have. is_uniform_along holds for no dimension the structure lacks, and for the dimensions of linear structures exactly while they have no index. is_contiguous never claims a whole structure whose elements have gaps between them.",
     ["inputs", "programs"], "all structures, views and lengths; all dimensions, queried with and without the other indices",
     "tests query vectors and a few views at fixed indices", [IN + "stride_along.hpp", IN + "offset_along.hpp", IN + "contiguous.hpp"],
     [("has_stride_along", IN + "stride_along.hpp"), ("has_offset_along", IN + "offset_along.hpp"), ("has_contiguous, is_contiguous", IN + "contiguous.hpp")], GEO,
     NOTE + "Six recorded findings (is_contiguous of views that leave gaps, step scaling other strides).")
prop("C17", "lower_bound_along finds the least offset along a dimension",
     "Along any dimension, lower_bound_at gives an index (in the whole dimension or in the given sub-range) where the offset is least, and lower_bound_along the least value of the dimension's offset there, "
     "for stacks of vectors, tuples, broadcasts, fixes, renames, hoists and range views (slice, span, shift, reverse).",
     ["inputs", "programs"], "all stackings of these structures, lengths, sub-ranges",
     "tests query a few structures, mostly with increasing offsets", [IN + "lower_bound_along.hpp"], [("has_lower_bound_along", IN + "lower_bound_along.hpp")], GEO, NOTE)
prop("C18", "Text serialization and deserialization are inverse and honest about failures",
     "serialize_data writes every element once, one per line in traversal order; deserialize_data reads exactly that many values from any white-space layout into the elements, writing nothing else, so data survive a round trip, also into another layout with the same order. "
     "Truncated or malformed input and full sinks leave the elements before the failure, and are reported through the stream as it is configured (state or exception).",
     ["inputs", "faults", "programs"], "all structures and element types, separators, truncation points, sinks failing at any byte",
     "the existing test round-trips one structure", [IO + "serialize_data.hpp"], [("serialize_data, deserialize_data", IO + "serialize_data.hpp")],
     "runtime monitoring: ASan/UBSan programs with exact-size buffers, failing streams injected; memory and text judged by the reference model", NOTE)
prop("C19", "Mangled names are C++ source that denotes the same structure",
     "mangle, mangle_to_str and mangle_expr give the same text in all forms; the text of the type, compiled again, is the structure's type (up to fixed-width names of equally sized integers), and the text of mangle_expr is a structure with the same size, element offsets and parameters; integers of any width and sign appear exactly.",
     ["inputs", "programs"], "all structures over arithmetic scalars, parameters over the full 64-bit range, static and dynamic",
     "tests compare the text of two structures", [EX + "mangle.hpp"], [("mangle_expr, append_int", EX + "mangle.hpp"), ("scalar_name, mangle_param", EX + "mangle.hpp")],
     "runtime monitoring: the recorded texts are compiled into a second monitored program and compared with the original structure", NOTE)
prop("C20", "Bags own, share and view their data without leaks or dangling accesses",
     "An owning bag allocates at least its size once, zero-filled, passes that very memory on when moved or when a view is applied to it, and frees it exactly once; the moved-from bag is null. Reference and constant bags never allocate, free or copy. "
     "Every way to access an element (index, at, get_at, offset) reaches the address the structure denotes; constant bags are not writable; layout-changing protos are refused.",
     ["histories", "inputs", "programs"], "all sequences of creating, moving, assigning, referencing, viewing and destroying bags over arbitrary structures",
     "tests cover single operations on fixed structures, and none applies a view to an owning bag", [IO + "bag.hpp"],
     [("bag_t, operator^, get_ref", IO + "bag.hpp"), ("bag_policy", IO + "bag.hpp")],
     "runtime monitoring: random operation sequences under ASan/UBSan with a tracking allocator; log judged by an ownership model", NOTE)
prop("C21", "cuda_striped keeps private, conflict-minimal, consistent copies",
     "A cuda_striped structure holds one copy of the original per stripe: elements of all stripes lie inside the reported size, properly aligned, and never overlap; no memory cell holds data of two stripes and no bank holds data of more stripes than unavoidable. "
     "Stripes have the same layout at a constant distance, element pieces stay consecutive, lengths are those of the original, and thread t uses stripe t mod N.",
     ["inputs", "programs"], "all structures, element types, numbers of stripes, bank counts and widths, threads",
     "tests check a few power-of-two stripe counts", [IO + "cuda_striped.cuh"], [("cuda_striped_t", IO + "cuda_striped.cuh")], GEO,
     NOTE + "Device code runs as host code with emulated thread indices.")
prop("C22", "CUDA threads together visit every element exactly once",
     "cuda_threads binds pairs of dimensions to blocks and threads: the launch shape equals the lengths, and the thread at given coordinates visits exactly the elements with those indices, in order, so all threads together visit every element once; kernels written as documented (also with dynamic blocks) compute the right result. "
     "cuda_step deals the elements of a dimension round-robin to a group's threads, each element to exactly one.",
     ["inputs", "programs"], "all traversers and orders, bound dimensions, launch shapes, groups of threads",
     "tests emulate single threads of fixed structures; cuda_step is not compiled at all", [IO + "cuda_traverser.cuh", IO + "cuda_step.cuh"],
     [("cuda_traverser_t, cuda_fix_t", IO + "cuda_traverser.cuh"), ("cuda_step", IO + "cuda_step.cuh")], GEO,
     NOTE + "Device code runs as host code, one emulated thread after another.")
prop("C23", "Signatures and structure traits describe the structure",
     "A structure's signature has exactly its dimensions in their nesting order, tuple-like where indices must be static, with the right element types; a length it gives as static is the length the structure has at every index, and views that leave a length alone leave it static. "
     "any_accept, all_accept, replace, is_point, is_cube, scalar_t and HasDims answer accordingly, and a traverser's signature is that of the structures and order it traverses.",
     ["inputs", "programs"], "all compositions with static and dynamic parameters, traversers over several structures",
     "tests compare a few signatures, none of ranges with static parameters", ["include/noarr/structures/base/signature.hpp", EX + "struct_traits.hpp", EX + "struct_concepts.hpp", EX + "sig_utils.hpp", "include/noarr/structures/structs/slice.hpp"],
     [("function_sig, dep_function_sig", "include/noarr/structures/base/signature.hpp"), ("sig_is_cube, sig_get_scalar", EX + "struct_traits.hpp"), ("dim_replacement of the views", "include/noarr/structures/structs/slice.hpp")], GEO, NOTE)
prop("C24", "The shortcuts build what their definitions say",
     "vector_like, vectors_like, length_like and lengths_like make a structure with the lengths of the structure, structure and state, or traverser they are given, for the dimensions they name; set_length and fix taking a state or a traverser set exactly the lengths and indices that it holds; "
     "get_index of a traverser's section is the index that section is at; span and symmetric_span restrict exactly the dimensions named; index_space_size is the number of index tuples.",
     ["inputs", "programs"], "all compositions of the structures, with static and dynamic parameters, from a structure, a structure and a state, or a traverser",
     "tests use each shortcut once or twice on a plain matrix; the compositions and the sources of the lengths are open", [EX + "shortcuts.hpp"],
     [("vectors_like, lengths_like, set_length, fix, symmetric_spans, index_space_size", EX + "shortcuts.hpp")], GEO, NOTE)
prop("C25", "Composition is associative and protos are reusable",
     "Protos composed first in any parenthesisation and applied later give the same structure, and the same traverser order, as applying them one by one; a stored proto can be applied again, to other structures and from an lvalue or rvalue. Empty protos change nothing; pack ^ to_each(p) applies p to every item, s ^ pack(p, q) makes a pack of s ^ p and s ^ q, and a composition preserves the layout, and may be applied to a bag, exactly when all its parts do.",
     ["inputs", "programs"], "all compositions, parenthesisations and ways to hold the parts",
     "the algebra tests compare five compositions of vectors and tuples", ["include/noarr/structures/base/structs_common.hpp", "include/noarr/structures/structs/setters.hpp", "include/noarr/structures/structs/bcast.hpp"],
     [("compose_proto, pack, to_each, make_proto, neutral_proto, operator^", "include/noarr/structures/base/structs_common.hpp")], GEO, NOTE)
prop("C26", "Structures are plain data, also at compile time",
     "Every structure and traverser is standard-layout and trivial to copy, move and destroy: its bytes, carried elsewhere, are the same structure. A structure whose parameters are all static takes no space, one with run-time parameters only theirs (and what C++ makes two equal empty parts cost). With constant parameters everything it says is a constant expression with the values it has at run time. "
     "contain holds exactly the items given, empty ones for free; contain_cat concatenates.",
     ["inputs", "programs"], "all compositions and parameters, traversers, and lists of empty, non-empty and nested contained types",
     "tests look at pairs and triples in a contain and the simplest structures", ["include/noarr/structures/base/contain.hpp", "include/noarr/structures/base/utility.hpp", "include/noarr/structures/structs/views.hpp"],
     [("contain_impl, contain_cat", "include/noarr/structures/base/contain.hpp"), ("IsSimple, constexpr_arithmetic", "include/noarr/structures/base/utility.hpp")], GEO, NOTE)
