P += [
("C08", "Growing and shrinking a tensor keeps the right elements",
 "resize and resize_with keep each element at its index when that index is in the new shape and give all other indices the new value; expand, append and extend add exactly the elements of the source, in order, after the existing ones along the first dimension; truncate and clear remove exactly the elements after the new size; reserving and shrinking capacity changes no element and gives at least the requested capacity. Shapes, ranks or constant dimensions that do not fit and lengths that overflow panic.",
 ["inputs", "histories"], "every old and new shape in the stated set, all element values, any 64-bit truncation size; any rejected dimensions within the stated bounds",
 "Tests resize two or three arrays; moving elements between overlapping positions is right or wrong depending on which dimensions grow or shrink and on spare capacity.",
 ["src/tensor.rs", "src/raw_tensor.rs"],
 [("resize_with and copy of dimensions", "src/raw_tensor.rs, src/tensor.rs"), ("expand, append, truncate", "src/tensor.rs")]),
("C09", "Draining removes exactly the range and keeps the rest",
 "drain of a range of the first dimension gives exactly the elements of that range, in order and with the shape of the range, and afterwards the tensor holds the elements before and after the range in order, whether the drained elements were all taken, taken partly or not at all; if the drain is leaked the tensor is still valid and holds a prefix. Ranges that do not fit, rank 0 and a constant first dimension panic.",
 ["inputs", "histories"], "every range of the first dimension, each number of elements taken, all element values; any 64-bit rejected bounds",
 "Tests drain one or two fixed ranges completely; the tail move depends on range, inner size and how far the iteration went.",
 ["src/expr/buffer.rs", "src/tensor.rs", "src/expr/into_expr.rs", "src/expr/iter.rs"],
 [("Drain new and drop", "src/expr/buffer.rs"), ("IntoExpr index state", "src/expr/into_expr.rs")]),
("C10", "Each element is dropped exactly once",
 "Every element that is put into an array is either handed to the caller or dropped exactly once, never twice and never lost, through dropping, consuming iteration and draining stopped at any point, resizing, truncating, clearing, expanding, appending, extending, mapping, zipping, converting, assigning, filling and cloning; a leaked drain may leak elements but drops none twice.",
 ["inputs", "histories"], "every point at which consuming iteration stops, all sizes in the stated set",
 "Tests use elements without drop; double drops and leaks depend on where an iteration stops and which elements a resize removes.",
 ["src/expr/into_expr.rs", "src/expr/buffer.rs", "src/tensor.rs", "src/raw_tensor.rs", "src/array.rs"],
 [("ownership of elements in IntoExpr and Drain", "src/expr/into_expr.rs, src/expr/buffer.rs"), ("Drop of raw tensor", "src/raw_tensor.rs")]),
]
CLAIMED |= set("C08 C09 C10".split())
P += [
("C11", "Equality and hashing depend only on shape and elements",
 "Two arrays are equal exactly if they have the same shape and equal elements at each index, whatever their layouts, strides, ownership or kind of shape; an array is not equal to itself if its elements are not. Equal arrays give the hasher the same data, and no element outside the array is compared or hashed. Dynamic shapes with the same dimensions are equal, hash alike and compare as Equal however they are stored, and their order is total and consistent with equality.",
 ["inputs"], "every pair of shapes, strides, bases and element values within the stated bounds; any 64-bit sizes for dynamic shapes",
 "Tests compare a few arrays; equality takes different paths for dense and strided layouts and ranks, and mistakes show only for particular shapes and positions of the difference.",
 ["src/slice.rs", "src/array.rs", "src/tensor.rs", "src/view.rs", "src/shape.rs", "src/mapping.rs"],
 [("eq and hash of slices by layout and rank", "src/slice.rs"), ("DynRank comparison", "src/shape.rs")]),
("C12", "Conversions between array types keep shape and elements",
 "Converting between native nested arrays, inline arrays, tensors, views, vectors, slices, raw parts and scalars, by value or reference, and the array!, tensor! and view! macros keep the dimensions and the row-major order of the elements; references refer to the same memory. A conversion into a native array succeeds exactly if the dimensions match, and otherwise gives back the tensor unchanged or the error; conversions to another shape or to a scalar panic if the length does not fit.",
 ["inputs"], "all element values for each rank 0-6, any dimensions up to 3 for attempted conversions, all strides and bases of converted views",
 "Tests convert one array per type; the conversions are generated for each rank by macros around unsafe casts, so that a mistake concerns one rank or one mismatching shape.",
 ["src/array.rs", "src/tensor.rs", "src/view.rs", "src/slice.rs", "src/macros.rs", "src/raw_tensor.rs"],
 [("From / TryFrom per rank", "src/array.rs, src/tensor.rs, src/view.rs"), ("into_raw_parts, into_vec, into_scalar", "src/tensor.rs")]),
("C13", "Operators apply the right operation to the right operands",
 "Each arithmetic and bitwise operator gives, at each index, that operator applied to the left and the right operand's elements at that index in this order, for every combination of arrays, tensors, views and expressions by value or reference, with operands of lower rank repeated; the assigning operators store the same result in the left operand and nothing elsewhere, and unary operators apply to each element. Shapes that cannot be broadcast panic.",
 ["inputs"], "all element values, strides and bases, for each operator and each kind of operand in the stated set",
 "Tests apply a few commutative operators; swapped operands, a wrong operator in one of the generated impls, or a mistake for one operand kind do not show.",
 ["src/ops.rs", "src/expr/adapters.rs", "src/expr/expression.rs", "src/array.rs", "src/tensor.rs", "src/view.rs"],
 [("operator impls generated by macros", "src/ops.rs"), ("Apply::apply and zip_with per operand kind", "src/expr/expression.rs, src/array.rs, src/tensor.rs")]),
("C14", "Shapes and mappings report consistent dimensions and strides",
 "A shape made from dimensions, in any of the accepted forms, reports exactly these dimensions, their number and their product; a dense mapping reports the row-major strides, a strided mapping exactly the given ones, and contiguity is reported for dense strides only. Arrays report the shape and strides of their mapping, new arrays are empty. Dimension numbers, ranks, numbers of strides and constant sizes that do not fit panic.",
 ["inputs"], "any 64-bit sizes and strides for reported values, sizes within the stated bounds for products and contiguity; any 64-bit rejected values",
 "Tests check few shapes; static, constant and dynamic shapes have separate implementations for each rank.",
 ["src/shape.rs", "src/dim.rs", "src/mapping.rs", "src/layout.rs", "src/slice.rs", "src/tensor.rs"],
 [("Shape for tuples, Const and DynRank", "src/shape.rs, src/dim.rs"), ("DenseMapping, StridedMapping", "src/mapping.rs")]),
("C15", "Serialized arrays are nested sequences and read back unchanged",
 "With the serde feature, an array of any layout is written as nested sequences with the length of each dimension stated and the elements in row-major order, a rank 0 array as its element; nested sequences of equal lengths are read as the array with exactly these dimensions and elements, whatever the size hint. Sequences of unequal lengths, a length that differs from a constant first dimension, a wrong nesting depth and element errors give an error and no array; dynamic rank panics.",
 ["inputs"], "every shape in the stated set, all strides, bases and element values, each position of an irregular length or an error, size hints absent, exact and wrong",
 "Tests round-trip one array per type through one format; irregular input, wrong hints, empty dimensions and strided layouts are not sampled.",
 ["src/serde.rs"],
 [("TensorVisitor::visit_seq", "src/serde.rs"), ("Serialize for Slice", "src/serde.rs")]),
("C16", "Writes through a view change exactly its elements",
 "fill, fill_with, assign, assignment through mutable iteration, subarray expressions, both parts of a split and any mutable view, also one after another, set exactly the elements of the view, each to the value meant for its index (in row-major order for generated values, repeated for sources of lower rank), and change nothing else in the underlying memory; contains is true exactly if an element of the view equals the value. Sources that do not fit panic.",
 ["inputs", "histories"], "every shape in the stated set, all strides without overlap, bases, values and ranges; every pair of consecutive writes of the stated kinds",
 "Tests write to a few dense arrays and never look at the memory between and around the elements of a strided view.",
 ["src/slice.rs", "src/view.rs", "src/expr/adapters.rs", "src/expr/sources.rs", "src/expr/expression.rs"],
 [("fill, assign, contains", "src/slice.rs"), ("mutable expressions", "src/expr/sources.rs")]),
("C17", "Copies have the same shape and cloned elements and are independent",
 "clone, clone_from, to_owned, clone_into, to_tensor, to_array, to_vec, array and tensor of subarrays, and cloned expressions give an array with the dimensions of the source and a clone of the element at each index, in memory of its own with enough capacity; the source is unchanged, and replaced contents of any other shape or dynamic rank leave no trace. Cloned views refer to the same elements. Cloning a consumed array expression that is in use panics.",
 ["inputs", "histories"], "all pairs of shapes in the stated set, all strides, bases and element values",
 "Tests clone one or two arrays; reuse of an existing allocation with another shape and copying from strided views have shape-dependent paths.",
 ["src/tensor.rs", "src/raw_tensor.rs", "src/slice.rs", "src/array.rs", "src/expr/into_expr.rs", "src/mapping.rs", "src/shape.rs", "src/traits.rs"],
 [("Clone for RawTensor, clone_from_slice", "src/raw_tensor.rs, src/tensor.rs"), ("IntoCloned", "src/traits.rs")]),
("C18", "A panic in user code leaves arrays valid",
 "If a closure, clone, drop or iterator supplied by the user panics during an operation and the panic is caught, every array is still valid and no element is dropped twice.",
 ["inputs", "fault_sequences"], "every point at which user code can panic",
 "Tests never panic inside callbacks.",
 ["src/expr/into_expr.rs", "src/expr/buffer.rs", "src/raw_tensor.rs", "src/tensor.rs", "src/array.rs"],
 [("drop guards", "src/array.rs, src/raw_tensor.rs, src/tensor.rs")]),
("C19", "Arrays can be sent and shared between threads like their elements",
 "Arrays, views and expressions are Send or Sync only if their elements allow it, and concurrent shared access has no data race.",
 ["inputs", "schedules"], "every element type and interleaving",
 "Tests are single threaded.",
 ["src/view.rs", "src/raw_tensor.rs", "src/expr/sources.rs"],
 [("unsafe impl Send / Sync", "src/view.rs, src/raw_tensor.rs")]),
("C20", "Debug output is the nested list of the elements",
 "The single-line Debug output of an array of any layout, rank 0-3 or dynamic rank, is that of the nested list of its elements in row-major order with one level per dimension, empty dimensions included, and that of the element for rank 0; formatting flags reach the elements.",
 ["inputs"], "every shape in the stated set, all strides, bases and element values",
 "Tests print no strided, empty or high-rank array.",
 ["src/slice.rs", "src/array.rs", "src/tensor.rs", "src/view.rs"],
 [("Debug for Slice", "src/slice.rs")]),
]
CLAIMED |= set("C11 C12 C13 C14 C15 C16 C17".split())
NA += [
("C18", "Kani compiles panics to aborts (no unwinding), so the state after a caught panic cannot be encoded; a hand-written model of unwinding would not be the real code."),
("C19", "Send and Sync are decided by rustc's trait solver, not by execution; Kani does not support threads, and the crate has no synchronisation or interior mutability whose interleavings could be encoded."),
]
CLAIMED.add("C20")
