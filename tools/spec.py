#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = set("C01 C02 C03 C04 C05 C06 C07".split())

# id, title, statement, over, quantifier, why tests cannot, files, mechanism [(name, where)]
P = [
("C01", "Element access reaches the right element or panics",
 "Indexing an array with one index per dimension, or with the row-major element number, gives exactly the element that the shape and the strides of the layout place there, for shared and mutable access, every rank 0-6, static, constant and dynamic shapes, and owned arrays and views. An index, a number of indices or a range that does not fit the shape panics instead of reaching any memory, and a range of element numbers gives exactly these elements in order.",
 ["inputs"], "every shape, stride, base offset and index within the stated bounds; every 64-bit index that has to be rejected",
 "Tests index a few fixed arrays with valid indices; they have almost no negative, zero or non-canonical strides and no rejected 64-bit values.",
 ["src/index/slice.rs", "src/slice.rs", "src/mapping.rs", "src/shape.rs"],
 [("bounds checks and offset computation", "src/index/slice.rs, src/mapping.rs"), ("Shape::checked_len / with_dims", "src/shape.rs")]),
("C02", "Views by index and range select exactly the requested subarray",
 "view, view_mut and the row-major range views select, for each combination of index, range and stepped range per dimension, exactly the elements requested: the view has the documented shape (steps of either sign round up the size, an index removes the dimension) and each of its elements is the corresponding element of the parent. Indices or ranges out of bounds, reversed ranges and step zero panic.",
 ["inputs"], "every parent shape, stride, range bound, index and step within the stated bounds; any 64-bit bounds that have to be rejected",
 "Tests take a few views with fixed ranges; whether size and offset are right for every start, end, step and sign is arithmetic over all inputs.",
 ["src/index/view.rs", "src/dim.rs", "src/ops.rs", "src/mapping.rs", "src/slice.rs", "src/layout.rs"],
 [("DimIndex per dimension", "src/index/view.rs"), ("ViewIndex recursion and resulting layout", "src/index/view.rs")]),
("C03", "Sub-views along a dimension locate the right elements",
 "at, axis_at, row, col, diag, split_at and split_axis_at, in shared, mutable and consuming form, give views whose shape and elements are those of the parent at the given index, diagonal or side of the split; the two parts of a split are disjoint and together contain every element. Positions, axes and ranks that do not fit panic.",
 ["inputs"], "every shape, stride, axis, index, diagonal and split position within the stated bounds; any 64-bit rejected positions",
 "Tests use a few fixed arrays; off-by-one and stride mistakes show only for particular shapes (non-square, single row, negative diagonals, ranks above 2, dynamic rank).",
 ["src/slice.rs", "src/view.rs", "src/macros.rs", "src/index/axis.rs", "src/mapping.rs"],
 [("Mapping::remove_dim / resize_dim / diag", "src/mapping.rs"), ("split macros", "src/macros.rs, src/slice.rs")]),
("C04", "Reshape, flatten, permute, reorder and remap keep every element",
 "Reshaping, also with one inferred dimension, flattening, remapping and converting between layouts and shapes keep the row-major sequence of elements, and permuting or reordering dimensions moves each element to the permuted index; shape and strides of the result are consistent. A shape of another length, dimensions that cannot be merged, a non-permutation, and a layout or constant dimension that does not match all panic.",
 ["inputs"], "every old and new shape, stride and permutation within the stated bounds; any 64-bit rejected shapes and permutations",
 "Tests reshape a handful of arrays; whether strides can be merged and what the result must be depends on all strides and shapes jointly.",
 ["src/mapping.rs", "src/shape.rs", "src/slice.rs", "src/view.rs", "src/array.rs", "src/tensor.rs", "src/index/permutation.rs"],
 [("Mapping::reshape, permute, transpose, remap", "src/mapping.rs"), ("Shape::reshape, with inference", "src/shape.rs")]),
("C05", "Iteration visits each element exactly once in order",
 "Iterating over any array or expression, by next, fold or for_each, yields each element exactly once in row-major order and then nothing, however often it is asked again; the reported remaining length is exact at every point, and a partly consumed iterator continues where it stopped. This holds for empty arrays, for every layout and rank, and for consuming iteration.",
 ["inputs", "histories"], "every shape in the stated set, all strides and bases, and every number of elements taken before folding, cloning or asking for the size",
 "Tests collect whole iterators for a few shapes; partial consumption, empty dimensions in each position, zero and negative strides and calls after the end are not sampled.",
 ["src/expr/iter.rs", "src/expr/expression.rs", "src/expr/sources.rs", "src/expr/into_expr.rs", "src/expr/buffer.rs"],
 [("Iter with inner and outer loops", "src/expr/iter.rs"), ("get_unchecked, reset_dim, step_dim", "src/expr/sources.rs")]),
("C06", "Expressions give each element from its operands, with broadcasting",
 "Mapping, zipping, enumerating, copying and function or fill sources give, at each index, the result for the operands' elements at that index, where an operand of lower rank is repeated over the missing outer dimensions; functions are called once per element in row-major order (sources are evaluated again when repeated). The result shape is the broadcast shape, and incompatible dimensions, sources that cannot be repeated, or too large shapes panic.",
 ["inputs"], "every operand shape in the stated set, all strides, bases, values and indices; any mismatching dimensions up to 255",
 "Tests evaluate a few expressions; combinations of ranks, layouts, nesting and repeated dimensions are many, and mistakes show only for some of them.",
 ["src/expr/adapters.rs", "src/expr/sources.rs", "src/expr/expression.rs", "src/traits.rs", "src/lib.rs", "src/slice.rs", "src/tensor.rs"],
 [("Zip and shape broadcasting", "src/expr/adapters.rs, src/shape.rs"), ("FromFn, FromElem, Fill, FillWith", "src/expr/sources.rs")]),
("C07", "Expressions over subarrays give each subarray once in order",
 "outer_expr, axis_expr, lanes, rows and cols, shared and mutable, alone or combined with other expressions, give exactly the subarrays of the parent along the stated dimension, once each, in row-major order of the remaining indices and with the shape and elements of the parent. Ranks and axes that do not fit panic.",
 ["inputs"], "every parent shape in the stated set, all strides, bases, axes and element indices",
 "Tests cover two-dimensional arrays mostly; offsets of outer dimensions matter for rank 3 and above (a defect there was found and repaired).",
 ["src/expr/sources.rs", "src/slice.rs", "src/index/axis.rs", "src/mapping.rs"],
 [("AxisExpr, Lanes", "src/expr/sources.rs"), ("Axis", "src/index/axis.rs, src/mapping.rs")]),
]

NA = []
exec(open(os.path.join(V, "tools", "spec_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_more.py")) else None

NOTE = ("All values of the symbolic inputs within the stated bounds are decided by CBMC (bit-precise, SAT) on the code "
        "that Kani compiles from /repo's working tree; panics, out of bounds and invalid pointer accesses are part of "
        "the query. Trusts Kani, CBMC, rustc's MIR and the reference model in harness/src/model.rs. Bounds: see the head "
        "of harness/src/props/%s.rs and coverage.bounds in the evidence; larger shapes are outside.")

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for (i, t, s, over, q, why, files, mech) in P:
        assert len(t) <= 80, (i, len(t))
        f.write(json.dumps({
            "id": i, "title": t, "statement": s, "quantifier": {"over": over, "text": q},
            "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}}) + "\n")

na = dict(NA)
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "checks": [{"property": p[0], "quick_cmd": "python3 check.py %s --tier quick" % p[0],
                 "thorough_cmd": "python3 check.py %s --tier thorough" % p[0],
                 "evidence_file": "evidence/%s.json" % p[0],
                 "technique": "bounded model checking of the compiled Rust code: Kani/CBMC symbolic execution, SAT solver verdict, native replay",
                 "level": "model_checking", "level_note": NOTE % p[0].lower()} for p in P if p[0] in CLAIMED],
     "not_applicable": [{"property": p[0], "reason": na.get(p[0], "check not built yet")} for p in P if p[0] not in CLAIMED],
     "notes": "No hooks in /repo. Harnesses call the public API only. Repairs of genuine defects: see known_findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
