#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/noarr/structures/"
ST, EX, IO, IN, BA = I + "structs/", I + "extra/", I + "interop/", I + "introspection/", I + "base/"
PY = {}


def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    PY[id] = dict(p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                         anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                      observe_at=observe or ["public API"], hook_needed=None)),
                  tech=tech, note=note)


NOTE = ("Held on every execution explored (seeded sample of generated programs x parameters, evidence lists counts); trusts the reference model "
        "in vm/model.py (written from docs/, not from the code), g++ 13 and its sanitizers. ")
GEO = "runtime monitoring: event log of the real library under ASan+UBSan judged by an independent reference model"

prop("C01", "Base layouts: sizes, lengths and offsets of scalars, vectors, arrays, tuples",
     "For every composition of scalars, vectors, arrays, sized vectors and tuples, with lengths given statically, dynamically or set later, the reported "
     "size, the length of every dimension and the byte offset of every element are the documented ones (row-major nesting, tuple members one after the other). "
     "All elements lie inside the reported size and no two elements overlap.",
     ["inputs", "programs"], "all compositions of base structures, element types and lengths (incl. 0 and lengths near 2^40)",
     "tests sample a few small fixed shapes", [ST + "scalar.hpp", ST + "layouts.hpp", ST + "bcast.hpp", ST + "setters.hpp", BA + "utility.hpp"],
     [("strict_offset_of", ST + "layouts.hpp"), ("offset / get_size", EX + "funcs.hpp")], GEO, NOTE)
prop("C02", "Element access: in bounds, non-overlapping, identical through every access path",
     "Through every way of addressing an element (offset, get_at, bag operator[], bag.at, state- and index-based, const and mutable) one full index assignment denotes the "
     "same address, inside the allocation of the reported size, and different elements of a layout occupy disjoint bytes. "
     "Values written through one path are read back unchanged through every other.",
     ["inputs", "programs"], "all generated structures, element types, indices, memory contents",
     "tests touch a few elements of a few structures, without sanitizers", [EX + "funcs.hpp", IO + "bag.hpp", BA + "structs_common.hpp", BA + "state.hpp"],
     [("get_at/offset", EX + "funcs.hpp"), ("bag::operator[]", IO + "bag.hpp")], GEO + "; write/read-back monitor on an exactly sized heap block", NOTE)
prop("C03", "shift, slice, span, step, reverse select exactly the documented elements",
     "A shifted, sliced, spanned, stepped or reversed structure has exactly the documented length, and its element k is the documented element of the original structure, "
     "for any stacking of such views in any dimensions; size and all other dimensions are unchanged. ",
     ["inputs", "programs"], "all starts, lengths, strides (incl. 0, full and huge), all stackings",
     "tests use a handful of constants", [ST + "slice.hpp", ST + "views.hpp"], [("shift_t/slice_t/span_t/step_t/reverse_t sub_state", ST + "slice.hpp")], GEO, NOTE)
prop("C04", "rename, hoist, reorder, join, fix, broadcast, set_length keep the elements",
     "Renaming, hoisting, reordering, joining, fixing, broadcasting and externally setting lengths change only the names, nesting order, presence or length of dimensions as documented; "
     "each remaining index assignment denotes the same element of the original structure.",
     ["inputs", "programs"], "all dimension permutations/renamings incl. swaps and cycles, all fixed indices, all stackings",
     "tests use single fixed uses", [ST + "views.hpp", ST + "setters.hpp", ST + "bcast.hpp"],
     [("rename_t/hoist_t/reorder_t/join_t", ST + "views.hpp"), ("fix_t/set_length_t", ST + "setters.hpp")], GEO, NOTE)
prop("C05", "Blocking partitions a dimension exactly and merging blocks is its inverse",
     "Splitting a dimension into blocks (uniform, dynamic with presence, static with border, strip-mined) makes every original index reachable by exactly one present block/inner combination, the documented one, for every length and block size; "
     "block counts and block lengths are as documented. Merging two dimensions reaches each pair exactly once in the documented order.",
     ["inputs", "programs"], "all lengths (incl. 0, not divisible, smaller than the block) and block sizes, stacked with other views",
     "tests use single lengths", [ST + "blocks.hpp"], [("into_blocks_t, into_blocks_dynamic_t, into_blocks_static_t, merge_blocks_t", ST + "blocks.hpp")], GEO, NOTE)
prop("C06", "Z-order merging is a bijection that follows the Morton order",
     "Merging dimensions along the z-curve visits every combination of the merged indices exactly once, in Morton order restricted to the box, for every box and every declared maximum length and alignment that admits it. "
     "The merged length is the product of the lengths.",
     ["inputs", "programs"], "all box sizes within the maximum length, alignments, 2-4 dimensions, maximum lengths up to 2^63",
     "tests use a few boxes", [ST + "zcurve.hpp"], [("merge_zcurve_t, zc_general, zc_special", ST + "zcurve.hpp")], GEO, NOTE)
prop("C07", "Arbitrary compositions of structures and views compute the composed mapping",
     "For an arbitrary chain of structures, views and blockings, in any order the library accepts, size, lengths, nesting order and the offset of every element equal the composition of the documented meanings of the single steps, whatever indices and lengths of other dimensions the state holds besides.",
     ["programs", "inputs"], "randomly composed chains over all structure kinds and parameters",
     "the space of compositions is unbounded; tests cover isolated ones", [ST + "views.hpp", ST + "blocks.hpp", ST + "slice.hpp", ST + "setters.hpp", BA + "signature.hpp", BA + "state.hpp"],
     [("sub_state / clean_state chains", BA + "structs_common.hpp"), ("function_sig/dep_function_sig replace", BA + "signature.hpp")], GEO, NOTE)
prop("C08", "A traversal visits every element exactly once, in the documented order",
     "Traversing any number of structures (or bags) with any order proto calls the function once for every combination of indices, in the nested-loop order given by the resulting structure, with a state that is valid for, and indexes, the original structures.",
     ["programs", "inputs"], "all traversed structures, unions of several, order protos (blocks, views, fixes, z-curve), lengths incl. 0",
     "tests check counts on a few structures", [EX + "traverser.hpp", "include/noarr/traversers.hpp"], [("traverser_t::for_each, order, union_t", EX + "traverser.hpp")], GEO, NOTE)
prop("C09", "Partial traversals enumerate sections exactly once and compose to the whole",
     "Iterating over chosen dimensions or sections yields each combination of those dimensions exactly once in the documented order, and the inner traversers together visit each element exactly once with states carrying all outer indices.",
     ["programs", "inputs"], "all subsets and orders of dimensions, nested partial traversals, tuple-like and dynamic-block dimensions",
     "tests use two or three dimensions in fixed order", [EX + "traverser.hpp"], [("for_sections, for_dims", EX + "traverser.hpp")], GEO, NOTE)
prop("C10", "Traverser ranges and iterators are random-access views of the traversal",
     "Iterating a traverser or its range (forward, backward, by index, by iterator arithmetic, over sub-ranges) yields the same sections as the plain traversal, each once; comparing, subtracting and advancing iterators obey random-access laws.",
     ["programs", "inputs", "histories"], "all traversers, all sub-ranges and sequences of iterator operations",
     "tests iterate forward over a few ranges", [IO + "traverser_iter.hpp"], [("traverser_range_t, traverser_iterator_t", IO + "traverser_iter.hpp")], GEO, NOTE)
prop("C14", "State algebra: set, get, remove, merge, add, subtract, compare obey their laws",
     "States behave as finite maps: what is set is read back, setting/removing one item leaves all others unchanged, merging prefers the right operand, addition/subtraction combine common items, and comparisons agree with the values, for static and dynamic items alike.",
     ["inputs", "programs"], "all combinations of tags, static/dynamic values (full 64-bit range) and sequences of operations",
     "tests check single operations", [BA + "state.hpp", EX + "shortcuts.hpp"], [("state<...>::with/remove/merge, operators", BA + "state.hpp")],
     "runtime monitoring: generated operation sequences on states, event log judged by a map model", NOTE)
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "meta2.py")).read())


def main():
    ids = [i for i in sorted(PY) if os.path.exists(os.path.join(HERE, "vm", "props", i.lower() + ".py"))]
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for i in ids:
            assert len(PY[i]["p"]["title"]) <= 80, i
            f.write(json.dumps(PY[i]["p"]) + "\n")
    man = dict(version=1, setup_cmd="python3 tools/setup.py",
               hooks=dict(guard="none", enable="no hooks are needed: everything is observed through the public API", source_commits=[]),
               checks=[dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                            evidence_file="evidence/%s.json" % i, technique=PY[i]["tech"], level="exploration", level_note=PY[i]["note"].strip()) for i in ids],
               not_applicable=[],
               notes="All checks generate programs against the public headers of /repo/include, build them with sanitizers and judge the recorded event logs.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
