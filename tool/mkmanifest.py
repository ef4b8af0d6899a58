#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EQ = "effect-summary equivalence over LLVM IR (value numbering, scalar evolution, random interpretation)"
CHECKS = {
 "C01": (EQ, "other", "Every flat-format product routine, for four value/index type combinations, has the same loop-nest effects as the reference; assumes index arithmetic does not wrap and memory regions with distinct roots do not alias (the kernels declare this with __restrict)."),
}
CHECKS["C02"] = (EQ, "other", "Every blocked product (six matrix types, four type combinations) and the recursive chunk routine have the same loop-nest effects as the reference; the recursion is compared inductively. Same assumptions as C01.")
CHECKS["C05"] = (EQ, "other", "Every flat and payload conversion (35 entry points, four type combinations) has the same effects - allocations, fields, elements, counters, running totals, order - as the reference; sorts are opaque here (C08, C09). Effects that depend on differently managed temporary memory are reported as undecided, not as violations.")
CHECKS["C06"] = (EQ, "other", "Every blocked conversion (five formats, their entry points, block numbering and block counting, four type combinations) has the same effects as the reference. Sorting, block payload conversion and partitions are opaque (C05, C07, C08, C21).")
CHECKS["C04"] = ("interprocedural mod analysis (pointer roots of every store, deallocation and library call) over LLVM IR", "other", "Every store reachable from a product routine goes to y or to memory the routine allocated itself; unknown pointer roots are reported as undecided.")
CHECKS["C07"] = (EQ + "; relational checks of block numbers and chunk lists over all recorded stores", "other", "Block offsets, size conversion, partition initialisation and chunk counts equal their references; block numbers and chunk boundaries satisfy the stated relation under random interpretation of the summaries.")
CHECKS["C18"] = (EQ, "other", "Permutation, inversion, expansion and the expanded block size equal their references for four type combinations.")
CHECKS["C03"] = ("race analysis over LLVM IR: address sets of work-shared iterations compared by abstract interpretation over legal matrices; task/continuation interference between spawn and taskwait", "other", "Every parallel region and task of the products, permutations and expansion: no two iterations with different index touch a location one of them writes; nothing a running task uses is touched before its taskwait. Assumes each result row is listed once and offsets increase (what C05-C07 establish). Accesses under locks or through unknown pointers are reported as undecided.")
CHECKS["C08"] = ("abstract interpretation of the comparison functions over LLVM IR (every relative position of two elements, exact bit semantics) + effect summaries of the ranges sorted", "other", "Eight sorts for four type combinations: the whole array is handed to the sorting engine once and the comparison equals the documented key for every relative position, extremes included. Assumes comparisons depend on the fields through order comparisons; sort_triplets_blocks' scan equals its reference. The engine itself is C09.")
CHECKS["C10"] = ("abstract interpretation of LLVM IR in a bit-level domain (each bit constant, copied from an input bit, or unknown; intervals)", "other", "For every position of the highest set bit (and the bits below it that matter) the result of each helper is derived bit by bit, so all arguments of the domain are covered; interleaving is derived symbolically for all 16-bit pairs.")
CHECKS["C09"] = ("contract checking by path segments over LLVM IR: loop-invariant inference on cursor positions (Houdini), callees by contract, tasks with their capture memory and taskwaits", "other", "Each of the five functions of the parallel sort meets its contract: stable merge, half sort with buffer bookkeeping, base case, entry with and without buffer. Path conditions over run lengths are decided for representative lengths around the cut-offs; std:: algorithms are assumed correct.")
TS = "path-sensitive typestate analysis over LLVM IR (every library call in both outcomes, intervals, short transfers tagged and compared in closed form)"
CHECKS["C11"] = (TS, "other", "Readers, writers, mm_io and every tool and driver: on every path with at most one failing transfer, files are used only while open and are closed before their owner returns.")
CHECKS["C12"] = (TS, "other", "Every read of every reader is made to fail or fall short, one at a time; no such path may end in the success result. Positioning calls on regular files are assumed to succeed.")
CHECKS["C13"] = (TS, "other", "Every write (and the close that flushes it) of every writer is made to fail, one at a time; no such path may end in the success result. Buffered writes are assumed to set the error indicator or make fclose fail.")
CHECKS["C19"] = (TS, "other", "main of every tool and driver: argument counts, failed reads, writes and opens; no path with a failure ends with status zero, no argument beyond those given is read, and status zero is reached only with the output files opened.")
CHECKS["C14"] = (EQ + "; files modelled as memory", "other", "Every binary reader and writer has the effects of the reference on a model where a file is the bytes at its name and a stream a position in it: order, sizes and element types of every transfer, allocation sizes, fields. The reader of Cgbr into existing blocks is undecided.")
CHECKS["C15"] = (EQ + "; constant propagation over header tokens; format-string lint", "other", "MatrixMarket readers and writers equal their references on a word model of text, for every kind of file; mm_io's header parsing is followed for every combination of header words and line layouts; every conversion agrees with its argument and keeps enough digits. Malformed lines are C12's.")
CHECKS["C16"] = ("ownership analysis: allocation and release effects of paired routines (LLVM IR effect summaries) matched as multisets under random interpretation of final memory; outcome-sensitive analysis of temporaries", "other", "Every format: what its constructors, conversions and readers leave allocated is exactly what its release routine or destructor hands back, with the matching deallocator; temporaries are released before the routine returns; programs never release twice or with the wrong deallocator. Assumes allocations succeed; failing readers are not judged.")
CHECKS["C21"] = (EQ + "; pairing of recorded type, built representation and dispatch", "other", "Every outcome of the type choice: type recorded, returned and built agree; for each such pair multiplication, serial multiplication, counting and release have the effects of the reference on that representation; virtual blocks likewise through their tables.")
CHECKS["C20"] = ("path-sensitive interval analysis of string lengths and array extents over LLVM IR (-fno-builtin), with facts from length tests", "other", "Every path of every tool, driver, reader, writer and of mm_io, with texts of any length: copies, joins, formatted writes, scans and character stores fit their arrays or allocations, strings read are ended, and pointers into a caller's string stay inside it. Strings are at most 2^31-1 characters.")
CHECKS["C17"] = ("definite-initialisation dataflow: marked uninitialised values and allocation/offset classes over LLVM IR effect summaries", "other", "Constructors, builders, conversions, products, sorts, readers and writers for four type combinations: no value a variable holds before it is first set reaches a condition, an address, a call, a result or memory; no memory fresh from an allocation is read at a class of offsets (object, offset, stride) that nothing sets, that is only updated, or that is set only afterwards. Which elements of an array a loop covers is not judged, and functions in which something is unresolved are recorded as undecided.")
CHECKS["C22"] = ("provenance of narrowed values over LLVM IR effect summaries (last writer of each entry field, subtracted offsets, running counts), with unoptimised IR checked for meaningless limits", "other", "Every store of the narrow index type and every value cut to its width in the builders, payload conversions and readers, four type combinations: an entry's row or column less an offset or modulo a width, or from entries made relative before; no count, running total, block number or whole-matrix index. Whether it is the right offset is C06; Cgbr with constant block sizes is undecided.")
CHECKS["C24"] = ("declarations matched with definitions over clang syntax trees of every source file, and compile-fail witnesses: client code instantiating every public template for the supported types must type-check", "other", "Every function declared in a header or source of the repository has one definition with that signature and linkage; every public class and function template type-checks with each supported combination of value and index types; every header compiles on its own.")
CHECKS["C23"] = ("array-bound proofs by linear inequalities over LLVM IR (dominating branch conditions, induction over loops), with small-size witnesses from constant evaluation of sizes and loop counters", "other", "Sorting, counting, numbering, permuting, expansion, the flat products and every conversion: each access to entries, offsets or freshly allocated arrays is proved inside its array for every size including zero, or reported when small sizes put it outside; accesses that depend on running block or row counters or on a block's own contents are listed as undecided in the evidence.")
NA = {
 "C25": "rounding behaviour quantifies over runtime floating-point values; no static bound in reach says anything useful",
 "C26": "running time on hardware is not a property of the source text",
 "C27": "accuracy of measured time is a property of runs, not of source structure",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
for p in props:
    if p["id"] not in CHECKS and p["id"] not in NA: NA[p["id"]] = "no check built yet"
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k, "quick_cmd": "python3 check.py " + k, "thorough_cmd": "python3 check.py " + k, "technique": t, "level": l, "level_note": n} for k, (t, l, n) in sorted(CHECKS.items())],
     "not_applicable": [{"property": k, "reason": r} for k, r in sorted(NA.items())]}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
