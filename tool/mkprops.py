import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
I=["inputs"]; IC=["inputs","configurations"]; S=["schedules","inputs"]; F=["fault_sequences","inputs"]
p("C01","Flat-format SpMV adds exactly A*x to y",
 "For every non-blocked storage format (the COO, CSR, compressed-row CSR, wide-row and dense matrices and every block payload format), the product routine adds value*x[column] to y[row] exactly once per stored entry, and changes nothing else. Serial and parallel routines of one format add the same contributions, and y is accumulated into, never overwritten.",
 I,"all matrices of every format, all x and y, all sizes including empty rows and empty matrices","tests multiply 13 generated square matrices and compare with CSR, which runs through the same kernels; other shapes, empty rows, wide indices and the untested formats are never reached",
 ["include/generic/coo.h","include/spmv/coo.h","include/spmv/csr.h","include/spmv/omp/csr.h","include/spmv/dense.h","include/spmv/omp/dense.h","include/spmv/crcsr.h","include/spmv/omp/crcsr.h","include/matrix/cswr.h","include/matrix/blocks.h","include/matrix/dense.h"],
 [("spmv kernels","include/spmv/"),("member spmv/spmv_serial wrappers","include/matrix/*.h")],
 [("y","result vector, accumulated into","caller")],["stores to y in every kernel"])
p("C02","Blocked SpMV applies every block once at its own offset",
 "For every blocked format the product visits each stored block exactly once and applies it to the part of x that starts at the block's column offset and the part of y that starts at the block's row offset. This holds for the balanced path, the serial path and the recursive chunked path, whose partial results are zero-initialised and added back over the whole block-row height.",
 S,"all block partitions, chunk lists, block types and schedules","tests use a handful of partitions with 1 and 4 threads; the chunk recursion depends on thread count and the non-zero distribution",
 ["include/spmv/omp/gsb.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/csbr.h","include/matrix/csbr.2.h"],
 [("spmv_blocked / spmv_balanced / spmv_chunk","include/spmv/omp/gsb.h"),("Cgbr::spmv_serial","include/matrix/cgbr.h"),("Csbr2::spmv","include/matrix/csbr.2.h")],
 [("partition","chunk boundaries per block-row","include/partition.h")])
p("C03","Parallel regions are free of data races",
 "No two iterations or tasks of a parallel region may write the same memory location, or one write what another reads, unless a synchronisation orders them. In particular each parallel iteration writes only the y rows it owns, and a chunk's partial result is merged only after the concurrent task that writes the same destination has finished.",
 S,"all thread counts and schedules, all matrices and permutations","races depend on interleavings; tests run with 1 and 4 threads and compare results that usually come out right even when a race exists",
 ["include/spmv/omp/csr.h","include/spmv/omp/dense.h","include/spmv/omp/crcsr.h","include/spmv/omp/gsb.h","include/matrix/cswr.h","include/matrix/csbr.2.h","include/permute.h","include/expand.h","dep/pss/parallel_stable_sort.h"],
 [("omp parallel for","include/spmv/omp/*.h"),("omp task + taskwait","include/spmv/omp/gsb.h, dep/pss/parallel_stable_sort.h")])
p("C04","Multiplication never modifies the matrix or x",
 "A product routine writes only to the result vector (and to temporary memory it allocates and frees itself): the matrix arrays, the input vector and any global state are left untouched, so one matrix can be multiplied any number of times and from several threads at once.",
 ["histories","inputs"],"any number and order of multiplications with the same matrix object","tests multiply once per matrix object and check only the result",
 ["include/spmv/","include/matrix/","include/generic/coo.h"],[("const member functions and const kernel parameters","include/matrix/*.h")])
p("C05","COO to flat conversion preserves every entry",
 "Converting coordinate data to any flat format (COO, CSR, compressed-row CSR, wide-row, dense and each block payload) stores every input entry exactly once with its own row, column and value, in the order the format requires. Row pointers are the running totals of the per-row entry counts starting at zero, and recorded dimensions and counts are those of the input.",
 I,"all coordinate inputs: any order, duplicates, empty rows, empty matrices, rectangular shapes","tests convert a few sorted generated matrices and check them only through one multiplication",
 ["include/generic/coo.h","include/generic/csr.h","include/matrix/csr.1.h","include/matrix/csr.2.h","include/matrix/crcsr.h","include/matrix/cswr.h","include/matrix/coo.1.h","include/matrix/block_coo.1.h","include/matrix/block_coo.2.h","include/matrix/block_csr.h","include/matrix/blocks.h","include/matrix/dense.h"],
 [("Coo_to_Csr / Coo_to_CrCsr / Coo_to_Cswr / Coo_to_Coo / Coo_to_Dense and block constructors","include/matrix/*.h")],
 [("row_ptr","prefix sums of per-row counts","CSR-like formats")])
p("C06","COO to blocked conversion places every entry in its block",
 "Converting coordinate data to a blocked format stores every entry exactly once, inside the block that contains its row and column, with indices relative to that block's origin. Block-row pointers, block columns, block dimensions, block counts and per-type statistics describe exactly the non-empty blocks, in block-row then block-column order.",
 I,"all coordinate inputs and all block partitions","tests use few partitions of square matrices whose sizes mostly fit the blocks and check them only through one multiplication",
 ["include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/csbr.h","include/matrix/csbr.2.h","include/utils.h"],
 [("Coo_to_Cgbr / Cgbr2::create / Coo_to_Csbr","include/matrix/"),("calculate_block_id, sort_elements_blocks, count_blocks","include/utils.h")])
p("C07","Block partitions cover every row and column exactly once",
 "Block offsets built from constant or explicit block sizes start at zero, never decrease and end at the matrix dimension, and the block number of an index is the one whose offset range contains it. The chunks of a block-row start at its first block, never go backwards and end after its last block, so every block belongs to exactly one chunk.",
 IC,"all dimensions, block sizes (including larger than the matrix), offsets, thread counts and non-zero distributions","chunking depends on thread count and distribution; tests use small square matrices and two thread counts",
 ["include/generic/gsb.h","include/matrix/csbr.h","include/partition.h","include/utils.h"],
 [("Coo_to_Blocked constant-size constructor","include/generic/gsb.h"),("index_to_blockindex, size_to_offset, calculate_block_id","include/utils.h"),("partition_blockrow, partition_init","include/partition.h")])
p("C08","Sorting orders are the documented strict weak orders",
 "Each sort arranges the whole array, and nothing else, by its documented key: row then column, column then row, block then row then column, wide row then column then row, or bit-interleaved (Morton) position. Every comparison used is a strict weak ordering for all index values.",
 I,"all index values and array contents","comparator defects show only for particular triples of keys or equal keys; tests never sort adversarial or tied data",
 ["include/utils.h","dep/pss/parallel_stable_sort.h","dep/pss/pss_common.h"],
 [("sort_triplets, sort_triplets_morton, sort_triplets_blocks, sort_elements_blocks, sort_triplets_widerows","include/utils.h")])
p("C09","The parallel sort is a stable sort for every size and thread count",
 "The parallel sort returns the stably sorted permutation of its input: sub-ranges are complementary, merges prefer the left run on ties, results land in the buffer the caller expects, every spawned task has finished before its output is read, and when no scratch buffer is available it falls back to a serial stable sort.",
 S,"all input sizes, comparators, thread counts, task schedules and scratch allocation outcomes","the parallel path only runs above a size cutoff and splits depending on thread count and data; ties and allocation failure are not tested",
 ["dep/pss/parallel_stable_sort.h","dep/pss/pss_common.h"],
 [("parallel_stable_sort, parallel_stable_sort_aux, parallel_merge, serial_merge","dep/pss/")])
p("C10","Bit-level helpers are exact for every input",
 "The smallest power of two not below n, the position of the highest set bit (signed and unsigned, 32 and 64 bit, with -1 for negative values) and the bit interleaving of two 16-bit indices are exact for every argument in their documented domain.",
 I,"all 64-bit (32-bit, 16-bit pair) arguments","2^64 inputs cannot be sampled; tests call these helpers only indirectly for a few sizes",
 ["src/common.cpp","include/utils.h"],[("next_power_of_two, highest_bit_set","src/common.cpp"),("bit_interleave","include/utils.h")])
p("C11","Every opened file is checked and closed exactly once on every path",
 "A file handle is used only after a successful open, is closed exactly once on every path out of the function that owns it (including all error exits), and is never used after it was closed.",
 F,"all combinations of failing opens, short reads, write errors and malformed content","error paths of the readers, writers and tools are not exercised by the tests at all",
 ["include/io/input.h","include/io/output.h","include/io/blocked.h","src/common.cpp","src/tools/","dep/mm_io/mm_io.c"],[("fopen/fclose pairs","include/io/*.h, src/tools/*")])
p("C12","Unreadable or truncated input is always reported",
 "A read routine reports success only if every byte or field it was asked for was actually read and parsed; a missing file, a short file or malformed text is reported through its error result, and no value that was not read is stored in the matrix.",
 F,"all file contents, truncated at any byte, with malformed or missing fields","tests read only complete, well-formed files",
 ["include/io/input.h","include/io/blocked.h","dep/mm_io/mm_io.c","src/tools/"],[("fread/fscanf result checks","include/io/input.h, include/io/blocked.h, src/tools/*")])
p("C13","A write that does not reach the file is always reported",
 "A write routine reports success only if every write, and the close that flushes it, succeeded; any failing or short write is reported through its error result.",
 F,"a write error or full device at any write or at close","no test writes files or injects write errors",
 ["include/io/output.h","src/tools/"],[("fwrite/fprintf/fclose result checks","include/io/output.h, src/tools/*")])
p("C14","Binary readers and writers agree on the file format",
 "For each binary format (array, triples, three-file COO, blocked triples) writer and readers agree on the order, type width and count of all header fields and data sections, so that reading back a written file yields the same dimensions, indices and values. Readers derive every dimension and count they report from the file.",
 I,"all matrices and element types","no test writes and reads back; each side is only consistent with itself if compared field by field",
 ["include/io/input.h","include/io/output.h","include/io/blocked.h","src/tools/pprint.c"],[("fread/fwrite sequences","include/io/*.h")])
p("C15","MatrixMarket files are translated entry for entry",
 "Reading a MatrixMarket coordinate file stores each listed entry once, converted from one-based to zero-based indices, adds exactly the mirrored entry for off-diagonal entries of symmetric matrices, and rejects kinds it does not represent; writing adds one to both indices and prints values with enough digits to be read back unchanged.",
 I,"all coordinate MatrixMarket files and all matrices","tests read one generated symmetric-free family; symmetric, pattern and high-precision data are not covered",
 ["include/io/input.h","include/io/output.h","dep/mm_io/mm_io.c"],[("read_mm_COO","include/io/input.h"),("write_mm_COO","include/io/output.h")])
p("C16","Memory is released once, completely, by the matching deallocator",
 "Every block of memory a conversion, product or reader allocates is released exactly once, by the matrix release routine or before the allocating routine returns, with the deallocator that matches its allocator; releasing a matrix frees all memory it owns and none that it does not. (A matrix constructed over given arrays takes them over; after a failed read nothing is claimed, and a program may end without releasing.)",
 ["histories","inputs"],"all construct/multiply/release histories of every format and block type","leaks and mismatched deallocation do not change results; the tests have no leak checker",
 ["include/matrix/","include/generic/","include/partition.h","include/spmv/omp/gsb.h","src/tools/","src/drivers/"],[("release(), destructors, partition_destroy","include/matrix/*.h")])
p("C17","No result depends on uninitialised memory",
 "Every variable, array element and matrix field is written before it is read: counters and accumulators start at zero, and every constructor sets every field that multiplication, printing or release later reads.",
 I,"all inputs and all contents of freshly allocated memory","fresh memory is often zero, so uninitialised reads pass the tests by luck",
 ["include/matrix/","include/io/","include/utils.h","include/partition.h","src/tools/","src/drivers/"],[("zero-initialising new[]/calloc and field assignments","include/matrix/*.h")])
p("C18","Permutation and expansion map indices exactly",
 "Permuting replaces each row and column index i by p[i], inverting a permutation yields q with q[p[i]]=i, and expanding blocks moves index i of block b to b*S + (i - offset[b]), where S is the smallest power of two not below every block size. All non-zeros are mapped, and values stay with their indices.",
 I,"all permutations, block size vectors and index arrays","no test calls any of these functions",
 ["include/permute.h","include/expand.h","src/tools/permute.cpp","src/tools/expanded.cpp","src/tools/prepare.cpp"],[("invert_permutation, permute_indeces","include/permute.h"),("expand_block_size, expand_index, expand_indeces","include/expand.h")])
p("C19","Command-line tools exit non-zero when their output is not complete",
 "A tool exits with status zero only if every input was read and every output was written successfully; missing arguments, failed reads and failed writes give a non-zero status, and no argument beyond those given is ever used.",
 F,"all argument counts and all failing reads or writes","the tools have no tests",
 ["src/tools/","src/drivers/"],[("main functions","src/tools/*.c, src/tools/*.cpp, src/drivers/*.cpp")])
p("C20","Fixed-size text buffers are never overrun",
 "No file name, argument or input line of any length can make a copy, concatenation or formatted conversion write outside its fixed-size buffer or read an unterminated one.",
 I,"arguments, file names and input lines of any length","long names and lines are never tried by the tests",
 ["src/tools/","include/io/","dep/mm_io/mm_io.c"],[("strncpy/strcat/sprintf/sscanf uses","src/tools/*, dep/mm_io/mm_io.c")])
p("C21","Every block type is handled the same way by all block operations",
 "The type recorded for a block names the representation that was built for it, and multiplication (serial and parallel), counting and release each dispatch every constructible block type to that representation. No constructible type falls through to a default branch or to another representation's data.",
 I,"all block shapes, densities and type choices","which types occur depends on densities; tests reach only the types their generated matrices select",
 ["include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/blocks.h","include/typedefs.h"],[("MatrixBlock dispatch, Coo_to_MatrixBlock, BlockFactoryDefault","include/matrix/cgbr.h, include/matrix/blocks.h")])
p("C22","Local indices are narrowed only from block-relative values",
 "Where a format stores indices in a narrower type than the matrix index type, the stored value is always block-relative (or wide-row-relative), never a global index, and pointer or count arrays that index into the entries are never narrowed.",
 IC,"all matrix sizes up to the index type's range, all narrow index types","truncation needs matrices larger than the narrow type's range; test matrices have at most a few hundred rows",
 ["include/matrix/blocks.h","include/matrix/block_coo.1.h","include/matrix/block_coo.2.h","include/matrix/block_csr.h","include/matrix/coo.1.h","include/matrix/cswr.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h"],[("SIT index arrays","include/matrix/*.h")])
p("C23","Scans over the entries never leave the array",
 "Every loop and access over the entries, blocks or rows of a matrix stays inside the array for every size, including matrices without entries, block-rows without blocks and rows without entries; an empty input gives zero blocks and zero rows, not a read of the first element.",
 I,"all sizes including zero entries, all distributions of entries over rows and blocks","no test matrix is empty or has trailing empty rows or block-rows in the scanned position",
 ["include/utils.h","include/matrix/crcsr.h","include/matrix/cgbr.h","include/matrix/cgbr.2.h","include/matrix/csbr.h","include/matrix/csbr.2.h"],[("count_blocks, count_nnz_rows, sort_triplets_blocks, block scanning loops","include/utils.h, include/matrix/*.h")])
p("C24","Every declared public function is defined and usable",
 "Each function declared in the public headers has a definition with the declared signature, and each public template compiles when it is used with the supported value and index types.",
 ["programs","configurations"],"all client programs and all supported type combinations","tests instantiate only some templates with one type combination; a declaration without definition fails only when a client uses it",
 ["include/common.h","dep/mm_io/mm_io.h","include/matrix/","include/io/","include/generic/"],[("declarations vs definitions","include/common.h, src/common.cpp, dep/mm_io/mm_io.[ch]")])
p("C25","Numerical agreement of different summation orders",
 "Results of serial and parallel products of one matrix agree within the rounding error bound of the summation.",
 S,"all matrices and schedules","floating-point rounding depends on runtime values and order",
 ["include/spmv/"],[("floating-point accumulation","include/spmv/")])
p("C26","Chosen block formats and sizes are performance-optimal",
 "The automatically chosen block size, block types and chunk sizes give the best running time for the machine.",
 IC,"all matrices and machines","performance is a property of runs on hardware",
 ["include/utils.h","include/matrix/blocks.h","include/matrix/cgbr.h","include/partition.h"],[("pick_block_size and the format heuristics","include/utils.h")])
p("C27","The reported timings and FLOP rates are accurate",
 "The benchmark drivers report the time of exactly the measured products, with a resolution and accuracy that make the reported rates meaningful.",
 ["histories"],"all runs","timing is a runtime quantity",
 ["src/common.cpp","include/test/bench.h","src/drivers/"],[("tick/tock, print_timing*","src/common.cpp")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,sch)
print(len(P))
