import build, eq
from c05 import CONFIGS, SORTS
BASE = SORTS + ["partition_init", "calculate_block_id", "count_blocks", "count_nnz_rows", "Coo_to_MatrixBlock", "index_to_blockindex", "is_balanced", "Coo_to_Csr"]
WRAP = BASE + ["Coo_to_Csbr", "Coo_to_Cgbr", "Coo_to_Bcsr"]
WRAP2 = BASE + ["create"]
HELP = SORTS + ["index_to_blockindex"]
HELPERS = ("count_blocks", "block_id", "block_id_const")
def one(ck, cfg):
    bc = build.compile(build.VERIF + "/harness/blockconv.cpp", cfg)
    d = lambda names, op: build.dump([bc], roots=["^(impl|spec)_(%s)$" % "|".join(names)], noinline=build.opaque(*op))
    allm = build.dump([bc], roots=["^(impl|spec)_"], noinline=build.opaque(*WRAP))
    names = sorted(n[5:] for n in allm.functions if n.startswith("impl_"))
    main = [n for n in names if not n.startswith("w_") and n not in HELPERS]
    mm, hm, w2 = d(main, BASE), d(HELPERS, HELP), d(["w_cgbr2d?"], WRAP2)
    for n in names:
        m = hm if n in HELPERS else mm if n in main else w2 if n.startswith("w_cgbr2") else allm
        eq.compare(ck, n, m.functions["impl_" + n], m.functions["spec_" + n], {}, "blocked conversion %s (%s)" % (n, ", ".join(cfg)), drop=())
        ck.analysed.append("impl_%s [%s]" % (n, ",".join(cfg)))
def run(ck):
    ck.rule("the effect summary (element order, allocations with their sizes, fields set, block boundaries, indices made block-relative, block and element counts, running totals, memory released) of each blocked conversion equals that of the reference; entry points call the conversion of their format with the same arguments")
    ck.assume += ["sorting routines are judged by C08/C09, block payload conversions by C05, type choice by C21, partitions by C07; they are opaque here, with their arguments compared"]
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 18
