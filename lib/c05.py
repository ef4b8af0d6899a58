import build, eq
CONFIGS = [("TCFG=0",), ("TCFG=1",), ("TCFG=2",), ("TCFG=3",)]
SORTS = ["sort_triplets", "sort_triplets_morton", "sort_triplets_widerows", "sort_triplets_blocks", "sort_elements_blocks"]
OPAQUE = SORTS + ["partition_init", "calculate_block_id", "count_blocks", "count_nnz_rows"]
HELPERS = ("count_nnz_rows",)
def one(ck, cfg):
    bc = build.compile(build.VERIF + "/harness/convert.cpp", cfg)
    m = build.dump([bc], roots=["^(impl|spec)_"], noinline=build.opaque(*OPAQUE)); h = build.dump([bc], roots=["^(impl|spec)_count"], noinline=build.opaque(*SORTS))
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        b = n[5:]; mm = h if b in HELPERS else m
        eq.compare(ck, b, mm.functions[n], mm.functions["spec_" + b], {}, "conversion %s (%s)" % (b, ", ".join(cfg)), drop=())
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
def run(ck):
    ck.rule("the effect summary (allocations with their sizes, fields set, every element stored, counters zeroed, incremented and summed up, order of dependent steps, memory released) of each conversion equals that of the reference conversion")
    ck.assume.append("sorting routines are judged by C08/C09; they are opaque here, with their arguments compared")
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 120
