import build, eq
from c05 import CONFIGS
LEAF = ["index_to_blockindex", "next_power_of_two"]
MID = LEAF + ["expand_block_size", "expand_index", "size_to_offset"]
def one(ck, cfg):
    bc = build.compile(build.VERIF + "/harness/permute.cpp", cfg)
    lo = build.dump([bc], noinline=build.opaque(*LEAF)); hi = build.dump([bc], noinline=build.opaque(*MID))
    for n in sorted(lo.functions):
        if not n.startswith("impl_"): continue
        b = n[5:]; m = hi if b in ("expand", "expand_el") else lo
        eq.compare(ck, b, m.functions[n], m.functions["spec_" + b], {}, "%s (%s)" % (b, ", ".join(cfg)), drop=())
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
def run(ck):
    ck.rule("permuting, inverting, block expansion and the expanded block size have the effects of their references: every non-zero mapped once, indices through the permutation or block*S + (index - offset), values untouched")
    ck.assume.append("block numbers and offsets of an index are judged by C07, the power of two by C10; they are opaque here, with their arguments compared")
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 8
