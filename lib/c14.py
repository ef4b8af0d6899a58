import build, eq
from c05 import CONFIGS
SPOST = ("function(sroa,instcombine<no-verify-fixpoint>,lower-constant-intrinsics,simplifycfg,gvn,loop-simplify,lcssa,loop-mssa(licm<allowspeculation>),"
         "sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,gvn,dse)," + build.POST)
OPAQUE = ("partition_init", "get_file_size", "Coo_to_MatrixBlock", "is_balanced")
def stream(x): return any("m_fopen" in d[2] for d in (x.inst.d.get("dbg") or []))
def one(ck, it):
    cfg, common = it
    bc = build.compile(build.VERIF + "/harness/format.cpp", list(cfg) + (['COMMON="%s/src/common.cpp"' % build.REPO] if common else []))
    m = build.dump([bc], roots=["^(impl|spec)_"], noinline=build.opaque(*[n for n in OPAQUE if not (common and n == "get_file_size")]), post=SPOST, libattrs=True)
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        b = n[5:]
        eq.compare(ck, b, m.functions[n], m.functions["spec_" + b], {}, "file format %s (%s)" % (b, ", ".join(cfg)), drop=(), skip=stream)
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
def run(ck):
    ck.rule("with a file modelled as memory (a stream is a position in it, every transfer complete), the effect summary of each reader and writer - offset, width, order and count of every header field and data section, fields set, dimensions returned - equals that of the format's reference; writer and readers of a format share one reference layout")
    ck.assume += ["transfers are complete here (C12, C13 judge incomplete ones)", "block payload construction and partitions are opaque, with their arguments compared (C05, C07, C21)"]
    ck.parallel(one, [(c, False) for c in CONFIGS] + [(("TCFG=0",), True)])
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 18
