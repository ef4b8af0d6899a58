import build, eq, summ, re
NAMES = {0: "A", 1: "x", 2: "y"}
CONFIGS = [("TCFG=0",), ("TCFG=1",), ("TCFG=2",), ("TCFG=3",)]
def spec_of(m, b):
    for c in ("spec_" + b, "spec_" + re.sub("_serial$", "", b)):
        if c in m.functions: return m.functions[c]
    raise build.Broken("no reference for " + b)
def one(ck, cfg):
    bc = build.compile(build.VERIF + "/harness/kernels.cpp", cfg)
    m = build.dump([bc], roots=["^(impl|spec)_"])
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        f = m.functions[n]
        eq.compare(ck, n[5:], f, spec_of(m, n[5:]), NAMES, "product routine of %s (%s)" % (n[5:], ", ".join(cfg)))
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
def run(ck):
    ck.rule("loop-nest effect summary (SSA value numbering + scalar evolution, all helpers inlined) of every flat-format product routine equals that of the reference `y[row(k)] += value(k)*x[col(k)]` over the same stored data")
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 21
