import build, eq, summ, interp, ptr, par
from summ import Poly
from c05 import CONFIGS
KERNELS = ["spmv_csr", "spmv_csr2", "spmv_coo", "spmv_coo2", "spmv_dense", "spmv_csr_serial", "spmv_csr2_serial", "spmv_dense_serial"]
SORTS = ["sort_[a-z_0-9]*", "parallel_[a-z_]*"]
SRC = {"kernels": [], "blocked": KERNELS, "permute": [], "convert": SORTS, "blockconv": SORTS}
def kinds(m, name):
    """shapes of the arrays annotated for an entry point"""
    out = {}; part = name.split("_")[1:2]
    if not name.startswith("impl_"): return out
    for n, f in m.functions.items():
        for k in ("inc", "inj"):
            if n.startswith(k + "_") and not f.decl and n.split("_")[1:2] == part:
                s = summ.Summary(f, None); e = [x for x in s.summarise() if x.kind == "ret"]
                if len(e) != 1: raise build.Broken("annotation " + n)
                b = summ.ptr_base(e[0].val)
                out[eq.shape(b)] = k
    return out
def one(ck, job):
    src, cfg = job
    m = build.dump([build.compile(build.VERIF + "/harness/" + src + ".cpp", cfg, openmp=True)], noinline=build.opaque(*SRC[src]) if SRC[src] else ())
    n = 0; mods = par.Mods(m)
    for name in sorted(m.functions):
        f = m.functions[name]
        ks = kinds(m, name)
        if f.decl or name.startswith((".omp_task", "spec_")): continue
        if name.startswith(("inc_", "inj_")): continue
        d = summ.ir.bare(f.dem)
        if src in ("convert", "blockconv") and ("parallel_" in d or "sort_" in d or d.startswith(("std::", "pss::", "__gnu"))): continue   # the task sort is C09's
        if any(i.callee == par.TASK for i in f.calls()) and ".omp_outlined" not in name:
            try: bad, und, k = par.tasks(m, f, mods)
            except RecursionError: bad, und, k = [], [(next(f.insts()), "function too large")], 0
            n += 1
            key = summ.ir.bare(f.dem) + ".task"
            ck.analysed.append("%s [%s]: %d accesses while tasks run" % (key, ",".join(cfg), k))
            if bad: ck.bad(key, "%s (%s): %s" % (key, ",".join(cfg), bad[0][1]), bad[0][0].inrepo())
            elif und: ck.undec(key, "%s at %s" % (und[0][1], und[0][0].inrepo()))
            else: ck.ok("%s: nothing a running task uses is touched before the taskwait (%d pairs)" % (key, k))
        if not any(i.callee == par.FORK for i in f.calls()): continue
        for i, reg in par.forks(m, f):
            bad, und, k = par.races(m, reg, ks, mods)
            key = summ.ir.bare(reg.f.dem.replace(" (.omp_outlined)", "")) or reg.f.name
            ck.analysed.append("%s region at %s [%s]: %d accesses" % (key, i.inrepo(), ",".join(cfg), k)); n += 1
            if bad: ck.bad(key, "%s (%s): %s" % (key, ",".join(cfg), bad[0][1]), bad[0][0].inrepo())
            elif und: ck.undec(key, "%s at %s" % (und[0][1], und[0][0].inrepo()))
            else: ck.ok("%s: %d writes of the parallel region at %s touch only what their own iteration owns" % (key, k, i.inrepo()))
    if not n and src in ("kernels", "blocked", "permute"): raise build.Broken("no parallel region found in " + src)
def run(ck):
    ck.rule("no two iterations of a work-shared loop, with different index, touch a location that one of them writes: the written and read address sets are interpreted over legal matrices (annotated arrays increasing or injective, block-local indices at their minimum)")
    ck.parallel(one, [(s, c) for s in SRC for c in CONFIGS])
    return 4
