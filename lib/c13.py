import worlds, outcome
from c05 import CONFIGS
KINDS = ("unreported:open-w", "unreported:write")
def each(ck, f, what, name, **kw):
    args = kw.pop("args", None)
    try: w = worlds.Worlds(f.mod, f, **kw).run(args)
    except worlds.GaveUp as e: ck.undec(what, str(e)); return None
    n = outcome.judge(ck, w, name, KINDS, what)
    k = outcome.count(w, "fopen", "fwrite", "fprintf", "fputs", "fputc", "fclose", "fflush", *[x for x in worlds.WRITES if x.startswith("mm_")])
    if not n:
        for _ in range(k): ck.ok()
        ck.ok("%s: %d writes and closes, each failing in turn, all reported (%d states)" % (what, k, w.nstates))
    if not w.ok_returns: ck.undec(what, "no path on which everything succeeds was found")
    ck.analysed.append("%s: %d states, %d writes" % (what, w.nstates, k))
def one(ck, it):
    if it[0] == "io":
        m = outcome.routines(it[1])
        for n in sorted(m.functions):
            if n.startswith("wr_"): each(ck, m.functions[n], "%s (%s)" % (n, ", ".join(it[1])), n)
    else:
        m = outcome.mmio()
        for f, args in outcome.mmio_functions(m):
            if f.name.startswith("mm_write"): each(ck, f, f.name, f.name, conv="zero", args=args)
def run(ck):
    ck.rule("every open, fwrite, fprintf, fflush and fclose of every writer is made to fail, one at a time, on every path; no such path may end in the success result (an error indicator that is set stays set until the file is closed)")
    ck.parallel(one, [("io", c) for c in CONFIGS] + [("mm",)])
    ck.cov["functions"] = len(ck.analysed)
    return 120
