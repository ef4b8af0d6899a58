import worlds, outcome
from c05 import CONFIGS
KINDS = ("unreported:open-r", "unreported:read", "unreported:read-malformed", "unreported:parse")
def each(ck, f, what, name, **kw):
    args = kw.pop("args", None)
    try: w = worlds.Worlds(f.mod, f, **kw).run(args)
    except worlds.GaveUp as e: ck.undec(what, str(e)); return None
    n = outcome.judge(ck, w, name, KINDS, what)
    k = outcome.count(w, "fopen", "fread", "fscanf", "fgets", *[x for x in worlds.READS if x.startswith("mm_")])
    if not n:
        for _ in range(k): ck.ok()
        ck.ok("%s: %d reads, each failing in turn, all reported (%d states)" % (what, k, w.nstates))
    if not w.ok_returns: ck.undec(what, "no path on which everything succeeds was found")
    ck.analysed.append("%s: %d states, %d reads" % (what, w.nstates, k))
def one(ck, it):
    if it[0] == "io":
        m = outcome.routines(it[1])
        for n in sorted(m.functions):
            if n.startswith("rd_"): each(ck, m.functions[n], "%s (%s)" % (n, ", ".join(it[1])), n)
    else:
        m = outcome.mmio()
        for f, args in outcome.mmio_functions(m):
            if f.name.startswith("mm_read"): each(ck, f, f.name, f.name, conv="zero", args=args)
def run(ck):
    ck.rule("every read operation (open, fread, fscanf, fgets, sscanf, header routines of mm_io) of every reader is made to fail or fall short, one at a time, on every path; no such path may end in the success result. Counts of items are compared with the value they have when everything was read")
    ck.assume.append("positioning calls (fseek, ftell) on a regular file succeed; assertions are enabled, as in the repository's build, and count as reports")
    ck.parallel(one, [("io", c) for c in CONFIGS] + [("mm",)])
    ck.cov["functions"] = len(ck.analysed)
    return 200
