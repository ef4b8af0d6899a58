import worlds, outcome
KINDS = ("unreported", "argv", "nooutput", "unchecked")
def one(ck, it):
    src, defs, runs = it
    m = outcome.program(src, defs); f = m.functions["main"]
    for argc, outs in runs:
        what = "%s%s%s" % (src, " " + defs[-1] if defs else "", "" if argc is None else " with %d arguments" % (argc - 1))
        try: w = worlds.Worlds(m, f, main=True, outputs=outs).run(None if argc is None else {0: worlds.iv(argc, argc)})
        except worlds.GaveUp as e: ck.undec(what, str(e)); continue
        n = outcome.judge(ck, w, src, KINDS, what)
        k = len(w.sites)
        if not n:
            for _ in range(k): ck.ok()
            ck.ok("%s: %d operations and arguments on all paths (%d states)" % (what, k, w.nstates))
        if not w.ok_returns: ck.undec(what, "no path on which everything succeeds was found")
        ck.analysed.append("%s: %d states, %d operations" % (what, w.nstates, k))
def run(ck):
    ck.rule("each main function, with all routines that touch files inlined, is followed along every path with every argument count from none up and every file operation failing in turn: status zero is possible only if everything read and written succeeded, files were opened and, for tools, all output files written; argv[k] is used only where argc > k is known")
    ck.assume.append("positioning calls (fseek, ftell) on a regular file succeed; assertions are enabled, as in the repository's build, and count as failures")
    ck.parallel(one, outcome.PROGRAMS)
    ck.cov["programs"] = len(outcome.PROGRAMS)
    return 150
