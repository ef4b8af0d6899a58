import build, worlds, outcome
from c05 import CONFIGS
KINDS = ("unchecked", "closed", "leak", "notowned")
OPEN = ("fopen",)
def each(ck, f, what, name, **kw):
    args = kw.pop("args", None)
    try: w = worlds.Worlds(f.mod, f, **kw).run(args)
    except worlds.GaveUp as e: ck.undec(what, str(e)); return None
    n = outcome.judge(ck, w, name, KINDS, what)
    k = max(1, outcome.count(w, "fopen", "fclose", "fread", "fwrite", "fprintf", "fscanf", "fgets"))
    if not n:
        for _ in range(k): ck.ok()
        ck.ok("%s: %d uses of files on all paths (%d states)" % (what, k, w.nstates))
    ck.analysed.append("%s: %d states, %d opens, %d closes" % (what, w.nstates, outcome.count(w, "fopen"), outcome.count(w, "fclose")))
    return w
def one(ck, it):
    if it[0] == "io":
        m = outcome.routines(it[1])
        for n in sorted(m.functions):
            if n.startswith(("rd_", "wr_")):
                for oom in (False, True): each(ck, m.functions[n], "%s (%s%s)" % (n, ", ".join(it[1]), ", allocation fails" if oom else ""), n, oom=oom)
    elif it[0] == "mm":
        m = outcome.mmio()
        for f, args in outcome.mmio_functions(m): each(ck, f, f.name, f.name, conv="zero", args=args)
    else:
        m = outcome.program(it[1], it[2])
        each(ck, m.functions["main"], "%s%s" % (it[1], " " + it[2][-1] if it[2] else ""), it[1], main=True)
def run(ck):
    ck.rule("on every control-flow path, with every open, read, write, conversion and allocation both succeeding and failing, a file is used only after it was opened, never after it was closed, and is closed before the function that opened it returns; a file of the caller is not closed")
    ck.assume.append("a program that ends lets the system close its files; positioning calls (fseek, ftell) on a regular file succeed")
    ck.parallel(one, [("io", c) for c in CONFIGS] + [("mm",)] + [("prog", s, d) for s, d, _ in outcome.PROGRAMS])
    ck.cov["functions"] = len(ck.analysed)
    return 400
