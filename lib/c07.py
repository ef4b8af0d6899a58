import build, eq, rel, summ
from c05 import CONFIGS
def offsets(I, n):
    """non-decreasing offsets from 0, some blocks empty"""
    o = [0]
    for k in range(n): o.append(o[-1] + [0, 1, 1, 2, 5][I.h("off", k) % 5])
    return o
def index(ck, m, bits, cfg):
    s, es = eq.summarize(m.functions["rel_index"], {0: "o", 1: "#n", 2: "#i"})
    name = "index_to_blockindex"
    if s.unres or len([e for e in es if e.kind == "ret"]) < 1: ck.undec(name, "outside the normal form: %s" % (s.unres[0][1] if s.unres else "no result")); return
    def setup(I, k):
        n = 1 + I.h("nb") % 7; o = offsets(I, n)
        if not o[n]: return None
        base = I.A(0, "o")
        for j in range(n + 1): I.memo[("i%d" % bits, base + bits // 8 * j)] = o[j]
        I.memo[("A", 1)] = n; i = I.memo[("A", 2)] = I.h("ix") % o[n]
        return n, o, i
    def judge(I, c, out):
        n, o, i = c; r = [x[2] for x in out if x[0] == "ret"]
        if len(r) != 1: return None
        r = r[0]
        if not (0 <= r < n and o[r] <= i < o[r + 1]): return "index %d with block offsets %s is given block %s" % (i, o, r)
    d, good = rel.ordered(es, 300, setup, judge, ("ret",))
    if d: ck.bad(name, "index_to_blockindex (%s): %s" % (", ".join(cfg), d), es[0].inst.inrepo())
    elif good < 50: ck.undec(name, "not interpretable")
    else: ck.ok("index_to_blockindex (%s): offset[b] <= index < offset[b+1] under %d interpretations of its closed form" % (", ".join(cfg), good))
def chunks(ck, m, cfg):
    s, es = eq.summarize(m.functions["rel_chunks"], {0: "A", 1: "p", 2: "#start", 3: "#end"})
    name = "partition_blockrow"
    fn = lambda e: next(iter(e.addr.atoms()))[1] if e.kind == "call" and e.addr.m else None
    if s.unres: ck.undec(name, "outside the normal form: %s" % s.unres[0][1]); return
    ev = [e for e in es if fn(e) in ("gsb_push", "gsb_clear")]
    if not ev: raise build.Broken("no chunk list operations found")
    if any(fn(e) not in ("gsb_push", "gsb_clear", "gsb_reserve", "gsb_size", "gsb_at", "gsb_nonzeros") for e in es if e.kind == "call"): ck.undec(name, "unknown call"); return
    tag = {}
    def setup(I, k):
        a = I.memo[("A", 2)] = I.h("st") % 6; n = I.h("ln") % 9
        I.memo[("A", 3)] = a + n
        return a, a + n
    pid = {}
    def judge(I, c, out):
        l = None
        for t in out:
            if t[0] != "call": continue
            if len(t) == 4: l = []
            else: l = (l or []) + [t[4]]
        l = l or []
        a, b = c
        if not l: return "block-row [%d,%d): no chunk boundaries" % c
        if l[0] != a: return "block-row [%d,%d): first chunk starts at %s" % (a, b, l[0])
        if l[-1] != b: return "block-row [%d,%d): last chunk ends at %s" % (a, b, l[-1])
        if any(x > y for x, y in zip(l, l[1:])): return "block-row [%d,%d): chunk boundaries %s go backwards" % (a, b, l)
    d, good = rel.ordered(ev, 600, setup, judge, ("call",))
    if d: ck.bad(name, "partition_blockrow (%s): %s" % (", ".join(cfg), d), ev[0].inst.inrepo())
    elif good < 60: ck.undec(name, "not interpretable")
    else: ck.ok("partition_blockrow (%s): boundaries run from start to end without going backwards under %d interpretations" % (", ".join(cfg), good))
def one(ck, cfg):
    bc = build.compile(build.VERIF + "/harness/partition.cpp", cfg)
    m = build.dump([bc], noinline=build.opaque("partition_blockrow"))
    m2 = build.dump([bc], roots=["^rel_"])
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        b = n[5:]
        eq.compare(ck, b, m.functions[n], m.functions["spec_" + b], {}, "%s (%s)" % (b, ", ".join(cfg)), drop=())
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
    bits = 64 if cfg[0] == "TCFG=1" else 32
    index(ck, m2, bits, cfg); chunks(ck, m2, cfg)
    ck.analysed += ["index_to_blockindex [%s]" % cfg[0], "partition_blockrow [%s]" % cfg[0]]
def run(ck):
    ck.rule("constant-size block offsets, size-to-offset conversion and chunk initialisation have the effects of their references (first offset 0, running sums, last offset the dimension)")
    ck.rule("the closed form of the block number of an index satisfies offset[b] <= index < offset[b+1] for non-decreasing offsets; the chunk boundaries appended for a block-row start at its first block, end after its last and never decrease, whatever the block sizes and thresholds")
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 8
