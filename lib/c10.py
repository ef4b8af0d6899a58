import build, bits
from bits import AV, Run, Imprecise
def classes(w, k):
    """the numbers whose highest set bit is k, as abstract values: all of them, then by their next bits"""
    yield AV(w, [None] * k + [1] + [0] * (w - k - 1))
def refine(v, lo=None, hi=None):
    """sub-classes of an interval class, down to single values"""
    l, h = v.lo, v.hi
    pts = sorted({x for x in (l, l + 1, l + 2, l + 3, h, h - 1, h - 2, (l + h) // 2, l + (h - l) // 3) if l <= x <= h})
    return [AV.const(x, v.w) for x in pts]
def judge(rs, w, want):
    """want: expected AV-like bit tuple or number -> 'ok', 'bad', 'unknown'"""
    res = "ok"
    for r in rs:
        if isinstance(want, int):
            m = want & ((1 << w) - 1)
            if r.cval() == m: continue
            if r.lo > m or r.hi < m or any(b in (0, 1) and b != (m >> k) & 1 for k, b in enumerate(r.b)): return "bad"
            res = "unknown"
        else:
            for a, b in zip(r.b, want):
                if a == b: continue
                if a is not None: return "bad"
                res = "unknown"
    return res
def names(w, n=0): return [("b", n, k) for k in range(w)]
def obligations():
    """(function, width, title, input class, wanted result)"""
    for k in range(63):
        yield "bits_pow2", 64, "next_power_of_two of numbers in (2^%d, 2^%d]" % (k, k + 1), [AV(64, None, (1 << k) + 1, 1 << (k + 1))], 1 << (k + 1)
    yield "bits_pow2", 64, "next_power_of_two(1)", [AV.const(1, 64)], 1
    for f, w, sg in (("bits_high_u64", 64, 0), ("bits_high_i64", 64, 1), ("bits_high_u32", 32, 0), ("bits_high_i32", 32, 1)):
        for k in range(w - sg):
            yield f, w, "highest_bit_set (%s) of numbers with highest bit %d" % (f[10:], k), [AV(w, [None] * k + [1] + [0] * (w - k - 1))], k
        if sg: yield f, w, "highest_bit_set (%s) of negative numbers" % f[10:], [AV(w, [None] * (w - 1) + [1])], -1
    for f, w in (("bits_inter_u32", 32), ("bits_inter_u64", 64)):
        a = AV(w, names(16, 0) + [0] * (w - 16)); b = AV(w, names(16, 1) + [0] * (w - 16))
        yield f, w, "bit_interleave (%s)" % f[11:], [a, b], tuple(("b", k & 1, k // 2) if k < 32 else 0 for k in range(w))
def run(ck):
    ck.rule("interpreting each helper over the abstract input class (known bits, copied bits, interval) gives exactly the specified result; the classes cover the documented domain")
    m = build.dump([build.compile(build.VERIF + "/harness/bits.cpp"), build.compile(build.REPO + "/src/common.cpp")], roots=["^bits_", "highest_bit", "next_power", "interleave"])
    n = 0
    for f, w, title, args, want in obligations():
        fn = m.functions.get(f)
        if fn is None or fn.decl: raise build.Broken("wrapper %s vanished" % f)
        n += 1; key = f[5:]
        def go(a):
            r = Run(m)
            try: rs = r.call(fn, a)
            except Imprecise as e: return "unknown", str(e), None, 1
            v = judge(rs, fn_width(fn), want)
            return v, "result %s" % (rs[:3],), rs, r.forks
        v, why, rs, forks = go(args)
        if v == "ok": ck.ok("%s: %s" % (title, rs[0])); continue
        if v == "bad" and not forks:
            ck.bad(key, "%s: the result is %s, not %s" % (title, rs[0], want if isinstance(want, int) else "the bits interleaved"), where(m, key)); continue
        # decided on sub-classes of single values
        bad = None
        if isinstance(want, int):
            for a in refine(args[0]):
                v2, w2, r2, f2 = go([a])
                if v2 == "bad" and not f2: bad = (a, r2); break
        if bad: ck.bad(key, "%s: for %s the result is %s, not %s" % (title, bad[0], bad[1][0], want), where(m, key))
        elif not isinstance(want, int) and v == "bad": ck.bad(key, "%s: the result is %s" % (title, rs[0]), where(m, key))
        else: ck.undec(key, "%s: %s" % (title, why))
    ck.cov["classes"] = n
    return n
def fn_width(fn):
    return int(fn.ret[1:])
def where(m, key):
    for f in m.functions.values():
        d = f.dem.split("(")[0]
        if not f.decl and {"pow2": "next_power_of_two", "inter": "bit_interleave", "high": "highest_bit_set"}[key.split("_")[0]] in d: return "%s:%d" % (f.file, f.line)
    return "include/utils.h" if key.startswith("inter") else "src/common.cpp"
