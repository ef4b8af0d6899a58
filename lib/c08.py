import itertools
import build, bits, summ, eq
from bits import AV, Run, Imprecise
from c05 import CONFIGS
W = {"TCFG=0": 32, "TCFG=1": 64, "TCFG=2": 31, "TCFG=3": 32}       # value bits of the index type
def inter(r, c): return sum(((r >> k & 1) << 2 * k) | ((c >> k & 1) << 2 * k + 1) for k in range(16))
def key(n, w, r, c, b):
    if n in ("row", "rowflag", "rowel"): return (r, c)
    if n == "col": return (c, r)
    if n in ("morton", "mortons"): return (inter(r, c),)
    if n == "elements": return (b, r, c)
    return (r // w, c, r)
WORDS = {"row": "row, then column", "rowflag": "row, then column", "rowel": "row, then column", "col": "column, then row", "morton": "bit-interleaved position", "mortons": "bit-interleaved position", "elements": "block, then row, then column", "wide": "wide row, then column, then row", "wideel": "wide row, then column, then row"}
def values(n, bitsn):
    if n == "mortons": big = (1 << min(bitsn, 16)) - 1; return (0, 1, 2, 255, 256, big)
    if n == "morton": return (0, 1, 2, 255, 256, 65535)
    mx = (1 << bitsn) - 1
    return (0, 1, 2, mx - 1, mx)
def fields(m, f, n, bitsn):
    """argument tuples (ra, ca, ba, rb, cb, bb, width)"""
    vs = values(n, bitsn)
    if n.startswith("mor"): 
        pairs = list(itertools.product(vs, repeat=2))
        for (a, b), (c, d) in itertools.product(pairs, pairs):
            yield a, b, 0, c, d, 0, 1
        return
    small = (0, 1, 2) if n != "wide" and n != "wideel" else (0, 1, 2, 3, 4)
    for ra, ca, rb, cb in itertools.product(small, (0, 1, 2), small, (0, 1, 2)):
        for w in ((1, 2, 3) if n in ("wide", "wideel") else (1,)):
            for ba, bb in (((0, 0), (0, 1), (1, 0)) if n == "elements" else ((0, 0),)): yield ra, ca, ba, rb, cb, bb, w
    # extreme values: comparisons must not wrap
    for ra, ca, rb, cb in itertools.product(vs[::2], (vs[0], vs[-1]), vs[::2], (vs[0], vs[-1])):
        for ba, bb in (((0, 0), (0, vs[-1]), (vs[-1], 0), (vs[-1], vs[-1])) if n == "elements" else ((1, 1),)): yield ra, ca, ba, rb, cb, bb, 2
def one(ck, cfg):
    m = build.dump([build.compile(build.VERIF + "/harness/sorts.cpp", cfg, first=["-I" + build.VERIF + "/harness/stub"])], noinline=build.opaque("index_to_blockindex"))
    for name in sorted(m.functions):
        if not name.startswith("impl_") or m.functions[name].decl: continue
        n = name[5:]; f = m.functions[name]
        what = "sort %s (%s)" % (n, ", ".join(cfg))
        if n == "blocks": blocks(ck, m, f, what); continue
        # which range is handed to the sorting engine
        s = summ.Summary(f); es = s.summarise()
        calls = [e for e in es if e.kind == "call" and e.addr == summ.Poly.atom(("fnname", "sorted_range"))]
        other = [e for e in es if e.kind in ("set", "add", "memset", "memcpy")]
        if s.unres: ck.undec(n, "%s: %s" % (what, s.unres[0][1]))
        elif not calls and not other: ck.bad(n, "%s: the array is not sorted" % what, "%s:%d" % (f.file, f.line))
        elif len(calls) != 1 or other: ck.undec(n, "%s: sorted in several steps" % what)
        else:
            e = calls[0]; a0 = summ.Poly.atom(("arg", 0, "arg0")); nn = summ.Poly.atom(("arg", 1, "#arg1"))
            if e.extra[0] != a0 or e.extra[1] - a0 != nn * e.extra[2]:
                ck.bad(n, "%s: sorts [%s, %s), not the whole array" % (what, summ.show(e.extra[0]), summ.show(e.extra[1])), e.inst.inrepo())
            elif any(vacuous(g, e) is False for g in e.guards): ck.bad(n, "%s: sorts only if %s" % (what, " and ".join(summ.show(g) if isinstance(g, summ.Poly) else str(g) for g in e.guards)), e.inst.inrepo())
            elif any(vacuous(g, e) is None for g in e.guards): ck.undec(n, "%s: sorts only if %s" % (what, summ.show(e.guards[0]) if isinstance(e.guards[0], summ.Poly) else e.guards[0]))
            else: ck.ok("%s: the whole array is sorted once" % what)
        # the comparison, for every relative position of two elements
        bitsn = W[cfg[0]]; bad = und = None; k = 0
        for ra, ca, ba, rb, cb, bb, w in fields(m, f, n, bitsn):
            k += 1; got = []
            P = {"probe_row": (ra, rb), "probe_col": (ca, cb), "probe_block": (ba, bb)}
            H = {p: (lambda a, wd, p=p: AV.const(P[p][a[0].cval()], 64)) for p in P}
            H["sorted_range"] = lambda a, wd: got.append(a[3])
            args = [("x", 0, AV.const(0, 64)), AV.const(2, bits_w(f.args[1]["t"]))] + [AV.const(w, bits_w(t["t"])) for t in f.args[2:]]
            r = Run(m, H)
            try: r.call(f, args)
            except Imprecise as x: und = und or str(x); break
            want = int(key(n, w, ra, ca, ba) < key(n, w, rb, cb, bb))
            if not got or any(g.cval() is None for g in got): und = und or "the comparison is not decided"; break
            if any(g.cval() != want for g in got):
                bad = "element (row %d, column %d%s) is %sbefore (row %d, column %d%s)%s; the key is %s" % (ra, ca, ", block %d" % ba if n == "elements" else "", "not " if want else "", rb, cb, ", block %d" % bb if n == "elements" else "", " for width %d" % w if n.startswith("wide") else "", WORDS[n]); break
        ck.analysed.append("%s [%s]: %d relative positions" % (n, ",".join(cfg), k))
        if bad: ck.bad(n, "%s: %s" % (what, bad), [i.inrepo() for i in f.insts() if i.op in ("call", "icmp") and "utils" in i.inrepo()][-1:] and [i.inrepo() for i in f.insts() if i.op in ("call", "icmp") and "utils" in i.inrepo()][-1] or "include/utils.h")
        elif und: ck.undec(n, "%s: %s" % (what, und))
        else: ck.ok("%s: ordered by %s in all %d relative positions" % (what, WORDS[n], k))
def bits_w(t): return int(t[1:]) if t[0] == "i" else 64
def vacuous(g, e):
    """does the guard only leave out ranges of less than two elements? None if that is not decided"""
    if not isinstance(g, summ.Poly): return None
    diff = e.extra[1] - e.extra[0]; leaves = set()
    def walk(p):
        for a in p.atoms():
            if a[0] in ("load", "arg"): leaves.add(a)
            elif a[0] in OPS:
                for q in a[1:]:
                    if isinstance(q, summ.Poly): walk(q)
            else: raise KeyError(a[0])
    try:
        walk(g); walk(diff); sz = ev(e.extra[2], {})
        leaves = sorted(leaves, key=str)
        if len(leaves) > 3: return None
        for vs in itertools.product((0, 1, 2, 3, 5, 9, 1000), repeat=len(leaves)):
            env = dict(zip(leaves, vs))
            if ev(diff, env) >= 2 * sz and not ev(g, env): return False
        return True
    except (KeyError, ZeroDivisionError): return None
OPS = ("lt", "le", "eq", "ne", "select", "not", "and", "or", "xor", "min", "max", "udiv", "trunc")
# ---- sort_triplets_blocks
def ev(p, env):
    t = 0
    for k, v in p.m.items():
        x = v
        for a in k: x = x * eva(a, env)
        t += x
    return t
def eva(a, env):
    if a in env: return env[a]
    k = a[0]; E = lambda x: ev(x, env)
    if k in ("lt", "le", "eq", "ne"): x, y = E(a[1]), E(a[2]); return int({"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[k])
    if k == "select": return E(a[2]) if E(a[1]) else E(a[3])
    if k == "not": return int(not E(a[1]))
    if k in ("and", "or", "xor"): x, y = int(E(a[1])), int(E(a[2])); return x & y if k == "and" else x | y if k == "or" else x ^ y
    if k == "min": return min(map(E, a[1:]))
    if k == "max": return max(map(E, a[1:]))
    if k == "udiv": return E(a[1]) // E(a[2])
    if k == "trunc": return E(a[2]) % (1 << a[1])
    if k == "call" and a[2] in ("probe_row", "probe_col"): return env[(a[2], int(E(a[4])))]
    if k == "call" and a[2] == "index_to_blockindex": return E(a[6]) // 2 + (100 if summ.akey(next(iter(a[4].atoms()))) == "arg2" else 0)
    raise KeyError(k)
def order(p, want):
    """does comparison p agree with the key on all relative positions?"""
    for ra, ca, rb, cb in itertools.product((0, 1, 2, 3), repeat=4):
        env = {("probe_row", 0): ra, ("probe_row", 1): rb, ("probe_col", 0): ca, ("probe_col", 1): cb}
        if bool(ev(p, env)) != (want(ra, ca) < want(rb, cb)): return (ra, ca, rb, cb)
    return None
def blocks(ck, m, f, what):
    spec = m.functions["spec_blocks"]
    s = summ.Summary(f); es = s.summarise(); sp = summ.Summary(spec); ss = sp.summarise()
    isr = lambda e: e.kind == "call" and e.addr == summ.Poly.atom(("fnname", "sorted_range"))
    mine, ref = [e for e in es if isr(e)], [e for e in ss if isr(e)]
    if s.unres or len(mine) != len(ref): ck.undec("blocks", "%s: sorted in other steps than the reference" % what); return
    ord_ = f.order(); mine.sort(key=lambda e: ord_[e.inst.id]); o2 = spec.order(); ref.sort(key=lambda e: o2[e.inst.id])
    for n, (e, r) in enumerate(zip(mine, ref)):
        keys = [lambda r, c: (r // 2, 0), lambda r, c: (c // 2, r, c)]
        p = summ.subst_atom(e.extra[3], lambda a: None)
        try:
            if n == 0:
                # first the rows: any order that keeps the block-rows apart will do
                d = None
                for ra, ca, rb, cb in itertools.product((0, 1, 2, 3), repeat=4):
                    env = {("probe_row", 0): ra, ("probe_row", 1): rb, ("probe_col", 0): ca, ("probe_col", 1): cb}
                    x = bool(ev(p, env))
                    if ra // 2 < rb // 2 and not x or ra // 2 > rb // 2 and x: d = (ra, ca, rb, cb)
            else: d = order(p, lambda r, c: (c // 2, r, c))
        except KeyError as x: ck.undec("blocks", "%s: comparison not interpreted (%s)" % (what, x)); return
        if d: ck.bad("blocks", "%s: step %d compares (row %d, column %d) and (row %d, column %d) wrongly for the order block-row, block-column, row, column" % ((what, n + 1) + d), e.inst.inrepo()); return
    ck.ok("%s: block-rows first, then block-column, row and column within each" % what)
    eq.compare(ck, "blocks", f, spec, {}, what, skip=lambda e: e.kind == "call" and not isr(e), drop=("ret",), adapt=lambda a, b: [blank(e) for e in a + b if isr(e)])
def blank(e): e.extra = e.extra[:3]; e.guards = [g for g in e.guards if not vacuous(g, e)]
def run(ck):
    ck.rule("each sort hands the whole array to the sorting engine once, with a comparison whose value - interpreted bit-exactly for every relative position of two elements, extreme index values included - is that of the documented key (so it is a strict weak order)")
    ck.assume += ["comparisons look at the elements only through comparisons of their fields (small-model argument)", "the sorting engine itself is judged by C09"]
    ck.parallel(one, CONFIGS)
    return 4 * 18
