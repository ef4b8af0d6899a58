"""Where an index is narrowed (stored in, or cut down to, the narrow index type), it is relative to its block or wide row."""
import os, re, build, ir, summ, c17
from summ import Poly, Summary
from c05 import CONFIGS
PAYLOAD = "^ini_b_"       # block payloads: their entries are relative already, which is what their callers are held to
NAR = {0: 16, 1: 32, 2: 16, 3: 16}      # width of the narrow type of each combination
WIDE = {0: 4, 1: 8, 2: 4, 3: 4}         # bytes of the index type
def const(p): return p.isconst()
def strip(p, w):
    """the value modulo 2^w: cuts at the top level are dropped"""
    if not isinstance(p, Poly): return p
    out = summ.ZERO
    for k, v in p.m.items():
        if len(k) == 1 and k[0][0] == "trunc" and k[0][1] >= w: out = out + strip(k[0][2], w) * Poly.const(v)
        else: out = out + Poly({k: v})
    return out
class Narrow:
    def __init__(s, ck, f, what, cfg):
        s.ck = ck; s.f = f; s.what = what; s.w = NAR[cfg]; s.isz = WIDE[cfg]
        s.payload = bool(re.match(PAYLOAD, f.name)); s.su = Summary(f); s.es = s.su.summarise(); s.order = f.order(); s.und = []; s.bad = []; s.n = 0
        s.mu = {}
        for sm in {id(e.summ): e.summ for e in s.es if e.summ}.values():
            for (k, i), d in sm.mudefs.items(): s.mu[("L%d" % k, i)] = d
    def cls(s, addr):
        """(base, offset, stride) of an address inside an array of structures; None if not known"""
        b = summ.ptr_base(addr)
        if b is None: return None
        off, st = 0, 0
        for k, v in (addr - Poly.atom(b)).m.items():
            if getattr(v, "denominator", 1) != 1: return None
            if k == (): off = int(v)
            else:
                import math
                st = math.gcd(st, abs(int(v)))
        return b, (off % st if st else off), st
    def negative(s, p):
        """what is subtracted in a value: its negative terms that are not constants"""
        return Poly({k: v for k, v in p.m.items() if k != () and v < 0})
    def writer(s, c, e):
        """the last effect before e that stores to this class of places"""
        best = None
        for x in s.es:
            if x.kind not in ("set", "add") or x is e or s.order[x.inst.id] > s.order[e.inst.id]: continue
            d = s.cls(x.addr)
            if d is None or d[0] != c[0] or d[1:] != c[1:]: continue
            if best is None or s.order[x.inst.id] >= s.order[best.inst.id]: best = x
        return best
    def relative(s, p, e, depth=0):
        """'ok', a description of why not, or None if it can not be told"""
        p = strip(p, s.w)
        if const(p) or depth > 6: return "ok" if const(p) else None
        pos = {k: v for k, v in p.m.items() if k != () and v > 0}; neg = s.negative(p)
        for k in pos:
            for a in k:
                if a[0] in ("sum", "mu", "acc"):
                    d = s.mu.get(a[1:]) if a[0] == "mu" else None
                    if a[0] == "mu" and isinstance(d, tuple) and not s.counts(a, d): return None
                    return "a running count"
        ls = [a for k in pos for a in k if a[0] == "load"]
        cs = [s.cls(a[2]) for a in ls]
        if ls and len(pos) == len(ls) and all(c is not None and c[2] and s.entries(c[0]) and c[1] not in (0, s.isz) for c in cs): return "a number of a block"
        if not neg.m and pos and all(len(k) == 1 and k[0][0] in ("udiv", "sdiv") and any(b[0] == "load" and (s.cls(b[2]) or (0, 0, 0))[2] and s.entries(s.cls(b[2])[0]) for b in c17.every(k[0][1])) for k in pos if isinstance(k[0][1] if len(k[0]) > 1 else None, Poly)) and all(k[0][0] in ("udiv", "sdiv") for k in pos): return "a number of a block or wide row"
        if neg.m:
            return "ok" if any(a[0] in ("load", "select", "call", "merge") for k in pos for a in k) else None
        if len(pos) == 1:
            (k, v), = pos.items()
            if len(k) == 1 and v == 1:
                a = k[0]
                if a[0] == "load" and a[1] == "i%d" % s.w: return "ok"
                if a[0] in ("and", "urem", "srem"): return None if any(isinstance(x, Poly) and x == Poly.const((1 << s.w) - 1) for x in a[1:]) and False else "ok"
                if a[0] == "select":
                    rs = [s.relative(x, e, depth + 1) for x in a[2:4]]
                    return "ok" if rs == ["ok", "ok"] else next((r for r in rs if r not in (None, "ok")), None)
                if a[0] == "load": return s.coordinate(a, e, depth)
                if a[0] == "call": return None
        return None
    def entries(s, b):
        """is this the entries of a matrix that is converted (an argument, or a field of one)"""
        if b[0] == "load": b = summ.ptr_base(b[2]) or ("?",)
        return b[0] == "arg"
    def counts(s, a, d):
        """does it grow by constants"""
        st = d[1] - Poly.atom(a)
        return const(st)
    def coordinate(s, a, e, depth=0):
        c = s.cls(a[2])
        if c is None: return None
        b, off, st = c
        w = s.writer(c, e)
        if w is None:
            if b[0] in ("heap", "alloca"): return None
            if off not in (0, s.isz): return "not a row or column of an entry" if st else None
            if s.payload: return "ok"
            if not st: return None
            return "the %s of an entry as it is in the whole matrix" % ("row" if off == 0 else "column")
        extra = [g for g in w.guards if g not in e.guards]
        if extra: return None
        if w.kind == "add":
            v = strip(w.val, s.w)
            if s.negative(v).m: return "ok"
            return None if const(v) else "a %s to which an offset is added" % ("row" if off == 0 else "column")
        return s.relative(w.val, w, depth + 1)
    def offsets(s):
        """rows and columns are relative to offsets of their own"""
        by = {}
        for x in s.es:
            if x.kind not in ("set", "add"): continue
            c = s.cls(x.addr); n = s.negative(strip(x.val, s.w)) if isinstance(x.val, Poly) else None
            if c is None or not c[2] or n is None or not n.m or c[1] not in (0, s.isz): continue
            if x.kind == "set" and not any(a[0] == "load" for a in x.val.atoms()): continue
            by[(c[0], x.kind, c[2])] = by.get((c[0], x.kind, c[2]), []) + [(c[1], n, x)]
        for k, xs in by.items():
            for o, n, x in xs:
                for o2, n2, x2 in xs:
                    if o == 0 and o2 == s.isz and n == n2 and any(a[0] == "load" for a in n.atoms()):
                        s.bad.append((x2, "the column of an entry is made relative to the same offset as its row"))
    def judge(s):
        for e in s.es:
            vt = e.inst.d.get("vt")
            narrow = e.kind in ("set", "add") and isinstance(e.val, Poly) and (vt == "i%d" % s.w if s.w == 16 else vt == "i32" and any(a[0] == "trunc" and a[1] == 32 for a in e.val.atoms()))
            top = set()
            if narrow:
                s.n += 1
                if e.kind == "add":
                    v = strip(e.val, s.w); r = "ok" if s.negative(v).m else "a count" if const(v) and v.m else None
                else: r = s.relative(e.val, e)
                if r is None: s.und.append((e, "stored value"))
                elif r != "ok": s.bad.append((e, "%s is stored in the narrow index type" % r))
                top = {a for a in c17.every(e.val) if a[0] == "trunc"}
            for p in c17.polys(e):
                for a in set(c17.every(p)):
                    if a[0] == "trunc" and a[1] == s.w and a not in top:
                        s.n += 1
                        r = s.relative(a[2], e)
                        if r is None: s.und.append((e, "cut value"))
                        elif r != "ok": s.bad.append((e, "%s is cut to the narrow index type" % r))
            if e.kind == "call" and e.loops and not s.payload:      # blocks are made from entries by a function that is not inlined
                if any(n in summ.show(e.addr) for n in ("sort", "calculate_block_id", "count_", "fnname(sink", "fread", "fwrite", "spmv")): continue
                for x in e.extra:
                    if not isinstance(x, Poly): continue
                    b = summ.ptr_base(x)
                    if b is None or b[0] != "load" or summ.ptr_base(b[2]) is None or summ.ptr_base(b[2])[0] != "arg": continue
                    for off in (0, s.isz):
                        ws = [y for y in s.es if y.kind in ("set", "add") and (s.cls(y.addr) or (0, 0, 0))[0] == b]
                        if not ws and len(x.m) < 2: continue
                        st = max([s.cls(y.addr)[2] for y in ws] or [0])
                        s.n += 1
                        if not st: s.bad.append((e, "blocks are made from entries with indices of the whole matrix")); break
                        r = s.coordinate(("load", "i32", Poly.atom(b) + Poly.const(off) + Poly.atom(("iv", "x")) * Poly.const(st)), e)
                        if r is None: s.und.append((e, "entries of a block"))
                        elif r != "ok": s.bad.append((e, "blocks are made from %s" % r))
        s.offsets()
        for i in s.f.insts():      # counters of the narrow type that no loop is bounded by
            if i.op != "phi" or i.t != "i%d" % s.w or s.w != 16: continue
            same = {i.id}; grows = False; ch = True
            while ch:
                ch = False
                for j in s.f.insts():
                    if j.id in same: continue
                    if j.op in ("zext", "sext", "freeze") and j.ops[0] in [["i", x] for x in same] + [("i", x) for x in same] or j.op == "phi" and j.t == i.t and any(v[0] == "i" and v[1] in same for _, v in j.d["inc"]) or j.op == "add" and any(o[0] == "i" and o[1] in same for o in j.ops) and any(o[0] == "c" for o in j.ops):
                        same.add(j.id); ch = True; grows |= j.op == "add"
            s.n += 1
            if grows and not any(j.op == "icmp" and any(o[0] == "i" and o[1] in same for o in j.ops) for j in s.f.insts()): s.bad.append((next((e for e in s.es if e.inst.bb.id == i.bb.id), s.es[0]), "a running count is kept in the narrow index type"))
        for i, _ in s.su.unres:
            if i.op == "store" and i.d.get("vt") == "i%d" % s.w: s.und.append((None, "a store at %s that can not be summarised" % i.inrepo()))
        ck = s.ck
        for e, t in s.bad: ck.bad("%s: %s" % (ir.bare(e.inst.fn.dem if e.inst.fn else s.f.dem), t), "%s: %s" % (s.what, t), e.inst.inrepo())
        ck.analysed.append("%s: %d narrowings" % (s.what, s.n))
        if s.bad: return
        if s.und: ck.undec(s.what, "%d of %d narrowings: %s at %s" % (len(s.und), s.n, s.und[0][1], s.und[0][0].inst.inrepo() if s.und[0][0] else ""))
        else: ck.ok("%s: %d narrowings" % (s.what, s.n))
def limits(ck, cfg):
    """the limits the narrow type is tested against are meaningful: no shift by the width of the type or more"""
    m = build.dump([build.compile(build.VERIF + "/harness/init.cpp", cfg, ndebug=False)], inline=False, pre="", post="")
    n = 0; bad = {}
    for f in m.functions.values():
        if f.decl: continue
        for i in f.insts():
            if "include/matrix" not in i.inrepo() and "include/io" not in i.inrepo() and "include/generic" not in i.inrepo(): continue
            if i.op == "store" and i.ops[0][0] == "undef": bad[i.inrepo()] = f
            n += i.op == "store"
    for l, f in bad.items(): ck.bad("%s: meaningless limit" % ir.bare(f.dem), "%s (%s): a value without meaning (a shift by the width of its type or more) is used as the limit of the narrow index type" % (f.dem[:80], ", ".join(cfg)), l)
    if not bad: ck.ok("limits (%s): %d stores" % (", ".join(cfg), n))
    ck.analysed.append("limits (%s): %d stores" % (", ".join(cfg), n))
def one(ck, it):
    cfg, h = it
    if h == "limits": return limits(ck, cfg)
    _, roots, opq, ckw, dkw = next(u for u in c17.UNITS if u[0] == h)
    m = build.dump([build.compile(build.VERIF + "/harness/%s.cpp" % h, cfg, **ckw)], roots=[roots], noinline=build.opaque(*opq) if opq else [], **dkw)
    t = int(cfg[0].split("=")[1])
    for n in sorted(m.functions):
        if re.match(roots, n) and not m.functions[n].decl: Narrow(ck, m.functions[n], "%s: %s (%s)" % (h, n.split("_", 1)[1], ", ".join(cfg)), t).judge()
def run(ck):
    ck.rule("every store of the narrow index type, and every value cut to its width, is an entry's row or column less an offset or modulo a width, or an index of a block payload's own (already relative) entries; counts, running totals and whole-matrix indices are not narrowed; entries handed to block builders were made relative before; limits of the narrow type are computed in a type that holds them")
    ck.assume += ["a row or column less a block's offset fits the narrow type (what the limits test)", "which offset is subtracted is C06"]
    ck.parallel(one, [(c, h) for c in CONFIGS for h in ("init", "inio", "limits")])
    return 200
