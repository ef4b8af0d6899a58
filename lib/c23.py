import os, build, ir, bounds
from bounds import Bounds, Lin, Witness, FREE, UNK
OPAQUE = ("upper_bound", "lower_bound", "partial_sum")
POST = "function(sroa,early-cse<memssa>,gvn,simplifycfg,loop-simplify,lcssa),globaldce"
def short(f): return f.name[len("scan_"):]
class Scan:
    def __init__(s, ck, f):
        s.ck = ck; s.f = f; s.b = Bounds(f); s.ext = {}; s.kind = {}; s.label = {}
        for i in f.insts():
            if i.op != "call": continue
            n = i.cname() or i.callee
            if n in ("entries", "bounded"):
                a = s.atom(i.ops[0])
                s.ext[a] = s.b.lin(i.ops[1]); s.kind[a] = n; s.label[a] = "the %s passed as argument %d" % ("entries" if n == "entries" else "offsets", a[1])
            elif n == "values":
                E = s.b.lin(i.ops[0]); a, = E.m; s.b.limits = s.b.limits + ((a, E.c, int(s.b.lin(i.ops[1]).c), s.b.lin(i.ops[2])),)
            elif n in bounds.ALLOC or n == "calloc":
                a = ("i", i.id); x = s.b.lin(i.ops[bounds.ALLOC.get(n, 0)])
                if n == "calloc":
                    y = s.b.lin(i.ops[1])
                    if x.const() is not None: x, y = y, x
                    if y.const() is None: continue
                    x = Lin().plus(x, y.const())
                s.ext[a] = x; s.kind[a] = "heap"; s.label[a] = "the memory allocated at %s" % i.inrepo()
        s.args = [("a", k) for k, x in enumerate(f.args) if x["t"] != "ptr"]
        s.zero = {a for b, k in s.kind.items() if k == "entries" for a in s.ext[b].m}
        s.deps = {}
    def atom(s, v):
        E = s.b.lin(v); k = [a for a in E.m]
        return k[0] if len(k) == 1 else None
    def root(s, v):
        """the one array a pointer is into, None if that is not known"""
        seen = set(); out = set(); st = [v]
        while st:
            v = st.pop(); k = tuple(map(str, v[:2]))
            if k in seen: continue
            seen.add(k); a = tuple(v[:2])
            if a in s.ext: out.add(a); continue
            if v[0] != "i": return None
            i = s.f.inst[v[1]]
            if i.op in ("getelementptr", "bitcast", "freeze", "addrspacecast"): st.append(i.ops[0])
            elif i.op == "select": st += i.ops[1:3]
            elif i.op == "phi": st += [w for _, w in i.d["inc"]]
            else: return None
        return out.pop() if len(out) == 1 else None
    def judge(s, a, lo, hi, i, what):
        """lo <= 0 and hi <= 0 at instruction i"""
        ck = s.ck; w = "%s, %s: %s stays inside %s" % (short(s.f), i.inrepo(), what, s.label[a])
        if s.b.prove(hi, i.bb.id) and s.b.prove(lo, i.bb.id): ck.ok(w); return
        wit = Witness(s.b, [x for x, k in s.kind.items() if k != "heap"], s.kind[a] == "entries")
        mn = {x: 0 for x in s.zero}
        sizes = s.relevant(i, (hi, lo))
        for E, side in ((hi, "past the end of"), (lo, "before the start of")):
            if len(sizes) > 4: break
            r = wit.find(E, i, sizes, mn)
            if r is not None:
                fn = next((n for f, l, n in i.d.get("dbg") or [] if ir.isrepo(f)), "?")
                ck.bad("%s:%s:%s:%s" % (short(s.f), fn, i.op, s.label[a].split(" at ")[0]), "%s: %s reaches %s %s when %s" % (short(s.f), what, side, s.label[a], ", ".join("argument %d is %d" % (x[1], v) for x, v in sorted(r.items()))), i.inrepo()); return
        ck.undec(w, "the index depends on contents of memory or on more than the branches say")
    def relevant(s, i, Es):
        """size arguments that the conditions on the way and the index depend on"""
        out = set(); seen = set(); st = [c for c, t, _, _ in s.b.conds(i.bb.id)] + [a for E in Es for a in E.m]
        for l in s.f.loop_nest(i.bb.id): 
            for p in s.f.loops[l].latches: st += [c for c, t, _, _ in s.b.conds(p)]
        while st:
            v = tuple(map(str, st.pop()[:2]))
            if v in seen: continue
            seen.add(v)
            if v[0] == "a" and ("a", int(v[1])) in s.args: out.add(("a", int(v[1])))
            if v[0] == "i":
                j = s.f.inst[int(v[1])]
                if j.op == "load": continue
                st += [o for o in j.ops if o] + [w for _, w in j.d.get("inc", [])]
        return sorted(out)
    def run(s):
        for i in s.f.insts():
            d = i.d.get("dbg") or []
            if d and not ir.isrepo(d[0][0]) and "/harness/" not in d[0][0]: continue     # inside the standard library
            if i.op in ("load", "store"):
                p = i.ops[0] if i.op == "load" else i.ops[1]; a = s.root(p)
                if a is None: continue
                d = s.b.lin(p).plus(Lin({a: 1}), -1)
                s.judge(a, Lin().plus(d, -1), d.plus(s.ext[a], -1).plus(Lin({}, i.d["sz"])), i, "a read" if i.op == "load" else "a write")
            elif i.op == "call":
                n = (i.cname() or "").replace("std::", "")
                c = i.callee or ""
                if n in ("sorted_range", "upper_bound", "lower_bound", "partial_sum"):
                    a = s.root(i.ops[0]); b = s.root(i.ops[1])
                    if a is None or a != b: continue
                    x, y = (s.b.lin(o).plus(Lin({a: 1}), -1) for o in i.ops[:2])
                    s.judge(a, Lin().plus(x, -1), y.plus(s.ext[a], -1), i, "the range given to " + {"sorted_range": "the sort"}.get(n, n))
                    if n == "partial_sum":
                        t = s.root(i.ops[2])
                        if t is not None:
                            z = s.b.lin(i.ops[2]).plus(Lin({t: 1}), -1)
                            s.judge(t, Lin().plus(z, -1), z.plus(y.plus(x, -1)).plus(s.ext[t], -1), i, "what " + n + " writes")
                elif c.startswith("llvm.memset"):
                    a = s.root(i.ops[0])
                    if a is None: continue
                    d = s.b.lin(i.ops[0]).plus(Lin({a: 1}), -1)
                    s.judge(a, Lin().plus(d, -1), d.plus(s.b.lin(i.ops[2])).plus(s.ext[a], -1), i, "the memory set to zero")
def unit(ck, cfg):
    m = build.dump([build.compile(os.path.join(build.VERIF, "harness", "scan.cpp"), defs=["TCFG=%d" % cfg], first=["-I" + build.VERIF + "/harness/stubscan"])], roots=[], noinline=build.opaque(*OPAQUE), post=POST)
    return [f for f in m.functions.values() if not f.decl and f.name.startswith("scan_")]
def run(ck):
    ck.rule("every read and write of an entry, an offset or an element of freshly allocated memory is inside the array: index + size <= extent follows from the branches on the way to it and induction over the loops, for all sizes including zero")
    ck.assume += ["indices are numbers: no sum of an index and a constant wraps around (sizes below 2^32 - 2 elements)"]
    for f in unit(ck, 0):
        Scan(ck, f).run()
        ck.analysed.append(f.name)
    return 300
