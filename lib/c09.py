"""The task-parallel merge sort: each function against its contract, callees by their contracts."""
import itertools
import build, summ, par
from summ import Poly
from paths import Walk, base as base_of, ev, one_atom, local, TooMany
SZ = 8
PURE = ("probe_less", "std::upper_bound", "std::lower_bound", "omp_get_num_threads", "omp_in_parallel", "omp_get_max_threads", "omp_get_level")
OPAQUE = ["(pss::internal::)?(parallel_move_merge|parallel_stable_sort_aux|serial_move_merge|stable_sort_base_case)", "(std::)?(upper_bound|lower_bound|stable_sort|sort|inplace_merge|merge|move|copy|uninitialized_copy|uninitialized_move|move_backward|partial_sort|__[a-z_]*)"]
WAITS = ("__kmpc_omp_taskwait", "__kmpc_end_taskgroup", "__kmpc_barrier")
MERGES = ("pss::internal::parallel_move_merge", "pss::internal::serial_move_merge")
SORTS = ("pss::internal::parallel_stable_sort_aux", "pss::internal::stable_sort_base_case")
QUIET = ("omp_", "__kmpc_global_thread_num", "__kmpc_omp_task_alloc", "__kmpc_master", "__kmpc_end_master", "__kmpc_single", "__kmpc_end_single", "__kmpc_masked", "__kmpc_end_masked", "__kmpc_push_num_threads", "__kmpc_taskgroup", "__kmpc_fork")
BULK = ("std::move", "std::copy", "std::uninitialized_copy", "std::uninitialized_move")
class Und(Exception): pass
class Bad(Exception): pass
A = lambda n: Poly.atom(("arg", n, "arg%d" % n))

def feasible(seg, env, comps):
    """are the segment's conditions true under env?  comparisons of elements are collected; -> (bool, all understood)"""
    known = True
    for c, tv, i in seg.conds:
        a = one_atom(c); t = tv; x = None
        while a:
            if a[0] == "not": a = one_atom(a[1]); t = not t
            elif a[0] in ("ne", "eq") and any(isinstance(q, Poly) and not q.m for q in a[1:]) and [q for q in a[1:] if q.m]:
                t = t if a[0] == "ne" else not t; a = one_atom([q for q in a[1:] if q.m][0])
            else: break
        if a and a[0] == "call" and a[1] == "probe_less":
            k = (ev(a[3], env), ev(a[4], env))
            if comps.get(k, t) != t: return False, known
            comps[k] = t; continue
        try:
            if bool(ev(c, env)) != tv: return False, known
        except KeyError: known = False
    return True, known

# ---------------------------------------------------------------- merging
class Merge:
    """invariant: what is left to do at a cut point is the stable merge of [X,XE) and [Y,YE) to Z"""
    FACTS = ("X==XE", "X!=XE", "Y==YE", "Y!=YE", "X==XE|Y==YE")
    def __init__(s, m, f):
        s.m, s.f = m, f; s.w = Walk(m, f, pure=PURE)
        s.where = "%s:%d" % (f.file, f.line); s.n = 0
        s.taskreads = {e.args[0] for g in s.w.segs for e in g.events if e.kind == "load" and e.mode == "task" and (base_of(e.args[0]) or ("",))[0] == "alloca" and base_of(e.args[0])[1] != "shared"}
    def samples(s, src, st):
        X, Y, Z = st["cur"]
        L = (0, 1, 2, 3, 7, 300, 1001, 2000, 5000)
        xs = [n for n in L if not (("X==XE" in st["facts"] and n) or ("X!=XE" in st["facts"] and not n))]
        ys = [n for n in L if not (("Y==YE" in st["facts"] and n) or ("Y!=YE" in st["facts"] and not n))]
        if X == A(1): xs = [n for n in xs if n == 0]
        if Y == A(3): ys = [n for n in ys if n == 0]
        for lx, ly, pos in itertools.product(xs, ys, (0, 1, 2, 3)):
            if "X==XE|Y==YE" in st["facts"] and lx and ly: continue
            env = {("arg", 1, "arg1"): 1 << 24, ("arg", 3, "arg3"): 1 << 25}
            for n in range(5, len(s.f.args)): env[("arg", n, "arg%d" % n)] = pos // 2
            if not s.solve(X, (1 << 24) - SZ * lx, env) or not s.solve(Y, (1 << 25) - SZ * ly, env) or not s.solve(Z, 1 << 26, env): raise Und("cursor positions at %s" % src)
            comps = {}
            def calls(a, e, pos=pos, comps=comps):
                if a[1] == "probe_less": return int(comps.setdefault((ev(a[3], e), ev(a[4], e)), pos % 2 == 0))
                if a[1] in ("std::upper_bound", "std::lower_bound"):
                    x, y = ev(a[3], e), ev(a[4], e); n = (y - x) // SZ
                    return x + SZ * (0 if pos == 0 else n if pos == 3 else n // 2)
                if a[1] in BULK: return ev(a[5], e) + ev(a[4], e) - ev(a[3], e)
            env["calls"] = calls; env["comps"] = comps
            yield lx, ly, env
    def solve(s, p, v, env):
        """give the free atoms of p values that make it v"""
        free = [a for k in p.m for a in k if a not in env]
        if not free:
            try: return ev(p, env) == v
            except KeyError: return False
        # pointer atoms first: index atoms get a small value
        ptrs = [a for a in free if p.m.get((a,)) == 1]
        for a in free:
            if a not in ptrs[:1]: env[a] = 5
        if not ptrs: return False
        env[ptrs[0]] = 0
        env[ptrs[0]] = v - ev(p, env)
        return True
    def run(s, seg, st, lx, ly, env, comps):
        """the segment's events under one sample -> (X, Y, Z, pending)"""
        XE, YE = A(1), A(3); X, Y, Z = st["cur"]; pend = st["pend"]; depth = None
        E = lambda p: ev(p, env)
        left = lambda: ((E(XE) - E(X)) // SZ, (E(YE) - E(Y)) // SZ)
        def after_x(): return not left()[1] or comps.get((E(Y), E(X))) is False or comps.get((E(X), E(Y))) is True
        def after_y(): return not left()[0] or comps.get((E(Y), E(X))) is True
        for e in seg.events:
            s.at = e.inst.inrepo()
            try:
                if e.name == "(task": depth = e; continue
                if e.name == ")task": depth = None; continue
                if e.kind == "load":
                    if local(e.args[0]): continue
                    a = E(e.args[0])
                    n = left()
                    if a == E(X) and not n[0] or a == E(Y) and not n[1]: raise Bad("reads the element after the last one of a run")
                    continue
                if e.kind == "store":
                    if local(e.args[0]):
                        if pend and not e.mode and e.args[0] in s.taskreads: raise Bad("a variable that a task still has to read is changed")
                        continue
                    if E(e.args[0]) != E(Z): raise Bad("an element is stored at %s instead of the next free place" % summ.show(e.args[0]))
                    a = one_atom(e.args[1])
                    if not a or a[0] != "load": raise Und("stored value")
                    v = E(a[2]); nx, ny = left()
                    if nx and v == E(X):
                        if not after_x(): raise Bad("takes the element of the left run although one of the right run may be smaller")
                        X = X + Poly.const(SZ)
                    elif ny and v == E(Y):
                        if not after_y(): raise Bad("takes the element of the right run although an equal one of the left run must come first")
                        Y = Y + Poly.const(SZ)
                    else: raise Bad("stores something that is not the next element of either run")
                    Z = Z + Poly.const(SZ); continue
                n = e.name
                if n == "probe_less":
                    nx, ny = left()
                    for p in e.args[:2]:
                        if E(p) == E(X) and not nx or E(p) == E(Y) and not ny: raise Bad("compares the element after the last one of a run")
                    continue
                if n in WAITS: pend = False; continue
                if n in PURE or n.startswith(QUIET): continue
                if n in BULK or e.inst.callee.startswith(("llvm.memmove", "llvm.memcpy")):
                    if n in BULK: a, b, z = map(E, e.args[:3])
                    else: z, a, b = map(E, e.args[:3]); b += a
                    nx, ny = left()
                    if a == b: continue
                    if z != E(Z): raise Bad("the rest is moved to %s instead of the next free place" % summ.show(e.args[2]))
                    if a == E(X) and nx and b == E(XE):
                        if ny: raise Bad("moves the rest of the left run before the right run is used up")
                        X = XE; Z = Z + Poly.const(b - a)
                    elif a == E(Y) and ny and b == E(YE):
                        if nx: raise Bad("moves the rest of the right run before the left run is used up")
                        Y = YE; Z = Z + Poly.const(b - a)
                    else: raise Bad("moves a range that is not the rest of a run")
                    continue
                if n in MERGES or n == s.name():
                    a, b, c, d, z = e.args[:5]
                    if E(a) != E(X) or E(c) != E(Y): raise Bad("a sub-merge does not start where the previous one ended")
                    if E(z) != E(Z): raise Bad("a sub-merge does not write to the next free place")
                    nx, ny = left(); kx, ky = (E(b) - E(X)) // SZ, (E(d) - E(Y)) // SZ
                    if not (0 <= kx <= nx and 0 <= ky <= ny): raise Bad("a sub-merge leaves its runs")
                    rest = kx < nx or ky < ny
                    if n == s.name() and kx + ky >= lx + ly + (st["src"] != "entry") and lx + ly: raise Bad("the recursion may not end: a sub-merge may be as large as the whole")
                    if n == s.name() and kx + ky == lx + ly and st["src"] == "entry" and lx + ly: raise Bad("the recursion may not end: a sub-merge may be as large as the whole")
                    if rest:
                        s.split(b, d, X, XE, Y, YE, E)
                        if kx + ky == 0 and seg.dst != "ret": raise Bad("the loop may not end: a split may be empty")
                    Z = Z + (b - X) + (d - Y); X, Y = b, d
                    if depth: pend = True
                    continue
                if not e.args and n.startswith(("(", ")")): continue
                raise Und("call of %s" % n)
            except KeyError as x: raise Und("%s not evaluated at %s" % (x, s.at))
        return X, Y, Z, pend
    def name(s): return summ.ir.bare(s.f.dem)
    def split(s, b, d, X, XE, Y, YE, E):
        """is (b, d) a split that keeps the order and stability?"""
        for p, q, fn, lo, hi, plo, phi in ((b, d, "std::upper_bound", X, XE, Y, YE), (d, b, "std::lower_bound", Y, YE, X, XE)):
            a = one_atom(p)
            if a and a[0] == "call" and a[1] in ("std::upper_bound", "std::lower_bound") and E(a[5]) == E(q):
                if a[1] != fn: raise Bad("the %s run is split with %s: equal elements change places" % (("left", a[1]) if p is b else ("right", a[1])))
                if E(a[3]) != E(lo) or E(a[4]) != E(hi): raise Bad("the split is searched in a part of the run only")
                if not E(plo) <= E(q) < E(phi): raise Bad("the pivot of a split may be outside its run")
                return
        for p in (b, d):
            a = one_atom(p)
            if a and a[0] == "call" and a[1] in ("std::upper_bound", "std::lower_bound"): raise Bad("a run is not split at the pivot of the other run")
        raise Und("split not recognised")
    def step(s, src, st, out=None, strict=False):
        """arrivals {dst: [(seg, env, X, Y, Z, pend)]} of all segments from src"""
        out = {} if out is None else out
        for seg in s.w.segs:
            if seg.src != src: continue
            for lx, ly, env in s.samples(src, st):
                comps = env["comps"]; comps.clear()
                okf, known = feasible(seg, env, comps)
                if not okf: continue
                s.n += 1
                try: r = s.run(seg, st, lx, ly, env, comps)
                except Bad as x:
                    if not known: raise Und("condition of the path to %s" % s.at)
                    s.badat = s.at; raise
                if seg.dst == "ret":
                    if not strict: continue
                    if ev(r[0], env) != 1 << 24 or ev(r[1], env) != 1 << 25:
                        if not known: raise Und("condition of the last path")
                        raise Bad("returns before both runs are merged")
                    if r[3]: raise Bad("returns while a task it started may still be merging")
                else: out.setdefault(seg.dst, []).append((seg, env) + r)
        return out
    def facts(s, arr):
        fs = set(s.FACTS)
        for seg, env, X, Y, Z, p in arr:
            if ev(X, env) != 1 << 24 and ev(Y, env) != 1 << 25: fs.discard("X==XE|Y==YE")
            for n, (c, e) in (("X", (X, 1 << 24)), ("Y", (Y, 1 << 25))):
                fs.discard(n + "!=" + n + "E" if ev(c, env) == e else n + "==" + n + "E")
        return fs
    def cands(s, h, arr, k):
        """expressions that may stand for cursor k at header h"""
        out = []
        phis = list(arr[0][0].inc); c0 = arr[0][2 + k]
        for p in phis:
            try:
                if all(ev(a[0].inc[p], a[1]) == ev(a[2 + k], a[1]) for a in arr): out.append(Poly.atom(("phi", h, p)))
            except KeyError: pass
        for a in arr[0][0].mem:
            c = Poly.atom(("cell", h, a))
            try:
                if all(a in r[0].mem and ev(r[0].mem[a], r[1]) == ev(r[2 + k], r[1]) for r in arr): out.append(c)
            except KeyError: pass
        if all(a[2 + k] == c0 for a in arr):
            out.append(c0)
            ints = [p for p in phis if s.f.inst[p].t != "ptr"]
            for n in (1, 2):
                for ps in itertools.combinations(ints, n):
                    if all(all(a[0].inc[p] == arr[0][0].inc[p] for a in arr) for p in ps):
                        c = c0
                        for p in ps: c = c + Poly.const(SZ) * (Poly.atom(("phi", h, p)) - arr[0][0].inc[p])
                        out.append(c)
        return out
    def check(s):
        """prove the contract or raise Bad / Und"""
        states = {"entry": {"src": "entry", "cur": (A(0), A(2), A(4)), "facts": set(), "pend": False}}
        order = []
        for g in s.w.segs:
            if g.src not in order: order.append(g.src)
        arrivals = {}
        for src in order:
            if src != "entry":
                arr = arrivals.get(src, [])
                if not arr: continue
                states[src] = s.header(src, arr)
            st = states[src]
            for d, a in s.step(src, st, strict=True).items():
                if d != src and d not in [x for x in states]: arrivals.setdefault(d, []).extend(a)
                elif d != src: s.agree(d, states[d], a)
        return s.n
    def agree(s, h, st, arr):
        for seg, env, X, Y, Z, p in arr:
            for c, v in zip(st["cur"], (X, Y, Z)):
                e2 = dict(env)
                for ph, val in seg.inc.items():
                    e2.pop(("phi", h, ph), None)
                    try: e2[("phi", h, ph)] = ev(val, env)
                    except KeyError: pass
                for a, val in seg.mem.items():
                    e2.pop(("cell", h, a), None)
                    try: e2[("cell", h, a)] = ev(val, env)
                    except KeyError: pass
                if ev(c, e2) != ev(v, env): return False
            if p and not st["pend"]: return False
        f = s.facts(arr)
        return st["facts"] <= f
    def header(s, h, arr):
        cs = [s.cands(h, arr, k) for k in range(3)]
        if not all(cs): raise Und("cursors at the loop head")
        err = None
        for cur in itertools.product(*cs):
            st = {"src": h, "cur": cur, "facts": s.facts(arr), "pend": any(a[5] for a in arr)}
            try:
                for _ in range(8):
                    back = s.step(h, st).get(h, [])
                    f = s.facts(back) if back else st["facts"]
                    pend = st["pend"] or any(a[5] for a in back)
                    if st["facts"] <= f and pend == st["pend"]: break
                    st["facts"] &= f; st["pend"] = pend
                if s.agree(h, st, back): return st
                err = err or Bad("a cursor is not moved past the elements merged in the loop")
                s.badat = s.f.blocks[h].insts[-1].inrepo()
            except (Bad, Und, KeyError) as x: err = err if isinstance(err, Bad) else x if not isinstance(x, KeyError) else Und(str(x))
        raise err

# ---------------------------------------------------------------- sorting by halves
class Halves:
    """result of sorting [xs,xe) is in [xs,xe) if inplace, else in zs; the other buffer is scratch"""
    NS = (0, 1, 2, 3, 5, 200, 499, 500, 501, 502, 1001, 4096)
    def __init__(s, m, f): s.m, s.f = m, f; s.w = Walk(m, f, pure=PURE); s.n = 0
    def name(s): return summ.ir.bare(s.f.dem)
    def check(s):
        if s.f.loops: raise Und("loops in %s" % s.name())
        for n, mode in itertools.product(s.NS, (0, 1, 2)):
            hit = 0; unk = False
            for seg in s.w.segs:
                env = {("arg", 0, "arg0"): 1 << 24, ("arg", 1, "arg1"): (1 << 24) + SZ * n, ("arg", 2, "arg2"): 1 << 26, ("arg", 3, "arg3"): mode}
                comps = {}
                f, known = feasible(seg, env, comps)
                if not f: continue
                hit += 1; s.n += 1
                try: s.run(seg, n, mode, env)
                except KeyError as x: raise Und("%s not evaluated at %s" % (x, s.at))
                except Bad:
                    if not known: raise Und("condition of the path to %s" % s.at)
                    s.badat = s.at; raise
            if not hit: raise Und("no path for %d elements" % n)
        return s.n
    def run(s, seg, n, mode, env):
        E = lambda p: ev(p, env)
        def place(p):
            v = E(p); s.seen = v
            for b, nm in ((1 << 24, "x"), (1 << 26, "z")):
                if b <= v <= b + SZ * n: return nm, (v - b) // SZ
            raise Bad("a range outside both buffers is used")
        runs = []; task = None        # (buffer, start, end, pending)
        def put(buf, a, b, pend):
            keep = []
            for r in runs:
                if r[1] < b and a < r[2]:
                    if r[3]: raise Bad("a run is used while the task that sorts it may still be running")
                    if r[1] < a or r[2] > b: raise Bad("a sorted run is partly overwritten")
                else: keep.append(r)
            runs[:] = keep + [(buf, a, b, pend)]
        def use(buf, a, b, what):
            for r in runs:
                if (r[1], r[2]) == (a, b):
                    if r[3]: raise Bad("%s: the task that sorts this run may still be running" % what)
                    if r[0] != buf: raise Bad("%s: the sorted run is in the other buffer" % what)
                    return
            if b - a <= 1 and buf == "x": return
            raise Bad("%s: the run [%d,%d) of %d is not sorted as a whole" % (what, a, b, n))
        for e in seg.events:
            s.at = e.inst.inrepo(); nm = e.name
            if nm == "(task": task = e; continue
            if nm == ")task": task = None; continue
            if e.kind in ("load", "store"):
                if e.kind == "store" and not local(e.args[0]): raise Und("store")
                continue
            if nm in WAITS: runs[:] = [r[:3] + (False,) for r in runs]; continue
            if nm in PURE or nm.startswith(QUIET): continue
            if nm in SORTS or nm == s.name():
                (b0, a), (b1, b), (b2, c) = map(place, e.args[:3]); p = E(e.args[3])
                if b0 != "x" or b1 != "x" or b2 != "z" or a != c or b < a: raise Bad("a part is sorted with the wrong buffers")
                if nm == s.name() and b - a >= n: raise Bad("the recursion may not end: a part may be as large as the whole (%d elements)" % n)
                if b > a: put("x" if p else "z", a, b, bool(task))
            elif nm == "std::stable_sort":
                (b0, a), (b1, b) = map(place, e.args[:2])
                if b0 != b1 or b < a: raise Bad("a range across both buffers is sorted")
                if b0 == "z": use("z", a, b, "sort")
                if b > a: put(b0, a, b, bool(task))
            elif nm in MERGES:
                (b0, a), (b1, b), (b2, c), (b3, d), (b4, o) = map(place, e.args[:5])
                if len({b0, b1, b2, b3}) > 1: raise Bad("runs in different buffers are merged")
                if b4 == b0: raise Bad("runs are merged into the buffer they are in")
                if b != c and not (a == b or c == d): raise Bad("runs that are not neighbours, or in the wrong order, are merged")
                if o != min(a, c): raise Bad("the merged run goes to the wrong place")
                if b > a: use(b0, a, b, "left run")
                if d > c: use(b0, c, d, "right run")
                runs[:] = [r for r in runs if (r[1], r[2]) not in ((a, b), (c, d))]
                put(b4, a, d, bool(task))
            elif not e.args and nm.startswith(("(", ")")): continue
            else: raise Und("call of %s" % nm)
        if any(r[3] for r in runs): raise Bad("returns while a task it started may still be sorting")
        want = "x" if mode else "z"
        if n == 0 or n == 1 and want == "x": return
        cover = sorted((r[1], r[2]) for r in runs if r[0] == want)
        if cover != [(0, n)]: raise Bad("with inplace = %d the sorted result of %d elements is not in the %s" % (mode, n, "input range" if mode else "second buffer"))

def base(m, f):
    """stable_sort_base_case: sorts [xs,xe); unless inplace the elements end up in zs"""
    sm = summ.Summary(f); es = sm.summarise(); k = 0
    if sm.unres: raise Und(sm.unres[0][1])
    for n, mode in itertools.product((0, 1, 2, 5, 500), (0, 1, 2)):
        env = {("arg", 0, "arg0"): 1 << 24, ("arg", 1, "arg1"): (1 << 24) + SZ * n, ("arg", 2, "arg2"): 1 << 26, ("arg", 3, "#arg3"): mode}
        srt = False; z = {}
        o = f.order()
        for e in sorted(es, key=lambda e: o[e.inst.id]):
            if e.kind == "ret": continue
            try:
                if not all(ev(g if isinstance(g, Poly) else g[1], env) for g in e.guards if isinstance(g, Poly)) or any(not isinstance(g, Poly) for g in e.guards): 
                    if any(not isinstance(g, Poly) for g in e.guards):
                        if not all(member(g, env) for g in e.guards): continue
                    else: continue
                k += 1
                nm = e.inst.cname() if e.kind == "call" else e.kind
                if nm == "std::stable_sort":
                    if ev(e.extra[0], env) != 1 << 24 or ev(e.extra[1], env) != (1 << 24) + SZ * n: raise Bad("sorts another range than its input")
                    srt = True
                elif nm in BULK or e.kind == "memcpy":
                    if e.kind == "memcpy": raise Und("memcpy")
                    a, b, c = (ev(x, env) for x in e.extra[:3])
                    for j in range(0, b - a, SZ): z[c + j] = a + j
                elif e.kind == "set" and len(e.loops) == 1:
                    iv = ("iv", e.loops[0][0])
                    for j in range(ev(e.loops[0][1], env)):
                        v = one_atom(e.val); env[iv] = j
                        if not v or v[0] != "load": raise Und("stored value")
                        z[ev(e.addr, env)] = ev(v[2], env)
                elif e.kind in ("alloc", "dealloc"): continue
                elif nm in ("std::sort",): raise Bad("sorts with std::sort, which is not stable")
                else: raise Und("%s in the base case" % nm)
            except KeyError as x: raise Und("%s not evaluated in the base case" % x)
        for b, a in z.items():
            if not (1 << 26) <= b < (1 << 26) + SZ * n: raise Bad("writes outside the second buffer")
            if not mode and a != b - (1 << 26) + (1 << 24): raise Bad("elements are copied to the wrong place")
        if n > 1 and not srt: raise Bad("%d elements are not sorted" % n)
        if not mode and len(z) != n: raise Bad("with inplace = 0 only %d of %d elements get to the second buffer" % (len(z), n))
    return k
def member(g, env):
    if isinstance(g, Poly): return ev(g, env)
    return ev(g[1], env) in [int(x) for x in g[2]] if g[0] == "in" else True

def top(m, f):
    """parallel_stable_sort: sorts [x, x+n) whether or not a buffer is available"""
    w = Walk(m, f, pure=PURE); k = 0
    if f.loops: raise Und("loops in the entry")
    for n, got, thr in itertools.product((0, 1, 2, 7, 1000, 5000), (0, 1), (1, 4)):
        def calls(a, e):
            if a[1] in ("operator new", "malloc", "operator new[]", "aligned_alloc", "calloc"): return (1 << 26) if got else 0
            if a[1].startswith(("omp_get_num", "omp_get_max")): return thr
            if a[1] in ("__kmpc_master", "__kmpc_single", "__kmpc_masked"): return 1
        env = {("arg", 0, "arg0"): 1 << 24, ("arg", 1, "arg1"): n, "calls": calls}
        hit = 0
        for seg in w.segs:
            ok, known = feasible(seg, env, {})
            if not ok: continue
            hit += 1; k += 1; srt = 0; at = None; size = None; freed = False; pend = False; region = False
            try:
                for e in seg.events:
                    at = e.inst.inrepo(); nm = e.name
                    if e.kind != "call" or not nm: continue
                    if nm in ("operator new", "malloc", "operator new[]"): size = ev(e.args[0], env); continue
                    if nm in ("operator delete", "free", "operator delete[]"):
                        if ev(e.args[0], env): freed = True
                        continue
                    if nm == "(region": region = True; continue
                    if nm == ")region": region = pend = False; continue
                    if nm in WAITS: pend = False; continue
                    if nm == "(task": pend = True; continue
                    if nm in SORTS or nm == "std::stable_sort":
                        if e.mode == "everythread": raise Bad("every thread of the parallel region sorts the same array")
                        if ev(e.args[0], env) != 1 << 24 or ev(e.args[1], env) != (1 << 24) + SZ * n: raise Bad("another range than the input is sorted")
                        if nm in SORTS:
                            if not got: raise Bad("the buffer is used although it could not be allocated")
                            if freed: raise Bad("the buffer is used after it was released")
                            if ev(e.args[2], env) != 1 << 26: raise Bad("another buffer than the allocated one is used")
                            if size is None or size < SZ * n: raise Bad("the buffer is too small: %s bytes for %d elements of %d bytes" % (size, n, SZ))
                            if not ev(e.args[3], env): raise Bad("the result is left in the buffer")
                        srt += 1; continue
                    if nm in ("std::sort", "std::partial_sort"): raise Bad("sorts with %s, which is not stable" % nm)
                    if nm.startswith(QUIET + ("(", ")")) or nm in PURE: continue
                    raise Und("call of %s" % nm)
                if not srt and n > 1: raise Bad("%d elements are not sorted%s" % (n, "" if got else " when no buffer is available"))
                if pend: raise Bad("returns while a task it started may still be sorting")
                if got and size is not None and not freed: raise Bad("the buffer is never released")
            except KeyError as x: raise Und("%s not evaluated at %s" % (x, at))
            except Bad as x:
                if not known: raise Und("condition of the path to %s" % at)
                x.at = at; raise
        if not hit: raise Und("no path for %d elements" % n)
    return k
def run(ck):
    ck.rule("contracts, callees by contract: a merge function leaves the stable merge of its two runs in the output (loop invariants over cursor positions, every path between loop heads), the half sort leaves its result where `inplace` says, the entry sorts the whole range with or without a buffer; a task's result is used only after a taskwait")
    ck.assume += ["std::stable_sort, std::upper_bound, std::lower_bound and std::move behave as specified", "the comparison is a strict weak ordering (C08)", "path conditions over run lengths are decided for representative lengths around the cut-offs"]
    m = build.dump([build.compile(build.VERIF + "/harness/pss.cpp", [], openmp=True)], noinline=build.opaque(*OPAQUE))
    by = {}
    for f in m.functions.values():
        if not f.decl: by.setdefault(summ.ir.bare(f.dem), []).append(f)
    for nm, what in ((MERGES[1], "serial merge"), (MERGES[0], "parallel merge"), (SORTS[1], "base case"), (SORTS[0], "half sort"), ("impl_sort", "entry")):
        fs = by.get(nm, [])
        if not fs: ck.undec(what, "function %s is gone" % nm); continue
        for f in fs:
            o = None
            try:
                if what.endswith("merge"): o = Merge(m, f); k = o.check()
                elif what == "half sort": o = Halves(m, f); k = o.check()
                elif what == "base case": k = base(m, f)
                else: k = top(m, f)
                if not k: raise Und("no path interpreted")
                ck.ok("%s: contract holds on %d path instances" % (what, k)); ck.analysed.append("%s (%s): %d path instances" % (nm, what, k))
            except Bad as x: ck.bad(what, "%s: %s" % (what, x), getattr(x, "at", None) or getattr(o, "badat", None) or "%s:%d" % (f.file, f.line))
            except Exception as x: ck.undec(what, "%s: %s" % (what, x))
    return 5
