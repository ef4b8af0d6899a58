"""Parallel regions: work-shared loops, tasks, and the memory their instances touch.

A work-shared loop's index becomes a symbol p; two instances p, p' are interpreted over legal matrices (annotated
arrays strictly increasing or injective, local indices zero) and must not meet in a location one of them writes."""
import build, summ, interp, ptr
from summ import Poly, Unresolved, subst_atom, contains, show
from eq import shape
def ptr_base(p):
    b = summ.ptr_base(p)
    if b is None:
        c = [a for k, v in p.m.items() if v == 1 and len(k) == 1 for a in k if a[0] == "call" and a[1] == "ptr" or a[0] == "shareds"]
        if len(c) == 1: b = c[0]
    return b
P = ("arg", 1000, "#p"); PP = Poly.atom(P)
SINIT = "__kmpc_for_static_init"; DNEXT = "__kmpc_dispatch_next"
FORK = "__kmpc_fork_call"
OMPRT = ("__kmpc_", "omp_get", "__assert_fail", "abort", "__clang_call_terminate")

class Region:
    """the outlined body f of a parallel construct; vals: meaning of its parameters at the fork"""
    def __init__(s, f, vals, deref):
        s.f = f; s.vals = vals; s.deref = deref; s.unres = []
        s.s = summ.Summary(f, None, forward=False)
        s.find()
        for l, ph in s.work.items(): s.s.memo[ph.id] = PP
        s.effs = s.s.summarise(lambda i: False)
        s.unres = [(i, u) for i, u in s.s.unres if not s.private_store(i)]
        s.rewrite()
    def private_store(s, i):
        if i.op != "store": return (i.cname() or "").startswith(OMPRT)
        return all(r[0] == "alloca" for r in ptr.roots(s.f, i.ops[1]))
    def find(s):
        """work-shared loops: {loop: index phi}"""
        f = s.f; s.lbs = set(); inits = []
        for i in f.calls():
            n = i.callee or ""
            k = 4 if n.startswith(SINIT) else 3 if n.startswith(DNEXT) else None
            if k is None: continue
            inits.append(i)
            s.lbs |= {r for r in ptr.roots(f, i.ops[k])} | {r for r in ptr.roots(f, i.ops[k + 1])}
        s.work = {}
        def fromlb(r, seen=()):
            if r[0] != "i" or r[1] in seen: return False
            i = f.inst[r[1]]
            if i.op == "load": return bool(ptr.roots(f, i.ops[0]) & s.lbs)
            if i.op == "phi": return any(fromlb(v, seen + (i.id,)) for _, v in i.d["inc"])
            if i.op == "select": return any(fromlb(o, seen + (i.id,)) for o in i.ops[1:])
            if i.op in ("add", "zext", "sext", "trunc"): return any(fromlb(o, seen + (i.id,)) for o in i.ops)
            return False
        for l in sorted(f.loops, key=lambda l: l.depth):
            if any(p in s.work for p in f.loop_nest(l.header)[:-1]): continue
            busy = False
            for b in l.blocks:
                for i in f.blocks[b].insts:
                    if i.op == "call" and (i.callee or "").startswith((DNEXT, SINIT)): busy = True
                    if i.op == "store" and ptr.roots(f, i.ops[1]) & s.lbs: busy = True
            if busy: continue
            for i in f.blocks[l.header].insts:
                if i.op != "phi": break
                if any(fromlb(v) for b, v in i.d["inc"] if b not in l.blocks) and i.t.startswith("i"): s.work[l.id] = i; break
        s.nwork = len({id(i) for i in inits})
    def rewrite(s):
        s.items = []     # (work loop or None, effect)
        ini = {}
        for l, ph in s.work.items():
            v = [x for b, x in ph.d["inc"] if b not in s.f.loops[l].blocks][0]
            try: ini["L%d" % l] = s.s.ren(s.s.val(v))
            except Unresolved: pass
        def f(a):
            if a[0] == "iv" and a[1] in ini: return PP - ini[a[1]]
            if a[0] == "load":
                x = a[2]
                if len(x.m) == 1 and x.m.get(tuple(x.atoms())) == 1:
                    b = next(iter(x.atoms()))
                    if b[0] == "arg" and b[1] in s.deref: return s.deref[b[1]]
            if a[0] == "arg" and a[1] < 1000:
                if a[1] in s.vals: return s.vals[a[1]]
                return Poly.atom(("arg", a[1] + 100, ("#" if a[2][:1] in "#?" else "") + "cap%d" % a[1]))
            return None
        m = lambda p: subst_atom(subst_atom(p, f), lambda a: None) if isinstance(p, Poly) else p
        sm = s.s
        sm.mudefs = {k: (m(d[0]), m(d[1])) if isinstance(d, tuple) else d for k, d in sm.mudefs.items()}
        sm._exitc = {k: m(c) for k, c in sm._exitc.items()}
        sm.counts = {k: m(c) for k, c in sm.counts.items()}
        sm._fv = {}
        for e in s.effs:
            n = sm.fn.loop_nest(e.inst.bb.id); w = [l for l in n if l in s.work]
            drop = set()
            if w: drop = {"L%d" % l for l in n[:n.index(w[0]) + 1]}
            e.loops = [(l, m(c)) for l, c in e.loops if l not in drop]
            e.addr = m(e.addr); e.val = m(e.val); e.extra = tuple(map(m, e.extra))
            gs = [m(g) if isinstance(g, Poly) else (g[0], m(g[1])) + tuple(g[2:]) for g in e.guards]
            e.gall = gs
            e.guards = [g for g in gs if not contains(g if isinstance(g, Poly) else g[1], lambda a: a[0] == "alloca" or a[0] == "call" or a[0] == "iv" and a[1] in drop or a[0] == "mu" and a[1] in drop)]
            s.items.append((w[0] if w else None, e))

def simple(p): return not contains(p, lambda a: a[0] in ("iv", "mu", "exit", "acc", "while", "merge", "self"))
def forks(m, f):
    """[(fork call, region)] of function f"""
    sm = summ.Summary(f, None, forward=True); out = []
    es = sm.summarise(lambda i: False)
    for i in f.calls():
        if i.callee != FORK: continue
        t = i.ops[2]
        if t[0] != "fn" or t[1] not in m.functions: raise build.Broken("parallel region of %s not resolved" % f.name)
        vals = {}; deref = {}
        for k, o in enumerate(i.ops[3:]):
            v = sm.ren(sm.val(o))
            a = next(iter(v.atoms())) if len(v.m) == 1 else None
            if a is not None and a[0] == "alloca":
                st = [e for e in es if e.kind == "set" and e.addr == v]
                if len(st) == 1 and simple(st[0].val) and sm.fn.inst_dom(st[0].inst, i): deref[k + 2] = st[0].val
                elif not st:
                    h = [j for j in f.insts() if j.op == "store" and ptr.roots(f, j.ops[1]) == {("alloca", f_alloca(sm, o))}]
            elif simple(v): vals[k + 2] = v
        out.append((i, Region(m.functions[t[1]], vals, deref)))
    return out
def f_alloca(sm, o): return o[1] if o[0] == "i" else None

def place(a): return (shape(ptr_base(a[2])), a[2].cval())
def positive(effs):
    """memory that holds loop bounds or selects a case"""
    out = {}
    def walk(p, k):
        for a in p.atoms():
            if a[0] == "load": out[place(a)] = k
            for x in a[1:]:
                if isinstance(x, Poly): walk(x, k)
    for e in effs:
        for g in e.guards: walk(g if isinstance(g, Poly) else g[1], "any")
    for e in effs:
        for _, c in e.loops: walk(c, "pos")
    return out
class Gen(interp.Gen):
    def __init__(s, summ, kinds, pos): interp.Gen.__init__(s, summ); s.kinds = kinds; s.pos = pos
    def atom(s, a):
        if a[0] == "load" and a[1] != "ptr" and not a[1].startswith(("f", "d")):
            b = ptr_base(a[2])
            k = s.kinds.get(shape(b))
            if k is None and b is not None and b[0] in ("load", "heap"): k = "zero" if place(a) not in s.pos else s.pos[place(a)]
            if k is None and b is not None and b[0] == "arg": k = s.pos.get(place(a), "pos")
            if k: return "I.M(%r,%r,%s)" % (k, a[1], s.poly(a[2]))
        return interp.Gen.atom(s, a)
class Interp(interp.Interp):
    def M(s, k, t, a):
        if s.reads is not None: s.reads.add(a)
        base, off = divmod(a, interp.SP); idx = off // interp.SIZES.get(t, 4)
        if k == "zero": return 0
        if k == "pos": return 1 + s.h("v", a) % 3
        if k == "any": return s.h("v", a) % 4
        if k == "inc": return 2 * idx + s.h("v", a) % 2
        if k == "inj": return idx ^ 1
        raise interp.NoMeaning(k)
TASK = "__kmpc_omp_task"; TALLOC = "__kmpc_omp_task_alloc"; TWAIT = ("__kmpc_omp_taskwait", "__kmpc_barrier", "__kmpc_end_taskgroup")
class View:
    """a function's effects, parallel regions and tasks, in terms of its own arguments"""
    def __init__(s, m, f, busy=()):
        s.m = m; s.f = f; s.busy = tuple(busy) + (f.name,); s.sm = summ.Summary(f, None, forward=True); s.effs = s.sm.summarise(lambda i: False)
        s.regions = forks(m, f) if any(i.callee == FORK for i in f.calls()) else []
        s.tasks = [t for i in f.calls() if i.callee == TASK for t in [s.task(i)]]
    def val(s, r): return s.sm.ren(s.sm.val(r))
    def task(s, i):
        """(spawning call, effects of the task)"""
        a = i.ops[2]
        al = s.f.inst[a[1]] if a[0] == "i" else None
        if al is None or al.callee != TALLOC: return (i, None)
        e = [o for o in al.ops if o[0] == "fn"]
        if not e or e[0][1] not in s.m.functions: return (i, None)
        T = s.val(a); priv = {}; sh = {}
        for x in s.effs:
            if x.kind == "set":
                d = x.addr - T
                if d.isconst(): priv[int(d.cval())] = x.val
        SH = Poly.atom(("load", "ptr", T))
        for x in s.effs:
            if x.kind == "memcpy" and x.addr == SH:
                for y in s.effs:
                    if y.kind == "set":
                        d = y.addr - x.val
                        if d.isconst() and 0 <= d.cval() < 4096: sh[int(d.cval())] = y.val
            if x.kind == "set":
                d = x.addr - SH
                if d.isconst(): sh[int(d.cval())] = x.val
        ef = s.m.functions[e[0][1]]
        if ef.name in s.busy: return (i, None)
        es = View(s.m, ef, s.busy)
        A1 = Poly.atom(("arg", 1, "arg1")); 
        def f(t):
            if t[0] == "load":
                x = subst_atom(t[2], f)
                d = x - A1
                if d.isconst():
                    if int(d.cval()) == 0: return Poly.atom(("shareds",))
                    if int(d.cval()) in priv: return priv[int(d.cval())]
                d = x - Poly.atom(("shareds",))
                if d.isconst() and int(d.cval()) in sh: return sh[int(d.cval())]
            return None
        m2 = lambda p: subst_atom(p, f) if isinstance(p, Poly) else p
        out = []
        for e in es.effs:
            x = summ.Effect(e.kind, [(l, m2(c)) for l, c in e.loops], [m2(g) if isinstance(g, Poly) else g for g in e.guards], m2(e.addr), m2(e.val), e.inst, tuple(map(m2, e.extra)))
            x.summ = e.summ; out.append(x)
        return (i, out)
class Mods:
    """which of its pointer arguments a function writes through; None: more than that"""
    def __init__(s, m): s.m = m; s.v = {}; s.memo = {}; s.prog = {}
    def view(s, f):
        if f.name not in s.v: s.v[f.name] = View(s.m, f)
        return s.v[f.name]
    def of(s, f):
        if f.name in s.memo: return s.memo[f.name]
        if f.name in s.prog: return s.prog[f.name]
        s.prog[f.name] = set()
        while True:
            r = s.once(f)
            if r is None or r == s.prog[f.name]: break
            s.prog[f.name] = r
        del s.prog[f.name]
        if not s.prog: s.memo[f.name] = r
        return r
    def once(s, f):
        v = s.view(f); out = set()
        lists = [v.effs] + [[e for _, e in r.items] for _, r in v.regions] + [t for _, t in v.tasks]
        if any(l is None for l in lists): return None
        us = [(i, f) for i, _ in v.sm.unres] + [(i, r.f) for _, r in v.regions for i, _ in r.unres]
        for i, g in us:
            if i.op == "store" and not all(t[0] in ("alloca", "heap") for t in ptr.roots(g, i.ops[1])): return None
            if i.op in ("call", "invoke") and s.target(i) is None: return None
        for l in lists:
            for e in l:
                for q in s.pointers(e) if e.kind in ("set", "add", "memset", "memcpy", "call") else ():
                    if q is None: return None
                    b = ptr_base(q)
                    if b is None: return None
                    if b[0] in ("alloca", "heap") or b[0] == "call" and b[2] == TALLOC or b == ("shareds",): continue
                    if b[0] == "load" and contains(Poly.atom(b), lambda a: a[0] == "call" and a[2] == TALLOC): continue
                    if b[0] == "arg" and b[1] < 100: out.add(b[1]); continue
                    if b[0] == "arg": continue
                    return None
        return out
    def target(s, i):
        """None: unknown, () : writes nothing, else argument numbers"""
        import c04
        n = i.cname() or ""
        if n.startswith(OMPRT) or i.callee == FORK or i.d.get("intr"): return ()
        if i.callee is None: return (2,) if len(i.ops) == 3 else None
        if c04.quiet(n): return ()
        f = s.m.functions.get(i.callee)
        if f is None or f.decl: return None
        return s.of(f)
    def pointers(s, e):
        """pointers the effect writes through ([None]: unknown)"""
        if e.kind != "call": return [e.addr]
        t = s.target(e.inst)
        if t is None: return [None]
        return [e.extra[k] for k in t]
def private(p):
    b = ptr_base(p)
    return b is not None and (b[0] in ("alloca", "heap"))
def accesses(g, I, wptr):
    """(written, read) addresses of an effect instance list"""
    I.fuel = interp.FUEL; I.reads = set(); w = set()
    for t in g(I):
        if t[0] in ("zero", "cp", "memset", "memcpy"):
            w |= interp.written(t)
            if t[0] == "cp": I.reads |= set(range(t[2], t[2] + min(t[-1], 4096)))
        elif t[0] in ("set", "add"): w.add(t[1])
    r, I.reads = I.reads, None
    return w, r
def races(m, reg, kinds, mods, tries=60):
    """-> (races [(inst, text)], undecided [(inst, text)], number of pairs decided)"""
    bad = []; und = [(i, u) for i, u in reg.unres]; n = 0
    groups = {}
    for w, e in reg.items:
        groups.setdefault(w, []).append(e)
    und += [(i, "nested parallel region") for i in reg.f.calls() if i.callee in (FORK, TASK)]
    inits = [i for i in reg.f.calls() if (i.callee or "").startswith((SINIT, "__kmpc_dispatch_init"))]
    if inits and not reg.work: und.append((inits[0], "work-shared loop not recognised"))
    if any((i.callee or "").startswith(("__kmpc_critical", "__kmpc_ordered", "__kmpc_reduce")) for i in reg.f.calls()):
        locked = True
    else: locked = False
    for w, es in groups.items():
        acc = []
        for e in es:
            if e.kind in ("ret", "alloc", "dealloc"): continue
            if e.kind == "call":
                ws = mods.pointers(e)
                if ws == [None]: und.append((e.inst, "call of %s" % (e.inst.cname() or "indirect"))); continue
                for q in ws:
                    if private(q): continue
                    x = summ.Effect("add", list(e.loops), list(e.guards), q, summ.ONE, e.inst); x.summ = e.summ; acc.append(x)
                continue
            if private(e.addr): continue
            acc.append(e)
        if w is None:
            for e in acc:
                if contains(e.addr, lambda a: a[0] in ("call", "pure") or a[0] == "arg" and a[1] in (100, 101)) : und.append((e.inst, "write indexed by thread")); continue
                if any(contains(g if isinstance(g, Poly) else g[1], lambda a: a[0] == "call") for g in e.gall): n += 1; continue
                if reg.work and locked: und.append((e.inst, "write under a lock")); continue
                bad.append((e.inst, "every thread of the region writes `%s`" % show(e.addr)[:200]))
            continue
        gens = []; pos = positive(acc)
        for e in acc:
            try: gens.append((e, Gen(e.summ, kinds, pos).effect(e, True)))
            except interp.NoMeaning as x: und.append((e.inst, "not interpreted: %s" % x))
        hs = interp.hints_of([e for e, _ in gens]) if gens else []
        hit = {}; seen = {id(e): 0 for e, _ in gens}
        for k in range(tries):
            fs = {}
            for p in (0, 1, 2, 3, 5):
                I = Interp(4000 + k, hs); I.hint = None; I.big = 0; I.memo[("A", 1000)] = p
                for e, g in gens:
                    try: fs[(p, id(e))] = accesses(g, I, None)
                    except (interp.TooBig, interp.NoMeaning, ValueError, OverflowError, NameError): continue
                    seen[id(e)] += bool(fs[(p, id(e))][0])
            for (p, a), (wa, ra) in fs.items():
                for (q, b), (wb, rb) in fs.items():
                    if p != q and (a, b) not in hit and wa & (wb | rb): hit[(a, b)] = (p, q, bool(wa & wb))
        byid = {id(e): e for e, _ in gens}
        for e, _ in gens:
            n += 1
            if not seen[id(e)]: und.append((e.inst, "no interpretation reaches it"))
        done = set()
        for (a, b), (p, q, ww) in hit.items():
            e, f = byid[a], byid[b]
            if (b, a) in done: continue
            done.add((a, b))
            if locked: und.append((e.inst, "meets another instance, lock not analysed")); continue
            if e.inst.op == "atomicrmw" and f.inst.op == "atomicrmw": continue
            bad.append((e.inst, "two iterations of the parallel loop meet: `%s` and %s `%s`" % (show_e(e), "write" if ww else "read in", show_e(f))))
    return bad, und, n
def show_e(e): return summ.show_canon(e.canon())[:300]

def reads_at(sm, i):
    """pointer a load instruction reads through"""
    return sm.ren(sm.val(i.ops[0]))
def after(f, i, stop):
    """instructions that may run after i and before an instruction for which stop() holds; + whether the end is reached"""
    out = []; seen = set(); end = []
    st = [(i.bb.id, i.pos + 1)]
    while st:
        b, k = st.pop()
        cut = False
        for j in f.blocks[b].insts[k:]:
            if stop(j): cut = True; break
            if j.op == "ret": end.append(j)
            out.append(j)
        if cut: continue
        for t in f.blocks[b].succ:
            if t not in seen: seen.add(t); st.append((t, 0))
    return out, end
def tasks(m, f, mods):
    """checks of the tasks spawned by f -> (bad, und, number of obligations)"""
    v = mods.view(f); bad = []; und = []; n = 0
    by = {}
    for e in v.effs: by.setdefault(e.inst.id, []).append(e)
    isent = any(f.name == o[1] for g in m.defined() for i in g.calls() if i.callee == TALLOC for o in i.ops if o[0] == "fn")
    for i, t in v.tasks:
        if t is None: und.append((i, "task not resolved")); continue
        W = []; R = []
        for e in t:
            if e.kind in ("ret", "alloc", "dealloc"): continue
            for q in mods.pointers(e):
                if q is None: und.append((e.inst, "task calls %s" % e.inst.cname()))
                elif not private(q): W.append(q)
            ps = list(e.extra) if e.kind == "call" else [e.addr] + ([e.val] if e.val is not None else [])
            R += [p for p in ps if ptr_base(p) is not None]
            for p in ps: R += [a[2] for a in p.atoms() if a[0] == "load"]
        cont, end = after(f, i, lambda j: (j.callee or "") in TWAIT)
        n += 1
        if end: bad.append((i, "the task spawned here may still run when %s returns: there is a path without a taskwait" % ir_name(f)))
        kill = {}
        for j in cont:
            ws = []; rs = []
            for e in by.get(j.id, []):
                if e.kind == "dealloc": 
                    if any(ptr_base(e.addr) == ptr_base(q) for q in W + R): bad.append((j, "memory of a running task is released"))
                    continue
                if e.kind in ("ret", "alloc"): continue
                for q in mods.pointers(e):
                    if q is None: und.append((j, "call of %s while a task runs" % j.cname()))
                    else: ws.append((q, e))
                if e.kind == "call" and not (j.cname() or "").startswith(OMPRT): rs += [(q, e) for q in e.extra if ptr_base(q) is not None]
                if e.kind == "memcpy": rs.append((e.val, e))
            if j.op == "load":
                try: rs.append((reads_at(v.sm, j), None))
                except Unresolved: und.append((j, "load while a task runs"))
            if not by.get(j.id) and j.op == "store" and not all(r[0] == "alloca" for r in ptr.roots(f, j.ops[1])): und.append((j, "store while a task runs"))
            for q, e in ws:
                if ptr_base(q) is not None and ptr_base(q)[0] == "call" and ptr_base(q)[2] == TALLOC: continue
                for r, how in [(w, "writes") for w in W] + [(w, "reads") for w in R]:
                    c = meet(q, r, e)
                    n += 1
                    if c: bad.append((j, "`%s` is written while the task spawned at %s %s it" % (show(q)[:150], i.inrepo(), how)))
                    elif c is None: und.append((j, "sub-range of what a running task uses"))
            for q, e in rs:
                for r in W:
                    c = meet(q, r, e); n += 1
                    if c: bad.append((j, "`%s` is read while the task spawned at %s writes it" % (show(q)[:150], i.inrepo())))
                    elif c is None: und.append((j, "sub-range of what a running task writes"))
    return bad, und, n
def ir_name(f): return summ.ir.bare(f.dem)
def meet(q, r, e):
    """may the memory at q (by effect e; a call: from q on) and from r on be the same?  None: unknown"""
    if q == r: return True
    bq, br = ptr_base(q), ptr_base(r)
    if bq is None or br is None: return None
    if bq != br: return False
    if e is None or e.kind == "call": return None
    try: g = interp.Gen(e.summ).effect(e, True)
    except interp.NoMeaning: return None
    x = summ.Effect("set", [], [], r, summ.ZERO, e.inst); x.summ = e.summ
    try: h = interp.Gen(e.summ).effect(x, True)
    except interp.NoMeaning: return None
    for k in range(60):
        I = interp.Interp(900 + k)
        try:
            w, _ = accesses(g, I, None); z, _ = accesses(h, I, None)
        except (interp.TooBig, interp.NoMeaning, ValueError, OverflowError, NameError): continue
        if w & z: return True
    return None
