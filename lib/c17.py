import os, re, math, build, ir, summ, interp, ptr, c14
from summ import Poly, Summary
from c05 import CONFIGS, SORTS
TRIES = 24
def inlocal(p):
    b = summ.ptr_base(p)
    return b is not None and b[0] == "alloca"
def variables(f, s, es):
    """(name of the variable, place of its declaration, effect) for every effect that depends on what a variable held
    before anything was stored in it; effects that could not be judged; instances evaluated"""
    bad = {}; n = 0; un = {i.id: u for i, u in s.unres}
    hs = interp.hints_of(es); gens = []
    for e in es:
        try: gens.append((e, interp.Gen(e.summ).effect(e, plain=True)))
        except (interp.NoMeaning, RecursionError) as x: un[e.inst.id] = str(x)
    seen = {}
    for k in range(TRIES):
        for e, g in gens:
            I = interp.Interp(3000 + k, hs)
            try:
                for t in g(I):
                    I.tick(); n += 1
                    for j, x in enumerate(t[1:]):
                        if isinstance(x, interp.Un) and not (t[0] == "set" and j == 1 and inlocal(e.addr)): x.use()
            except interp.Uninit as x: bad.setdefault(x.args[0], e); seen[e.inst.id] = 1
            except interp.TooBig: seen[e.inst.id] = 1
            except (interp.NoMeaning, ValueError, OverflowError, NameError): continue
            else: seen[e.inst.id] = 1
    for e, _ in gens:
        if e.inst.id not in seen: un[e.inst.id] = "no interpretation"
    return bad, un, n
READERS = {"printf", "puts", "putchar", "fputs", "fputc", "fprintf", "fwrite", "omp_get_max_threads", "omp_get_num_threads", "omp_get_thread_num", "strlen", "sink"}   # write nothing of ours
class Memory:
    """what is allocated, written and read, by allocation and offset class (offset, modulo the strides of the address)"""
    def __init__(s, f, su, es):
        s.es = es; s.order = f.order(); s.memo = {}; s.mudefs = {}
        for sm in {id(e.summ): e.summ for e in es if e.summ}.values():
            for (k, i), d in sm.mudefs.items(): s.mudefs[("L%d" % k, i)] = d
        s.ptrs = [e for e in es if e.kind == "set" and e.inst.d.get("vt") == "ptr" and not isun(e.val) and not (e.val.isconst() and not e.val.m)]
        s.fresh = {o for e in es if e.kind == "alloc" for o, _, _ in s.objs(e.addr)} | {("alloca", a[1]) for e in es for p in polys(e) for a in every(p) if a[0] == "alloca"}
        s.writes = []; s.unknown = [e for e in es if e.kind in ("set", "add", "memset", "memcpy") and not s.objs(e.addr)]
        for e in es:
            if e.kind in ("set", "add"):
                if isun(e.val): continue
                w = interp.SIZES.get(e.inst.d.get("vt"), 8)
                for o in s.objs(e.addr): s.writes.append((o, w, e))
            elif e.kind in ("memset", "memcpy"):
                for o in s.objs(e.addr): s.writes.append((o, int(e.extra[0].cval()) if e.extra[0].isconst() else None, e))
            elif e.kind == "alloc":      # called by the place it is kept at
                b = summ.ptr_base(e.addr)
                if b is not None and b[0] == "load" and e.addr == Poly.atom(b):
                    for o in s.objs(b[2]): s.writes.append((o, 8, e))
            elif e.kind == "call":
                ws = [] if e.inst.cname() in READERS else s.calleewrites(f.mod, e.inst.callee, e.extra)
                if ws is None: ws = [(o, None) for x in e.extra for o in s.objs(x)]
                s.writes += [(o, w, e) for o, w in ws]
    def calleewrites(s, mod, name, args, seen=()):
        """(place, width) of what a function that is not inlined writes; None if it is not known"""
        g = mod.functions.get(name)
        if g is None or g.decl or len(seen) > 4 or any(not isinstance(x, Poly) for x in args): return None
        if name in seen: return []
        if name not in mod.__dict__.setdefault("writes_", {}):
            su = Summary(g)
            try: es = su.summarise()
            except summ.Unresolved: es = None
            mod.writes_[name] = (su, None if es is None or any(not (i.op == "call" and i.callee in mod.functions and mod.functions[i.callee].noreturn) for i, _ in su.unres) else es)
        su, es = mod.writes_[name]
        if es is None: return s.rawwrites(mod, g, su, args, seen + (name,))
        def put(p): return summ.subst_atom(p, lambda a: args[a[1]] if a[0] == "arg" and a[1] < len(args) else None)
        out = []
        for e in es:
            if s.selfupdate(e): continue
            if e.kind in ("set", "memset", "memcpy"):
                o = s.objs(put(e.addr))
                if not o: return None
                w = interp.SIZES.get(e.inst.d.get("vt"), 8) if e.kind in ("set", "add") else int(e.extra[0].cval()) if e.extra[0].isconst() else None
                out += [(x, w) for x in o]
            elif e.kind == "alloc":
                b = summ.ptr_base(e.addr)
                if b is not None and b[0] == "load" and e.addr == Poly.atom(b): out += [(x, 8) for x in s.objs(put(b[2]))]
            elif e.kind == "call":
                xs = [put(x) if isinstance(x, Poly) else x for x in e.extra]
                o = [] if e.inst.cname() in READERS else s.calleewrites(mod, e.inst.callee, xs, seen + (name,))
                if o is None: o = [(q, None) for x in xs for q in s.objs(x)]
                out += o
        return out
    def rawwrites(s, mod, g, su, args, seen):
        """the same for a function whose loops have no summary: every store, by the roots of its address"""
        out = []
        def place(v):
            rs = {ptr.top(r)[0] for r in ptr.roots(g, v)}
            if rs <= {"heap", "alloca", "null"}: return []           # its own
            away = all(r[0] in ("heap", "alloca", "null", "load") for r in ptr.roots(g, v))   # memory the arguments lead to, not they themselves
            try: p = summ.subst_atom(su.val(v), lambda a: args[a[1]] if a[0] == "arg" and a[1] < len(args) else None)
            except summ.Unresolved: p = None
            o = s.objs(p) if p is not None else []
            return o or ([(q, 0, 1) for q in s.fresh if q[0] != "alloca"] if away else None)
        for i in g.insts():
            if i.op == "store": o = place(i.ops[1]); w = interp.SIZES.get(i.d.get("vt"), 8)
            elif i.op in ("call", "invoke"):
                n = i.cname(); t = mod.functions.get(i.callee)
                if i.callee and i.callee.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental")) or n in ptr.HEAP or n in summ.DEALLOC or n in READERS or t is not None and t.noreturn: continue
                if i.callee and i.callee.startswith(("llvm.mem", "memcpy", "memset", "memmove")): o = place(i.ops[0]); w = None
                elif t is not None and not t.decl:
                    try: xs = [summ.subst_atom(su.val(x), lambda a: args[a[1]] if a[0] == "arg" and a[1] < len(args) else None) for x in i.ops[:len(t.args)]]
                    except summ.Unresolved: return None
                    o = s.calleewrites(mod, i.callee, xs, seen)
                    if o is None: return None
                    out += o; continue
                elif i.t in ("double", "float") or (i.callee or "").startswith("llvm."): continue
                else: return None
            else: continue
            if o is None: return None
            out += [(x, w) for x in o]
        return out
    def objs(s, p, depth=0):
        """(object, offset, stride) the address may be in; [] if it is not known"""
        if not isinstance(p, Poly) or depth > 7: return []
        if p in s.memo: return s.memo[p]
        s.memo[p] = []
        b = s.base(p); out = []
        if b is not None:
            rest = p - Poly.atom(b); off, g = 0, 0
            for k, v in rest.m.items():
                if getattr(v, "denominator", 1) != 1: g = 1
                elif k == (): off = int(v)
                else: g = math.gcd(g, int(abs(v)))
            put = lambda xs, st=0: [(q, qo + off, math.gcd(math.gcd(qg, g), st)) for x in xs for q, qo, qg in s.objs(x, depth + 1)]
            if b[0] == "load":
                for o in s.objs(b[2], depth + 1):
                    n = 0
                    for e in s.ptrs:
                        if any(overlap(o, 8, q, 8) for q in s.objs(e.addr, depth + 1)):
                            n += 1
                            if e.val == Poly.atom(b) or s.base(e.val) == ("load", "ptr", e.addr): out.append((("at",) + norm(o), off, g))
                            else: out += put([e.val])
                    if not n: out.append((("at",) + norm(o), off, g))
            elif b[0] == "mu":
                d = s.mudefs.get(b[1:])
                if isinstance(d, tuple):
                    st = d[1] - Poly.atom(b)
                    steps = [int(abs(v)) for k, v in st.m.items() if getattr(v, "denominator", 1) == 1] if s.base(st) is None else []
                    out = put([d[0]] + ([d[1]] if s.base(st) is not None else []), math.gcd(*steps) if steps else 0)
            elif b[0] == "exit": out = put([b[2]])
            elif b[0] == "select": out = put([b[2], b[3]])
            elif b[0] == "heap": out = [(("heap",) + b[1:3], off, g)]
            else: out = [((b[0], b[1]), off, g)]
        s.memo[p] = out = sorted(set(out), key=repr)
        return out
    def base(s, p):
        """the pointer an address is computed from"""
        b = summ.ptr_base(p)
        if b is not None: return b
        c = [a for k, v in p.m.items() if v == 1 and len(k) == 1 for a in k if s.ispointer(a)]
        return c[0] if len(c) == 1 else None
    def ispointer(s, a, seen=()):
        if a in seen: return False
        seen = seen + (a,)
        deep = lambda p: isinstance(p, Poly) and any(v == 1 and len(k) == 1 and s.ispointer(k[0], seen) for k, v in p.m.items())
        if a[0] == "load": return a[1] == "ptr"
        if a[0] in ("heap", "alloca", "g"): return True
        if a[0] == "arg": return a[2][:1] not in "#?"
        if a[0] == "mu":
            d = s.mudefs.get(a[1:])
            return isinstance(d, tuple) and deep(d[0])
        if a[0] == "exit": return deep(a[2])
        if a[0] == "select": return deep(a[2]) or deep(a[3])
        return False
    def where(s, o):
        for e in s.es:
            if e.kind == "alloc" and any(q[0] == o for q in s.objs(e.addr)): return "at " + e.inst.inrepo()
        return "as a local variable"
    def reads(s):
        for e in s.es:
            if e.kind == "alloc": continue
            seen = set()
            for p in polys(e):
                for a in every(p):
                    if a[0] == "load" and a not in seen:
                        seen.add(a)
                        for o in s.objs(a[2]): yield o, interp.SIZES.get(a[1], 4), e, s.order[e.inst.id]
            if e.kind == "add":
                for o in s.objs(e.addr): yield o, interp.SIZES.get(e.inst.d.get("vt"), 8), e, s.order[e.inst.id]
            if e.kind == "memcpy":
                for o in s.objs(e.val): yield o, 1, e, s.order[e.inst.id]
        for sm in {id(e.summ): e.summ for e in s.es if e.summ}.values():
            for d in sm.mudefs.values():
                if isinstance(d, tuple):
                    for a in every(d[0]) + every(d[1]):
                        if a[0] == "load":
                            for o in s.objs(a[2]): yield o, interp.SIZES.get(a[1], 4), None, None
    def dependent(s, e, o, w):
        if e.kind == "add": return True
        if e.kind != "set" or e.val == Poly.atom(("load", "ptr", e.addr)): return False   # an allocation, called by the place it is kept at
        return any(overlap(q, interp.SIZES.get(a[1], 4), o, w) for a in every(e.val) if a[0] == "load" for q in s.objs(a[2]))
    def selfupdate(s, e):
        return e.kind == "add" or e.kind == "set" and any(a[0] == "load" and a[2] == e.addr for a in every(e.val))
    def lb(s, p, seen=()):
        """a lower bound of an index; loads and arguments used in one are not negative"""
        t = 0
        for k, v in p.m.items():
            if k == ():
                if abs(v) >= 1 << 31: return None
                t += v; continue
            if v < 0: return None
            ls = [s.lbatom(a, seen) for a in k]
            if None in ls or min(ls) < 0: return None
            q = v
            for x in ls: q *= x
            t += q
        return t
    def lbatom(s, a, seen):
        if a[0] in ("iv", "load", "arg"): return 0
        if a[0] == "mu" and a not in seen:
            d = s.mudefs.get(a[1:])
            if not isinstance(d, tuple): return None
            st = s.lb(d[1] - Poly.atom(a), seen + (a,)); b = s.lb(d[0], seen + (a,))
            if st is None and d[1].m and len(d[1].m) == 1:      # a choice between it and it increased
                (k, v), = d[1].m.items()
                if v == 1 and len(k) == 1 and k[0][0] == "select":
                    ss = [s.lb(x - Poly.atom(a), seen + (a,)) for x in k[0][2:4]]
                    st = None if None in ss else min(ss)
            return b if b is not None and st is not None and st >= 0 else None
        if a[0] == "select":
            ss = [s.lb(x, seen) for x in a[2:4]]
            return None if None in ss else min(ss)
        return None
    def first(s, p, obj, reached=False):
        """the lowest offset in the object an address can have; the one it has at the first of each round, if reached"""
        b = s.base(p)
        if b is None: return None
        rest = p - Poly.atom(b); offs = [(qo, g) for q, qo, g in s.objs(Poly.atom(b)) if q == obj]
        if not offs or any(g for _, g in offs): return None
        if reached and (len(s.objs(Poly.atom(b))) > 1 or any(k and (v < 0 or any(a[0] != "iv" for a in k)) for k, v in rest.m.items())): return None
        l = s.lb(rest)
        return None if l is None else min(o for o, _ in offs) + l
    def cells(s, p, loops, obj):
        """all offsets of an address that depends on loops of constant length only"""
        b = s.base(p)
        if b is None: return None
        offs = [(qo, g) for q, qo, g in s.objs(Poly.atom(b)) if q == obj]
        if len(offs) != 1 or offs[0][1] or len(s.objs(Poly.atom(b))) != 1: return None
        n = dict(loops); r = [offs[0][0]]
        for k, v in (p - Poly.atom(b)).m.items():
            if k == (): r = [x + v for x in r]; continue
            if len(k) != 1 or k[0][0] != "iv": return None
            c = n.get(k[0][1])
            if not isinstance(c, Poly): c = Poly.const(c) if isinstance(c, int) else None
            if c is None or not c.isconst() or len(r) * c.cval() > 256: return None
            r = [x + v * i for x in r for i in range(int(c.cval()))]
        return r
    def meets(s, x, o, w):
        """false if the write has known places only, none of them this"""
        if x.kind not in ("set", "memset"): return True
        qw = interp.SIZES.get(x.inst.d.get("vt"), 8) if x.kind == "set" else int(x.extra[0].cval()) if x.extra[0].isconst() else None
        cs = s.cells(x.addr, x.loops, o[0])
        return cs is None or any(overlap(o, w, (o[0], c, 0), qw) for c in cs)
    def always(s, e):
        """addresses read whenever the effect takes place, in the first rounds of its loops too"""
        gs = [g if isinstance(g, Poly) else g[1] for g in e.guards]
        gs = [g for g in gs if any(a[0] == "iv" for a in every(g))]
        def walk(p):
            for a in p.atoms():
                if a[0] == "load": yield a[2], interp.SIZES.get(a[1], 4)
                if a[0] not in ("select", "sum", "merge"):
                    for x in a[1:]:
                        if isinstance(x, Poly): yield from walk(x)
        if gs:      # a condition on elements, not on the round: it is read itself
            def direct(p): return any(a[0] == "iv" or a[0] != "load" and any(isinstance(x, Poly) and direct(x) for x in a[1:]) for a in p.atoms())
            if len(gs) == 1 and not direct(gs[0]) and not any(a[0] in ("select", "and", "or", "merge") for a in every(gs[0])): yield from walk(gs[0])
            return
        for x in (e.addr, e.val) + tuple(e.extra):
            if isinstance(x, Poly): yield from walk(x)
    def starts(s):
        """elements that are read first but set only from a later one on"""
        for e in s.es:
            if e.kind == "alloc": continue
            for p, w in s.always(e):
                for o in s.objs(p):
                    if o[0] not in s.fresh: continue
                    ats = s.cells(p, e.loops, o[0])
                    if ats is None:
                        at = s.first(p, o[0], True); ats = [] if at is None else [at]
                    for at in ats:
                        if at < 0: continue
                        lo = None
                        for q, qw, x in s.writes:
                            if q[0] != o[0] or s.selfupdate(x) or not overlap((o[0], at, 0), w, q, qw): continue
                            if x.kind in ("call", "alloc"): break
                            cs = s.cells(x.addr, x.loops, o[0])
                            if cs is not None:
                                if any(overlap((0, at, 0), w, (0, c, 0), qw) for c in cs): break
                                continue
                            l = s.first(x.addr, o[0])
                            if l is None or l <= at: break
                            lo = l if lo is None else min(l, lo)
                        else: yield o, w, at, lo, e
    def judge(s):
        """reads of freshly allocated memory: (problem, effect) list, number of reads"""
        out = {}; n = 0; done = {}
        for o, w, e, at in s.reads():
            if o[0] not in s.fresh: continue
            n += 1
            k = (norm(o), w)
            if k not in done: done[k] = [x for q, qw, x in s.writes if q[0] == o[0] and overlap(o, w, q, qw)]
            ws = done[k]
            if not ws: out.setdefault((k, "never written"), e); continue
            ind = [x for x in ws if not s.dependent(x, o, w)]
            if not o[2]: ind = [x for x in ind if s.meets(x, o, w)]
            if not ind: out.setdefault((k, "only updated, never set"), e); continue
            # one place set, the others only updated
            if o[2] and all(st == 0 and qw is not None for q, qw, x in s.writes if x in ind and q[0] == o[0] for st in (q[2],)):
                cells = {q[1] for q, qw, x in s.writes if x in ind and q[0] == o[0] and overlap(o, w, q, qw)}
                if len(cells) == 1 and all(s.selfupdate(x) for x in ws if x not in ind): out.setdefault((k, "set only at offset %d" % min(cells)), e); continue
            if e is None: continue
            ls = {l for l, _ in e.loops}
            if not any(s.order[x.inst.id] <= at or ls & {l for l, _ in x.loops} for x in ind): out.setdefault((k, "set only afterwards"), e)
        for o, w, at, l, e in s.starts(): out.setdefault(((norm(o), w), "at first from offset %d, which is not set" % at if l is None else "at first from offset %d while it is set from offset %d on" % (at, l)), e)
        return out, n
def isun(p): return isinstance(p, Poly) and len(p.m) == 1 and any(len(k) == 1 and k[0][0] == "uninit" for k in p.m)
def norm(o): return (o[0], o[1] % o[2] if o[2] else o[1], o[2])
def overlap(a, wa, b, wb):
    """may the two accesses meet; width None: anything from there on"""
    if a[0] != b[0]: return False
    g = math.gcd(a[2], b[2]); d = a[1] - b[1]
    if wa is None or wb is None: return True
    if not g: return -wa < d < wb
    return any(-wa < x < wb for x in range(d % g - g * (1 + wa // g), wb, g)) if g < 4096 else -wa < d < wb
def polys(e):
    for x in (e.addr, e.val) + tuple(e.extra):
        if isinstance(x, Poly): yield x
    for g in e.guards: yield g if isinstance(g, Poly) else g[1]
    for _, c in e.loops: yield c
def every(p, out=None):
    """all atoms of a value, those inside others included"""
    out = [] if out is None else out
    for a in p.atoms():
        out.append(a)
        for x in a[1:]:
            if isinstance(x, Poly): every(x, out)
    return out
def judge(ck, f, what):
    s = Summary(f); es = s.summarise()
    mem = Memory(f, s, es); mb, nr = mem.judge()
    if s.unres or mem.unknown: mb = {}; nr = 0
    for ((o, w), msg), e in sorted(mb.items(), key=repr):
        ck.bad("%s: memory %s" % (ir.bare(f.dem), msg), "%s: memory at offset %d%s of what is allocated %s is read%s but %s" % (what, o[1], " (+%d*k)" % o[2] if o[2] else "", mem.where(o[0]), " at " + e.inst.inrepo() if e else "", msg), e.inst.inrepo() if e else None)
    bad, un, n = variables(f, s, es)
    for (name, loc), e in sorted(bad.items(), key=lambda t: t[0][1]):
        v = name.split(".")[1] or "a temporary"
        ck.bad("%s: %s" % (ir.bare(f.dem), v), "%s: what %s (%s) holds before it is set is used at %s" % (what, v if name.endswith(".0") else "the part of %s at offset %s" % (v, name.split(".")[-1]), loc, e.inst.inrepo()), loc)
    ck.analysed.append("%s: %d effects, %d instances, %d not judged, %d reads of own memory" % (what, len(es), n, len(un), nr))
    if bad or mb: return
    if un: ck.undec(what, "%d of %d effects cannot be evaluated: %s" % (len(un), len(es) + len(s.unres), sorted(un.values())[0]))
    else: ck.ok("%s: %d effects" % (what, len(es)))
STUB = ["-I" + build.VERIF + "/harness/stub"]
# harness, entry points, kept opaque, further options of the compilation and of the dump
UNITS = [("init", "^ini_", SORTS + ["partition_init", "partition_destroy", "calculate_block_id", "index_to_blockindex", "is_balanced", "count_blocks", "count_nnz_rows"], {}, {}),
         ("inio", "^ini_", SORTS + ["partition_init", "partition_destroy", "is_balanced", "count_blocks", "count_nnz_rows", "get_file_size"], {}, dict(post=c14.SPOST, libattrs=True)),
         ("kernels", "^impl_", [], {}, {}), ("blocked", "^impl_", [], {}, {}), ("convert", "^impl_", SORTS, {}, {}), ("permute", "^impl_", SORTS, {}, {}),
         ("partition", "^impl_", [], {}, {}), ("sorts", "^impl_", ["index_to_blockindex"], dict(first=STUB), {}), ("format", "^impl_", SORTS + ["partition_init"], {}, dict(post=c14.SPOST, libattrs=True)), ("mmtext", "^impl_", [], {}, dict(post=c14.SPOST, libattrs=True))]
CALLEES = "(partition_init|partition_destroy|spmv_chunk|is_balanced|count_blocks|count_nnz_rows)"   # their effects are used where they are called
CALLED = "spmv_chunk"                                                                          # and those are judged themselves
def one(ck, it):
    cfg, (h, roots, opq, ckw, dkw) = it
    m = build.dump([build.compile(build.VERIF + "/harness/%s.cpp" % h, cfg, **ckw)], roots=[roots, CALLEES], noinline=build.opaque(*opq) if opq else [], uninit=True, **dkw)
    for n in sorted(m.functions):
        if (re.match(roots, n) or re.search(CALLED, n)) and not m.functions[n].decl: judge(ck, m.functions[n], "%s: %s (%s)" % (h, n.split("_", 1)[1], ", ".join(cfg)))
def run(ck):
    ck.parallel(one, [(c, u) for c in CONFIGS[:int(os.environ.get("GSB_NCFG", 9))] for u in UNITS])
    ck.cov["functions"] = len(ck.analysed)
    ck.rule("what a variable or freshly allocated memory holds before it is first set reaches no condition, no address, no call, no result and no other memory")
    ck.assume += ["index arithmetic does not wrap", "allocations succeed", "memory regions with different roots do not alias", "a loop that sets the elements of an array sets all that are read later (which elements are covered is not judged)"]
    return 150 * len(CONFIGS[:int(os.environ.get("GSB_NCFG", 9))])
