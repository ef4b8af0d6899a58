import re, build, ir, summ, interp, worlds, outcome, c14
from summ import Poly, Summary
from c05 import CONFIGS, SORTS
OPAQUE = build.opaque(*SORTS, "partition_init", "partition_destroy", "calculate_block_id", "index_to_blockindex", "is_balanced", "count_blocks", "count_nnz_rows", "Coo_to_MatrixBlock") + ["^void release<.*>\\(MatrixBlock<", "BlockFactoryDefault<.*>::create\\("]
# pairs of routines judged on their own: what the first one makes at its first argument the second one releases
MAKES = {"partition_init": "partition", "Coo_to_MatrixBlock": "block"}
ENDS = {"partition_destroy": "partition", "release": "block"}
class Own(interp.Interp):
    """memory as it is after the function's own stores (final), except where a place only names an allocation"""
    final = None; names = frozenset(); sortedat = None
    def L(s, t, a):
        if s.reads is not None: s.reads.add(a)
        if s.final is not None and a in s.final and a not in s.names:
            v = s.final[a]
            if v is not None: return v
        if s.sortedat:
            base, stride, off, ids = s.sortedat
            k, r = divmod(a - base - off, stride)
            if r == 0 and 0 <= k < len(ids): return ids[k]
            if t != "ptr" and a - a % interp.SP != base_of(s):
                # offsets and the like: strictly increasing
                r = s.memo.get((t, a))
                if r is None: idx = a % interp.SP // interp.SIZES.get(t, 4); r = s.memo[(t, a)] = idx * s.small + s.h("v", a) % s.small
                return r
        reads, s.reads = s.reads, None
        try: return interp.Interp.L(s, t, a)
        finally: s.reads = reads
    def K(s, *k):
        if len(k) > 2 and k[2] == "index_to_blockindex" and isinstance(k[-2], int) and k[-2] > 0: return interp.Interp.K(s, *k) % k[-2]
        if s.sortedat and len(k) > 2 and k[2] == "count_blocks":
            ids = s.sortedat[3]; n = min(k[-1], len(ids))
            return sum(1 for i in range(n) if i == 0 or ids[i] != ids[i - 1])
        return interp.Interp.K(s, *k)
    def U(s, *k):
        r = s.memo.get(k)
        if r is None:
            r = s.h(*k)
            if k[0] in ("heap", "g", "alloca"): r = (r % (1 << 22) + 1) * interp.SP
            s.memo[k] = r
        return r
def base_of(I):
    a = I.A(1, "arg1")
    return a - a % interp.SP
def vslot(m, off):
    """what the virtual functions at this place of a block's table are: the deleting destructors or not; None if unknown"""
    r = set()
    for n, g in m.globals.items():
        if not n.startswith("_ZTV") or not re.search(r"Coo|Dense|BlockCsr", n) or not g.get("elts"): continue
        e = g["elts"]; k = 2 + off // 8
        if k < len(e) and e[k][0] == "fn": r.add(e[k][1].endswith("D0Ev"))
    return r.pop() if len(r) == 1 else None
def tables(m, I):
    """addresses of the tables of virtual functions -> name, under this interpretation"""
    return {I.U("g", n): n for n in m.globals if n.startswith("_ZTV")}
def destructor(m, I, e, obj, final):
    """the deleting destructor that runs: called directly, or found through the object's table"""
    c = e.inst.callee or ""
    if c.endswith("D0Ev"): return c
    v = final.get(obj)
    if v is None: return None
    n = tables(m, I).get(v - v % interp.SP)
    es = (m.globals.get(n) or {}).get("elts") or []
    s = ladr(e.addr); off = (v % interp.SP + int((s - Poly.atom(("load", "ptr", e.extra[0]))).cval())) // 8
    return es[off][1] if 0 <= off < len(es) and es[off][0] == "fn" else None
def ending(m, name, cache):
    """what a deleting destructor releases"""
    if name not in cache:
        f = m.functions.get(name); r = None
        if f is not None and not f.decl:
            s = Summary(f); es = s.summarise()
            if not s.unres:
                try: r = [(v, e, interp.Gen(e.summ).effect(summ.Effect("ret", e.loops, e.guards, v[2], summ.ZERO, e.inst), plain=True)) for e in es for v in [event(m, e)] if v]
                except interp.NoMeaning: pass
        cache[name] = r
    return cache[name]
def ladr(p):
    """address of a value that is read from memory"""
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if v == 1 and len(k) == 1 and k[0][0] == "load": return k[0][2]
def stream(e):
    """the memory a stream takes (the stream is modelled, see harness/stream.h)"""
    return any("m_fopen" in d[2] or "m_fclose" in d[2] for d in (e.inst.d.get("dbg") or []))
def library(i):
    """inside a container of the standard library, which looks after its own memory"""
    d = i.d.get("dbg") or []
    return bool(d) and any(f.startswith("/usr") and ("vector" in f or "alloc" in f) for f, _, _ in d)
def event(m, e):
    """(what, family, address polynomial or None for the first argument) of an effect that makes or releases something"""
    n = worlds.libname(e.inst)
    if e.kind in ("alloc", "dealloc") and library(e.inst) or stream(e): return None
    if e.kind == "alloc": return ("make", worlds.ALLOC.get(n, n), e.addr)
    if e.kind == "dealloc": return ("end", worlds.FREE.get(n, n), e.addr)
    if e.kind != "call" or not e.extra: return None
    t = [a for a in e.addr.atoms()]
    name = t[0][1] if len(t) == 1 and t[0][0] == "fnname" else None
    if name is not None:
        b = name.split("::")[-1]
        if b in MAKES: return ("make", MAKES[b], e.extra[0])
        if b in ENDS: return ("end", ENDS[b], e.extra[0])
        if b.startswith("~") and (e.inst.callee or "").endswith("D0Ev"): return ("end", "object", e.extra[0])
        if "BlockFactory" in name and b == "create" and len(e.extra) > 1: return ("make", "object", Poly.atom(("load", "ptr", e.extra[1])))
        return None
    s = ladr(e.addr)
    if s is None: return None
    if any(a[0] == "g" and "BlockFactory" in a[1] for a in s.atoms()) and len(e.extra) > 1: return ("make", "object", Poly.atom(("load", "ptr", e.extra[1])))
    if len(e.extra) == 1:
        off = s - Poly.atom(("load", "ptr", e.extra[0]))
        if off.isconst(): 
            d = vslot(m, int(off.cval()))
            return ("end", "object" if d is not False else "something that is no destructor", e.extra[0])
    return None
SZ = {0: (16, 12), 1: (32, 24), 2: (24, 16), 3: (24, 16)}
def blocks(I, f, cfg, k):
    """block numbers of the elements of a Coo3: sorted, below the number of blocks"""
    stride, off = SZ[int(cfg[0][-1])]; w = "i64" if cfg[0] == "TCFG=1" else "i32"; by = interp.SIZES[w]
    A1 = I.A(1, "arg1"); base = I.L("ptr", A1)
    rows, cols, nnz = [I.L(w, A1 + 8 + j * by) for j in range(3)]
    a = [I.A(n, x) for n, x in sorted((g[0], g[1]) for g in f.argn)]
    if f.name.endswith(("_const", "_own")): 
        if not a[0] or not a[1]: return False
        nb = max(1, rows // a[0]) * max(1, cols // a[1])
    elif f.name.endswith("3"):
        if not a[0]: return False
        nb = ((rows + a[0] - 1) // a[0]) * ((cols + a[0] - 1) // a[0])
    elif f.name.endswith("_same"): nb = a[0] * a[0]
    else: nb = a[0] * a[1]
    nnz %= 9; I.memo[(w, A1 + 8 + 2 * by)] = nnz
    if nb <= 0:
        if nnz: return False
        I.sortedat = (base, stride, off, []); return True
    ids = sorted(I.h("id", j) % min(nb, 5000) for j in range(nnz))
    I.sortedat = (base, stride, off, ids)
    return True
def filed(I, f, cfg, k):
    """a .block file: header and records in order of their blocks"""
    w = "i64" if cfg[0] == "TCFG=1" else "i32"; by = interp.SIZES[w]
    base = I.A(1, "arg1"); a = [I.A(n, x) for n, x in sorted((g[0], g[1]) for g in f.argn)]
    nr, nc = a[0], a[-1]; nb = min(nr * nc, 5000); nnz = I.h("nnz") % 9 if nb else 0
    ids = sorted(I.h("id", j) % nb for j in range(nnz))
    for j, v in ((2, nnz), (3, nr), (4, nc), (5, len(set(ids)))): I.memo[(w, base + j * by)] = v
    I.sortedat = (base, 3 * by + (4 if cfg[0] == "TCFG=0" else 8), 6 * by, ids)
    return True
def pair(ck, m, f, cfg, what, tries=30, coo3=False, full=None):
    s = Summary(f)
    es = s.summarise()
    un = [(i, u) for i, u in s.unres]
    if un: ck.undec(what, "not summarised: %s (%s)" % (un[0][1], un[0][0].op)); return
    order = f.order()
    def keys(x):
        if isinstance(x, str): return order[f.blocks[f.loops[int(x[1:])].header].insts[0].id]
        return order[x.id]
    f.argn = [(n, "#arg%d" % n) for n in range(2, len(f.args))]
    ev = []
    for e in es:
        v = event(m, e)
        if v: ev.append((e, v))
    try:
        gens = [(v, e, interp.Gen(e.summ).effect(summ.Effect("ret", e.loops, e.guards, v[2], e.val if v[0] == "make" and isinstance(e.val, Poly) else summ.ZERO, e.inst), plain=True, keys=keys)) for e, v in ev]
        sets = [(e, interp.Gen(e.summ).effect(e, plain=True, keys=keys)) for e in es if e.kind in ("set", "add", "memset", "memcpy")]
        plc = [interp.Gen(e.summ).effect(summ.Effect("ret", e.loops, e.guards, ladr(v[2]), summ.ZERO, e.inst), plain=True, keys=keys) for e, v in ev if v[0] == "make" and ladr(v[2]) is not None]
    except interp.NoMeaning as x: ck.undec(what, "cannot be evaluated: %s" % x); return
    hs = interp.hints_of([e for e, _ in ev]); good = 0; nev = 0; bad = None
    for k in range(tries * 6):
        if good >= tries: break
        I = Own(7000 + k, hs)
        try:
            if coo3 and not coo3(I, f, cfg, k): continue
            I.fuel = 4 * interp.FUEL
            wr = []
            for e, g in sets:
                for t in g(I):
                    key, kind = t[0], t[1]
                    if kind == "set": wr.append((key, t[2], t[3], False))
                    elif kind == "add": wr.append((key, t[2], t[3], True))
                    else:
                        n = t[-1]
                        if n > 1 << 16: raise interp.TooBig()
                        wr += [(key, t[2] + b, 0 if kind == "memset" and t[3] == 0 else None, False) for b in range(n)]
            final = {}; when = {}
            for key, a, v, add in sorted(wr, key=lambda x: x[0]):
                if add: v = None if v is None or final.get(a) is None else final[a] + v
                final[a] = v; when[a] = key
            names = {t[2] for g in plc for t in g(I)}
            out = []
            for v, e, g in gens:
                I.final = final; I.names = names; I.reads = set()
                r = list(g(I))
                rd = [when[a] for a in I.reads if a in when and a not in names]
                I.reads = I.final = None
                if r and rd and max(rd) >= min(t[0] for t in r): raise interp.NoMeaning("changing memory")
                for x in r:
                    if v[1] != "object" or v[0] != "end" or full is None: out.append((x[0], v, x[2], e)); continue
                    d = destructor(m, I, e, x[2], final)
                    q = ending(m, d, full) if d and d.endswith("D0Ev") else None
                    if q is None: raise interp.NoMeaning("destructor")
                    old = I.A(0, "arg0"); I.memo[("A", 0)] = x[2]; I.final = final; I.names = names
                    try:
                        for n, (dv, de, dg) in enumerate(q): out += [(x[0] + (n,), dv, y[1], de) for y in dg(I)]
                    finally: I.memo[("A", 0)] = old; I.final = None
        except (interp.TooBig, interp.NoMeaning, ValueError, OverflowError, NameError): continue
        good += 1; nev = max(nev, len(out))
        bad = history(sorted(out, key=lambda t: t[0]))
        if bad: break
    if bad:
        e = bad[1].inst
        ck.bad("%s: %s" % (f.name, re.sub(r"\d+", "N", bad[0])), "%s: %s" % (what, bad[0]), e.inrepo())
    elif good < tries // 3: ck.undec(what, "only %d interpretations" % good)
    else: ck.ok("%s: %d makes and releases, %d interpretations" % (what, len(ev), good))
    ck.analysed.append("%s: %d allocations and releases in %d instances" % (what, len(ev), nev))
FREEWORD = {"malloc": "free", "new": "delete", "new[]": "delete[]"}
def history(evs):
    live = {}; gone = {}
    for _, (what, fam, _), a, e in evs:
        key = (a, fam) if fam in ("partition", "block") else a
        if what == "make":
            if key in live: return "an allocation is overwritten by another one before it is released", live[key][1]
            live[key] = (fam, e); gone.pop(key, None)
        elif a == 0: continue
        elif key in live:
            if live[key][0] != fam: return "memory obtained by %s is released with %s" % (live[key][0], FREEWORD.get(fam, fam)), e
            gone[key] = live.pop(key)
        elif key in gone: return "memory is released twice", e
        else: return "memory is released that was not obtained here, or not at this address", e
    for fam, e in live.values(): return "what was obtained by %s is never released" % fam, e
    return None

COO3 = re.compile("own_(csbr|csbr2|bcsr|cgbr|cgbr2|csbr3)(_same|_const|_own)?$")
KINDS = ("memleak", "doublefree", "mismatch")
def local(ck, fs, what, kinds=KINDS, **kw):
    """memory that does not outlive the routine, on every path"""
    for f in fs:
        name = kw.pop("name", None) or f.name; w = "%s%s" % (f.name if f.name != "main" else name, what)
        try: r = worlds.Worlds(f.mod, f, allocs=True, **kw).run(None)
        except worlds.GaveUp as e: ck.undec(w, str(e)); continue
        n = outcome.count(r, "alloc", "free")
        if not n: continue
        ck.analysed.append("%s: %d allocations and releases, %d states" % (w, n, r.nstates))
        if not outcome.judge(ck, r, ir.bare(f.dem) if f.name != "main" else name, kinds, w): ck.ok("%s: %d allocations and releases on all paths (%d states)" % (w, n, r.nstates))
TEMPS = [("sorts", ["^impl_"], ("sort_triplets_impl",)), ("permute", ["^impl_"], SORTS), ("convert", ["^impl_"], SORTS), ("blocked", ["."], SORTS), ("own", ["^(own|in)_b"], SORTS)]
def one(ck, it):
    if it[0] == "pairs":
        cfg = it[1]
        m = build.dump([build.compile(build.VERIF + "/harness/own.cpp", cfg)], roots=["^own_"], noinline=OPAQUE)
        for n in sorted(m.functions):
            if n.startswith("own_") and not n.startswith("own_o_") and not m.functions[n].decl:
                pair(ck, m, m.functions[n], cfg, "%s (%s)" % (n[4:], ", ".join(cfg)), coo3=blocks if COO3.match(n) else None)
        m = build.dump([build.compile(build.VERIF + "/harness/own.cpp", cfg)], roots=["^(in|own_o)_", "D0Ev$"], noinline=build.opaque(*SORTS, "partition_blockrow"))
        for n in sorted(m.functions):
            if n.startswith(("in_", "own_o_")) and not m.functions[n].decl: pair(ck, m, m.functions[n], cfg, "%s (%s)" % (n, ", ".join(cfg)), full={})
    elif it[0] == "files":
        cfg = it[1]
        m = build.dump([build.compile(build.VERIF + "/harness/ownio.cpp", cfg)], roots=["^own_"], noinline=OPAQUE + build.opaque("get_file_size"), post=c14.SPOST, libattrs=True)
        for n in sorted(m.functions):
            if n.startswith("own_rd_") and not m.functions[n].decl: pair(ck, m, m.functions[n], cfg, "%s (%s)" % (n[4:], ", ".join(cfg)), coo3=filed if "csb" in n or "bcsr" in n or "cgb" in n else None)
    elif it[0] == "temps":
        _, cfg, (h, roots, opq) = it
        m = build.dump([build.compile(build.VERIF + "/harness/%s.cpp" % h, cfg)], roots=roots, noinline=build.opaque(*opq))
        local(ck, [m.functions[n] for n in sorted(m.functions) if not m.functions[n].decl], " (%s)" % ", ".join(cfg), limit=6000)
    elif it[0] == "io":
        m = outcome.routines(it[1]); local(ck, [m.functions[n] for n in sorted(m.functions) if n.startswith(("rd_", "wr_"))], " (%s)" % ", ".join(it[1]))
    elif it[0] == "mm":
        m = outcome.mmio(); local(ck, [m.functions[n] for n in sorted(m.functions) if n.startswith("mm_") and not m.functions[n].decl], "", conv="zero")
    else:
        m = outcome.program(it[1], it[2]); local(ck, [m.functions["main"]], "", kinds=KINDS[1:], main=True, name="%s%s" % (it[1], " " + it[2][-1] if it[2] else ""))
def run(ck):
    ck.rule("every construction of a matrix or block followed by its release: on the memory as the construction left it, the releases have exactly the places, numbers and families (malloc/free, new/delete, new[]/delete[]) of the allocations, each once; virtual blocks are released by the destructor their table names")
    ck.rule("memory a routine uses for itself is released on every path to its return, once, by the deallocator of its family; programs release nothing twice or by the wrong deallocator")
    ck.assume += ["allocations succeed", "the offset arrays handed to a blocked format come from new[], as the drivers and tests make them", "Csr made from Coo2 shares nothing; Csr made over given arrays takes them over", "readers that report failure leave a partially built matrix, which is not judged", "the contents of std::vector look after themselves"]
    ck.parallel(one, [("pairs", c) for c in CONFIGS] + [("files", c) for c in CONFIGS] + [("temps", c, t) for c in CONFIGS for t in TEMPS] + [("io", c) for c in CONFIGS] + [("mm",)] + [("prog", s, d) for s, d, _ in outcome.PROGRAMS])
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 80
