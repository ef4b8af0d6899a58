"""Comparison of the effect summaries of an implementation and of its reference."""
import math
import summ, interp
from summ import *

def summarize(f, argnames=None, ignore=lambda i: False):
    s = Summary(f, argnames)
    e = s.summarise(ignore)
    return s, e

MEM = ("set", "add", "memset", "memcpy")
def alloca(x): return heapy(x, "alloca")
def heapy(x, what="heap"):
    h = lambda a: a[0] == what
    ps = [x.addr, x.val] + list(x.extra) + [c for _, c in x.loops] + [g if isinstance(g, Poly) else g[1] for g in x.guards]
    return any(p is not None and contains(p, h) for p in ps)
def ptrs(p, out):
    for a in p.atoms():
        if a[0] == "arg" or a[0] in ("heap", "alloca", "g") or (a[0] == "load" and a[1] == "ptr"): out.add(show(Poly.atom(a)) if a[0] != "arg" else repr_atom(a))
        for x in a[1:]:
            if isinstance(x, Poly): ptrs(x, out)
    return out
def bases(e):
    out = set()
    for p in [e.addr, e.val] + list(e.extra): 
        if p is not None: ptrs(p, out)
    return out

def place(a, size, summ=None):
    """location class of an address: [(object shape, gcd of the index coefficients, constant offset, size, offset is the least one)]"""
    b = ptr_base(a)
    if b is None:
        ss = shapes(a, summ)
        return None if ss is None else [(x, 1, 0, 1, False) for x in ss]
    g = 0; up = True
    for k, v in a.m.items():
        if k == () or k == (b,): continue
        if getattr(v, "denominator", 1) != 1: return [(shape(b), 1, 0, 1, False)]
        g = math.gcd(g, abs(int(v))); up &= v > 0
    return [(shape(b), g, int(a.cval()), size, up)]
def shapes(a, summ, seen=()):
    """the shapes of the objects a pointer computed with selections and recurrences may point into; None if unknown"""
    b = ptr_base(a)
    if b is not None: return {shape(b)}
    out = None
    for k, v in a.m.items():
        if len(k) != 1 or v != 1: continue
        x = k[0]
        if x[0] == "select": ps = [x[2], x[3]]
        elif x[0] == "mu" and summ is not None:
            if x in seen: ps = []
            else:
                d = summ.mudefs.get((int(x[1][1:]), x[2]))
                if not isinstance(d, tuple): continue
                ps = list(d[:2])
        elif x[0] == "exit": ps = [x[2]]
        else: continue
        r = set()
        for p in ps:
            if x[0] == "mu" and p == Poly.atom(x): continue
            q = shapes(p, summ, seen + (x,))
            if q is None: r = None; break
            r |= q
        if r is not None and (r or x in seen): out = r if out is None else out | r
    return out
def shape(b):
    """an object with the positions it was reached through, index expressions left out"""
    if b is None: return None
    if b[0] == "load":
        q = ptr_base(b[2])
        return ("load", shape(q), int(b[2].cval()) if b[2].cval() % 1 == 0 else 0)
    if b[0] == "heap":
        return ("heap", "*" if contains(Poly.atom(b), lambda a: a[0] in ("iv", "mu", "exit", "while")) else repr_atom(b))
    return b
def overlap(xs, ys):
    """may two location classes share memory (indices are never negative)?"""
    if xs is None or ys is None: return True
    return any(overlap1(x, y) for x in xs for y in ys)
def overlap1(x, y):
    if x[0] != y[0]: return False
    g = math.gcd(x[1], y[1])
    if x[4] and not y[1] and y[2] + y[3] <= x[2]: return False
    if y[4] and not x[1] and x[2] + x[3] <= y[2]: return False
    if not g: return x[2] < y[2] + y[3] and y[2] < x[2] + x[3]
    d = (y[2] - x[2]) % g
    return d < x[3] or (-d) % g < y[3]
def wloc(x):
    return place(x.addr, 1 << 40 if x.kind in ("memset", "memcpy") else interp.SIZES.get(x.inst.d.get("vt"), 8), x.summ)
def reads(e, where=lambda a, t: ptr_base(a)):
    """bases of the memory an effect's loads (those of its recurrences included) may read"""
    out = set(); seen = set()
    def walk(p):
        for a in p.atoms():
            if a[0] == "load" and (a not in e.summ.pre) and not (e.scanned and ptr_base(a[2]) == ptr_base(e.addr)): r = where(a[2], a[1]); out.add(tuple(r) if isinstance(r, list) else r)
            if a[0] in ("mu", "exit", "while"): loop(int(a[1][1:]))
            for x in a[1:]:
                if isinstance(x, Poly): walk(x)
    def loop(l):
        if l in seen: return
        seen.add(l)
        for (k, _), d in e.summ.mudefs.items():
            if k == l and isinstance(d, tuple): walk(d[0]); walk(d[1])
        if isinstance(e.summ._exitc.get(l), Poly): walk(e.summ._exitc[l])
        if isinstance(e.summ.counts.get(l), Poly): walk(e.summ.counts[l])
    for p in [e.addr, e.val] + list(e.extra) + [c for _, c in e.loops] + [g if isinstance(g, Poly) else g[1] for g in e.guards]:
        if p is not None: walk(p)
    return out
def groups(extra, left):
    """unmatched effects by the objects they write: those that share none do not interact"""
    gs = []; mem = ("set", "add", "memset", "memcpy")
    def coarse(q): return ("heap",) if q and q[0] == "heap" else tuple(coarse(y) if isinstance(y, tuple) else y for y in q)
    sh = {id(x): shapes(x.addr, x.summ) if x.kind in mem else {(x.kind,)} for _, x in extra + left}
    sh = {k: b and {coarse(q) for q in b} for k, b in sh.items()}
    if any(b is None for b in sh.values()): return [(extra, left)] if extra or left else []
    for side, l in enumerate((extra, left)):
        for t in l:
            n = [sh[id(t[1])], [[], []]]; n[1][side].append(t)
            for g in [g for g in gs if g[0] & n[0]]:
                gs.remove(g); n[0] = n[0] | g[0]; n[1] = [g[1][0] + n[1][0], g[1][1] + n[1][1]]
            gs.append(n)
    return [tuple(g[1]) for g in gs]
def compare(check, name, fi, fs, argnames, what, drop=("ret",), assume=None, skip=None, order=True, verbose=False, adapt=None, same=()):
    """impl function fi against reference fs: all effects, and the order of those that touch common memory"""
    si, ei = summarize(fi, argnames); ss, es = summarize(fs, argnames)
    if ss.unres: raise summ.Unresolved("reference %s not resolved: %s" % (name, [(i.inrepo(), u) for i, u in ss.unres[:2]]))
    if adapt: adapt(ei, es)
    keep = lambda x: x.kind not in drop and not (skip and skip(x)) and not (x.kind == "set" and any(a[0] == "g" and a[1].startswith("_ZTV") for a in x.val.atoms()))
    ci = [(x.canon(), x) for x in ei if keep(x)]; cs = [(x.canon(), x) for x in es if keep(x)]
    ci, cs = once(merged(ci)), once(merged(cs))
    if verbose:
        for t, l in (("impl", ci), ("spec", cs)):
            print("==", t, name)
            for c, x in l: print("   ", show_canon(c)[:500])
        for i, u in si.unres: print("   UNRES", i.inrepo(), u)
        for k, d in si.mudefs.items(): print("   mu", k, si.mudig.get(k), show(d[0])[:200] + " -> " + show(d[1])[:300] if isinstance(d, tuple) else d)
    left = list(cs); extra = []; match = []
    for c, x in ci:
        for k, (d, y) in enumerate(left):
            if c == d: match.append((x, y)); del left[k]; break
        else: extra.append((c, x))
    if si.unres:
        check.undec(name, "unresolved: %s at %s" % (si.unres[0][1], si.unres[0][0].inrepo())); return None
    # allocations may be larger than needed
    for c, x in list(extra):
        if c[0] != "alloc": continue
        for d, y in left:
            if d[0] == "alloc" and d[:4] == c[:4] and (c[4] - d[4]).isconst() and (c[4] - d[4]).cval() >= 0:
                extra = [t for t in extra if t[1] is not x]; left = [t for t in left if t[1] is not y]; break
    und = vague = None
    if extra or left:
        na = sorted(str((c[1], c[2])) for c, x in extra if c[0] == "alloc"); nb = sorted(str((c[1], c[2])) for c, x in left if c[0] == "alloc")
        if na != nb:
            # temporary memory is obtained in a different way: only effects that do not involve it are compared
            und = [t for t in extra + left if heapy(t[1]) or t[0][0] == "alloc"]
        # so are those that involve an array of the function's own
        lib = lambda t: next((n for n in same if t[1].kind == "call" and "'%s'" % n in repr(t[1].addr.m)), None)
        once_ = {n for n in same if sum(lib(t) == n for t in extra) == sum(lib(t) == n for t in left) == 1}
        und = (und or []) + [t for t in extra + left if alloca(t[1]) and lib(t) not in once_]
        if und:
            ws = [wloc(x) for _, x in und if x.kind in MEM]
            und += [t for t in extra + left if t not in und and t[1].kind in MEM and any(overlap(w, wloc(t[1])) for w in ws)]
            extra = [t for t in extra if t not in und]; left = [t for t in left if t not in und]
    diff = []
    for ex, lf in groups(extra, left):
        try: d = interp.differ([x for _, x in ex], [y for _, y in lf], assume=assume)
        except interp.NoMeaning as e:
            if any(irregular(c) for c, _ in ex + lf) or any(not isinstance(d, tuple) for _, x in ex + lf if x.summ for d in x.summ.mudefs.values()):
                vague = vague or (ex + lf, e); continue
            d = "normal forms differ"
        if d is not None: diff.append((ex, lf, d))
    if diff:
        # memory written by effects that differ has no agreed contents: effects that depend on it are not compared
        every = [t for ex, lf, _ in diff for t in ex + lf]; mem = [x for _, x in every if x.kind in ("set", "add", "memset", "memcpy")]
        ws = [wloc(x) for x in mem]
        # a value just stored may be used instead of being loaded again
        for x, y in match:
            if x.kind not in ("set", "memcpy"): continue
            w = wloc(x)
            if not any(overlap(w, r) for r in reads(x, lambda a, t: place(a, interp.SIZES.get(t, 8), x.summ))): ws.append(w)
        def tainted(x):
            own = lambda a, t: [] if x.kind == "set" and a == x.addr else place(a, interp.SIZES.get(t, 8), x.summ)
            return any(overlap(w, r) for r in reads(x, own) for w in ws)
        mi = [x for _, x in ci]; ms = [y for _, y in cs]
        def plain(ex, lf):
            if not any(tainted(x) for _, x in ex + lf): return True
            return interp.witness([x for _, x in ex], [y for _, y in lf], mi, ms, assume=assume) is not None
        sure = [(ex, lf, d) for ex, lf, d in diff if plain(ex, lf)]
        if sure:
            ex, lf, d = sure[0]
            where = ex[0][1].inst.inrepo() if ex else fi.name
            txt = "%s: " % what
            if ex: txt += "does `%s`" % "`, `".join(show_canon(c) for c, _ in ex)
            if lf: txt += "%s `%s`" % (" instead of" if ex else "missing", "`, `".join(show_canon(c) for c, _ in lf))
            if verbose: print("DIFF", d)
            check.bad(name, txt[:1800], where)
            return False
        und = (und or []) + every
    if vague:
        check.undec(name, "outside the normal form: %s (%s)" % (show_canon(vague[0][0][0])[:300], vague[1])); return None
    if und:
        check.undec(name, "depends on memory whose contents are established differently: %s" % show_canon(und[0][0])[:300]); return None
    if order and len(match) > 1:
        ri = {id(x): n for n, x in enumerate(sorted((x for x, _ in match), key=lambda x: pos(x)))}
        rs = {id(y): n for n, y in enumerate(sorted((y for _, y in match), key=lambda y: pos(y)))}
        for a in range(len(match)):
            for b in range(a):
                (x1, y1), (x2, y2) = match[a], match[b]
                if x1.canon() == x2.canon(): continue
                if swapped(x1, x2, y1, y2, ri, rs):
                    f, g = (x1, x2) if ri[id(x1)] < ri[id(x2)] else (x2, x1)
                    check.bad(name, ("%s: `%s` happens before `%s`, not after it" % (what, show_canon(f.canon())[:500], show_canon(g.canon())[:500])), f.inst.inrepo())
                    return False
    check.ok("%s: %s" % (name, "; ".join(show_canon(c) for c, _ in ci)[:300]))
    return True

def merged(cs):
    """a store and an addition to the same place in the same iteration are one store"""
    es = [x for _, x in cs]; out = list(cs)
    for y in es:
        if y.kind != "add" or not y.loops: continue
        for x in es:
            if x.kind != "set" or x.loops != y.loops or x.guards != y.guards or x.addr != y.addr or pos(x) > pos(y): continue
            w = wloc(x)
            if any(z is not x and z is not y and (z.kind not in MEM or overlap(w, wloc(z)) or any(overlap(w, r) for r in reads(z, lambda a, t: place(a, interp.SIZES.get(t, 8), z.summ)))) and bool(z.loops) for z in es): continue
            if any(overlap(w, r) for r in reads(y, lambda a, t: [] if a == y.addr else place(a, interp.SIZES.get(t, 8), y.summ))): continue
            e = Effect("set", x.loops, x.guards, x.addr, x.val + y.val, y.inst, x.extra); e.summ = x.summ
            out = [(c, z) for c, z in out if z is not x and z is not y] + [(e.canon(), e)]
            break
    return out

def once(cs):
    """a store of the same value to the same place, with nothing else written there, counts once"""
    out = []
    for n, (c, x) in enumerate(cs):
        if x.kind == "set" and any(c == d for d, _ in out) and not contains(x.val, lambda a: a[0] == "load"):
            w = wloc(x)
            if not any(d != c and y.kind in ("set", "add", "memset", "memcpy") and overlap(w, wloc(y)) for d, y in cs): continue
        out.append((c, x))
    return out

def swapped(x1, x2, y1, y2, ri, rs):
    """two effects happen in the other order, and it matters"""
    if (ri[id(x1)] < ri[id(x2)]) == (rs[id(y1)] < rs[id(y2)]): return False
    if not clash(x1, x2): return False
    ks = (x1.kind, x2.kind)
    if "dealloc" in ks or ks == ("call", "call"): return True
    # only one reads what the other writes: the order of the loads counts, not that of the store that uses them
    if "call" in ks:
        (c, e), (d, f) = ((x1, x2), (y1, y2)) if x1.kind == "call" else ((x2, x1), (y2, y1))
        if touches(c, e, False): return True
        return when(e, c, reach) != when(f, d, reach)
    w = interp.conflict(x1, x2, True)
    if w is not False: return True
    sees = lambda w: lambda a, t, w=w: overlap(wloc(w), place(a, interp.SIZES.get(t, 8), w.summ))
    return when(x1, x2, lambda c: sees(x2)) != when(y1, y2, lambda c: sees(y2)) or when(x2, x1, lambda c: sees(x1)) != when(y2, y1, lambda c: sees(y1))
def reach(c):
    """may call c change the memory at an address?"""
    roots = [ptr_base(a) for a in c.extra if isptr(a)]
    if None in roots: return lambda a, t: True
    def f(a, t):
        b = ptr_base(a)
        return b is None or bool({shape(r) for r in roots} & {shape(x) for x in chain(b)})
    return f
def when(e, c, rel):
    """are the loads that feed effect e before (-1) or after (1) c, or both (0)?"""
    order = c.inst.fn.order(); p = order[c.inst.id]; seen = set(); out = set(); hit = rel(c)
    def walk(r):
        if r[0] != "i" or r[1] in seen: return
        i = e.inst.fn.inst[r[1]]
        seen.add(i.id)
        if i.op == "load":
            try: h = hit(e.summ.ren(e.summ.val(i.ops[0])), i.t)
            except Unresolved: h = True
            if h: out.add(-1 if order[i.id] < p else 1)
        for o in i.ops: walk(o)
    for o in e.inst.ops: walk(o)
    return out.pop() if len(out) == 1 else 0 if out else None
def pos(x):
    return x.inst.fn.order()[x.inst.id]
def clash(x, y):
    if x.kind == "add" and y.kind == "add": return False
    if "dealloc" in (x.kind, y.kind): return bool(bases(x) & bases(y))
    if "call" in (x.kind, y.kind):
        if x.kind == y.kind: return bool(bases(x) & bases(y))
        c, e = (x, y) if x.kind == "call" else (y, x)
        return touches(c, e)
    if "alloc" in (x.kind, y.kind): return False
    return interp.conflict(x, y) is True

def isptr(p): return any((a[0] == "load" and a[1] == "ptr") or a[0] in ("heap", "alloca", "g") or (a[0] == "arg" and a[2][:1] not in "#?") for a in p.atoms())
def chain(b):
    """an object and those it was reached through"""
    while b is not None:
        yield b
        b = ptr_base(b[2]) if b[0] == "load" else None
def touches(c, e, rd=True):
    """may call c (through its pointer arguments) and effect e touch common memory"""
    ps = [a for a in c.extra if isptr(a)]
    roots = [ptr_base(a) for a in ps]
    if None in roots or e.kind in ("dealloc", "ret"): return bool(bases(c) & bases(e))
    if e.kind == "alloc": return False
    roots = set(roots)
    for b in {ptr_base(e.addr)} | (reads(e) if rd else set()):
        if b is None or roots & set(chain(b)): return True
    if not rd: return False
    # the arguments themselves are computed from what e writes
    return any(contains(a, lambda x: x[0] == "load" and x[2] == e.addr) for a in c.extra)

def irregular(c):
    """iteration counts with divisions or minima (unrolled, tiled, strided loops): not comparable"""
    kind, loops, gs, addr, val, extra = c
    bad = lambda a: a[0] in ("udiv", "min", "max", "trunc", "and", "or", "merge", "whilec", "muc", "exitc")
    return any(contains(p, bad) for p in loops) or (val is not None and contains(val, lambda a: a[0] in ("muc", "exitc")))
