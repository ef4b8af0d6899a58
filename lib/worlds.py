"""Path-sensitive outcome analysis: every library call that can fail is run in both outcomes, with the resources it
acquires or releases and the values it returns tracked along every control-flow path (states merged at equal facts).

Values are intervals; a value computed from a short transfer is tagged: it is strictly less than in the run in which
everything was transferred.  A comparison of a tagged value is decided by the closed form both sides have in that run."""
import re, ir, summ
from summ import Poly, ZERO, ONE, Unresolved
INF = None
NOISE = ("llvm.lifetime", "llvm.experimental.noalias", "llvm.dbg", "llvm.assume", "llvm.invariant", "llvm.stack")
STD = ("stdin", "stdout", "stderr")
ALLOC = {"malloc": "malloc", "calloc": "malloc", "realloc": "malloc", "aligned_alloc": "malloc", "strdup": "malloc", "mm_strdup": "malloc", "mm_typecode_to_str": "malloc",
         "_Znwm": "new", "_ZnwmSt11align_val_t": "new", "_Znam": "new[]", "_ZnamSt11align_val_t": "new[]", "_ZnwmRKSt9nothrow_t": "new", "_ZnamRKSt9nothrow_t": "new[]"}
FREE = {"free": "malloc", "_ZdlPv": "new", "_ZdlPvm": "new", "_ZdaPv": "new[]", "_ZdaPvm": "new[]", "_ZdlPvmSt11align_val_t": "new", "_ZdaPvSt11align_val_t": "new[]", "_ZdaPvmSt11align_val_t": "new[]"}
WRITES = {"fwrite": 3, "fprintf": 0, "vfprintf": 0, "fputs": 1, "fputc": 1, "putc": 1, "mm_write_banner": 0, "mm_write_mtx_crd_size": 0, "mm_write_mtx_array_size": 0}
READS = {"fread": 3, "fscanf": 0, "fgets": 2, "fgetc": 0, "getc": 0, "mm_read_banner": 0, "mm_read_mtx_crd_size": 0, "mm_read_mtx_array_size": 0, "mm_read_mtx_crd_data": 0, "mm_read_mtx_crd_entry": 0}
OTHER = {"fseek": 0, "ftell": 0, "rewind": 0, "feof": 0, "ferror": 0, "fflush": 0, "clearerr": 0, "setvbuf": 0, "fseeko": 0, "ftello": 0, "fileno": 0, "ungetc": 1, "fclose": 0}
EXIT = ("exit", "_exit", "quick_exit", "_Exit")
DIE = ("abort", "__assert_fail", "_ZSt9terminatev", "__cxa_throw", "_ZSt17__throw_bad_allocv")
READONLY = ("printf", "puts", "putchar", "strlen", "strcmp", "strncmp", "atoi", "strtol", "system", "perror", "fprintf", "fputs", "fputc", "fwrite", "fopen", "fclose", "free", "fflush", "feof", "ferror", "fseek", "ftell", "rewind")
class GaveUp(Exception): pass

def iv(lo, hi, tag=frozenset()): return ("i", lo, hi, tag)
def isi(v): return v is not None and v[0] == "i"
def cval(v): return v[1] if isi(v) and v[1] is not None and v[1] == v[2] and not v[3] else None
def exact(v): return v[1] if isi(v) and v[1] is not None and v[1] == v[2] else None
BOOL = iv(0, 1)

class State:
    __slots__ = ("bb", "prev", "env", "mem", "res", "fails", "unc", "notes", "io")
    def copy(s):
        n = State(); n.bb = s.bb; n.prev = s.prev; n.env = dict(s.env); n.mem = dict(s.mem); n.res = dict(s.res); n.fails = s.fails; n.unc = s.unc; n.notes = s.notes; n.io = s.io
        return n

class FullRun(summ.Summary):
    """values in the run in which every transfer is complete"""
    dead = frozenset(); deadblocks = frozenset()
    def phi(s, i):
        l = s.fn.loopof.get(i.bb.id, -1)
        if not (l != -1 and s.fn.loops[l].header == i.bb.id) and s.dead:
            inc = [(b, v) for b, v in i.d["inc"] if (b, i.bb.id) not in s.dead and b not in s.deadblocks]
            if inc and len(inc) < len(i.d["inc"]):
                if len(inc) == 1:
                    old = i.d["inc"]; i.d["inc"] = inc
                    try: return s.lcssa(i)
                    finally: i.d["inc"] = old
                vals = [s.val(v) for _, v in inc]
                if all(v == vals[0] for v in vals): return vals[0]
        return summ.Summary.phi(s, i)
    def call_value(s, i):
        n = libname(i)
        if n in ("fread", "fwrite"): return s.val(i.ops[2])
        if n in ("fscanf", "sscanf"):
            k = conversions(s.fn.mod, i, 1)
            if k is not None: return Poly.const(k)
        return summ.Summary.call_value(s, i)

def libname(i):
    c = i.callee or ""
    for p in ("__isoc99_", "__isoc23_"):
        if c.startswith(p): c = c[len(p):]
    if c.endswith("_unlocked"): c = c[:-9]
    return c
def gstr(m, o):
    if o[0] == "ce" and len(o) > 3: o = o[2][0]
    if o[0] != "g": return None
    t = m.globals.get(o[1], {}).get("str")
    return None if t is None else t.split("\0")[0]
def conversions(m, i, k):
    t = gstr(m, i.ops[k])
    return None if t is None else len(re.findall(r"%(?!\*)(?:\d+)?(?:[hlLqjzt]{0,2})(?:\[[^]]+\]|[a-zA-Z])", t.replace("%%", "")))

class Worlds:
    def __init__(s, m, f, main=False, faults=1, oom=False, limit=60000, allocs=False, conv="neg", outputs=0):
        s.m = m; s.f = f; s.main = main; s.faults = faults; s.oom = oom; s.limit = limit; s.allocs = allocs; s.conv = conv; s.outputs = outputs; s.written = None
        s.found = {}; s.unknown = {}; s.sites = {}; s.rets = []; s.nstates = 0; s.ok_returns = 0
        s.headers = {l.header: l for l in f.loops}
        s._live(); s.full = None; s.fullcache = {}; s.idents = {}
        s.eofs = s._eof_loops()
    # ------------------------------------------------------------ preparation
    def _live(s):
        f = s.f; use = {}; dfn = {}; phiuse = {}
        for b in f.blocks:
            u = set(); d = set()
            for i in b.insts:
                if i.op == "phi":
                    for pb, v in i.d["inc"]:
                        if v[0] == "i": phiuse.setdefault(pb, set()).add(v[1])
                else:
                    for o in s._uses(i):
                        if o not in d: u.add(o)
                d.add(i.id)
            use[b.id] = u; dfn[b.id] = d
        live = {b.id: set() for b in f.blocks}; ch = True
        while ch:
            ch = False
            for b in reversed(f.blocks):
                out = set(phiuse.get(b.id, ()))
                for t in b.succ: out |= live[t]
                n = use[b.id] | (out - dfn[b.id])
                if n != live[b.id]: live[b.id] = n; ch = True
        s.live = live
    def _uses(s, i):
        out = []
        def go(o):
            if not o: return
            if o[0] == "i": out.append(o[1])
        for o in i.ops: go(o)
        if "ind" in i.d: go(i.d["ind"])
        for v, sc in i.d.get("gvar", ()): go(v)
        return out
    def _slice(s, r, depth=6):
        """calls a condition is directly computed from"""
        out = set()
        if r[0] != "i" or depth == 0: return out
        i = s.f.inst.get(r[1])
        if i is None or i.op in ("phi", "load"): return out
        if i.op in ("call", "invoke"): return {i.id}
        for o in i.ops: out |= s._slice(o, depth - 1)
        return out
    def _eof_loops(s):
        """transfers that end the loop they are in: `while (fread(...) > 0)`"""
        out = set()
        for i in s.f.calls():
            if libname(i) not in ("fread", "fscanf", "fgets", "fgetc", "getc"): continue
            l = s.f.loopof.get(i.bb.id, -1)
            if l == -1: continue
            lp = s.f.loops[l]; ex = {e["b"] for e in lp.exits}
            if len(ex) == 1:
                t = s.f.blocks[next(iter(ex))].insts[-1]
                if t.op == "br" and len(t.ops) == 3 and i.id in s._slice(t.ops[0]): out.add(i.id)
        return out
    # ------------------------------------------------------------ full run
    def _full(s):
        if s.full is None:
            dead = set()
            for l in s.f.loops:
                if len(l.exits) > 1:
                    keep = []
                    for e in l.exits:
                        t = s.f.blocks[e["b"]].insts[-1]
                        if t.op == "br" and len(t.ops) == 3 and s._io(t.ops[0]):
                            for x in (t.ops[1][1], t.ops[2][1]):
                                if x not in l.blocks: dead.add((e["b"], x))
                        else: keep.append(e)
                    if keep and len({e["b"] for e in keep}) == 1: l.exits = keep
            reach = set(); todo = [0]
            while todo:
                b = todo.pop()
                if b in reach: continue
                reach.add(b); todo += [x for x in s.f.blocks[b].succ if (b, x) not in dead]
            s.full = FullRun(s.f); s.full.dead = frozenset(dead); s.full.deadblocks = frozenset(b.id for b in s.f.blocks if b.id not in reach)
        return s.full
    def _io(s, c): return any(libname(s.f.inst[x]) in READS or libname(s.f.inst[x]) in WRITES or libname(s.f.inst[x]) in ("fclose", "fflush", "ferror", "feof") for x in s._slice(c))
    def cut_short(s, st, t, tgt):
        """a loop is left because of a failure: what it counts stays below its full-run value"""
        fl = {x for x, _ in st.fails}; nest = s.f.loop_nest(t.bb.id)
        if not nest or not fl or not (s._slice(t.ops[0]) & fl): return
        for l in nest:
            lp = s.f.loops[l]
            if tgt in lp.blocks: continue
            for i in s.f.blocks[lp.header].insts:
                if i.op != "phi": break
                for b, v in i.d["inc"]:
                    if b in lp.blocks and v[0] == "i":
                        a = s.f.inst[v[1]]
                        if a.op == "add" and a.ops[0] == ["i", i.id] and a.ops[1][0] == "c" and int(a.ops[1][1]) > 0:
                            o = st.env.get(i.id); st.env[i.id] = iv(o[1] if isi(o) else None, o[2] if isi(o) else None, (o[3] if isi(o) else frozenset()) | {max(fl)})
    def ident(s, n):
        """key of the memory value that an instruction reads, the same for all that read it unchanged"""
        if n not in s.idents: s.idents[n] = s._ident(n, set())
        return s.idents[n] or None
    def _ident(s, n, seen):
        i = s.f.inst[n]; seen.add(n)
        if i.op == "load" and i.t[0] == "i":
            e = s.fullval(["i", n])
            if e is not None and len(e.m) == 1:
                (k, c), = e.m.items()
                if c == 1 and len(k) == 1 and k[0][0] == "load": return ("e", str(e))
            return ""
        if i.op == "phi":
            es = {s._ident(v[1], seen) if v[0] == "i" else "" for _, v in i.d["inc"] if not (v[0] == "i" and v[1] in seen)}
            if len(es) == 1: return es.pop()
        return ""
    def fullval(s, r):
        k = repr(r)
        if k not in s.fullcache:
            try: s.fullcache[k] = s._full().val(r)
            except (Unresolved, RecursionError, KeyError, TypeError, IndexError): s.fullcache[k] = None
        return s.fullcache[k]
    # ------------------------------------------------------------ values
    def val(s, r, st):
        k = r[0]
        if k == "c": 
            n = int(r[1])
            return iv(abs(n), abs(n)) if r[2] == 1 else iv(n, n)
        if k in ("null", "zero"): return iv(0, 0)
        if k == "i":
            v = st.env.get(r[1])
            if v is None:
                e = s.ident(r[1])
                if e: v = st.env.get(e)
            return v
        if k == "a": return st.env.get(("a", r[1]))
        if k == "g": return ("std",) if r[1] in STD else ("obj", ("g", r[1]), 0)
        if k == "fn": return ("fn", r[1])
        if k == "ce" and r[1] == "getelementptr" and len(r) > 3:
            b = s.val(r[2][0], st)
            return ("obj", b[1], b[2] + r[3]) if b and b[0] == "obj" and b[2] is not None else b
        return None
    def arith(s, i, st):
        op = i.op; V = [s.val(o, st) for o in i.ops]
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            v = V[0]
            if not isi(v): return v if op in ("bitcast", "freeze", "addrspacecast") else (v if v and v[0] in ("obj", "file") else None)
            if op == "trunc":
                w = int(i.t[1:])
                if v[1] is None or v[2] is None or v[1] < -(1 << (w - 1)) or v[2] >= (1 << w): return iv(INF, INF, v[3]) if v[3] else None
            if op == "zext" and (v[1] is None or v[1] < 0): return iv(0, INF, v[3])
            return v
        if op == "getelementptr":
            b = V[0]
            if b and b[0] == "obj":
                off = b[2]
                if off is None or "goff" not in i.d: return ("obj", b[1], None)
                off += i.d["goff"]
                for v, sc in i.d["gvar"]:
                    c = cval(s.val(v, st))
                    if c is None: return ("obj", b[1], None)
                    off += c * sc
                return ("obj", b[1], off)
            if b and b[0] in ("file", "std"): return b
            return None
        if op in ("add", "sub", "mul"):
            a, b = V
            ta = a[3] if isi(a) else frozenset(); tb = b[3] if isi(b) else frozenset()
            if not isi(a): a = iv(INF, INF)
            if not isi(b): b = iv(INF, INF)
            if op == "add": lo = None if a[1] is None or b[1] is None else a[1] + b[1]; hi = None if a[2] is None or b[2] is None else a[2] + b[2]; t = ta | tb
            elif op == "sub":
                lo = None if a[1] is None or b[2] is None else a[1] - b[2]; hi = None if a[2] is None or b[1] is None else a[2] - b[1]; t = ta | frozenset(("?",)) if tb else ta
            else:
                c = None
                if None in a[1:3] or None in b[1:3]: lo = hi = None; lo = 0 if a[1] is not None and a[1] >= 0 and b[1] is not None and b[1] >= 0 else None
                else: p = [x * y for x in a[1:3] for y in b[1:3]]; lo, hi = min(p), max(p)
                t = ta | tb
            if lo is None and hi is None and not t: return None
            return iv(lo, hi, t)
        if op in ("and", "or", "xor"):
            a, b = V
            ca, cb = (exact(a), exact(b))
            if i.t == "i1":
                if op == "and" and (ca == 0 or cb == 0): return iv(0, 0)
                if op == "or" and (ca == 1 or cb == 1): return iv(1, 1)
                if ca is not None and cb is not None: r = {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op]; return iv(r, r)
                if op == "and" and ca == 1: return b
                if op == "and" and cb == 1: return a
                if op == "or" and ca == 0: return b
                if op == "or" and cb == 0: return a
                t = s.tags(a, b)
                return iv(0, 1, t) if t else None
            if ca is not None and cb is not None: r = {"and": ca & cb, "or": ca | cb, "xor": ca ^ cb}[op]; return iv(r, r, s.tags(a, b))
            if op == "and":
                m = cb if cb is not None else ca
                if m is not None and m >= 0: return iv(0, m, frozenset(("?",)) if s.tags(a, b) else frozenset())
            if op == "or" and isi(a) and isi(b) and (a[2] is not None and a[2] < 0 or b[2] is not None and b[2] < 0): return iv(INF, -1)
            if op == "or" and isi(a) and isi(b) and a[1] is not None and b[1] is not None and a[1] >= 0 and b[1] >= 0:
                return iv(max(a[1], b[1]), INF, s.tags(a, b) and frozenset(("?",)))
            return iv(INF, INF, frozenset(("?",))) if s.tags(a, b) else None
        if op == "select":
            c = exact(V[0])
            if c is not None: return V[1] if c else V[2]
            if V[1] == V[2]: return V[1]
            if isi(V[1]) and isi(V[2]):
                lo = None if V[1][1] is None or V[2][1] is None else min(V[1][1], V[2][1]); hi = None if V[1][2] is None or V[2][2] is None else max(V[1][2], V[2][2])
                t = V[1][3] | V[2][3] | s.tags(V[0])
                return iv(lo, hi, t) if t or lo is not None or hi is not None else None
            return None
        if op == "icmp": return s.icmp(i, V, st)
        t = s.tags(*V)
        if op in ("shl",) and isi(V[0]) and cval(V[1]) is not None: 
            k = 1 << cval(V[1]); v = V[0]
            return iv(v[1] * k if v[1] is not None else None, v[2] * k if v[2] is not None else None, v[3])
        if op in ("udiv", "sdiv", "lshr") and isi(V[0]) and V[0][1] is not None and V[0][1] >= 0 and cval(V[1]) is not None and cval(V[1]) > 0 and V[0][2] is not None:
            k = cval(V[1]) if op != "lshr" else 1 << cval(V[1])
            return iv(V[0][1] // k, V[0][2] // k, frozenset(("?",)) if t else t)
        return iv(INF, INF, frozenset(("?",))) if t else None
    def tags(s, *vs):
        t = frozenset()
        for v in vs:
            if isi(v): t |= v[3]
        return t
    def icmp(s, i, V, st):
        p = i.d["pred"]; a, b = V
        def ptr(v): return v is not None and v[0] in ("file", "obj", "std", "fn")
        T, F = iv(1, 1), iv(0, 0)
        if p in ("eq", "ne"):
            if ptr(a) and exact(b) == 0 or ptr(b) and exact(a) == 0: return F if p == "eq" else T
            if a is not None and a == b and ptr(a) and (a[0] != "obj" or a[2] is not None): return T if p == "eq" else F
            if ptr(a) and ptr(b) and a[0] in ("file", "std") and b[0] in ("file", "std"): return (T if p == "eq" else F) if a == b else (F if p == "eq" else T)
        if not isi(a): a = iv(INF, INF)
        if not isi(b): b = iv(INF, INF)
        uns = p[0] == "u"
        if uns:
            if a[1] is None or a[1] < 0: a = iv(0, INF, a[3]) if a[2] is None or a[2] >= 0 else iv((1 << 31), INF, a[3])
            if b[1] is None or b[1] < 0: b = iv(0, INF, b[3]) if b[2] is None or b[2] >= 0 else iv((1 << 31), INF, b[3])
        q = p[1:] if p not in ("eq", "ne") else p
        def lt(x, y): return x[2] is not None and y[1] is not None and x[2] < y[1]
        def le(x, y): return x[2] is not None and y[1] is not None and x[2] <= y[1]
        r = None
        if q == "eq": r = False if lt(a, b) or lt(b, a) else True if exact(a) is not None and exact(a) == exact(b) else None
        elif q == "ne": r = True if lt(a, b) or lt(b, a) else False if exact(a) is not None and exact(a) == exact(b) else None
        elif q == "lt": r = True if lt(a, b) else False if le(b, a) else None
        elif q == "le": r = True if le(a, b) else False if lt(b, a) else None
        elif q == "gt": r = True if lt(b, a) else False if le(a, b) else None
        elif q == "ge": r = True if le(b, a) else False if lt(a, b) else None
        if r is not None: return T if r else F
        ta, tb = a[3], b[3]
        if not ta and not tb: return None
        if ta and tb or "?" in ta or "?" in tb: return iv(0, 1, frozenset(("?",)))
        # one side is short of its full-run value
        x, y = (i.ops[0], i.ops[1]) if ta else (i.ops[1], i.ops[0])
        fx, fy = s.fullval(x), s.fullval(y)
        if fx is None or fy is None: return iv(0, 1, frozenset(("?",)))
        d = fx - fy
        if d.isconst() and d.cval() == 0:
            if tb: q = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(q, q)
            r = {"eq": False, "ne": True, "lt": True, "le": True, "gt": False, "ge": False}[q]
            return T if r else F
        if all(v >= 0 and all(plain(a) for a in k) for k, v in d.m.items()): return iv(0, 1, frozenset(("under",)))      # can be short without showing
        return iv(0, 1, frozenset(("?",)))
    # ------------------------------------------------------------ refinement
    def assume(s, r, truth, st):
        """record that condition r is truth; False if that is impossible"""
        if r[0] != "i": return True
        i = s.f.inst[r[1]]
        st.env[i.id] = iv(int(truth), int(truth))
        if i.op == "icmp":
            p = i.d["pred"]
            if not truth: p = summ.NEGPRED[p]
            for x, y, pp in ((i.ops[0], i.ops[1], p), (i.ops[1], i.ops[0], p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[p[1:]] if p not in ("eq", "ne") else p)):
                if x[0] not in ("i", "a"): continue
                k = x[1] if x[0] == "i" else ("a", x[1])
                v = s.val(x, st); b = s.val(y, st)
                if v is not None and not isi(v) or not isi(b): continue
                lo, hi, t = (v[1], v[2], v[3]) if v else (None, None, frozenset())
                q = pp[1:] if pp not in ("eq", "ne") else pp
                if pp[0] == "u" and (b[1] is None or b[1] < 0 or lo is None or lo < 0):
                    if q in ("gt", "ge") and b[1] is not None and b[1] >= 0 and (lo is None or lo >= 0): pass
                    elif q in ("lt", "le") and b[1] is not None and b[1] >= 0 and b[2] is not None: lo = 0 if lo is None or lo < 0 else lo
                    else: continue
                if q == "eq":
                    if b[1] is not None: lo = b[1] if lo is None else max(lo, b[1])
                    if b[2] is not None: hi = b[2] if hi is None else min(hi, b[2])
                elif q == "ne":
                    c = exact(b)
                    if c is not None and lo == c: lo = c + 1
                    if c is not None and hi == c: hi = c - 1
                elif q in ("lt", "le") and b[2] is not None:
                    n = b[2] - (q == "lt"); hi = n if hi is None else min(hi, n)
                elif q in ("gt", "ge") and b[1] is not None:
                    n = b[1] + (q == "gt"); lo = n if lo is None else max(lo, n)
                if lo is not None and hi is not None and lo > hi: return False
                if lo is None and hi is None and not t: continue
                st.env[k] = iv(lo, hi, t)
                if x[0] == "i" and not t and s.ident(x[1]): st.env[s.ident(x[1])] = iv(lo, hi)
                s.propagate(x, st)
        elif i.op in ("and", "select") and truth and i.t == "i1" and (i.op == "and" or i.ops[2][0] == "c" and not int(i.ops[2][1])):
            return s.assume(i.ops[0], True, st) and s.assume(i.ops[1], True, st)
        elif i.op in ("or", "select") and not truth and i.t == "i1" and (i.op == "or" or i.ops[1][0] == "c" and int(i.ops[1][1])):
            return s.assume(i.ops[0], False, st) and s.assume(i.ops[1] if i.op == "or" else i.ops[2], False, st)
        elif i.op in ("and", "select", "or") and i.t == "i1":
            # one side is already known: it is the other that decides
            const = lambda o, v: o[0] == "c" and (int(o[1]) != 0) == v
            if i.op == "select": pair = (i.ops[0], i.ops[1]) if not truth and const(i.ops[2], False) else (i.ops[0], i.ops[2]) if truth and const(i.ops[1], True) else None
            else: pair = tuple(i.ops)
            if pair:
                for a, b in (pair, pair[::-1]):
                    k = exact(s.val(a, st))
                    if k is not None and (k != 0) != truth: return s.assume(b, truth, st)
        elif i.op == "xor" and i.t == "i1" and i.ops[1][0] == "c": return s.assume(i.ops[0], not truth, st)
        return True
    def propagate(s, x, st):
        """a refined value also refines what it was copied from"""
        if x[0] != "i": return
        i = s.f.inst[x[1]]
        if i.op in ("zext", "sext", "freeze") and i.ops[0][0] in ("i", "a"):
            k = i.ops[0][1] if i.ops[0][0] == "i" else ("a", i.ops[0][1])
            if st.env.get(k) is None: st.env[k] = st.env[x[1]]
        if i.op == "load":
            a = s.val(i.ops[0], st)
            if a and a[0] == "obj" and a[2] is not None and (a[1], a[2]) in st.mem and st.mem[(a[1], a[2])] is None: pass
    # ------------------------------------------------------------ findings
    def bad(s, kind, i, text, site=None, st=None):
        k = (kind, where(i), where(site) if site is not None else "")
        if st is not None and st.unc: s.unknown.setdefault(k, (kind, i, text, site)); return
        s.found.setdefault(k, (kind, i, text, site))
    # ------------------------------------------------------------ run
    def run(s, args=None):
        st = State(); st.bb = 0; st.prev = None; st.env = {}; st.mem = {}; st.res = {}; st.fails = (); st.unc = False; st.notes = (); st.io = -1
        if s.main and s.f.args:
            st.env[("a", 0)] = iv(1, INF)
            if len(s.f.args) > 1: st.env[("a", 1)] = ("obj", "argv", 0)
        for k, v in (args or {}).items(): st.env[("a", k)] = v
        work = [st]; seen = set()
        while work:
            st = work.pop()
            s.nstates += 1
            if s.nstates > s.limit: raise GaveUp("more than %d states in %s" % (s.limit, s.f.dem))
            for n in s.block(st):
                n = s.enter(n)
                k = (n.bb, frozenset(n.env.items()), frozenset(n.mem.items()), frozenset(n.res.items()), n.fails, n.unc, n.io)
                if k in seen: continue
                seen.add(k); work.append(n)
        return s
    def enter(s, n):
        """phis of the block entered, and widening at loop heads"""
        b = s.f.blocks[n.bb]; new = {}
        for i in b.insts:
            if i.op != "phi": break
            v = s.val(dict((x, y) for x, y in i.d["inc"])[n.prev], n)
            l = s.headers.get(n.bb)
            if l is not None and n.prev in l.blocks and isi(v):
                inc = dict((x, y) for x, y in i.d["inc"])[n.prev]
                if s.counting(i, inc, l):
                    up = True
                    lo, hi = v[1], v[2]
                    src = s.f.inst.get(inc[1]) if inc[0] == "i" else None
                    lo = None if lo is None else min(lo, 1) if lo >= 0 else None
                    v = iv(lo, INF, v[3]) if lo is not None or v[3] else None
            if l is not None and n.prev in l.blocks and v and v[0] == "obj" and v[2] is not None:
                inc = dict((x, y) for x, y in i.d["inc"])[n.prev]
                if inc[0] == "i" and s.f.inst[inc[1]].op == "getelementptr" and s.f.inst[inc[1]].bb.id in l.blocks: v = ("obj", v[1], None)
            if v is not None: new[i.id] = v
        if s.headers.get(n.bb) is not None and n.prev in s.headers[n.bb].blocks:
            for k, v in list(n.mem.items()):
                if isi(v) and exact(v) not in (None, 0, 1, -1): n.mem[k] = iv(v[1] if v[1] is not None and v[1] == 0 else None, None, v[3]) if v[3] else None
        live = s.live[n.bb]
        n.env = {k: v for k, v in n.env.items() if v is not None and (k in live or isinstance(k, tuple))}
        n.env.update(new)
        return n
    def counting(s, phi, inc, l, depth=4):
        """the value is changed by arithmetic in the loop"""
        if inc[0] != "i" or depth == 0: return False
        i = s.f.inst[inc[1]]
        if i.bb.id not in l.blocks: return False
        if i.op in ("add", "sub", "mul", "shl", "or", "udiv", "lshr"): return True
        if i.op == "phi" and i.id != phi.id: return any(s.counting(phi, v, l, depth - 1) for _, v in i.d["inc"])
        if i.op in ("select",): return any(s.counting(phi, v, l, depth - 1) for v in i.ops[1:])
        if i.op in ("zext", "sext", "trunc"): return s.counting(phi, i.ops[0], l, depth - 1)
        return False
    def block(s, st):
        cur = [st]
        for i in s.f.blocks[st.bb].insts:
            if i.op == "phi": continue
            if i.op in ("br", "switch", "ret", "unreachable"):
                out = []
                for c in cur: out += s.term(i, c)
                return out
            nxt = []
            for c in cur: nxt += s.step(i, c)
            cur = nxt
        return []
    def go(s, st, tgt):
        n = st.copy(); n.prev = st.bb; n.bb = tgt; return n
    def term(s, t, st):
        if t.op == "ret":
            v = s.val(t.ops[0], st) if t.ops else None
            s.leave(t, st, v, t.ops[0] if t.ops else None); return []
        if t.op == "unreachable": return []
        if t.op == "br":
            if len(t.ops) < 3: return [s.go(st, x) for x in s.f.blocks[st.bb].succ]
            c = s.val(t.ops[0], st); k = exact(c); out = []
            for tgt, tv in ((t.ops[2][1], 1), (t.ops[1][1], 0)):
                if k is not None and k != tv: continue
                n = s.go(st, tgt)
                if k is None:
                    if isi(c) and "?" in c[3]: n.unc = True
                    if not s.assume(t.ops[0], bool(tv), n): continue
                s.cut_short(n, t, tgt)
                out.append(n)
            return out
        if t.op == "switch":
            c = s.val(t.ops[0], st); k = exact(c); out = []; r = t.ops[0]; ck = r[1] if r[0] == "i" else ("a", r[1])
            cs = [(int(x), tgt) for x, tgt in t.d["cases"]]
            if k is not None:
                for x, tgt in cs:
                    if x == k: return [s.go(st, tgt)]
                return [s.go(st, t.d["default"])]
            for x, tgt in cs:
                if isi(c) and (c[1] is not None and x < c[1] or c[2] is not None and x > c[2]): continue
                n = s.go(st, tgt); n.env[ck] = iv(x, x, c[3] if isi(c) else frozenset())
                if isi(c) and "?" in c[3]: n.unc = True
                out.append(n)
            n = s.go(st, t.d["default"])
            if isi(c):
                lo, hi = c[1], c[2]; xs = {x for x, _ in cs}
                while lo is not None and lo in xs: lo += 1
                while hi is not None and hi in xs: hi -= 1
                if lo is not None and hi is not None and lo > hi: return out
                n.env[ck] = iv(lo, hi, c[3])
                if lo is not None and hi is None and max(xs) > lo:          # values between and above the cases
                    n.env[ck] = iv(lo, hi, c[3])
            out.append(n)
            return out
        raise GaveUp("terminator %s" % t.op)
    def step(s, i, st):
        op = i.op
        if op in ("call", "invoke"): return s.call(i, st)
        if op == "alloca":
            st.env[i.id] = ("obj", ("a", i.id), 0); return [st]
        if op == "store":
            a = s.val(i.ops[1], st); v = s.val(i.ops[0], st)
            if a and a[0] == "obj" and isinstance(a[1], tuple) and a[1][0] == "a":
                if a[2] is not None: 
                    st.mem[(a[1], a[2])] = v
                    if v is None: del st.mem[(a[1], a[2])]
                else:
                    for k in [k for k in st.mem if k[0] == a[1]]: del st.mem[k]
            else:
                s.escape(v, st)
                if isi(v) and v[3]: st.unc = True
            return [st]
        if op == "load":
            a = s.val(i.ops[0], st); v = None
            if i.ops[0][0] == "g" and i.ops[0][1] in STD: v = ("std",)
            elif a and a[0] == "obj":
                if a[1] == "argv":
                    if a[2] is not None: s.argv(i, a[2] // 8, st)
                    v = ("obj", ("argstr",), None)
                elif a[2] is not None: v = st.mem.get((a[1], a[2]))
            if v is None: st.env.pop(i.id, None)
            else: st.env[i.id] = v
            return [st]
        if op == "select" and i.ops[0][0] == "i":
            c = s.val(i.ops[0], st)
            a, b = s.val(i.ops[1], st), s.val(i.ops[2], st)
            if exact(c) is None and a != b and ((isi(c) and c[3]) or exact(a) is not None and exact(b) is not None):
                out = []
                for tv in (1, 0):
                    n = st.copy()
                    if isi(c) and "?" in c[3]: n.unc = True
                    if not s.assume(i.ops[0], bool(tv), n): continue
                    v = s.val(i.ops[1 if tv else 2], n)
                    if v is None: n.env.pop(i.id, None)
                    else: n.env[i.id] = v
                    out.append(n)
                return out
        v = s.arith(i, st)
        if op == "icmp" and isi(v) and v[3] and exact(v) is None and any(u.op in ("zext", "sext", "store") for u in s.f.users().get(i.id, ())):
            out = []                              # counted: follow both outcomes
            for tv in (True, False):
                n = st.copy()
                if "?" in v[3]: n.unc = True
                if s.assume(["i", i.id], tv, n): out.append(n)
            return out
        if v is None: st.env.pop(i.id, None)
        else: st.env[i.id] = v
        return [st]
    def argv(s, i, k, st):
        c = st.env.get(("a", 0))
        if isi(c) and c[1] is not None and c[1] <= k: s.bad("argv", i, "argument %d is used although as few as %d are given" % (k, c[1] - 1), None, st)
        s.sites.setdefault(("argv", i.id), i)
    def escape(s, v, st):
        if v and v[0] == "obj" and ("o", v[1]) in st.res:
            fam, stt, multi = st.res[("o", v[1])]
            if stt == "live": st.res[("o", v[1])] = (fam, "escaped", multi)
        if v and v[0] == "file" and st.res.get(("f", v[1]), ("",))[0] == "open": st.res[("f", v[1])] = ("handed",) + st.res[("f", v[1])][1:]
    # ------------------------------------------------------------ library calls
    def fail(s, st, i, kind):
        n = st.copy(); n.fails = st.fails + ((i.id, kind),); return n
    def may_fail(s, st): return len(st.fails) < s.faults
    def usefile(s, i, v, st, what):
        """-> file id or None"""
        if v is None or v[0] == "std": return None
        if v[0] == "i" and exact(v) == 0:
            o = next((x for x, k in reversed(st.fails) if k.startswith("open")), None)
            s.bad("unchecked", i, "%s uses a file that could not be opened" % what, s.f.inst.get(o), st); return "null"
        if v[0] != "file": return None
        r = st.res.get(("f", v[1]))
        if r and r[0] == "closed":
            s.bad("closed", i, ("%s closes a file that is already closed" if what == "fclose" else "%s uses a file that is already closed") % what, s.f.inst.get(v[1]) if not isinstance(v[1], tuple) else None, st); return "null"
        return v[1]
    def call(s, i, st):
        n = libname(i); c = i.callee or ""
        if c.startswith(NOISE): return [st]
        s.drop(i, st)
        A = [s.val(o, st) for o in i.ops]
        def ret(x, v):
            if v is None: x.env.pop(i.id, None)
            else: x.env[i.id] = v
            return x
        if n in ("fopen", "fopen64", "fdopen", "tmpfile"):
            s.sites.setdefault(("fopen", i.id), i)
            mode = gstr(s.m, i.ops[1]) if n != "tmpfile" else "w+"
            wr = mode is None or any(ch in mode for ch in "wa+")
            out = []
            ok = st.copy()
            old = st.res.get(("f", i.id))
            if old and old[0] == "open": s.bad("leak", i, "the file opened here is still open when the next one is opened", i, st)
            ok.res[("f", i.id)] = ("open", wr, False); ok.io = min(8, max(ok.io, 0) + bool(wr))
            ret(ok, ("file", i.id)); out.append(ok)
            if len([1 for _, k in st.fails if not k.startswith("open")]) == 0 and len(st.fails) < 3:
                b = s.fail(st, i, "open-w" if wr else "open-r"); b.res.pop(("f", i.id), None)
                out.append(ret(b, iv(0, 0)))
            return out
        if n in WRITES or n in READS or n in OTHER:
            k = WRITES.get(n, READS.get(n, OTHER.get(n)))
            if n == "fflush" and isi(A[0]): return [ret(st, None)]
            fid = s.usefile(i, A[k], st, n) if k < len(A) else None
            if fid == "null": return []
            s.sites.setdefault((n, i.id), i) if fid is not None else None
            r = st.res.get(("f", fid)) if fid is not None else None
            wr = r[1] if r else isinstance(fid, tuple)
            if n == "fclose":
                if fid is None: return [ret(st, None)]
                if isinstance(fid, tuple): s.bad("notowned", i, "the file closed here belongs to the caller", None, st)
                out = []
                ok = st.copy(); ok.res[("f", fid)] = ("closed", wr, False); out.append(ret(ok, iv(0, 0)))
                if wr and s.may_fail(st):
                    b = s.fail(st, i, "write"); b.res[("f", fid)] = ("closed", wr, False); out.append(ret(b, iv(-1, -1)))
                return out
            if n == "ferror":
                if r and r[2]: return [ret(st, iv(1, 1))]
                return [ret(st, iv(0, 0) if r and not any(k.startswith("read") for _, k in st.fails) else None)]
            if n == "fflush":
                out = [ret(st.copy(), iv(0, 0))]
                if wr and fid is not None and s.may_fail(st): out.append(ret(s.sticky(s.fail(st, i, "write"), fid), iv(-1, -1)))
                return out
            if n in ("fseek", "fseeko"):
                out = [ret(st.copy(), iv(0, 0))]
                return out
            if n in ("ftell", "ftello"):
                out = [ret(st.copy(), iv(0, INF))]
                return out
            if n in WRITES:
                if fid is None and n != "fwrite": return [ret(st, None)]
                if fid is None: return [ret(st, A[2] if A[2] else None)]
                okv = {"fwrite": A[2] if n == "fwrite" and isi(A[2]) else None, "fprintf": iv(0, INF), "vfprintf": iv(0, INF), "fputs": iv(0, INF), "fputc": iv(0, 255), "putc": iv(0, 255)}.get(n, iv(0, 0))
                out = [ret(st.copy(), okv)]
                if s.may_fail(st) and not (n == "fwrite" and exact(A[2]) == 0):
                    b = s.sticky(s.fail(st, i, "write"), fid)
                    if n == "fwrite": bv = s.short(i, A[2], i.id)
                    elif n in ("fprintf", "vfprintf"): bv = iv(INF, -1)
                    elif n.startswith("mm_"): bv = iv(1, INF)
                    else: bv = iv(-1, -1)
                    out.append(ret(b, bv))
                return out
            if n in READS:
                out = []; end = i.id in s.eofs
                if any(k == "parse" for _, k in st.fails) and fid != "null":    # what could not be parsed is read again
                    st = st.copy(); st.fails = tuple(x for x in st.fails if x[1] != "parse")
                if n == "fread":
                    out.append(ret(st.copy(), A[2] if isi(A[2]) else iv(0, INF)))
                    if end: out.append(ret(st.copy(), s.short(i, A[2], i.id, False)))
                    elif s.may_fail(st) and exact(A[2]) != 0: out.append(ret(s.fail(st, i, "read"), s.short(i, A[2], i.id)))
                elif n == "fscanf":
                    k = conversions(s.m, i, 1)
                    out.append(ret(st.copy(), iv(k, k) if k is not None else iv(0, INF)))
                    if end: out.append(ret(st.copy(), iv(-1, -1)))
                    elif s.may_fail(st):
                        out.append(ret(s.fail(st, i, "read"), iv(-1, -1)))
                        for q in range(0, 1 if s.retry(i) else k or 0): out.append(ret(s.fail(st, i, "read-malformed"), iv(q, q)))
                elif n == "fgets":
                    out.append(ret(st.copy(), ("obj", ("str", i.id), None)))
                    if end: out.append(ret(st.copy(), iv(0, 0)))
                    elif s.may_fail(st): out.append(ret(s.fail(st, i, "read"), iv(0, 0)))
                elif n in ("fgetc", "getc"): out.append(ret(st.copy(), None))
                else:
                    out.append(ret(st.copy(), iv(0, 0)))
                    if s.may_fail(st): out.append(ret(s.fail(st, i, "read"), iv(1, INF)))
                return out
            return [ret(st, None)]
        if n == "sscanf":
            k = conversions(s.m, i, 1)
            if k is None: return [ret(st, None)]
            out = [ret(st.copy(), iv(k, k))]
            if s.may_fail(st):
                for q in range(0, k): out.append(ret(s.fail(st, i, "parse"), iv(q, q)))
                out.append(ret(s.fail(st, i, "parse"), iv(-1, -1)))
            return out
        if n in EXIT: s.exits(i, st, A[0]); return []
        if n in DIE or i.d.get("noreturn"): s.exits(i, st, iv(1, 255)); return []
        if c in ALLOC or n in ALLOC:
            fam = ALLOC.get(c) or ALLOC.get(n); k = ("o", i.id); old = st.res.get(k)
            ok = st.copy()
            multi = old is not None and old[1] in ("live", "escaped")
            if old and s.allocs and old[1] == "live": s.bad("memleak", i, "memory allocated here is lost when the next is allocated", i, st)
            if s.allocs: ok.res[k] = (fam, "live", bool(multi or old and old[2])); s.sites.setdefault(("alloc", i.id), i)
            out = [ret(ok, ("obj", i.id, 0))]
            if s.oom and fam == "malloc" and s.used(i) and not st.fails:
                b = st.copy(); b.fails = b.fails + ((i.id, "oom"),); out.append(ret(b, iv(0, 0)))
            return out
        if c in FREE:
            v = A[0]
            if s.allocs and v and v[0] == "obj" and ("o", v[1]) in st.res:
                fam, stt, multi = st.res[("o", v[1])]; o = s.f.inst.get(v[1])
                if stt == "freed" and not multi: s.bad("doublefree", i, "memory is freed twice", o, st); return []
                if fam != FREE[c]: s.bad("mismatch", i, "memory obtained with %s is released with %s" % (fam, {"malloc": "free", "new": "delete", "new[]": "delete[]"}[FREE[c]]), o, st)
                st.res[("o", v[1])] = (fam, "freed", multi)
                s.sites.setdefault(("free", i.id), i)
            return [ret(st, None)]
        # anything else: may change what it is given
        ro = n in READONLY or n.startswith(("str", "llvm.mem")) and n not in ("strdup",)
        for v, o in zip(A, i.ops):
            if v and v[0] == "obj" and isinstance(v[1], tuple) and v[1][0] == "a" and not (n in READONLY):
                for k in [k for k in st.mem if k[0] == v[1]]: del st.mem[k]
            if v and v[0] == "file" and not ro and not n.startswith("llvm."): s.escape(v, st)
            if isi(v) and v[3] and n not in READONLY and not c.startswith("llvm."): st.unc = True
        if n in ("strcpy", "strncpy", "strcat", "strncat", "memcpy", "memmove", "memset") and A: return [ret(st, A[0])]
        if c.startswith("llvm.expect") or c.startswith("llvm.launder"): return [ret(st, A[0])]
        if c.startswith(("llvm.umin", "llvm.smin", "llvm.umax", "llvm.smax")) and len(A) == 2:
            t = s.tags(*A)
            return [ret(st, iv(INF, INF, frozenset(("?",))) if t else None)]
        return [ret(st, None)]
    def drop(s, i, st):
        n = libname(i)
        if n in ("fread", "fgets", "fscanf", "sscanf"):
            for o in i.ops:
                v = s.val(o, st)
                if v and v[0] == "obj":
                    for k in [k for k in st.mem if k[0] == v[1]]: del st.mem[k]
    def used(s, i): return any(True for _ in s.f.users().get(i.id, ()))
    def retry(s, i):
        """scanf repeated until it succeeds"""
        l = s.f.loopof.get(i.bb.id, -1)
        if l == -1: return False
        for e in s.f.loops[l].exits:
            t = s.f.blocks[e["b"]].insts[-1]
            if t.op == "switch" and i.id in s._slice(t.ops[0]):
                k = conversions(s.m, i, 1); lb = s.f.loops[l].blocks
                if t.d["default"] in lb and any(int(x) == k and tgt not in lb for x, tgt in t.d["cases"]): return True
            if t.op == "br" and len(t.ops) == 3 and i.id in s._slice(t.ops[0]) and t.ops[0][0] == "i":
                cc = s.f.inst[t.ops[0][1]]
                k = conversions(s.m, i, 1)
                if cc.op == "icmp" and cc.ops[1][0] == "c" and int(cc.ops[1][1]) == k:
                    full_exits = (t.ops[2][1] not in s.f.loops[l].blocks) == (cc.d["pred"] == "eq")
                    if full_exits: return True
        return False
    def sticky(s, st, fid):
        r = st.res.get(("f", fid))
        if r: st.res[("f", fid)] = (r[0], r[1], True)
        return st
    def short(s, i, cnt, site, tag=True):
        hi = None
        if isi(cnt) and cnt[2] is not None: hi = cnt[2] - 1
        return iv(0, hi if hi is None or hi >= 0 else 0, frozenset((site,)) if tag else frozenset())
    # ------------------------------------------------------------ ends
    def leave(s, t, st, v, r):
        if v and v[0] == "file": s.escape(v, st)
        if v and v[0] == "obj": s.escape(v, st)
        for k, x in st.res.items():
            if k[0] == "f" and x[0] == "open" and not isinstance(k[1], tuple):
                last = s.f.inst.get(st.fails[-1][0]) if st.fails else None
                s.bad("leak", s.f.inst[k[1]], "the file opened here is left open on a path to the return" + (" (after a failure at %s)" % where(last) if last is not None else ""), s.f.inst[k[1]], st)
            if k[0] == "o" and x[1] == "live" and s.allocs:
                s.bad("memleak", s.f.inst[k[1]], "memory allocated here is not released on a path to the return", s.f.inst[k[1]], st)
        s.report(t, st, v)
    def exits(s, i, st, v): s.report(i, st, v, True)
    def report(s, t, st, v, ex=False):
        fl = [(x, k) for x, k in st.fails if k != "oom"]
        s.rets.append((t, v, fl, st.unc))
        if s.main or ex: good = None if not isi(v) else False if (v[1] is not None and v[1] > 0 or v[2] is not None and v[2] < 0) else True if exact(v) == 0 else None
        else: good = s.success(v)
        if not fl:
            if good is not False: s.ok_returns += 1
            if s.main and good and not st.fails:
                s.written = st.io if s.written is None else min(s.written, st.io)
                if st.io < 0: s.bad("nooutput", t, "exit status zero without any file having been opened", None, st)
                elif st.io < s.outputs: s.bad("nooutput", t, "exit status zero with only %d of the %d output files written" % (st.io, s.outputs), None, st)
            return
        if any(k == "oom" for _, k in st.fails): return
        for x, k in fl[-1:]:
            if good is True: s.bad("unreported:" + k, t, "success is reported although %s failed at %s" % ({"open-r": "opening a file", "open-w": "opening a file", "write": "a write", "parse": "parsing a line"}.get(k, "a read"), where(s.f.inst[x])), s.f.inst[x], st)
            elif good is None: s.unknown.setdefault(("unreported:" + k, where(t), where(s.f.inst[x])), ("unreported:" + k, t, "unclear what is reported", s.f.inst[x]))
    def success(s, v):
        """is v the success result of a reader or writer (zero; negative: failure)?"""
        if v is not None and v[0] in ("obj", "file"): return True
        if not isi(v): return None
        if v[2] is not None and v[2] < 0: return False
        if s.conv == "neg": return True if v[1] is not None and v[1] >= 0 else None
        return True if exact(v) == 0 else False if v[1] is not None and v[1] > 0 else None

def plain(a): return a[0] in ("arg", "load", "call", "ssa", "iv", "heap", "udiv", "lshr", "urem")
def where(i):
    if i is None: return ""
    ds = i.d.get("dbg") or []
    for f, l, n in ds:
        if ir.isrepo(f): return "%s in %s" % (ir.short(f), n)
    return i.loc()
