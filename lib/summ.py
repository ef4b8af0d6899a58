"""Loop-nest effect summaries of IR functions, in a polynomial normal form.

Every store / call of a function becomes an effect: the loop nest it runs in (iteration counts), the guards it
is under, the address and the value, all as polynomials over atoms (arguments, loads, iteration variables ...).
`p += e` inside loops, accumulation through a scalar, pointer bumping, hoisting, fission/fusion of loops, helper
functions (inlined beforehand) all give the same normal form.
"""
from fractions import Fraction
import ir

class Unresolved(Exception): pass

# ---------------------------------------------------------------- polynomials
# Poly: frozenset-able dict  monomial(tuple of sorted atoms) -> coefficient
class Poly:
    __slots__ = ("m", "_h", "_k")
    def __init__(s, m=None):
        s.m = {k: v for k, v in (m or {}).items() if v != 0}; s._h = None; s._k = None
    @staticmethod
    def const(c): return Poly({(): c})
    @staticmethod
    def atom(a): return Poly({(a,): 1})
    def __add__(a, b):
        r = dict(a.m)
        for k, v in b.m.items(): r[k] = r.get(k, 0) + v
        return Poly(r)
    def __neg__(a): return Poly({k: -v for k, v in a.m.items()})
    def __sub__(a, b): return a + (-b)
    def __mul__(a, b):
        r = {}
        for k, v in a.m.items():
            for k2, v2 in b.m.items():
                kk = tuple(sorted(k + k2, key=akey)); r[kk] = r.get(kk, 0) + v * v2
        return Poly(r)
    def isconst(s): return all(k == () for k in s.m)
    def cval(s): return s.m.get((), 0)
    def key(s):
        if s._k is None:
            s._k = tuple(sorted(((tuple(akey(a) for a in k), v) for k, v in s.m.items())))
        return s._k
    def __eq__(a, b): return isinstance(b, Poly) and a.m == b.m
    def __hash__(s):
        if s._h is None: s._h = hash(frozenset(s.m.items()))
        return s._h
    def atoms(s):
        for k in s.m:
            for a in k: yield a
    def __repr__(s): return show(s)

ZERO = Poly(); ONE = Poly.const(1)

_ak = {}
def akey(a):
    r = _ak.get(a)
    if r is None:
        r = repr_atom(a); _ak[a] = r
    return r

def show(p):
    if not isinstance(p, Poly): return repr(p)
    if not p.m: return "0"
    out = []
    for k, v in sorted(p.m.items(), key=lambda kv: tuple(akey(a) for a in kv[0])):
        t = "*".join(akey(a) for a in k)
        if not t: out.append(str(v))
        elif v == 1: out.append(t)
        else: out.append("%s*%s" % (v, t))
    return " + ".join(out)

def repr_atom(a):
    k = a[0]
    if k == "arg": return a[2] if len(a) > 2 else "arg%d" % a[1]
    if k == "load": return "[%s]%s" % (show(a[2]), ":" + a[1])
    if k == "iv": return "i%s" % (a[1],)
    if k == "sum": return "SUM(%s<%s: %s)" % (a[1], show(a[2]), show(a[3]))
    return k + "(" + ",".join(show(x) if isinstance(x, Poly) else str(x) for x in a[1:]) + ")"

def subst_atom(p, f):
    """rebuild p with f(atom) -> Poly or None (None: recurse into the atom)"""
    out = ZERO
    for k, v in p.m.items():
        t = Poly.const(v)
        for a in k:
            r = f(a)
            if r is None: r = simp(map_atom(a, f))
            t = t * r
        out = out + t
    return out

def simp(a):
    if a[0] == "select":
        if a[2] == a[3]: return a[2]
        if a[1].isconst(): return a[2] if a[1].cval() else a[3]
    if a[0] in ("eq", "ne", "lt", "le") and len(a) == 3 and isinstance(a[1], Poly) and (a[1] == a[2] and not isfloat(a[1]) or a[1].isconst() and a[2].isconst()):
        x, y = (0, 0) if a[1] == a[2] else (a[1].cval(), a[2].cval())
        return ONE if {"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y}[a[0]] else ZERO
    return Poly.atom(a)
def isfloat(p): return any(a[0] == "load" and a[1] in ("float", "double") or a[0].startswith("f") and a[0] in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fpext", "fptrunc") for a in p.atoms())
def map_atom(a, f):
    return tuple(subst_atom(x, f) if isinstance(x, Poly) else (tuple(subst_atom(y, f) if isinstance(y, Poly) else y for y in x) if isinstance(x, tuple) else x) for x in a)

def contains(p, pred):
    for a in p.atoms():
        if pred(a): return True
        for x in a:
            if isinstance(x, Poly) and contains(x, pred): return True
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly) and contains(y, pred): return True
    return False

# canonicalising constructors
def udiv(a, b):
    if b.isconst() and b.cval() == 1: return a
    if a.isconst() and b.isconst() and b.cval(): return Poly.const(a.cval() // b.cval())
    return Poly.atom(("udiv", a, b))
def urem(a, b): return a - b * udiv(a, b)
def umax(ps):
    ps = sorted(set(ps), key=lambda p: p.key())
    if len(ps) == 1: return ps[0]
    return Poly.atom(("max",) + tuple(ps))
def umin(ps):
    ps = sorted(set(ps), key=lambda p: p.key())
    if len(ps) == 1: return ps[0]
    return Poly.atom(("min",) + tuple(ps))

def recs(sc):
    """loops whose iteration a scalar evolution refers to"""
    out = set()
    if isinstance(sc, (list, tuple)) and sc:
        if sc[0] == "rec": out.add(sc[1])
        for x in sc[1:]:
            if isinstance(x, (list, tuple)) and sc[0] != "u": out |= recs(x)
    return out
def clean_count(c):
    """max(a,b) - a  ->  b - a   (the iteration count of `for (k=a; k<b; k++)`); max(n,1) -> n"""
    for a in list(c.atoms()):
        if a[0] == "max" and len(a) == 3 and c.m.get((a,)) == 1:
            rest = c - Poly.atom(a)
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                # find x subtracted in rest
                if (rest + x).m == {k: v for k, v in (rest + x).m.items() if k not in x.m} or not (set(x.m) & set((rest + x).m)):
                    if set(x.m) & set(rest.m) or x.isconst():
                        if x.isconst() and x.cval() != 0 and not ((rest + x).cval() == 0): continue
                        return y + rest
    return c

NEGPRED = {"eq": "ne", "ne": "eq"}
for _s in "su": NEGPRED.update({_s + "lt": _s + "ge", _s + "ge": _s + "lt", _s + "gt": _s + "le", _s + "le": _s + "gt"})
FLOATT = ("float", "double", "half", "x86_fp80", "fp128")

def autonames(fn):
    """argument names; '#' marks integers and '?' truth values for the interpretation"""
    return {n: ("" if t == "ptr" else "?" if t == "i1" else "#") + "arg%d" % n for n, t in enumerate(a["t"] for a in fn.args)}

def representable(p):
    """the size of a new[] expression whose computation does not overflow"""
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if v == 1 and len(k) == 1 and k[0][0] == "select":
            for a, b in ((k[0][2], k[0][3]), (k[0][3], k[0][2])):
                if a.isconst() and a.cval() in (-1, (1 << 64) - 1): return b
    return p
class Summary:
    """effects of one function"""
    def __init__(s, fn, argnames=None, forward=True):
        s.fn = fn; s.memo = {}; s.argnames = dict(autonames(fn)); s.argnames.update(argnames or {}); s.inprog = set()
        s.forward = forward; s.unres = []
        s.stores = [i for i in fn.insts() if i.op == "store"]
        s._st = None
        s.counts = {}
        s.mudefs = {}        # (loop, phi) -> (init, next)   recurrences outside the closed forms
        s._exitc = {}; s._fv = {}; s._at = None; s._counting = set()
        s.pre = set()        # loads known to see what was there before the function's own stores
    # ---- loops
    def count(s, l):
        """back-edge taken count of loop l as Poly (cleaned)"""
        if l in s._counting: return None
        if l not in s.counts:
            lp = s.fn.loops[l]; c = None
            s._counting.add(l)
            try:
                if not recs(lp.btc) <= set(s.fn.loop_nest(lp.header)): raise Unresolved("count in terms of another loop")
                c = clean_count(s.scev(lp.btc))
            except Unresolved as u:
                if str(u).startswith("cyclic") and len(s._counting) > 1: s._counting.discard(l); raise
            try:
                if c is None and len(lp.exits) == 1: c = s._struct_count(lp)
            finally: s._counting.discard(l)
            s.counts[l] = c
        return s.counts[l]
    def _struct_count(s, lp):
        """exit test  p != e / p < e  with p a recognised recurrence"""
        b = s.fn.blocks[lp.exits[0]["b"]]; t = b.insts[-1]
        if t.op != "br" or len(t.ops) != 3 or t.ops[0][0] != "i": return None
        c = s.fn.inst[t.ops[0][1]]
        if c.op != "icmp": return None
        try: x, y = s.val(c.ops[0]), s.val(c.ops[1])
        except Unresolved: return None
        iv = ("iv", "L%d" % lp.id)
        dx, dy = coeff(x, iv), coeff(y, iv)
        if dx is None or dy is None: return None
        d = y - x if dx.m else x - y
        st = dx if dx.m else dy
        if (dx.m and dy.m): return None
        if st.isconst() and st.cval() != 0:
            r = subst_atom(d, lambda a: ZERO if a == iv else None)
            k = st.cval()
            pr = c.d["pred"]
            if t.ops[2][1] not in lp.blocks: pr = NEGPRED[pr]
            if pr == "eq": return None
            if pr[1:] in ("le", "ge"):
                if abs(k) != 1: return None
                r = r + Poly.const(k)
            if all(v % k == 0 for v in r.m.values()): return Poly({m: v // k for m, v in r.m.items()})
        return None
    def exec_count(s, l, bid):
        """how often block bid (inside loop l) runs per execution of the loop, guards aside"""
        lp = s.fn.loops[l]
        if len(lp.exits) != 1:
            es = [x["b"] for x in lp.exits]
            if all(s.fn.dominates(e, bid) and e != bid for e in es): return Poly.atom(("while", "L%d" % l, s.exit_cond(l), 0))
            if all(e == bid or not s.fn.dominates(e, bid) for e in es) and all(s.fn.dominates(bid, e) for e in es):
                return Poly.atom(("while", "L%d" % l, s.exit_cond(l), 1))
            raise Unresolved("several exits of loop at %s" % s.looploc(l))
        e = lp.exits[0]["b"]
        c = s.count(l)
        if c is None:
            after = e == bid or not s.fn.dominates(e, bid)
            return Poly.atom(("while", "L%d" % l, s.exit_cond(l), int(after)))
        if e != bid and s.fn.dominates(e, bid): return c
        return c + ONE
    def exit_cond(s, l):
        """condition under which a data-dependent loop is left"""
        if l not in s._exitc:
            lp = s.fn.loops[l]; out = None
            s._exitc[l] = Unresolved("recursive loop exit at %s" % s.looploc(l))
            es = sorted((e["b"] for e in lp.exits), key=lambda b: len([x for x in lp.exits if s.fn.dominates(x["b"], b)]))
            if any(not s.fn.dominates(x, y) for x, y in zip(es, es[1:])): raise Unresolved("loop exits at %s" % s.looploc(l))
            for e in es:
                t = s.fn.blocks[e].insts[-1]
                if t.op != "br" or len(t.ops) != 3: raise Unresolved("loop exit at %s" % s.looploc(l))
                fb, tb = t.ops[1][1], t.ops[2][1]
                try: v = s.val(t.ops[0])
                except Unresolved as u:
                    if str(u).startswith("cyclic"): del s._exitc[l]
                    else: s._exitc[l] = u
                    raise
                v = v if tb not in lp.blocks else negate(v)
                out = v if out is None else mkselect(out, ONE, v)
            s._exitc[l] = out
        if isinstance(s._exitc[l], Unresolved): raise s._exitc[l]
        return s._exitc[l]
    def fv(s, p):
        """loops on whose current iteration p depends"""
        r = s._fv.get(p)
        if r is None:
            r = frozenset()
            for a in p.atoms(): r |= s.fva(a)
            s._fv[p] = r
        return r
    def fva(s, a):
        k = a[0]
        if k == "iv": return frozenset([a[1]])
        r = frozenset()
        for x in a[1:]:
            if isinstance(x, Poly): r |= s.fv(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, Poly): r |= s.fv(y)
        if k == "sum": r -= {a[1]}
        elif k == "acc": r |= {"L%d" % a[1]}
        elif k == "mu": r |= {a[1]} | {"L%d" % o for o in s.fn.loop_nest(s.fn.loops[int(a[1][1:])].header)}
        elif k == "exit":
            r -= {a[1]}; n = s.fn.loop_nest(s.fn.loops[int(a[1][1:])].header)[:-1]
            r |= {"L%d" % o for o in n}
        return r
    def looploc(s, l):
        return s.fn.blocks[s.fn.loops[l].header].insts[-1].inrepo()
    # ---- values
    def val(s, r):
        k = r[0]
        if k == "c":
            if r[2] == 1: return Poly.const(abs(int(r[1])))
            return Poly.const(int(r[1]))
        if k == "f":
            f = Fraction(r[1]) if r[1] not in ("NaN", "inf", "+Inf", "-Inf") else None
            return Poly.const(f) if f is not None else Poly.atom(("fk", r[1]))
        if k == "null": return ZERO
        if k == "zero": return ZERO
        if k == "a": return Poly.atom(("arg", r[1], s.argnames.get(r[1], "arg%d" % r[1])))
        if k == "g": return Poly.atom(s.gatom(r[1]))
        if k == "fn": return Poly.atom(("fn", r[1]))
        if k == "undef": return Poly.atom(("undef",))
        if k == "ce":
            if r[1] == "getelementptr" and len(r) > 3: return s.val(r[2][0]) + Poly.const(r[3])
            if r[1] in ("bitcast", "addrspacecast", "inttoptr", "ptrtoint"): return s.val(r[2][0])
            return Poly.atom(("ce", repr(r)))
        if k == "k": return Poly.atom(("k", r[1]))
        if k == "i": return s.inst(s.fn.inst[r[1]])
        return Poly.atom(("?", repr(r)))
    def gatom(s, name):
        g = s.fn.mod.globals.get(name, {})
        if "str" in g: return ("str", g["str"])
        return ("g", name)
    def scev(s, e):
        if e is None: raise Unresolved("no scev")
        k = e[0]
        if k == "c": return Poly.const(int(e[1]))
        if k == "u":
            at, s._at = s._at, None
            try: r = s.val(e[1])
            finally: s._at = at
            if at is not None and e[1][0] == "i":     # a value of a loop that has ended
                outer = s.fn.loop_nest(at); inner = s.fn.loop_nest(s.fn.inst[e[1][1]].bb.id)
                for l in reversed([l for l in inner if l not in outer]): r = s.at_exit(r, l)
            return r
        if k in ("zext", "sext") and len(e) > 3 and e[3] == 1 and e[1] and e[1][0] != "u": raise Unresolved("arithmetic on truth values")
        if k in ("zext", "sext", "p2i"): return s.scev(e[1])
        if k == "trunc": return trunc(s.scev(e[1]), e[2])
        if k == "add":
            r = ZERO
            for x in e[1:]: r = r + s.scev(x)
            return r
        if k == "mul":
            r = ONE
            for x in e[1:]: r = r * s.scev(x)
            return r
        if k == "udiv": return udiv(s.scev(e[1]), s.scev(e[2]))
        if k in ("umax", "smax"): return umax([s.scev(x) for x in e[1:]])
        if k in ("umin", "smin"): return umin([s.scev(x) for x in e[1:]])
        if k == "rec":
            if len(e) != 4: raise Unresolved("recurrence of order >1")
            return s.scev(e[2]) + s.scev(e[3]) * Poly.atom(("iv", "L%d" % e[1]))
        raise Unresolved("scev")
    def inst(s, i):
        if i.id in s.memo:
            r = s.memo[i.id]
            if isinstance(r, Unresolved): raise r
            return r
        if i.id in s.inprog: raise Unresolved("cyclic value at %s" % i.inrepo())
        s.inprog.add(i.id)
        try: r = s._inst(i)
        except Unresolved as u:
            if not str(u).startswith("cyclic"): s.memo[i.id] = u
            raise
        finally: s.inprog.discard(i.id)
        s.memo[i.id] = r
        return r
    def _inst(s, i):
        op = i.op; o = i.ops
        sc = i.d.get("scev") if i.t != "i1" else None
        if sc and not (sc[0] == "u" and sc[1] == ["i", i.id]) and sc[0] != "cnc":
            if op == "phi" and s.is_lcssa(i): return s.lcssa(i)
            if recs(sc) <= set(s.fn.loop_nest(i.bb.id)):
                old = s._at; s._at = i.bb.id
                try: return s.scev(sc)
                except Unresolved:
                    pass
                finally: s._at = old
        if op == "load": return s.load(i)
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze", "fpext"):
            if op == "zext" and i.fn and o[0][0] == "i" and s.fn.inst[o[0][1]].t == "i1":
                return s.val(o[0])
            return s.val(o[0])
        if op == "trunc": return trunc(s.val(o[0]), int(i.t[1:]))
        if op == "fptrunc":
            v = s.val(o[0])
            if not contains(v, lambda a: a[0] in ("load", "call") and a[1] == "double"): return v
            return Poly.atom(("fptrunc", i.t, v))
        if op in ("sitofp", "uitofp", "fptosi", "fptoui"): return Poly.atom((op, i.t, s.val(o[0])))
        if op in ("add", "fadd"): return s.val(o[0]) + s.val(o[1])
        if op in ("sub", "fsub"): return s.val(o[0]) - s.val(o[1])
        if op in ("mul", "fmul"): return s.val(o[0]) * s.val(o[1])
        if op == "fneg": return -s.val(o[0])
        if op == "fdiv":
            a, b = s.val(o[0]), s.val(o[1])
            return a * Poly.atom(("inv", b))
        if op in ("udiv", "sdiv"): return udiv(s.val(o[0]), s.val(o[1]))
        if op in ("urem", "srem"): return urem(s.val(o[0]), s.val(o[1]))
        if op == "shl" and o[1][0] == "c": return s.val(o[0]) * Poly.const(1 << int(o[1][1]))
        if op in ("lshr", "ashr") and o[1][0] == "c": return udiv(s.val(o[0]), Poly.const(1 << int(o[1][1])))
        if op == "and":
            if o[1][0] == "c":
                m = int(o[1][1])
                if m > 0 and (m & (m + 1)) == 0: return urem(s.val(o[0]), Poly.const(m + 1))
            return comm("and", s.val(o[0]), s.val(o[1]))
        if op in ("or", "xor"): return comm(op, s.val(o[0]), s.val(o[1]))
        if op == "getelementptr":
            if "goff" not in i.d: raise Unresolved("gep")
            r = s.val(o[0]) + Poly.const(i.d["goff"])
            for v, sc in i.d["gvar"]: r = r + s.val(v) * Poly.const(sc)
            return r
        if op in ("icmp", "fcmp"): return cmp_atom(i.d["pred"], s.val(o[0]), s.val(o[1]))
        if op == "select": return s.select(i)
        if op == "phi": return s.phi(i)
        if op in ("call", "invoke"): return s.call_value(i)
        if op == "extractvalue":
            a = s.fn.inst[o[0][1]] if o[0][0] == "i" else None
            if a is not None and a.op == "call" and (a.callee or "").startswith("llvm.umul.with.overflow"):
                if i.d["idx"] == [0]: return s.val(a.ops[0]) * s.val(a.ops[1])
                return Poly.atom(("overflow",))
            return Poly.atom(("extract", tuple(i.d["idx"]), s.val(o[0])))
        if op == "alloca": return Poly.atom(("alloca", i.id, i.d.get("size", 0)))
        raise Unresolved("%s at %s" % (op, i.inrepo()))
    def select(s, i):
        c, a, b = i.ops
        cv = s.val(c)
        if contains(cv, lambda x: x[0] == "overflow"): 
            return s.val(b)
        av, bv = s.val(a), s.val(b)
        if av == bv: return av
        if cv.isconst(): return av if cv.cval() else bv
        return mkselect(cv, av, bv)
    def call_value(s, i):
        n = i.cname() or "indirect"
        c = i.callee or ""
        if c.startswith("llvm.fmuladd") or c.startswith("llvm.fma"):
            return s.val(i.ops[0]) * s.val(i.ops[1]) + s.val(i.ops[2])
        if c.startswith("llvm.umax") or c.startswith("llvm.smax"): return umax([s.val(i.ops[0]), s.val(i.ops[1])])
        if c.startswith("llvm.umin") or c.startswith("llvm.smin"): return umin([s.val(i.ops[0]), s.val(i.ops[1])])
        if c.startswith("llvm.expect"): return s.val(i.ops[0])
        if c.startswith("llvm.launder") or c.startswith("llvm.strip"): return s.val(i.ops[0])
        if c.startswith("gsb.uninit."): return Poly.atom(("uninit", c[11:], str(i.inrepo())))
        if n in HEAP: return Poly.atom(("heap", i.id, s.close(heap_size(s, i), s.fn.loop_nest(i.bb.id))) + s.ivs(i))
        if n in PURE: return Poly.atom(("pure", n) + tuple(s.val(a) for a in i.ops))
        if n == "indirect":
            return Poly.atom(("call", i.t, "indirect", i.id, s.val(i.d["ind"])) + tuple(s.val(a) for a in i.ops) + s.ivs(i))
        return Poly.atom(("call", i.t, s.rename(i, n), i.id) + tuple(s.val(a) for a in i.ops) + s.ivs(i))
    def ivs(s, i): return tuple(Poly.atom(("iv", "L%d" % l)) for l in s.fn.loop_nest(i.bb.id))
    def rename(s, i, n):
        """a self-recursive helper has no meaningful name"""
        f = s.fn.mod.functions.get(i.callee or "")
        if f is not None and not f.decl and f.selfrec(): return "REC"
        return n
    # ---- memory
    def storemap(s):
        if s._st is None:
            s._st = {}
            for st in s.stores:
                try: a = s.val(st.ops[1])
                except Unresolved: continue
                s._st.setdefault(a, []).append(st)
        return s._st
    def load(s, i):
        a = s.val(i.ops[0])
        if s.forward:
            if not contains(a, lambda x: x[0] == "iv"):
                sm = [st for st in s.stores if s._maybe_same(st, a)]
                if len(sm) == 1 and not s.marks(sm[0]) and s.fn.inst_dom(sm[0], i) and not s.fn.loop_nest(sm[0].bb.id):
                    try: return s.val(sm[0].ops[0])
                    except Unresolved as u:
                        if str(u).startswith("cyclic"): raise
        return Poly.atom(("load", i.t, a))
    def marks(s, st):
        """a store that only names the contents a variable begins with"""
        r = st.ops[0]
        return r[0] == "i" and (s.fn.inst[r[1]].callee or "").startswith("gsb.uninit.")
    def _maybe_same(s, st, a):
        k = ("sa", st.id)
        if k not in s.memo:
            s.memo[k] = None
            try: s.memo[k] = s.val(st.ops[1])
            except Unresolved as u:
                s.memo[k] = None
                if str(u).startswith("cyclic"): del s.memo[k]; return False
        return s.memo[k] == a
    # ---- phis
    def is_lcssa(s, i):
        inc = i.d["inc"]
        l = s.fn.loopof.get(i.bb.id, -1)
        if l != -1 and s.fn.loops[l].header == i.bb.id: return False
        return len(inc) == 1 or all(v == inc[0][1] for _, v in inc)
    def lcssa(s, i):
        pb, v = i.d["inc"][0]
        if v[0] != "i": return s.val(v)
        r = s.val(v)
        src = s.fn.inst[v[1]]
        inner = s.fn.loop_nest(src.bb.id); outer = s.fn.loop_nest(i.bb.id)
        for l in reversed(inner[len(outer):] if inner[:len(outer)] == outer else []):
            r = s.at_exit(r, l)
        return r
    def at_exit(s, p, l):
        iv = ("iv", "L%d" % l); lab = "L%d" % l
        if lab not in s.fv(p): return p
        c = s.count(l)
        if c is None or contains(p, lambda a: a[0] == "mu" and a[1] == lab):
            if c is None: s.exit_cond(l)
            out = ZERO
            for k, v in p.m.items():
                inv = tuple(a for a in k if lab not in s.fva(a)); var = tuple(a for a in k if lab in s.fva(a))
                m = Poly({inv: v})
                if var: m = m * Poly.atom(("exit", lab, Poly({var: 1})))
                out = out + m
            return out
        # accumulations
        accs = [a for a in p.atoms() if a[0] == "acc" and a[1] == l]
        out = p
        for a in accs:
            f = p.m.get((a,))
            if f is None: raise Unresolved("nonlinear use of accumulator")
            f = Poly.const(f)
            rest = out - f * Poly.atom(a)
            e = a[3]; fe = f * e
            n = c
            if e.m and not (rest - fe).m: rest = ZERO; n = c + ONE
            elif e.m and all(k in rest.m and rest.m[k] == v for k, v in fe.m.items()): rest = rest - fe; n = c + ONE
            out = rest + f * (a[2] + Poly.atom(("sum", "L%d" % l, n, e)))
        return subst_atom(out, lambda a: c if a == iv else (Poly.atom(a) if a[0] == "sum" and a[1] == "L%d" % l else None))
    def phi(s, i):
        l = s.fn.loopof.get(i.bb.id, -1)
        if l != -1 and s.fn.loops[l].header == i.bb.id: return s.header_phi(i, l)
        inc = i.d["inc"]
        if s.is_lcssa(i): return s.lcssa(i)
        vals = [s.val(v) for _, v in inc]
        if all(v == vals[0] for v in vals): return vals[0]
        # two-way if
        return s.phi_select(i)
    def phi_select(s, i):
        """gated value of a join: nested selects over the branches between it and its dominator"""
        inc = {b: v for b, v in i.d["inc"]}; nest = set(s.fn.loop_nest(i.bb.id)); fuel = [200]
        def go(cur, prev):
            fuel[0] -= 1
            if fuel[0] < 0: raise Unresolved("join at %s" % i.inrepo())
            if cur == i.bb.id: return s.val(inc[prev])
            l = s.fn.loopof.get(cur, -1)
            if l != -1 and l not in nest:
                while s.fn.loops[l].parent != -1 and s.fn.loops[l].parent not in nest: l = s.fn.loops[l].parent
                ex = s.fn.loops[l].exits
                if len(ex) != 1: raise Unresolved("join at %s" % i.inrepo())
                e = ex[0]["b"]; out = [x for x in s.fn.blocks[e].succ if x not in s.fn.loops[l].blocks]
                return go(out[0], e)
            t = s.fn.blocks[cur].insts[-1]
            if t.op == "br" and len(t.ops) == 1: return go(s.fn.blocks[cur].succ[0], cur)
            if t.op == "br":
                f, tr = go(t.ops[1][1], cur), go(t.ops[2][1], cur)
                if f is None or tr is None: return f if tr is None else tr
                if f == tr: return f
                return mkselect(s.val(t.ops[0]), tr, f)
            if t.op == "switch":
                r = go(t.d["default"], cur); v = s.val(t.ops[0])
                for c, b in t.d["cases"]:
                    x = go(b, cur)
                    if x is None: continue
                    r = x if r is None or r == x else mkselect(cmp_atom("eq", v, Poly.const(int(c))), x, r)
                return r
            if t.op == "unreachable": return None
            raise Unresolved("join at %s" % i.inrepo())
        d = s.fn.idom[i.bb.id]
        r = go(d, -1)
        if r is None: raise Unresolved("join at %s" % i.inrepo())
        return r
    def header_phi(s, i, l):
        if (l, i.id) in s.mudefs: return Poly.atom(("mu", "L%d" % l, i.id))
        snap = set(s.memo)
        try: r = s._header_phi(i, l)
        except Unresolved as u: r = None; why = u
        lab = "L%d" % l
        if r is not None and (contains(r, lambda a: a[0] == "mu" and a[1] == lab) or contains(r, lambda a: a[0] == "self")): r = None; why = "coupled"
        if r is not None: return r
        for k in list(s.memo):
            if k not in snap: del s.memo[k]
        me = Poly.atom(("mu", lab, i.id)); s.mudefs[(l, i.id)] = None; s.memo[i.id] = me
        inp = s.inprog; s.inprog = set(inp) - {i.id}
        lp = s.fn.loops[l]
        try:
            ini = [v for b, v in i.d["inc"] if b not in lp.blocks]; bk = [v for b, v in i.d["inc"] if b in lp.blocks]
            if len(set(map(repr, ini))) != 1 or len(set(map(repr, bk))) != 1: raise Unresolved("phi at %s" % i.inrepo())
            s.inprog = set()
            s.mudefs[(l, i.id)] = (s.val(ini[0]), s.val(bk[0]))
        except Unresolved as u:
            s.mudefs[(l, i.id)] = u
        finally: s.inprog = inp
        return me
    def _header_phi(s, i, l):
        lp = s.fn.loops[l]
        ini = [v for b, v in i.d["inc"] if b not in lp.blocks]; bk = [v for b, v in i.d["inc"] if b in lp.blocks]
        if len(set(map(repr, ini))) != 1 or len(set(map(repr, bk))) != 1: raise Unresolved("phi at %s" % i.inrepo())
        init = s.val(ini[0])
        # accumulation: back value = phi + e
        me = ("self", i.id)
        s.memo[i.id] = Poly.atom(me)
        snap = set(s.memo); inp = s.inprog; s.inprog = set()
        caches = (s._exitc, s.counts, s.mudefs, s._fv); snaps = [set(c) for c in caches]
        try: nxt = s.val(bk[0])
        finally:
            s.inprog = inp
            for c, sn in zip(caches, snaps):
                for k in list(c):
                    if k not in sn: del c[k]
            for k in list(s.memo):
                if k not in snap: del s.memo[k]
            del s.memo[i.id]
        iv = ("iv", "L%d" % l)
        if contains(nxt, lambda a: a[0] in ("exit", "mu")): raise Unresolved("recurrence through an inner loop at %s" % i.inrepo())
        if not contains(nxt, lambda a: a == me):
            # carried value: next(k) ; value(k) = next(k-1), value(0) = init
            prev = subst_atom(nxt, lambda a: Poly.atom(iv) - ONE if a == iv else None)
            at0 = subst_atom(prev, lambda a: ZERO if a == iv else None)
            if at0 == init: return prev
            if contains(nxt, lambda a: a[0] in ("merge", "acc", "self")): raise Unresolved("carried value at %s" % i.inrepo())
            return Poly.atom(("select", Poly.atom(("eq", ZERO, Poly.atom(iv))), init, prev))
        e = nxt - Poly.atom(me)
        if contains(e, lambda a: a == me):
            raise Unresolved("recurrence at %s" % i.inrepo())
        if not contains(e, lambda a: a == iv) and not contains(e, lambda a: a[0] in ("load", "acc", "merge", "call")):
            return init + e * Poly.atom(iv)
        return Poly.atom(("acc", l, init, e))
    # ---- guards
    def guards(s, bid):
        """[(cond Poly, polarity, loopset)] controlling block bid (loop-exit tests of enclosing loops excluded)"""
        out = []
        nest = set(s.fn.loop_nest(bid))
        cur = bid
        while cur != 0:
            d = s.fn.idom[cur]
            t = s.fn.blocks[d].insts[-1]
            if (t.op == "br" and len(t.ops) == 3) or t.op == "switch":
                dl = s.fn.loopof.get(d, -1)
                isexit = any(d == e["b"] for l in s.fn.loop_nest(d) for e in [x for x in s.fn.loops[l].exits])
                skip = False
                if isexit:
                    # exit test of a loop: iteration domain if the loop encloses bid; irrelevant if it was left normally
                    ls = [l for l in s.fn.loop_nest(d) if any(e["b"] == d for e in s.fn.loops[l].exits)]
                    skip = True
                    for l in ls:
                        if l not in nest:
                            # value after the loop: only if another exit exists does it matter
                            if len(s.fn.loops[l].exits) > 1: skip = False
                if not skip:
                    if t.op == "br":
                        fb, tb = t.ops[1][1], t.ops[2][1]
                        rt = bid in s.fn.reachable(tb, avoid=(d,)) if tb != d else False
                        rf = bid in s.fn.reachable(fb, avoid=(d,)) if fb != d else False
                        if rt != rf:
                            out.append((t.ops[0], rt, t))
                    else:
                        succ = {}
                        for v, b in t.d["cases"]: succ.setdefault(b, []).append(v)
                        hit = [b for b in set(s.fn.blocks[d].succ) if bid in s.fn.reachable(b, avoid=(d,))]
                        if len(hit) < len(set(s.fn.blocks[d].succ)):
                            cs = tuple(sorted(v for b in hit for v in succ.get(b, [])))
                            if t.d["default"] in hit:
                                allc = tuple(sorted(v for b, vs in succ.items() if b not in hit for v in vs))
                                out.append((t.ops[0], ("notin", allc), t))
                            else: out.append((t.ops[0], ("in", cs), t))
            cur = d
        return out[::-1]
    def guard_atoms(s, bid):
        res = []
        for c, pol, t in s.guards(bid):
            v = s.val(c)
            if isinstance(pol, tuple): res.append(("switch", v, pol))
            else: res += conj(v, pol)
        return res
    # ---- effects
    def effect(s, i):
        nest = s.fn.loop_nest(i.bb.id)
        loops = [("L%d" % l, s.exec_count(l, i.bb.id)) for l in nest]
        g = s.guard_atoms(i.bb.id)
        g = [s.close(x, nest) for x in g if not redundant(x, loops)]
        return loops, g
    def delta(s, i, a, v, ld):
        """second of two updates of one location in a block, computed from the value before the first"""
        la = next(iter(ld.atoms()))
        if v.m.get((la,)) != 1: return v
        v1 = None; fresh = False
        for j in i.bb.insts[:i.pos]:
            if j.op == "store":
                try:
                    if s.val(j.ops[1]) == a: v1 = s.val(j.ops[0]); fresh = False
                except Unresolved: pass
            elif j.op == "load" and v1 is not None:
                try:
                    if s.val(j.ops[0]) == a: fresh = True
                except Unresolved: pass
        if v1 is None or fresh or v1.m.get((la,)) != 1: return v
        return v - v1 + ld
    def close(s, p, nest):
        """values of loops that were left before the effect are replaced by their exit values"""
        if p is None: return None
        if not isinstance(p, Poly): return (p[0], s.close(p[1], nest)) + tuple(p[2:])
        todo = {int(x[1:]) for x in s.fv(p) if isinstance(x, str) and x[:1] == "L" and int(x[1:]) not in nest}
        for l in sorted(todo, key=lambda l: -s.fn.loops[l].depth): p = s.at_exit(p, l)
        return p
    def summarise(s, ignore=lambda i: False):
        """-> list of Effect (resolved) ; s.unres gets (inst, reason)"""
        out = []
        for i in s.fn.insts():
            if ignore(i): continue
            if i.op == "store":
                try:
                    loops, g = s.effect(i)
                    nest = s.fn.loop_nest(i.bb.id)
                    a = s.close(s.val(i.ops[1]), nest); v = s.close(s.val(i.ops[0]), nest)
                    kind = "set"
                    ld = Poly.atom(("load", i.d["vt"], a))
                    v = s.delta(i, a, v, ld)
                    # contribution?
                    la = [x for x in v.atoms() if x[0] == "load" and x[2] == a]
                    if la and v.m.get((la[0],)) == 1:
                        rest = v - Poly.atom(la[0])
                        if not contains(rest, lambda x: x == la[0]): kind = "add"; v = rest
                    out.append(Effect(kind, loops, g, a, v, i))
                except Unresolved as u: s.unres.append((i, str(u)))
            elif i.op in ("call", "invoke"):
                c = i.callee or ""
                n = i.cname() or "indirect"
                if i.d.get("intr") and not c.startswith(("llvm.mem",)): continue
                if n in PURE or n.startswith("std::__throw") or c.startswith("gsb.uninit."): continue
                try:
                    loops, g = s.effect(i)
                    if c.startswith("llvm.memset") or n == "memset":
                        out.append(Effect("memset", loops, g, s.val(i.ops[0]), s.val(i.ops[1]), i, extra=(representable(s.val(i.ops[2])),)))
                    elif c.startswith("llvm.memcpy") or c.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                        out.append(Effect("memcpy", loops, g, s.val(i.ops[0]), s.val(i.ops[1]), i, extra=(s.val(i.ops[2]),)))
                    elif n in HEAP:
                        nest = s.fn.loop_nest(i.bb.id); sz = s.close(representable(heap_size(s, i)), nest)
                        out.append(Effect("alloc", loops, g, s.inst(i), sz, i))
                        if n == "calloc": out.append(Effect("memset", loops, g, s.inst(i), ZERO, i, extra=(sz,)))
                    elif n in DEALLOC:
                        out.append(Effect("dealloc", loops, g, s.close(s.val(i.ops[0]), s.fn.loop_nest(i.bb.id)), None, i))
                    else:
                        args = tuple(s.close(s.val(a), s.fn.loop_nest(i.bb.id)) for a in i.ops)
                        tgt = Poly.atom(("fnname", s.rename(i, n))) if n != "indirect" else s.val(i.d["ind"])
                        out.append(Effect("call", loops, g, tgt, None, i, extra=args))
                except Unresolved as u: s.unres.append((i, str(u)))
            elif i.op == "ret" and i.ops:
                try:
                    loops, g = s.effect(i)
                    out.append(Effect("ret", loops, g, ZERO, s.close(s.val(i.ops[0]), s.fn.loop_nest(i.bb.id)), i))
                except Unresolved as u: s.unres.append((i, str(u)))
        return s.finalise(out)
    def finalise(s, effs):
        """names that do not depend on the program text: memory stored into a field is called by that field, other
        allocations, locals and call results by their order among equals"""
        order = s.fn.order()
        field = {}
        for e in effs:
            if e.kind == "set" and len(e.val.m) == 1:
                (k, v), = e.val.m.items()
                if len(k) == 1 and v == 1 and k[0][0] == "heap" and not contains(e.addr, lambda a: a[0] == "heap" and a[1] == k[0][1]):
                    field.setdefault(k[0][1], []).append((show(e.addr), e))
        prim = {}
        for h, l in field.items():
            # an address that needs no other allocation comes first
            l.sort(key=lambda x: ("alloca" in x[0], len(x[0]), x[0])); prim[h] = l[0][1]
        effs = [e for e in effs if e not in prim.values()]
        polys = [p for e in effs for p in [e.addr, e.val] + list(e.extra) + [c for _, c in e.loops] + [g if isinstance(g, Poly) else g[1] for g in e.guards] if p is not None]
        polys += [p for d in s.mudefs.values() if isinstance(d, tuple) for p in d] + [p for p in s._exitc.values() if isinstance(p, Poly)]
        ids = {}
        def walk(p):
            for a in p.atoms():
                if a[0] in ("call",): ids[a[3]] = a
                if a[0] in ("heap", "alloca"): ids[a[1]] = a
                for x in a[1:]:
                    if isinstance(x, Poly): walk(x)
        for p in polys: walk(p)
        for h in prim: walk(prim[h].addr)
        new = {}; cnt = {}; busy = set()
        def f(a):
            k = a[0]
            if k not in ("call", "heap", "alloca"): return None
            i = a[3] if k == "call" else a[1]
            if i in new: return new[i]
            if i in busy: return None
            busy.add(i)
            if k == "heap" and i in prim:
                r = Poly.atom(("load", "ptr", subst_atom(prim[i].addr, f)))
            else:
                b = map_atom(tuple(x for n, x in enumerate(a) if n != (3 if k == "call" else 1)), f)
                key = repr_atom(b); cnt.setdefault(key, {}); n = cnt[key].setdefault(i, len(cnt[key]))
                r = Poly.atom(b[:1] + (("#%d" % n),) + b[1:]) if k != "call" else Poly.atom(b[:3] + ("#%d" % n,) + b[3:])
            new[i] = r; busy.discard(i)
            return r
        for i in sorted(ids, key=lambda i: order.get(i, 0)): f(ids[i])
        m = s.ren = lambda p: subst_atom(p, f) if isinstance(p, Poly) else p
        for e in effs:
            e.summ = s
            e.addr = m(e.addr); e.val = m(e.val); e.extra = tuple(map(m, e.extra)); e.loops = [(l, m(c)) for l, c in e.loops]
            e.guards = [m(g) if isinstance(g, Poly) else (g[0], m(g[1])) + tuple(g[2:]) for g in e.guards]
        s.mudefs = {k: (m(d[0]), m(d[1])) if isinstance(d, tuple) else d for k, d in s.mudefs.items()}
        s._exitc = {k: m(c) for k, c in s._exitc.items()}; s.counts = {k: m(c) if isinstance(c, Poly) else c for k, c in s.counts.items()}
        effs = [e for e in effs if not any(g == ZERO for g in e.guards if isinstance(g, Poly))]
        for e in effs: e.guards = [g for g in e.guards if not (isinstance(g, Poly) and g == ONE)]
        ch = True
        while ch:      # the same effect on both sides of a branch
            ch = False
            for n, x in enumerate(effs):
                for y in effs[n + 1:]:
                    if (x.kind, x.addr, x.val, x.extra, x.loops) != (y.kind, y.addr, y.val, y.extra, y.loops): continue
                    gx = [g for g in x.guards if g not in y.guards]; gy = [g for g in y.guards if g not in x.guards]
                    if len(gx) == 1 and len(gy) == 1 and isinstance(gx[0], Poly) and negate(gx[0]) == gy[0] and x.kind != "call" and not (x.kind == "alloc" and contains(x.addr, lambda a: a[0] == "heap")):
                        x.guards = [g for g in x.guards if g != gx[0]]; effs.remove(y); ch = True; break
                if ch: break
        for e in effs: s.scan(e, effs)
        for e in effs: s.total(e, effs, m)
        s.carry(effs)
        s.digests()
        return effs
    def carry(s, effs):
        """a[k] read in a loop, where a[k] is stored exactly when k moves on: the last stored value, a recurrence"""
        order = s.fn.order()
        for (l, ph), d in sorted((k, d) for k, d in s.mudefs.items() if isinstance(d, tuple)):
            mu = ("mu", "L%d" % l, ph); M = Poly.atom(mu)
            if len(d[1].m) != 1: continue
            (k, v), = d[1].m.items()
            if v != 1 or len(k) != 1 or k[0][0] != "select": continue
            cond, a, b = k[0][1:]
            if b == M: new = a
            elif a == M: cond = negate(cond); new = b
            else: continue
            step = new - M
            if not step.isconst(): continue
            for e in effs:
                if e.kind != "set" or not e.loops or e.loops[-1][0] != "L%d" % l: continue
                c = coeff(e.addr, mu)
                if c is None or not c.m or not c.isconst(): continue
                if not all(isinstance(g, Poly) for g in e.guards) or set(g for g in e.guards if g in conj(cond, True)) != set(conj(cond, True)): continue
                ld = ("load", e.inst.d.get("vt"), e.addr - c * step)
                base = ptr_base(e.addr)
                if base is None or any(x is not e and x.kind in ("set", "add") and x.loops and ptr_base(x.addr) == base for x in effs): continue
                if s.occurs(("load", e.inst.d.get("vt"), e.addr), l) and not s.occurs(ld, l) and not contains(d[0], lambda a: a[0] == "mu"):
                    # the place is left behind when it is written: what is read there is what was there before
                    s.pre.add(("load", e.inst.d.get("vt"), e.addr)); continue
                first = subst_atom(ld[2], lambda x: d[0] if x == mu else None)
                ini = [x.val for x in effs if x.kind == "set" and x.addr == first and order[x.inst.id] < order[e.inst.id] and len(x.loops) == len(e.loops) - 1 and all(redundant(g, e.loops) for g in x.guards)]
                if not ini:
                    f0 = ("load", e.inst.d.get("vt"), first); s.pre.add(f0); ini = [Poly.atom(f0)]
                if len(ini) != 1: continue
                me = Poly.atom(("mu", "L%d" % l, ph + 100000))
                f = lambda x: me if x == ld else None
                m = lambda p: subst_atom(p, f) if isinstance(p, Poly) else p
                for x in effs:
                    x.addr = m(x.addr); x.val = m(x.val); x.extra = tuple(map(m, x.extra)); x.loops = [(q, m(n)) for q, n in x.loops]
                    x.guards = [m(g) if isinstance(g, Poly) else (g[0], m(g[1])) + tuple(g[2:]) for g in x.guards]
                s.mudefs = {q: (m(y[0]), m(y[1])) if isinstance(y, tuple) else y for q, y in s.mudefs.items()}
                s._exitc = {q: m(y) for q, y in s._exitc.items()}
                s.mudefs[(l, ph + 100000)] = (ini[0], mkselect(m(cond), m(e.val), me))
                break
    def zeroed(s, a, e, effs):
        order = s.fn.order()
        return any(z.kind == "memset" and z.val == ZERO and z.addr == a and not z.loops and not z.guards and order[z.inst.id] < order[e.inst.id] and z.extra[0] != ZERO for z in effs)
    def occurs(s, a, l):
        """atom a occurs in a recurrence of loop l"""
        h = lambda x: x == a
        return any(contains(p, h) for (k, _), d in s.mudefs.items() if k == l and isinstance(d, tuple) for p in d)
    def scan(s, e, effs=()):
        """running totals kept in memory:  p[i+1] = p[i] + d(i)  ->  p[i+1] = p[0] + sum_{k<=i} d(k)"""
        if not e.loops or e.kind not in ("set", "add"): return
        l = e.loops[-1][0]; iv = ("iv", l)
        st = coeff(e.addr, iv); order = s.fn.order()
        if st is None or not st.m or not st.isconst(): return
        prev = e.addr - st
        acc = [a for a in e.val.atoms() if a[0] == "acc" and "L%d" % a[1] == l]
        if len(acc) == 1 and e.val.m.get((acc[0],)) == 1:
            # a total carried in a scalar:  t += p[i]; p[i] = t
            own = Poly.atom(("load", e.inst.d.get("vt"), e.addr)); rest = e.val - Poly.atom(acc[0]) + (own if e.kind == "add" else ZERO)
            if rest == acc[0][3] and not contains(rest - own, lambda a: a[0] == "load" and a[2] in (e.addr, prev)):
                k = ("iv", "S" + l)
                e.kind = "set"; e.scanned = True
                first = subst_atom(prev, lambda a: ZERO if a == iv else None); base = acc[0][2]
                if base == ZERO and s.zeroed(first, e, effs): base = Poly.atom(("load", own_type(own), first)); s.pre.add(("load", own_type(own), first))
                e.val = base + Poly.atom(("sum", "S" + l, Poly.atom(iv) + ONE, subst_atom(rest, lambda a: Poly.atom(k) if a == iv else None)))
            return
        ld = [a for a in e.val.atoms() if a[0] == "load" and a[2] == prev]
        if len(ld) != 1 or e.val.m.get((ld[0],)) != 1: return
        rest = e.val - Poly.atom(ld[0])
        if contains(rest, lambda a: a == ld[0]): return
        if e.kind == "add": rest = rest + Poly.atom(("load", ld[0][1], e.addr))
        elif contains(rest, lambda a: a[0] == "load" and a[2] == e.addr): pass
        k = ("iv", "S" + l)
        e.kind = "set"; e.scanned = True
        first = subst_atom(prev, lambda a: ZERO if a == iv else None)
        base = Poly.atom(("load", ld[0][1], first))
        for o in s.stores:
            try:
                if s.val(o.ops[0]) == ZERO and s.zeroed(first, e, effs): continue
                if s.val(o.ops[1]) == first and not s.fn.loop_nest(o.bb.id) and s.fn.dominates(o.bb.id, e.inst.bb.id): base = s.val(o.ops[0])
            except Unresolved: pass
        if l not in s.fv(rest) and not contains(rest, lambda a: a[0] in ("load", "call")): e.val = base + (Poly.atom(iv) + ONE) * rest
        else: e.val = base + Poly.atom(("sum", "S" + l, Poly.atom(iv) + ONE, subst_atom(rest, lambda a: Poly.atom(k) if a == iv else None)))
    def total(s, e, effs, ren):
        """what is read at the two ends of a running total kept in memory"""
        if not e.scanned or e.kind != "set" or e.val is None: return
        l, n = e.loops[-1]; iv = ("iv", l); st = coeff(e.addr, iv); order = s.fn.order(); t = e.inst.d.get("vt")
        sm = [a for a in e.val.atoms() if a[0] == "sum" and a[1] == "S" + l]
        first = subst_atom(e.addr - st, lambda a: ZERO if a == iv else None)
        base = e.val - Poly.atom(sm[0]) if len(sm) == 1 else None
        if base == Poly.atom(("load", t, first)) or base is None and e.val.m.get((("load", t, first),)) == 1:
            z = [x for x in effs if x is not e and x.kind == "set" and x.addr == first and x.loops == e.loops[:-1] and all(g in e.guards or redundant(g, e.loops) for g in x.guards)]
            if len(z) == 1 and order[z[0].inst.id] < order[e.inst.id] and not any(x is not e and x is not z[0] and x.kind in ("set", "add") and ptr_base(x.addr) == ptr_base(first) and order[z[0].inst.id] < order[x.inst.id] < order[e.inst.id] for x in effs):
                base = z[0].val; e.val = e.val - Poly.atom(("load", t, first)) + base
        if len(sm) != 1: return
        last = ("load", t, first + st * n)
        for (k, ph), d in list(s.mudefs.items()):
            if not isinstance(d, tuple) or "L%d" % k not in [x for x, _ in e.loops[:-1]]: continue
            if not contains(d[1], lambda a: a == last): continue
            ok = True
            for i in s.fn.insts():
                if i.op != "load" or order[i.id] > order[e.inst.id]: continue
                try: ok &= ren(s.val(i.ops[0])) != last[2]
                except Unresolved: pass
            if not ok: continue
            body = subst_atom(sm[0][3], lambda a: Poly.atom(iv) if a == ("iv", "S" + l) else None)
            tot = base + Poly.atom(("sum", l, n, body))
            s.mudefs[(k, ph)] = (d[0], subst_atom(d[1], lambda a: tot if a == last else None))
            s.pre |= {a for a in body.atoms() if a[0] == "load"}
    def digests(s):
        dep = lambda l: len(s.fn.loop_nest(s.fn.loops[l].header))
        s.mudig = {k: "m%d" % dep(k[0]) for k in s.mudefs}; s.loopdig = {}
        import hashlib
        hh = lambda x: hashlib.md5(x.encode()).hexdigest()[:8]
        def f(a):
            if a[0] == "mu": return Poly.atom(("muc", s.mudig[(int(a[1][1:]), a[2])]))
            if a[0] == "iv" and a[1][:1] == "L": return Poly.atom(("iv", "d%d" % dep(int(a[1][1:]))))
            if a[0] == "exit": return Poly.atom(("exitc", ld(int(a[1][1:])), subst_atom(a[2], f)))
            return None
        def ld(l):
            if l in s.loopdig: return s.loopdig[l]
            s.loopdig[l] = "rec"
            c = s.counts.get(l)
            if c is None: c = s._exitc.get(l)
            r = hh(show(subst_atom(c, f))) if isinstance(c, Poly) else "?"
            s.loopdig[l] = r
            return r
        for _ in range(4):
            s.loopdig = {}
            s.mudig = {k: hh(show(subst_atom(d[0], f)) + "|" + show(subst_atom(d[1], f)) + "|%d" % dep(k[0])) if isinstance(d, tuple) else "unresolved" for k, d in s.mudefs.items()}
        s.loopdig = {}
        for l in range(len(s.fn.loops)): ld(l)

def own_type(p): return next(iter(p.atoms()))[1]
def ptr_base(p):
    """the pointer an address is computed from, if there is exactly one"""
    b = [a for k, v in p.m.items() if v == 1 and len(k) == 1 for a in k if (a[0] == "load" and a[1] == "ptr") or a[0] in ("heap", "alloca", "g") or (a[0] == "arg" and a[2][:1] not in "#?")]
    return b[0] if len(b) == 1 else None

DEALLOC = {"free", "operator delete", "operator delete[]"}
HEAP = {"malloc", "calloc", "aligned_alloc", "operator new", "operator new[]", "realloc"}
PURE = {"strlen", "omp_get_max_threads", "omp_get_num_threads", "omp_get_thread_num"}

def heap_size(s, i):
    n = i.cname()
    if n == "calloc": return s.val(i.ops[0]) * s.val(i.ops[1])
    if n == "aligned_alloc" or n == "realloc": return s.val(i.ops[1])
    return s.val(i.ops[0])

def trunc(p, bits):
    if bits >= 32: return p      # index arithmetic: assumed not to wrap (indices are in range)
    return Poly.atom(("trunc", bits, p))
def comm(op, a, b):
    a, b = sorted((a, b), key=lambda p: p.key())
    return Poly.atom((op, a, b))
def coeff(p, atom):
    """linear coefficient of atom in p, or None if it occurs non-linearly"""
    c = ZERO
    for k, v in p.m.items():
        n = k.count(atom)
        if n == 1:
            kk = list(k); kk.remove(atom)
            c = c + Poly({tuple(kk): v})
            if any(contains(Poly.atom(a), lambda x: x == atom) for a in kk): return None
        elif n > 1: return None
        elif any(contains(Poly.atom(a), lambda x: x == atom) for a in k): return None
    return c
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt",
       "oeq": "une", "une": "oeq", "olt": "uge_f", "ogt": "ule_f", "ole": "ugt_f", "oge": "ult_f"}
SWAP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne",
        "olt": "ogt", "ogt": "olt", "ole": "oge", "oge": "ole"}
def cmp_atom(pred, a, b):
    """normal forms: lt(a,b) / le(a,b) / eq / ne;  signedness dropped (index arithmetic)"""
    if pred in ("eq", "ne"):
        for x, y in ((a, b), (b, a)):
            if not x.m and len(y.m) == 1 and list(y.m.values()) == [1] and all(len(k) == 1 and k[0][0] == "heap" for k in y.m):
                return ZERO if pred == "eq" else ONE      # allocations assumed to succeed
    if a == b and pred in ("eq", "ne", "ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge") and not isfloat(a): return ONE if pred in ("eq", "ule", "uge", "sle", "sge") else ZERO
    if a.isconst() and b.isconst() and not pred.startswith(("o", "u_")) and pred not in ("une", "uno", "ord"):
        x, y = a.cval(), b.cval()
        p = pred.lstrip("us") if pred not in ("une",) else pred
        return Poly.const(int({"eq": x == y, "ne": x != y, "lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y}[p if p in ("eq", "ne", "lt", "gt", "le", "ge") else "eq"]))
    if pred in ("ult", "slt", "olt"): return Poly.atom(("lt", a, b))
    if pred in ("ugt", "sgt", "ogt"): return Poly.atom(("lt", b, a))
    if pred in ("ule", "sle", "ole"): return Poly.atom(("le", a, b))
    if pred in ("uge", "sge", "oge"): return Poly.atom(("le", b, a))
    if pred in ("eq", "oeq"):
        a, b = sorted((a, b), key=lambda p: p.key()); return Poly.atom(("eq", a, b))
    if pred in ("ne", "une"):
        a, b = sorted((a, b), key=lambda p: p.key()); return Poly.atom(("ne", a, b))
    return Poly.atom(("cmp", pred, a, b))
def negate(p):
    ats = list(p.atoms())
    if p.m == {(): 1}: return ZERO
    if p.m == {}: return ONE
    if len(p.m) == 1 and len(ats) == 1 and p.m[(ats[0],)] == 1:
        a = ats[0]
        if a[0] == "lt": return Poly.atom(("le", a[2], a[1]))
        if a[0] == "le": return Poly.atom(("lt", a[2], a[1]))
        if a[0] == "eq": return Poly.atom(("ne", a[1], a[2]))
        if a[0] == "ne": return Poly.atom(("eq", a[1], a[2]))
        if a[0] == "not": return a[1]
    if p.m.get((), 0) == 1 and len(p.m) == 2: 
        q = ONE - p
        if len(q.m) == 1: return q
    return Poly.atom(("not", p))
def mkselect(c, a, b):
    ats = list(c.atoms())
    if len(c.m) == 1 and len(ats) == 1 and c.m.get((ats[0],)) == 1:
        x = ats[0]
        if x[0] in ("le", "ne", "not"): c, a, b = negate(c), b, a; x = list(c.atoms())[0]
        if x[0] == "lt":
            if x[1] == a and x[2] == b: return umin([a, b])
            if x[1] == b and x[2] == a: return umax([a, b])
    return Poly.atom(("select", c, a, b))
def conj(v, pol):
    """guard as a list of conjuncts (Poly that must be true)"""
    ats = list(v.atoms())
    if len(v.m) == 1 and len(ats) == 1 and v.m.get((ats[0],)) == 1:
        a = ats[0]
        if a[0] == "select" :
            # logical and: select(c, x, false); logical or: select(c, true, x)
            if pol and a[3] == ZERO: return conj(a[1], True) + conj(a[2], True)
            if not pol and a[2] == ONE: return conj(a[1], False) + conj(a[3], False)
            if pol and a[2] == ZERO: return conj(a[1], False) + conj(a[3], True)
            if not pol and a[3] == ONE: return conj(a[1], True) + conj(a[2], False)
        if a[0] == "and" and pol: return conj(a[1], True) + conj(a[2], True)
        if a[0] == "or" and not pol: return conj(a[1], False) + conj(a[2], False)
    return [v if pol else negate(v)]
def redundant(g, loops):
    """guard implied by a loop of the nest having at least one iteration"""
    if not isinstance(g, Poly): return False
    if g == ONE: return True
    ats = list(g.atoms())
    if len(g.m) != 1 or len(ats) != 1: return False
    a = ats[0]
    if a[0] not in ("lt", "ne", "le"): return False
    d = a[2] - a[1]
    for _, c in loops:
        if a[0] == "lt" and d == c: return True
        if a[0] == "le" and (d == c or d + ONE == c): return True
        if a[0] == "ne" and (d == c or -d == c): return True
        # multiples (pointer comparisons)
        for k in (2, 4, 8, 12, 16):
            kc = c * Poly.const(k)
            if a[0] in ("lt", "ne") and (d == kc or (a[0] == "ne" and -d == kc)): return True
    return False

class Effect:
    def __init__(s, kind, loops, guards, addr, val, inst, extra=()):
        s.kind = kind; s.loops = loops; s.guards = guards; s.addr = addr; s.val = val; s.inst = inst; s.extra = extra; s.summ = None; s.scanned = False
        s._flatten()
    def _flatten(s):
        """`a += sum_L e` -> nest + L, `a += e`"""
        ch = True
        s.parts = None
        while ch:
            ch = False
            if s.kind == "add" and s.val is not None and len(s.val.m) == 1:
                (k, v), = s.val.m.items()
                if len(k) == 1 and k[0][0] == "sum":
                    a = k[0]; s.loops = s.loops + [(a[1], a[2])]; s.val = a[3] * Poly.const(v); ch = True
                    s.guards = [g for g in s.guards if not redundant(g, s.loops)]
    def canon(s, sub=None):
        """iteration variables renamed by nest position; negative steps reversed"""
        ren = {}
        for n, (l, c) in enumerate(s.loops): ren[("iv", l)] = ("iv", n + 1)
        cnt = [0]
        def f(a):
            if a in ren: return Poly.atom(ren[a])
            if a[0] == "mu" and s.summ: return Poly.atom(("muc", s.summ.mudig[(int(a[1][1:]), a[2])]))
            if a[0] == "exit" and s.summ:
                key = ("iv", a[1]); old = ren.get(key); ren[key] = ("iv", "x")
                e = subst_atom(a[2], f)
                if old is None: del ren[key]
                else: ren[key] = old
                return Poly.atom(("exitc", s.summ.loopdig[int(a[1][1:])], e))
            if a[0] == "while" and s.summ: return Poly.atom(("whilec", s.summ.loopdig[int(a[1][1:])], a[3]))
            if sub:
                r = sub(a)
                if r is not None: return subst_atom(r, f) if r.m != {(a,): 1} else None
            if a[0] == "sum":
                key = ("iv", a[1])
                old = ren.get(key); cnt[0] += 1
                ren[key] = ("iv", "s%d" % (len(s.loops) + cnt[0]))
                e = subst_atom(a[3], f); n = subst_atom(a[2], f)
                nm = ren[key][1]
                if old is None: del ren[key]
                else: ren[key] = old
                cnt[0] -= 1
                return Poly.atom(("sum", nm, n, e))
            return None
        m = lambda p: subst_atom(p, f) if isinstance(p, Poly) else p
        loops = tuple(m(c) for _, c in s.loops)
        addr = m(s.addr); val = m(s.val) if s.val is not None else None
        extra = tuple(m(x) for x in s.extra)
        guards = []
        for g in s.guards:
            if isinstance(g, Poly): guards.append(m(g))
            else: guards.append((g[0], m(g[1])) + tuple(g[2:]))
        # reverse loops whose iv occurs with a negative coefficient in the address / args
        for n in range(len(loops)):
            iv = ("iv", n + 1)
            ps = [addr] + [x for x in extra]
            neg = False
            for p in ps:
                c = coeff(p, iv)
                if c is not None and c.m:
                    vs = list(c.m.values()); neg = all(v < 0 for v in vs); break
            else:
                inner = [None]
                for p in [val] if val is not None else []:
                    for a in p.atoms():
                        if a[0] == "load":
                            c = coeff(a[2], iv)
                            if c is not None and c.m: neg = all(v < 0 for v in c.m.values()); break
            if neg:
                r = lambda a, n=n, iv=iv: (loops[n] - ONE - Poly.atom(iv)) if a == iv else None
                q = lambda p: subst_atom(p, r) if isinstance(p, Poly) else p
                addr = q(addr); val = q(val) if val is not None else None; extra = tuple(map(q, extra))
                guards = [q(g) if isinstance(g, Poly) else (g[0], q(g[1])) + tuple(g[2:]) for g in guards]
                loops = loops[:n + 1] + tuple(q(c) for c in loops[n + 1:])
        gs = frozenset(guards)
        return (s.kind, loops, gs, addr, val, extra)

def show_canon(c):
    kind, loops, gs, addr, val, extra = c
    r = ""
    if loops: r += "for " + ", ".join("i%d<%s" % (n + 1, show(x)) for n, x in enumerate(loops)) + ": "
    if gs: r += "if " + " && ".join(sorted(show(g) if isinstance(g, Poly) else "%s in %s" % (show(g[1]), g[2]) for g in gs)) + ": "
    if kind == "add": r += "*(%s) += %s" % (show(addr), show(val))
    elif kind == "set": r += "*(%s) = %s" % (show(addr), show(val))
    elif kind == "call": r += "call %s(%s)" % (show(addr), ", ".join(map(show, extra)))
    elif kind == "ret": r += "return %s" % show(val)
    else: r += "%s(%s, %s, %s)" % (kind, show(addr), show(val), ", ".join(map(show, extra)))
    return r
