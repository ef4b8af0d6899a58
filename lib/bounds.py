"""Bounds of array accesses, proved by inequalities: what the branches on the way to an access say about its index, and
induction over the loops (in the manner of array bound check elimination on demand).  Integers are taken as numbers; the
checks that use this say so in their assumptions."""
from fractions import Fraction as Q
import itertools
ALLOC = {"malloc": 0, "operator new[]": 0, "operator new": 0, "aligned_alloc": 1}
RANGES = {"sort", "stable_sort", "parallel_stable_sort", "upper_bound", "lower_bound", "partial_sum", "accumulate", "fill", "copy"}
class Lin:
    """sum of coefficients times atoms + a constant"""
    __slots__ = ("m", "c", "_h")
    def __init__(s, m=(), c=0):
        s.m = {k: v for k, v in dict(m).items() if v}; s.c = c; s._h = None
    def plus(s, o, k=1):
        m = dict(s.m)
        for a, v in o.m.items(): m[a] = m.get(a, 0) + v * k
        return Lin(m, s.c + o.c * k)
    def key(s):
        if s._h is None: s._h = (frozenset(s.m.items()), s.c)
        return s._h
    def const(s): return None if s.m else s.c
def signed(v, w):
    v = int(v) & (1 << (w or 64)) - 1; return v - (1 << w) if w and v >> (w - 1) & 1 and w > 1 else v
class Bounds:
    DEPTH = 7
    def __init__(s, f):
        s.f = f; s.lm = {}; s.fm = {}; s.fuel = 0
    # ---- values
    def lin(s, v):
        k = tuple(map(str, v))
        if k in s.lm: return s.lm[k]
        s.lm[k] = Lin({tuple(v[:2]): 1})
        r = s.lm[k] = s._lin(v)
        return r
    def _lin(s, v):
        if v[0] == "c": return Lin({}, signed(v[1], v[2] if len(v) > 2 else 64))
        if v[0] == "null": return Lin()
        if v[0] != "i": return Lin({tuple(v[:2]): 1})
        i = s.f.inst[v[1]]; o = i.op; me = Lin({("i", i.id): 1})
        if o in ("zext", "sext", "freeze", "bitcast"):
            if o == "zext" and i.ops[0][0] == "i" and s.f.inst[i.ops[0][1]].t == "i1": return me
            return s.lin(i.ops[0])
        if o == "trunc": return s.lin(i.ops[0]) if i.t != "i1" else me
        if o in ("ptrtoint", "inttoptr"): return s.lin(i.ops[0])
        if o == "add":
            r = s.lin(i.ops[0]).plus(s.lin(i.ops[1])); k = next((signed(v[1], v[2]) for v in i.ops if v[0] == "c"), 0)
            return r if k >= 0 or s.stays(r, i) else me
        if o == "sub":
            r = s.lin(i.ops[0]).plus(s.lin(i.ops[1]), -1)
            return r if i.ops[1][0] != "c" and i.t != "i32" or s.stays(r, i) else me
        if o in ("mul", "shl"):
            a, b = s.lin(i.ops[0]), s.lin(i.ops[1])
            if o == "shl":
                if b.const() is None: return me
                b = Lin({}, 1 << int(b.const()))
            if b.const() is None: a, b = b, a
            if b.const() is None: return s.product(me, a, b)
            return Lin().plus(a, b.const())
        if o in ("sdiv", "ashr") or o == "udiv" or o == "lshr":
            a, b = s.lin(i.ops[0]), s.lin(i.ops[1]).const()
            if b is not None and (i.d.get("exact") or o == "sdiv"):
                k = (1 << int(b)) if o in ("ashr", "lshr") else b
                if k > 0 and all(Q(x, k).denominator == 1 for x in list(a.m.values()) + [a.c]): return Lin().plus(a, Q(1, k))
            return me
        if o == "load":
            w = s.member(i)
            return s.lin(w) if w is not None else me
        if o == "getelementptr":
            if "goff" not in i.d: return me
            r = s.lin(i.ops[0]).plus(Lin({}, i.d["goff"]))
            for x, k in i.d["gvar"]: r = r.plus(s.lin(x), k)
            return r
        if o == "extractvalue" and i.ops[0][0] == "i":
            c = s.f.inst[i.ops[0][1]]
            if (c.callee or "").startswith("llvm.umul.with.overflow") and (i.d.get("idx") or [0])[0] == 0:
                a, b = s.lin(c.ops[0]), s.lin(c.ops[1])
                if b.const() is None: a, b = b, a
                if b.const() is not None: return Lin().plus(a, b.const())
        if o == "select":       # the size of new T[n]: n * sizeof(T), or -1 if that overflows
            x, y = s.lin(i.ops[1]), s.lin(i.ops[2]); c = i.ops[0]
            if x.const() == -1 and c[0] == "i" and s.f.inst[c[1]].op == "extractvalue": return y
            if x.key() == y.key(): return x
        return me
    def stays(s, r, i):
        """a number of elements less a constant does not fall below zero (which would make it very large)"""
        fuel = s.fuel; ok = s.prove(Lin().plus(r, -1), i.bb.id); s.fuel = fuel
        return ok
    def member(s, i):
        """what a load of a member of a local object reads, if one store to that member reaches every load of it.
        (Elements of member arrays are taken to be inside their array.)"""
        E = s.lin(i.ops[0])
        if len(E.m) != 1: return None
        (a, k), = E.m.items()
        if k != 1 or a[0] != "i" or s.f.inst[a[1]].op != "alloca": return None
        c = s.locals_(a)
        if c is None: return None
        ws = c.get(E.c, [])
        if len(ws) != 1 or ws[0] is None or ws[0].d.get("sz") != i.d.get("sz") or not s.f.inst_dom(ws[0], i): return None
        return ws[0].ops[0]
    def locals_(s, a):
        s.cells = getattr(s, "cells", {})
        if a in s.cells: return s.cells[a]
        out = {}; st = [a[1]]; seen = set(); s.cells[a] = None
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            for u in s.f.users().get(x, []):
                if u.op in ("getelementptr", "bitcast", "freeze"):
                    if u.ops[0][:2] != ["i", x]: return None
                    st.append(u.id)
                elif u.op == "load": pass
                elif u.op == "store":
                    if u.ops[0][:2] == ["i", x]: return None
                    E = s.lin(u.ops[1])
                    out.setdefault(E.c, []).append(u if len(E.m) == 1 else None)
                elif u.op == "call" and (u.callee or "").startswith("llvm.lifetime"): pass
                elif u.op == "call" and (u.callee or "").startswith("llvm.memset") and s.lin(u.ops[2]).const() is not None:
                    E = s.lin(u.ops[0])
                    for k in range(int(s.lin(u.ops[2]).const())): out.setdefault(E.c + k, []).append(None)
                else: return None
        s.cells[a] = out
        return out
    def single(s, E):
        if E.c or len(E.m) != 1: return None
        (a, v), = E.m.items()
        return s.inst(a) if v == 1 else None
    def cofactor(s, P, w):
        """n such that P is the product n * w"""
        j = s.single(P)
        if j is None or j.op != "mul": return []
        x, y = s.lin(j.ops[0]), s.lin(j.ops[1])
        return ([y] if x.key() == w.key() else []) + ([x] if y.key() == w.key() else [])
    def product(s, me, a, b):
        """products of unknowns: an atom of its own, the same for the same factors"""
        k = ("p",) + tuple(sorted((str(sorted((str(x), v) for x, v in q.m.items())), q.c) for q in (a, b)))
        s.defs_ = getattr(s, "defs_", {}); s.defs_.setdefault(k, next(iter(me.m)))
        return Lin({s.defs_[k]: 1})
    def block(s, a):
        return s.f.inst[a[1]].bb.id if a[0] == "i" else 0
    def inst(s, a): return s.f.inst[a[1]] if a[0] == "i" else None
    # ---- facts
    def edge(s, p, b):
        """what taking the edge p -> b says: [(condition, truth)]"""
        t = s.f.blocks[p].insts[-1]
        if t.op == "br" and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            if t.ops[2][1] == b: return [(t.ops[0], True)]
            if t.ops[1][1] == b: return [(t.ops[0], False)]
        return []
    def conds(s, b):
        """conditions that hold whenever b is reached, nearest first, with the edge"""
        out = []
        while b:
            ps = [p for p in s.f.blocks[b].pred if p in s.f.reach0]
            if len(ps) == 1: out += [(c, t, ps[0], b) for c, t in s.edge(ps[0], b)]
            b = s.f.idom.get(b, 0)
        return out
    def expand(s, c, t):
        """a condition as [(kind, Lin)]: kind 'le' (<= 0) or 'ne' (!= 0)"""
        if c[0] != "i": return []
        i = s.f.inst[c[1]]
        if i.op == "freeze": return s.expand(i.ops[0], t)
        if i.op == "xor" and i.ops[1][0] == "c": return s.expand(i.ops[0], not t)
        if i.op == "and" and t or i.op == "or" and not t: return s.expand(i.ops[0], t) + s.expand(i.ops[1], t)
        if i.op == "select":
            a, b = i.ops[1], i.ops[2]
            if t and b[0] == "c" and int(b[1]) == 0: return s.expand(i.ops[0], True) + s.expand(a, True)
            if not t and a[0] == "c" and int(a[1]): return s.expand(i.ops[0], False) + s.expand(b, False)
            return []
        if i.op != "icmp": return []
        p = i.d["pred"]; d = s.lin(i.ops[0]).plus(s.lin(i.ops[1]), -1)
        if not t: p = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}[p]
        n = Lin().plus(d, -1); one = Lin({}, 1)
        if p == "eq": return [("le", d), ("le", n)]
        if p == "ne": return [("ne", d)]
        if p[1:] == "lt": return [("le", d.plus(one))]
        if p[1:] == "le": return [("le", d)]
        if p[1:] == "gt": return [("le", n.plus(one))]
        return [("le", n)]
    def facts(s, b, edge=None):
        k = (b, edge)
        if k not in s.fm:
            out = []
            if edge is not None:
                for c, t in s.edge(b, edge): out += s.expand(c, t)
            for c, t, _, _ in s.conds(b): out += s.expand(c, t)
            s.fm[k] = out
        return s.fm[k]
    def nonneg(s, a):
        if a[0] == "a": return True
        i = s.inst(a)
        return i is not None and (i.op in ("load", "udiv", "urem", "lshr", "and", "zext") and i.t != "ptr")
    limits = ()         # (array, offset, stride, bound): the values kept in an argument array are below the bound
    def limit(s, i):
        E = s.lin(i.ops[0])
        for a, off, st, bound in s.limits:
            if E.m.get(a) != 1: continue
            r = E.plus(Lin({a: 1}), -1)
            if all(v % st == 0 for v in r.m.values()) and (r.c - off) % st == 0: return bound
        return None
    def about(s, a, E=None, rec=None):
        """facts about the value of one atom"""
        i = s.inst(a)
        if i is None: return []
        me = Lin({a: 1}); out = []; one = Lin({}, 1)
        if i.op == "load":
            l = s.limit(i)
            if l is not None: out.append(("le", me.plus(l, -1).plus(one)))
        if i.op == "udiv":
            x, w = s.lin(i.ops[0]), s.lin(i.ops[1])
            j = s.single(x)
            if j is not None and j.op == "load":     # below n * w, divided by w
                l = s.limit(j)
                for n in s.cofactor(l, w) if l is not None else []: out.append(("le", me.plus(n, -1).plus(one)))
            for b in list(E.m) if rec else []:
                k = s.inst(b)
                if b == a or k is None or k.op != "udiv" or s.lin(k.ops[1]).key() != w.key(): continue
                y = s.lin(k.ops[0])
                if rec(x.plus(w).plus(y, -1)): out.append(("le", me.plus(Lin({b: 1}), -1).plus(one)))
        if i.op in ("udiv", "lshr", "urem", "and"):
            out.append(("le", me.plus(s.lin(i.ops[0]), -1)))
            if i.op == "urem": out.append(("le", me.plus(s.lin(i.ops[1]), -1).plus(one)))
            if i.op == "and": out.append(("le", me.plus(s.lin(i.ops[1]), -1)))
        return out
    # ---- proofs of E <= 0
    def prove(s, E, b, edge=None):
        s.fuel = 4000
        return s._prove(E, b, edge, s.DEPTH, {}, frozenset())
    def _prove(s, E, b, edge, depth, hyp, seen):
        c = E.const()
        if c is not None: return c <= 0
        if E.c <= 0 and all(v < 0 and s.nonneg(a) for a, v in E.m.items()): return True
        s.fuel -= 1
        if depth <= 0 or s.fuel <= 0 or E.key() in seen: return False
        seen = seen | {E.key()}
        order = sorted(E.m, key=lambda a: (s.block(a) and s.f.rpo.index(s.block(a)), a[0] == "i" and a[1] or -1), reverse=True)
        for a in order:
            for kind, F in s.facts(b, edge) + s.about(a, E, lambda X: s._prove(X, b, edge, depth - 2, hyp, seen)):
                if a not in F.m: continue
                l = Q(E.m[a]) / Q(F.m[a])
                if kind == "le" and l > 0:
                    R = E.plus(F, -l)
                    if s._prove(R, b, edge, depth - 1, hyp, seen): return True
                elif kind == "ne":
                    G = F if l > 0 else Lin().plus(F, -1)
                    R = E.plus(G.plus(Lin({}, 1)), -abs(l))
                    if ("ne", G.key()) not in seen and s._prove(R, b, edge, depth - 1, hyp, seen) and s._prove(G, b, edge, depth - 1, hyp, seen | {("ne", G.key())}): return True
        a = order[0]; i = s.inst(a)
        if i is None: return False
        if i.op == "select":
            return all(s._prove(E.plus(Lin({a: E.m[a]}), -1).plus(s.lin(i.ops[k]), E.m[a]), b, edge, depth - 1, hyp, seen) for k in (1, 2))
        if i.op == "call" and (i.callee or "").startswith(("llvm.umin", "llvm.smin", "llvm.umax", "llvm.smax")):
            any_ = ("min" in i.callee) == (E.m[a] > 0)
            return (any if any_ else all)(s._prove(E.plus(Lin({a: E.m[a]}), -1).plus(s.lin(i.ops[k]), E.m[a]), b, edge, depth - 1, hyp, seen) for k in (0, 1))
        if i.op == "phi":
            h = i.bb.id
            if any(x[0] == "i" and not (s.inst(x).op == "phi" and s.block(x) == h) and not (s.block(x) != h and s.f.dominates(s.block(x), h)) for x in E.m): return False
            for H, E1 in hyp.items():
                if H[0] == h:
                    d = E.plus(E1, -1).const()
                    if d is not None and d <= 0: return True
            for p in {p for p, _ in i.d["inc"]}:
                if p not in s.f.reach0: continue
                R = Lin({x: v for x, v in E.m.items() if not (x[0] == "i" and s.inst(x).op == "phi" and s.block(x) == h)}, E.c)
                for x, v in E.m.items():
                    if x[0] == "i" and s.inst(x).op == "phi" and s.block(x) == h:
                        R = R.plus(s.lin(next(w for q, w in s.inst(x).d["inc"] if q == p)), v)
                if not s._prove(R, p, h, depth - 1, dict(hyp, **{}) | {(h, len(hyp)): E}, frozenset()): return False
            return True
        return False

FREE, UNK = "free", "unknown"
class Witness:
    """Sizes and iteration counts for which every condition on the way to an access holds, and the access is outside.
    What is read from the argument arrays may be anything (FREE); what else is read is not known (UNK)."""
    def __init__(s, bd, arrays, entry): s.b = bd; s.f = bd.f; s.arrays = arrays; s.entry = entry; s.top = False
    def written(s, p):
        """may the repository's code write to this field of the entries"""
        for a, off, st, _ in s.b.limits:
            if p.m.get(a) != 1 or (p.c - off) % st: continue
            for i in s.f.insts():
                if i.op != "store": continue
                q = s.b.lin(i.ops[1])
                if q.m.get(a) and ((q.c - off) % st == 0 or any(v % st for k, v in q.m.items() if k != a)): return True
        return False
    def val(s, v, env):
        if v[0] == "c": return signed(v[1], v[2] if len(v) > 2 else 64)
        if v[0] == "null": return 0
        k = tuple(v[:2])
        if k in env: return env[k]
        if v[0] != "i": return UNK
        env[k] = UNK
        r = env[k] = s.inst(s.f.inst[v[1]], env)
        return r
    def inst(s, i, env):
        o = i.op; V = lambda k: s.val(i.ops[k], env)
        if o == "load":
            w = s.b.member(i)
            if w is not None: return s.val(w, env)
            p = s.b.lin(i.ops[0])
            if s.top:       # every value at its greatest, where that is declared and nothing is written to it
                l = s.b.limit(i)
                if l is not None and not s.written(p):
                    x = l.c - 1
                    for a, k in l.m.items():
                        y = s.val(a, env)
                        if y in (FREE, UNK): return UNK
                        x += k * y
                    return x if x >= 0 else UNK
            return FREE if any(a in p.m for a in s.arrays) else UNK
        if o == "phi":
            xs = [s.val(w, env) for p, w in i.d["inc"]]
            if any(l.header == i.bb.id for l in s.f.loops): return UNK
            return xs[0] if all(x == xs[0] for x in xs) else UNK
        if o == "select":
            c = V(0)
            if c in (FREE, UNK): return V(1) if V(1) == V(2) else (FREE if i.t == "i1" and c == FREE and UNK not in (V(1), V(2)) else UNK)
            return V(1) if c else V(2)
        if o in ("zext", "sext", "freeze", "bitcast", "trunc", "ptrtoint", "inttoptr"): return V(0)
        if o == "getelementptr":
            if "goff" not in i.d: return UNK
            r = V(0); xs = [(s.val(x, env), k) for x, k in i.d["gvar"]]
            if r in (FREE, UNK) or any(x in (FREE, UNK) for x, _ in xs): return UNK
            return r + i.d["goff"] + sum(x * k for x, k in xs)
        if o in ("and", "or") and i.t == "i1":
            z = 0 if o == "and" else 1; a, b = V(0), V(1)
            if a == z or b == z: return z
            return UNK if UNK in (a, b) else FREE if FREE in (a, b) else 1 - z
        if o in ("add", "sub", "mul", "shl", "udiv", "urem", "lshr", "and", "or", "xor", "icmp", "sdiv", "srem"):
            a, b = V(0), V(1)
            if UNK in (a, b): return FREE if o == "icmp" and FREE in (a, b) and False else UNK
            if FREE in (a, b): return FREE
            try:
                if o == "icmp":
                    p = i.d["pred"]
                    if p[0] == "u" and (a < 0) != (b < 0): a, b = (a + (1 << 64) if a < 0 else a), (b + (1 << 64) if b < 0 else b)
                    return int({"eq": a == b, "ne": a != b}[p] if p in ("eq", "ne") else {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[p[1:]])
                return {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "shl": lambda: a << b, "udiv": lambda: a // b, "sdiv": lambda: a // b, "urem": lambda: a % b, "srem": lambda: a % b,
                        "lshr": lambda: a >> b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b if i.t != "i1" else (a & 1) ^ (b & 1)}[o]()
            except (ZeroDivisionError, ValueError): return UNK
        if o == "call" and (i.callee or "").startswith(("llvm.umin", "llvm.smin", "llvm.umax", "llvm.smax")):
            a, b = V(0), V(1)
            if UNK in (a, b): return UNK
            if FREE in (a, b): return FREE
            return min(a, b) if "min" in i.callee else max(a, b)
        return UNK
    def holds(s, cs, env):
        for c, t in cs:
            v = s.val(c, env)
            if v == UNK or v == FREE and not s.entry: return False
            if v != FREE and bool(v & 1) != t: return False
        return True
    def envs(s, nest, env, limit):
        """values of the phis of the enclosing loops: the first iteration of the outer ones, the first `limit` of the inner"""
        if not nest: yield env; return
        for k, l in enumerate(nest):
            L = s.f.loops[l]; h = L.header; last = k == len(nest) - 1
            phis = [i for i in s.f.blocks[h].insts if i.op == "phi"]
            pre = [p for p in s.f.blocks[h].pred if p not in L.blocks and p in s.f.reach0]
            if len(pre) != 1: return
            new = {("i", i.id): s.val(next(w for p, w in i.d["inc"] if p == pre[0]), env) for i in phis}
            base = {a: v for a, v in env.items() if a[0] != "i" or s.f.inst[a[1]].bb.id not in L.blocks}
            env = dict(base, **{}) | new
            if not last: continue
            lat = [p for p in s.f.blocks[h].pred if p in L.blocks]
            for _ in range(limit):
                yield dict(env)
                nx = None
                for p in lat:
                    e = dict(env)
                    cs = [(c, t) for c, t, a, b in s.b.conds(p) if a in L.blocks and b in L.blocks and not set(s.f.loop_nest(a)) - set(s.f.loop_nest(b))] + s.b.edge(p, h)
                    if s.holds(cs, e):
                        nx = {("i", i.id): s.val(next(w for q, w in i.d["inc"] if q == p), e) for i in phis}; break
                if nx is None: return
                env = dict(base) | nx
    def find(s, E, i, sizes, minima):
        for s.top in (False, True):
            r = s._find(E, i, sizes, minima)
            if r is not None: return r
    def _find(s, E, i, sizes, minima):
        """(sizes) under which E > 0 at instruction i; None"""
        nest = s.f.loop_nest(i.bb.id); inner = set(s.f.loops[nest[-1]].blocks) if nest else set()
        cs = []
        for c, t, a, b in s.b.conds(i.bb.id):
            la = set(s.f.loop_nest(a))
            if la - set(s.f.loop_nest(b)): continue          # the end of an earlier loop
            cs.append((c, t))
        for vs in itertools.product(*[range(minima.get(a, 1), minima.get(a, 1) + 5) for a in sizes]):
            env0 = dict(zip(sizes, vs))
            for k, a in enumerate(s.arrays): env0[a] = (k + 1) << 40
            for env in s.envs(nest, env0, 9):
                if not s.holds(cs, env): continue
                t = E.c
                for a, v in E.m.items():
                    x = s.val(a, env)
                    if x in (FREE, UNK): t = None; break
                    t += v * x
                if t is not None and t > 0: return dict(zip(sizes, vs))
        return None
