"""Path segments between loop heads: conditions, memory writes and calls of every acyclic path, as polynomials."""
import ir, summ
from summ import Poly, ZERO, ONE
NOISE = ("llvm.lifetime", "llvm.experimental.noalias", "llvm.dbg", "llvm.assume", "llvm.invariant")
FORK, TALLOC, TASK = "__kmpc_fork_call", "__kmpc_omp_task_alloc", "__kmpc_omp_task"
class TooMany(Exception): pass

class Ev:
    __slots__ = ("kind", "name", "args", "res", "inst", "mode")
    def __init__(s, kind, name, args, res, inst, mode=""): s.kind = kind; s.name = name; s.args = args; s.res = res; s.inst = inst; s.mode = mode
    def __repr__(s): return "%s%s %s(%s)" % (s.mode and s.mode + ":", s.kind, s.name, ", ".join(summ.show(a) for a in s.args))
class Seg:
    __slots__ = ("src", "dst", "conds", "events", "inc", "env", "mem", "ret")

class Walk:
    """segments of function f; nested: of a task body or a parallel region, run in the memory of its creator"""
    def __init__(s, m, f, args=None, mem=None, pure=(), limit=3000, mode="", depth=0):
        s.m = m; s.f = f; s.pure = set(pure); s.limit = limit; s.mode = mode; s.depth = depth
        s.args = args or [Poly.atom(("arg", n, "arg%d" % n)) for n in range(len(f.args))]
        s.headers = {l.header: l for l in f.loops}
        s.segs = []; s.starts = {}
        rp = {b: n for n, b in enumerate(f.rpo)}
        s._run("entry", 0, None, {}, dict(mem or {}))
        for h in sorted(s.headers, key=lambda b: rp.get(b, 1 << 30)):
            arr = [g for g in s.segs if g.dst == h]
            if not arr: continue
            env = {k: v for k, v in arr[0].env.items() if all(g.env.get(k) == v for g in arr) and f.inst[k].bb.id not in s.headers[h].blocks}
            mem2 = {}
            st = s.stored(s.headers[h])
            for a, v in arr[0].mem.items():
                if not all(a in g.mem for g in arr): continue
                b = base(a)
                if b is None or b in st or None in st or any(g.mem[a] != v for g in arr): v = Poly.atom(("cell", h, a))
                mem2[a] = v
            for i in f.blocks[h].insts:
                if i.op == "phi": env[i.id] = Poly.atom(("phi", h, i.id))
            s._run(h, h, None, env, mem2)
    def stored(s, l):
        """bases written in loop l (None: some unknown one)"""
        out = set()
        for b in l.blocks:
            for i in s.f.blocks[b].insts:
                if i.op == "store":
                    try: out.add(base(s.val(i.ops[1], {})))
                    except RecursionError: out.add(None)
                elif i.op == "call" and not (i.callee or "").startswith(NOISE):
                    for o in i.ops:
                        if o[0] == "i" and s.f.inst[o[1]].op in ("alloca", "getelementptr"): out.add(base(s.val(o, {})))
        return out
    # ---- walking
    def _run(s, src, start, prev, env, mem):
        st = [(start, prev, env, mem, (), ())]
        while st:
            b, prev, env, mem, conds, events = st.pop()
            if len(s.segs) > s.limit: raise TooMany(s.f.name)
            if prev is not None and b in s.headers: s._end(src, b, prev, env, mem, conds, events); continue
            env = dict(env); mem = dict(mem); alt = [(env, mem, conds, events)]
            blk = s.f.blocks[b]
            if prev is not None:
                inc = {i.id: s.val(dict((x, v) for x, v in i.d["inc"])[prev], env) for i in blk.insts if i.op == "phi"}
                env.update(inc)
            for i in blk.insts:
                if i.op == "phi":
                    if i.id not in env: env[i.id] = Poly.atom(("phi", b, i.id))
                    continue
                alt = [y for x in alt for y in s._step(i, *x)]
            for env2, mem2, conds2, events2 in alt:
                t = blk.insts[-1]
                if t.op == "ret":
                    s._end(src, "ret", b, env2, mem2, conds2, events2, s.val(t.ops[0], env2) if t.ops else None)
                elif t.op == "br" and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
                    c = s.val(t.ops[0], env2)
                    for tgt, tv in ((t.ops[2][1], True), (t.ops[1][1], False)):
                        if c.isconst():
                            if bool(c.cval()) == tv: st.append((tgt, b, env2, mem2, conds2, events2))
                        else: st.append((tgt, b, env2, mem2, conds2 + ((c, tv, t),), events2))
                elif t.op == "switch":
                    c = s.val(t.ops[0], env2); seen = ()
                    for k, tgt in t.d["cases"]:
                        e = cmpeq(c, Poly.const(int(k)))
                        if not e.isconst() or e.cval(): st.append((tgt, b, env2, mem2, conds2 + (() if e.isconst() else ((e, True, t),)), events2))
                        seen += () if e.isconst() else ((e, False, t),)
                        if e.isconst() and e.cval(): break
                    else:
                        st.append((t.d["default"], b, env2, mem2, conds2 + seen, events2))
                elif t.op == "unreachable": pass
                else:
                    for x in blk.succ: st.append((x, b, env2, mem2, conds2, events2))
    def _end(s, src, dst, prev, env, mem, conds, events, ret=None):
        g = Seg(); g.src = src; g.dst = dst; g.conds = list(conds); g.events = list(events); g.env = env; g.mem = mem; g.ret = ret; g.inc = {}
        if dst != "ret":
            for i in s.f.blocks[dst].insts:
                if i.op == "phi": g.inc[i.id] = s.val(dict((x, v) for x, v in i.d["inc"])[prev], env)
        s.segs.append(g)
    def _step(s, i, env, mem, conds, events):
        op = i.op
        if op == "store":
            a = s.val(i.ops[1], env); v = s.val(i.ops[0], env)
            if local(a): mem = dict(mem); mem[a] = v
            return [(env, mem, conds, events + (Ev("store", "", [a, v], None, i, s.mode),))]
        if op == "load":
            a = s.val(i.ops[0], env)
            v = mem.get(a)
            if v is None:
                t = one_atom(a)
                v = Poly.atom(("alloca", "shared", t) if t and t[0] == "call" and t[1] == TALLOC else ("load", i.t, a))
            env = dict(env); env[i.id] = v
            return [(env, mem, conds, events + (Ev("load", "", [a], v, i, s.mode),))]
        if op in ("call", "invoke"):
            c = i.callee or ""
            if c.startswith(NOISE): return [(env, mem, conds, events)]
            n = i.cname() or c or "indirect"
            args = [s.val(o, env) for o in i.ops]
            f = s.m.functions.get(c)
            if c.startswith(("llvm.memcpy", "llvm.memmove")) and local(args[0]) and args[2].isconst():
                mem = dict(mem)
                for a, v in list(mem.items()):
                    d = a - args[1]
                    if d.isconst() and 0 <= d.cval() < args[2].cval(): mem[args[0] + d] = v
                return [(env, mem, conds, events)]
            if c == FORK and s.depth < 3: return s._nested(i, args[2], [Poly.atom(("gtid",))] * 2 + args[3:], "region", env, mem, conds, events)
            if c in (TASK, "__kmpc_omp_task_with_deps") and s.depth < 3:
                al = one_atom(args[2]); fn = al and al[0] == "call" and al[1] == TALLOC and [x for x in al[3:] if isinstance(x, Poly) and one_atom(x) and one_atom(x)[0] == "fn"]
                if not fn: return [(env, mem, conds, events + (Ev("call", "?task", args, None, i, s.mode),))]
                mem = dict(mem); mem[args[2] + Poly.const(16)] = Poly.const(1)        # an untied task's body
                return s._nested(i, fn[0], [Poly.atom(("gtid",)), args[2]], "task", env, mem, conds, events)
            env = dict(env)
            if c.startswith(("llvm.expect", "llvm.launder", "llvm.strip")): env[i.id] = args[0]; return [(env, mem, conds, events)]
            if c.startswith(("llvm.umax", "llvm.smax")): env[i.id] = summ.umax(args); return [(env, mem, conds, events)]
            if c.startswith(("llvm.umin", "llvm.smin")): env[i.id] = summ.umin(args); return [(env, mem, conds, events)]
            k = () if n in s.pure else (sum(1 for e in events if e.kind == "call"),)
            r = Poly.atom(("call", n, (i.id,) + k if n not in s.pure else ()) + tuple(args))
            env[i.id] = r
            return [(env, mem, conds, events + (Ev("call", n, args, r, i, s.mode),))]
        if op in ("br", "switch", "ret", "unreachable", "fence"): return [(env, mem, conds, events)]
        env = dict(env); env[i.id] = s._inst(i, env)
        return [(env, mem, conds, events)]
    def _nested(s, i, fn, args, mode, env, mem, conds, events):
        a = one_atom(fn); g = s.m.functions.get(a[1]) if a and a[0] == "fn" else None
        if g is None or g.decl or g.loops: return [(env, mem, conds, events + (Ev("call", "?" + mode, args, None, i, s.mode),))]
        w = Walk(s.m, g, args, mem, s.pure, s.limit, mode, s.depth + 1)
        out = []
        once = [x for x in w.segs if any(isonce(c[0]) for c in x.conds) and all(onceval(c[0]) == c[1] for c in x.conds if isonce(c[0]))]
        for x in w.segs:
            if mode == "region":
                ev = list(x.events)
                if once and x not in once:
                    for e in ev: e.mode = "everythread"
                    if not any(e.kind == "call" and not e.name.startswith("__kmpc") for e in ev): continue
                elif not once:
                    for e in ev: e.mode = "everythread"
                ev = [Ev("call", "(region", [], None, i, s.mode)] + ev + [Ev("call", ")region", [], None, i, s.mode)]
            else: ev = [Ev("call", "(task", args, None, i, s.mode)] + list(x.events) + [Ev("call", ")task", [], None, i, s.mode)]
            out.append((env, {k: v for k, v in x.mem.items()}, conds + tuple(x.conds), events + tuple(ev)))
        return out or [(env, mem, conds, events)]
    # ---- values
    def val(s, r, env):
        k = r[0]
        if k == "i":
            if r[1] in env: return env[r[1]]
            i = s.f.inst[r[1]]
            if i.op == "phi": return Poly.atom(("phi", i.bb.id, i.id) if i.bb.id in s.headers else ("ssa", i.id))
            if i.op in ("load", "call", "invoke"): return Poly.atom(("ssa", i.id))
            return s._inst(i, env)
        if k == "c": return Poly.const(abs(int(r[1])) if r[2] == 1 else int(r[1]))
        if k in ("null", "zero"): return ZERO
        if k == "a": return s.args[r[1]]
        if k == "fn": return Poly.atom(("fn", r[1]))
        if k == "g":
            g = s.m.globals.get(r[1], {})
            return Poly.atom(("str", g["str"]) if "str" in g else ("g", r[1]))
        if k == "ce" and r[1] == "getelementptr" and len(r) > 3: return s.val(r[2][0], env) + Poly.const(r[3])
        if k == "undef": return Poly.atom(("undef",))
        return Poly.atom((k, repr(r)))
    def _inst(s, i, env):
        op = i.op; V = lambda n: s.val(i.ops[n], env)
        if op in ("zext", "sext", "bitcast", "ptrtoint", "inttoptr", "addrspacecast", "freeze"): return V(0)
        if op == "trunc":
            if i.t == "i1": return summ.cmp_atom("ne", V(0), ZERO)
            return summ.trunc(V(0), int(i.t[1:]))
        if op == "add": return V(0) + V(1)
        if op == "sub": return V(0) - V(1)
        if op == "mul": return V(0) * V(1)
        if op in ("udiv", "sdiv"): return summ.udiv(V(0), V(1))
        if op in ("urem", "srem"): return summ.urem(V(0), V(1))
        if op == "shl" and i.ops[1][0] == "c": return V(0) * Poly.const(1 << int(i.ops[1][1]))
        if op in ("lshr", "ashr") and i.ops[1][0] == "c": return summ.udiv(V(0), Poly.const(1 << int(i.ops[1][1])))
        if op in ("and", "or", "xor"):
            if op == "xor" and i.t == "i1" and i.ops[1][0] == "c": return summ.negate(V(0))
            return summ.comm(op, V(0), V(1))
        if op == "getelementptr" and "goff" in i.d:
            r = V(0) + Poly.const(i.d["goff"])
            for v, sc in i.d["gvar"]: r = r + s.val(v, env) * Poly.const(sc)
            return r
        if op in ("icmp", "fcmp"): return summ.cmp_atom(i.d["pred"], V(0), V(1))
        if op == "select": return summ.mkselect(V(0), V(1), V(2))
        if op == "alloca": return Poly.atom(("alloca", s.f.name, i.id))
        return Poly.atom((op, i.id) + tuple(s.val(o, env) for o in i.ops))

def one_atom(p):
    if len(p.m) == 1:
        (k, v), = p.m.items()
        if len(k) == 1 and v == 1: return k[0]
def base(p):
    """the one pointer-like atom with coefficient one"""
    c = [k[0] for k, v in p.m.items() if len(k) == 1 and v == 1 and k[0][0] in ("alloca", "arg", "call", "phi", "load", "ssa", "g", "cell")]
    return c[0] if len(c) == 1 else None
def local(p):
    b = base(p)
    return b is not None and (b[0] == "alloca" or b[0] == "call" and b[1] == TALLOC)
def onceval(c):
    try: return bool(ev(c, {"calls": lambda a, env: 1 if a[1] in ONCE else None}))
    except KeyError: return None
ONCE = ("__kmpc_master", "__kmpc_single", "__kmpc_masked")
def isonce(c):
    """condition `this thread is the one that executes the master / single block` (true or false form)"""
    return any(a[0] == "call" and a[1] in ONCE or isinstance(a, tuple) and any(isinstance(x, Poly) and isonce(x) for x in a) for a in c.atoms())
def cmpeq(a, b): return summ.cmp_atom("eq", a, b)

# ---------------------------------------------------------------- numeric evaluation under a sample
def ev(p, env):
    t = 0
    for k, v in p.m.items():
        x = v
        for a in k: x = x * eva(a, env)
        t += x
    return t
def eva(a, env):
    if a in env: return env[a]
    k = a[0]; E = lambda x: ev(x, env)
    if k in ("lt", "le", "eq", "ne"):
        x, y = E(a[1]), E(a[2]); return int({"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[k])
    if k == "select": return E(a[2]) if E(a[1]) else E(a[3])
    if k == "not": return int(not E(a[1]))
    if k in ("and", "or", "xor"): x, y = int(E(a[1])), int(E(a[2])); return x & y if k == "and" else x | y if k == "or" else x ^ y
    if k == "min": return min(map(E, a[1:]))
    if k == "max": return max(map(E, a[1:]))
    if k == "udiv":
        d = E(a[2]); n = E(a[1])
        return n // d if n >= 0 else -(-n // d)
    if k == "trunc": return E(a[2]) % (1 << a[1])
    f = env.get("calls")
    if f is not None and k == "call":
        r = f(a, env)
        if r is not None: return r
    raise KeyError(a[0])
