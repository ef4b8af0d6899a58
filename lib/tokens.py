"""Propagation of constants and of named strings along every path of a routine that parses header lines.

A text buffer is one of a finite set of named strings (or of lines); comparisons of buffers with string constants, and
the transfers that fill them, are decided by those names; every other condition is followed both ways."""
import ir
from worlds import libname, gstr
class GaveUp(Exception): pass
BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << b}
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b, "sgt": lambda a, b: a > b, "sge": lambda a, b: a >= b}
WID = {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}
class Walk:
    """text: (base of buffer, ext) -> its current string or None;  call: (walk, name, args, ext, inst) -> [(value, ext, stores)] or None"""
    def __init__(s, f, call, text, args=(), limit=20000, cells=None):
        s.f = f; s.call = call; s.text = text; s.args = args; s.limit = limit; s.cells = cells; s.out = []
        s.heads = {l.header for l in f.loops}; s.visited = set()
    def val(s, r, env):
        k = r[0]
        if k == "c": return signed(int(r[1]), r[2] if len(r) > 2 else 64)
        if k == "null": return 0
        if k == "a": return s.args[r[1]] if r[1] < len(s.args) and s.args[r[1]] is not None else ("p", ("arg", r[1]), 0)
        if k == "g": return ("p", ("g", r[1]), 0)
        if k == "ce" and r[1] == "getelementptr" and len(r) > 3:
            b = s.val(r[2][0], env); return ("p", b[1], b[2] + r[3]) if isp(b) and b[2] is not None else None
        if k == "i": return env.get(r[1])
        return None
    def run(s, ext0=(), mem0=None):
        work = [(0, -1, {}, dict(mem0 or {}), ext0)]; seen = set(); n = 0
        while work:
            b, prev, env, mem, ext = work.pop()
            key = (b, prev, frozenset(env.items()), frozenset(mem.items()), ext)
            if key in seen: continue
            seen.add(key); n += 1
            if n > s.limit: raise GaveUp("more than %d states" % s.limit)
            s.visited.add(b)
            blk = s.f.blocks[b]; new = {}
            for i in blk.insts:
                if i.op != "phi": break
                v = None
                for p, o in i.d["inc"]:
                    if p == prev: v = s.val(o, env)
                if b in s.heads: v = ("p", v[1], None) if isinstance(v, tuple) and v[0] == "p" else None
                new[i.id] = v
            env = dict(env); env.update(new)
            s.body(blk, 0, env, dict(mem), ext, work)
        s.n = n
        return s.out
    def body(s, blk, k, env, mem, ext, work):
        for q in range(k, len(blk.insts)):
            i = blk.insts[q]; op = i.op
            if op == "phi": continue
            if op in ("call", "invoke"):
                n = libname(i)
                if i.d.get("intr") and not n.startswith(("llvm.memset", "llvm.memcpy")): continue
                a = [s.val(o, env) for o in i.ops]
                if n.startswith("llvm.memset") and isp(a[0]) and a[0][2] is not None and isinstance(a[1], int) and isinstance(a[2], int) and a[2] <= 64:
                    for j in range(a[2]): mem[(a[0][1], a[0][2] + j)] = a[1] & 255
                    continue
                rs = s.call(s, n, a, ext, i)
                if rs is None: rs = [(None, ext, ())]
                for v, e, st in rs[1:]:
                    m2 = dict(mem); e2 = dict(env); e2[i.id] = v
                    for c, x in st: m2[c] = x
                    s.body(blk, q + 1, e2, m2, e, work)
                v, ext, st = rs[0]; env[i.id] = v
                for c, x in st: mem[c] = x
            elif op == "alloca": env[i.id] = ("p", ("alloca", i.id), 0)
            elif op == "getelementptr":
                b = s.val(i.ops[0], env); off = None
                if "goff" in i.d:
                    off = i.d["goff"]
                    for v, sc in i.d.get("gvar", ()):
                        x = s.val(v, env); off = off + x * sc if isinstance(x, int) and off is not None else None
                env[i.id] = ("p", b[1], b[2] + off if b[2] is not None and off is not None else None) if isp(b) else None
            elif op == "store":
                p = s.val(i.ops[1], env); v = s.val(i.ops[0], env); w = WID.get(i.d.get("vt"), 0) // 8
                if isp(p):
                    if p[2] is None or not w or isinstance(v, tuple) or v is None:
                        for c in [c for c in mem if c[0] == p[1] and (p[2] is None or not w or p[2] <= c[1] < p[2] + w)]: del mem[c]
                        if p[2] is not None and v is not None: mem[(p[1], p[2])] = v
                    else:
                        for j in range(w): mem[(p[1], p[2] + j)] = (v >> (8 * j)) & 255
            elif op == "load":
                p = s.val(i.ops[0], env); env[i.id] = None
                if isp(p) and p[2] is not None:
                    w = WID.get(i.t, 0) // 8
                    if i.t == "ptr" or isinstance(mem.get((p[1], p[2])), tuple): env[i.id] = mem.get((p[1], p[2]))
                    elif w:
                        bs = [mem.get((p[1], p[2] + j)) for j in range(w)]
                        if all(isinstance(x, int) for x in bs): env[i.id] = signed(sum(x << (8 * j) for j, x in enumerate(bs)), 8 * w)
                        elif w == 1:
                            t = s.text(p[1], ext)
                            if t is not None: env[i.id] = ord(t[p[2]]) if p[2] < len(t) else 0 if p[2] == len(t) else None
            elif op == "icmp":
                a, b = s.val(i.ops[0], env), s.val(i.ops[1], env); pr = i.d["pred"]; r = None
                if isinstance(a, int) and isinstance(b, int):
                    if pr in CMP: r = CMP[pr](a, b)
                    elif pr[0] == "u": r = CMP["s" + pr[1:]](a & (1 << 64) - 1, b & (1 << 64) - 1)
                elif pr in ("eq", "ne") and isp(a) != isp(b) and 0 in (a, b): r = pr == "ne"
                elif isp(a) and isp(b) and pr in ("eq", "ne"):
                    if a[1] != b[1]: r = pr == "ne"
                    elif a[2] is not None and b[2] is not None: r = (a[2] == b[2]) == (pr == "eq")
                env[i.id] = None if r is None else int(r)
            elif op == "select":
                c = s.val(i.ops[0], env); a, b = s.val(i.ops[1], env), s.val(i.ops[2], env)
                env[i.id] = (a if c else b) if isinstance(c, int) else a if a == b else None
            elif op in BIN:
                a, b = s.val(i.ops[0], env), s.val(i.ops[1], env)
                r = BIN[op](a, b) if isinstance(a, int) and isinstance(b, int) else 0 if op == "and" and 0 in (a, b) else None
                env[i.id] = None if r is None else signed(r, WID.get(i.t, 64))
            elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
                a = s.val(i.ops[0], env)
                if op == "zext" and isinstance(a, int):
                    w = WID.get(i.d.get("st"), None) or (WID.get(s.f.inst[i.ops[0][1]].t, 64) if i.ops[0][0] == "i" else 64); a &= (1 << w) - 1
                env[i.id] = signed(a, WID.get(i.t, 64)) if isinstance(a, int) else a if op in ("freeze", "bitcast") else None
            elif op == "br":
                if len(i.ops) == 1: work.append((blk.succ[0], blk.id, env, mem, ext)); return
                c = s.val(i.ops[0], env); f, t = i.ops[1][1], i.ops[2][1]
                if isinstance(c, int): work.append((t if c else f, blk.id, env, mem, ext))
                else:
                    for x in (t, f): work.append((x, blk.id, dict(env), dict(mem), ext))
                return
            elif op == "switch":
                c = s.val(i.ops[0], env)
                if isinstance(c, int) and "cases" in i.d:
                    for v, t in i.d["cases"]:
                        if int(v) == c: work.append((t, blk.id, env, mem, ext)); return
                    work.append((blk.succ[0], blk.id, env, mem, ext)); return
                for t in set(blk.succ): work.append((t, blk.id, dict(env), dict(mem), ext))
                return
            elif op == "ret":
                s.out.append((s.val(i.ops[0], env) if i.ops else None, mem, ext, i)); return
            elif op == "unreachable": return
            else: env[i.id] = None
def isp(v): return isinstance(v, tuple) and v[0] == "p"
def signed(v, w):
    if w == 1: return v & 1
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v
