"""Abstract interpretation of scalar IR over known / copied bits and intervals.

An abstract value is a width, one symbol per bit (0, 1, ("b", argument, position) for a copy of an input bit, None for
unknown) and an unsigned interval.  A function is interpreted once per class of its inputs; branches that a class does
not decide are followed both ways."""
import ir
class Imprecise(Exception): pass
STEPS = 60000

class AV:
    __slots__ = ("w", "b", "lo", "hi")
    def __init__(s, w, b=None, lo=0, hi=None):
        s.w = w; s.b = tuple(b) if b is not None else (None,) * w; s.lo = lo; s.hi = (1 << w) - 1 if hi is None else hi
        mn = sum(1 << k for k, x in enumerate(s.b) if x == 1); mx = sum(1 << k for k, x in enumerate(s.b) if x != 0)
        s.lo = max(s.lo, mn); s.hi = min(s.hi, mx)
        # common leading bits of the interval are known
        b = list(s.b)
        for k in range(w - 1, -1, -1):
            if s.lo >> k != s.hi >> k: break
            b[k] = (s.lo >> k) & 1
        s.b = tuple(b)
    @staticmethod
    def const(v, w): v &= (1 << w) - 1; return AV(w, [(v >> k) & 1 for k in range(w)], v, v)
    def cval(s): return s.lo if s.lo == s.hi else None
    def key(s): return (s.w, s.b, s.lo, s.hi)
    def __repr__(s): return "%d" % s.lo if s.lo == s.hi else "[%d,%d]:%s" % (s.lo, s.hi, "".join("?" if x is None else "x" if isinstance(x, tuple) else str(x) for x in reversed(s.b)))
def join(x, y): return AV(x.w, [p if p == q else None for p, q in zip(x.b, y.b)], min(x.lo, y.lo), max(x.hi, y.hi))
def band(p, q): return 0 if 0 in (p, q) else q if p == 1 else p if q == 1 else p if p == q else None
def bor(p, q): return 1 if 1 in (p, q) else q if p == 0 else p if q == 0 else p if p == q else None
def bxor(p, q): return q if p == 0 else p if q == 0 else 0 if p == q and p is not None else (1 - p if q == 1 and p in (0, 1) else 1 - q if p == 1 and q in (0, 1) else None)
def add(x, y, c=0):
    w = x.w; out = []
    for p, q in zip(x.b, y.b):
        if c == 0: out.append(bxor(p, q)); c = band(p, q)
        elif p in (0, 1) and q in (0, 1) and c in (0, 1): t = p + q + c; out.append(t & 1); c = t >> 1
        else:
            out.append(bxor(bxor(p, q), c))
            k = [t for t in (p, q, c)]
            c = 0 if k.count(0) >= 2 else 1 if k.count(1) >= 2 else None
    return out
def binop(op, x, y, w):
    M = (1 << w) - 1
    if x.cval() is not None and y.cval() is not None:
        a, b = x.cval(), y.cval(); sa = a - (1 << w) if a >> (w - 1) else a; sb = b - (1 << w) if b >> (w - 1) else b
        if op in ("udiv", "urem") and b or op in ("sdiv", "srem") and sb:
            q = a // b if op[0] == "u" else int(abs(sa) // abs(sb)) * (1 if (sa < 0) == (sb < 0) else -1)
            return AV.const(q if op.endswith("div") else (a - q * b if op[0] == "u" else sa - q * sb), w)
        f = {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}
        if op in f: return AV.const(f[op], w)
    if op in ("and", "or", "xor"):
        f = {"and": band, "or": bor, "xor": bxor}[op]
        return AV(w, [f(p, q) for p, q in zip(x.b, y.b)])
    if op == "add":
        lo, hi = x.lo + y.lo, x.hi + y.hi
        if hi > M: lo, hi = (lo - M - 1, hi - M - 1) if lo > M else (0, M)
        return AV(w, add(x, y), lo, hi)
    if op == "sub":
        lo, hi = x.lo - y.hi, x.hi - y.lo
        if lo < 0: lo, hi = (lo + M + 1, hi + M + 1) if hi < 0 else (0, M)
        return AV(w, add(x, AV(w, [None if isinstance(q, tuple) or q is None else 1 - q for q in y.b]), 1), lo, hi)
    if op == "mul":
        for p, q in ((x, y), (y, x)):
            c = p.cval()
            if c is not None:
                r = AV.const(0, w)
                for k in range(w):
                    if c >> k & 1: r = binop("add", r, shl(q, k), w)
                return AV(w, r.b, *( (q.lo * c, q.hi * c) if q.hi * c <= M else (0, M)))
        return AV(w, None, x.lo * y.lo, x.hi * y.hi) if x.hi * y.hi <= M else AV(w)
    if op in ("udiv", "urem") and y.cval():
        c = y.cval()
        if c & (c - 1) == 0:
            k = c.bit_length() - 1
            return lshr(x, k) if op == "udiv" else AV(w, list(x.b[:k]) + [0] * (w - k))
        if op == "udiv": return AV(w, None, x.lo // c, x.hi // c)
        return AV(w, None, 0, c - 1) if x.lo // c != x.hi // c else AV(w, None, x.lo % c, x.hi % c)
    return AV(w)
def shl(x, k):
    w = x.w
    if k >= w: return AV(w)
    lo, hi = x.lo << k, x.hi << k
    return AV(w, [0] * k + list(x.b[:w - k]), *((lo, hi) if hi < 1 << w else (0, None)))
def lshr(x, k): return AV(x.w, list(x.b[k:]) + [0] * k, x.lo >> k, x.hi >> k) if k < x.w else AV(x.w)
def ashr(x, k): return AV(x.w, list(x.b[k:]) + [x.b[-1]] * k) if k < x.w else AV(x.w)
def flip(x):
    """signed order as unsigned order"""
    t = x.b[-1]
    h = 1 << (x.w - 1)
    if t == 0: return x.lo + h, x.hi + h
    if t == 1: return x.lo - h, x.hi - h
    return 0, (1 << x.w) - 1
def icmp(p, x, y):
    if p in ("eq", "ne"):
        r = None
        if x.lo > y.hi or y.lo > x.hi or any(a in (0, 1) and b in (0, 1) and a != b for a, b in zip(x.b, y.b)): r = 0
        elif x.b == y.b and None not in x.b or x.cval() is not None and x.cval() == y.cval(): r = 1
        return r if r is None or p == "eq" else 1 - r
    (a, b), (c, d) = ((x.lo, x.hi), (y.lo, y.hi)) if p[0] == "u" else (flip(x), flip(y))
    if p[1:] in ("gt", "ge"): (a, b), (c, d) = (c, d), (a, b)
    if p[1:] in ("lt", "gt"): return 1 if b < c else 0 if a >= d else None
    return 1 if b <= c else 0 if a > d else None

class Run:
    def __init__(s, m, hooks=None): s.hooks = hooks or {}; s.m = m; s.steps = 0; s.forks = 0
    def call(s, f, args, depth=0):
        """abstract results of all paths"""
        if depth > 8: raise Imprecise("call depth")
        out = []
        todo = [(0, -1, {})]; seen = set()
        while todo:
            b, prev, env = todo.pop()
            blk = f.blocks[b]
            new = {}
            for i in blk.insts:
                if i.op == "phi": new[i.id] = s.val(f, [v for p, v in i.d["inc"] if p == prev][0], env, args, i.t)
                else: break
            env = dict(env); env.update(new)
            for i in blk.insts[len(new):]:
                s.steps += 1
                if s.steps > STEPS: raise Imprecise("too many steps")
                if i.op == "ret":
                    if i.ops: out.append(s.val(f, i.ops[0], env, args, f.ret))
                    break
                if i.op == "br":
                    if len(i.ops) == 1: todo.append((blk.succ[0], b, env)); break
                    c = s.val(f, i.ops[0], env, args, "i1"); fb, tb = i.ops[1][1], i.ops[2][1]
                    cv = c.cval()
                    if cv is None: s.forks += 1
                    if s.forks > 400: raise Imprecise("undecided branches")
                    if cv != 0: todo.append((tb, b, env))
                    if cv != 1: todo.append((fb, b, env))
                    break
                if i.op == "switch":
                    v = s.val(f, i.ops[0], env, args, None); cs = [(int(c), t) for c, t in i.d["cases"]]
                    hit = []; sure = False
                    for c, t in cs:
                        r = icmp("eq", v, AV.const(c, v.w))
                        if r == 1: sure = True
                        if r != 0: hit.append(t)
                    if not sure: hit.append(i.d["default"])
                    if len(hit) > 1: s.forks += 1
                    for t in hit: todo.append((t, b, env))
                    break
                if i.op == "unreachable": break
                if i.op == "store": s.store(f, i, env, args); continue
                env[i.id] = s.inst(f, i, env, args, depth)
        return out
    def store(s, f, i, env, args):
        p = s.val(f, i.ops[1], env, args, "ptr"); v = s.val(f, i.ops[0], env, args, i.d.get("vt"))
        if not isinstance(p, tuple) or p[0] != "m": raise Imprecise("store at " + i.inrepo())
        mem = dict(env.get("mem", {})); off = p[2].cval()
        if off is None or isinstance(v, tuple): mem = {k: x for k, x in mem.items() if k[0] != p[1]}
        else:
            n = (v.w + 7) // 8
            mem = {k: x for k, x in mem.items() if k[0] != p[1] or k[1] + (x.w + 7) // 8 <= off or k[1] >= off + n}
            mem[(p[1], off)] = v
        env["mem"] = mem
    def copy(s, f, i, env, args):
        d = s.val(f, i.ops[0], env, args, "ptr"); c = s.val(f, i.ops[1], env, args, "ptr"); n = s.val(f, i.ops[2], env, args, "i64").cval()
        if not (isinstance(d, tuple) and d[0] == "m" and isinstance(c, tuple) and d[2].cval() is not None and c[2].cval() is not None and n): raise Imprecise("copy at " + i.inrepo())
        mem = {k: x for k, x in env.get("mem", {}).items() if k[0] != d[1] or not d[2].cval() <= k[1] < d[2].cval() + n}
        if c[0] == "g":
            g = s.m.globals.get(c[1], {})
            if "ints" not in g or not g.get("const"): raise Imprecise("copy at " + i.inrepo())
            for k, v in enumerate(g["ints"]):
                o = k * g["ew"] - c[2].cval()
                if 0 <= o < n: mem[(d[1], d[2].cval() + o)] = AV.const(int(v), 8 * g["ew"])
        else:
            for (a, o), v in list(mem.items()):
                if a == c[1] and 0 <= o - c[2].cval() < n: mem[(d[1], d[2].cval() + o - c[2].cval())] = v
        env["mem"] = mem
    def width(s, t):
        if t and t[0] == "i" and t[1:].isdigit(): return int(t[1:])
        if t == "ptr": return 64
        return None
    def val(s, f, r, env, args, t):
        k = r[0]
        if k == "i" and r[1] not in env: raise Imprecise("no value")
        if k == "c": return AV.const(int(r[1]), r[2])
        if k == "a": return args[r[1]]
        if k == "i": return env[r[1]]
        if k in ("null", "zero"): return AV.const(0, s.width(t) or 64)
        if k in ("undef", "poison"): return AV(s.width(t) or 64)
        if k == "g": return ("g", r[1], AV.const(0, 64))
        if k == "ce" and r[1] == "getelementptr" and len(r) > 3:
            b = s.val(f, r[2][0], env, args, "ptr")
            if isinstance(b, tuple): return (b[0], b[1], binop("add", b[2], AV.const(r[3], 64), 64))
        raise Imprecise("operand %s" % (r,))
    def inst(s, f, i, env, args, depth):
        o = i.ops; w = s.width(i.t); V = lambda n: s.val(f, o[n], env, args, i.t)
        op = i.op
        if op in ("add", "sub", "mul", "and", "or", "xor", "udiv", "urem", "sdiv", "srem"):
            x, y = V(0), V(1)
            if op in ("sdiv", "srem") and x.b[-1] == 0 and y.b[-1] == 0: op = "u" + op[1:]
            return binop(op, x, y, w)
        if op in ("shl", "lshr", "ashr"):
            x, y = V(0), V(1); f2 = {"shl": shl, "lshr": lshr, "ashr": ashr}[op]
            if y.cval() is not None: return f2(x, y.cval())
            if y.hi - y.lo <= 64 and y.hi < w:
                r = None
                for k in range(y.lo, y.hi + 1): r = f2(x, k) if r is None else join(r, f2(x, k))
                return r
            return AV(w)
        if op == "zext": x = V(0); return AV(w, list(x.b) + [0] * (w - x.w), x.lo, x.hi)
        if op == "sext": x = V(0); return AV(w, list(x.b) + [x.b[-1]] * (w - x.w))
        if op == "trunc": x = V(0); return AV(w, x.b[:w], *((x.lo, x.hi) if x.hi < 1 << w else (0, None)))
        if op in ("freeze", "bitcast"): return V(0)
        if op == "icmp":
            x, y = V(0), V(1)
            if isinstance(x, tuple) or isinstance(y, tuple): return AV(1)
            r = icmp(i.d["pred"], x, y)
            return AV(1) if r is None else AV.const(r, 1)
        if op == "select":
            c = s.val(f, o[0], env, args, "i1").cval()
            if c is not None: return V(1) if c else V(2)
            x, y = V(1), V(2)
            return join(x, y)
        if op == "getelementptr":
            b = V(0)
            if not isinstance(b, tuple) or "goff" not in i.d: raise Imprecise("address at " + i.inrepo())
            r = binop("add", b[2], AV.const(i.d["goff"], 64), 64)
            for v, sc in i.d["gvar"]:
                x = s.val(f, v, env, args, None)
                x = AV(64, list(x.b) + [0 if x.b[-1] == 0 else None] * (64 - x.w), x.lo, x.hi if x.b[-1] == 0 else None) if x.w < 64 else x
                r = binop("add", r, binop("mul", x, AV.const(sc, 64), 64), 64)
            return (b[0], b[1], r)
        if op == "alloca": return ("m", (depth, i.id), AV.const(0, 64))
        if op == "load":
            b = V(0)
            if not isinstance(b, tuple): raise Imprecise("load at " + i.inrepo())
            off = b[2].cval()
            if b[0] == "m":
                v = env.get("mem", {}).get((b[1], off))
                if off is None or v is None or v.w != w: raise Imprecise("load at " + i.inrepo())
                return v
            g = s.m.globals.get(b[1], {})
            if off is None or "ints" not in g or not g.get("const"): raise Imprecise("table at " + i.inrepo())
            es, vs = g["ew"], g["ints"]
            if off % es or off // es >= len(vs) or es * 8 != w: raise Imprecise("table access at " + i.inrepo())
            return AV.const(int(vs[off // es]), w)
        if op in ("call", "invoke"):
            c = i.callee or ""
            if i.d.get("intr"):
                n = c.split(".")[1]
                if n in ("memcpy", "memmove"): s.copy(f, i, env, args); return None
                if n == "assume" or n == "dbg" or n == "lifetime" or n == "experimental": return None
                x = V(0)
                if n == "ctlz": 
                    if x.hi == 0: return AV.const(w, w)
                    return AV(w, None, w - x.hi.bit_length(), w - x.lo.bit_length())
                if n == "cttz":
                    lo = hi = None
                    for k, t in enumerate(x.b):
                        if t != 0 and lo is None: lo = k
                        if t == 1: hi = k; break
                    return AV(w, None, w if lo is None else lo, w if hi is None else hi)
                if n == "ctpop": return AV(w, None, sum(t == 1 for t in x.b), sum(t != 0 for t in x.b))
                if n in ("umax", "umin", "smax", "smin"):
                    y = V(1); r = icmp({"umax": "uge", "umin": "ule", "smax": "sge", "smin": "sle"}[n], x, y)
                    if r is not None: return x if r else y
                    j = join(x, y)
                    if n == "umax": return AV(w, j.b, max(x.lo, y.lo), max(x.hi, y.hi))
                    if n == "umin": return AV(w, j.b, min(x.lo, y.lo), min(x.hi, y.hi))
                    return j
                if n in ("fshl", "fshr"):
                    y, z = V(1), V(2).cval()
                    if z is None: return AV(w)
                    z %= w; bb = list(y.b) + list(x.b); k = (w - z if n == "fshl" else z)
                    return AV(w, bb[k:k + w])
                if n == "bitreverse": return AV(w, x.b[::-1])
                if n == "bswap": return AV(w, [t for k in range(w - 8, -1, -8) for t in x.b[k:k + 8]])
                if n == "expect": return x
                if n == "abs":
                    if x.b[-1] == 0: return x
                    return AV(w)
                raise Imprecise("intrinsic " + c)
            if i.cname() in s.hooks: return s.hooks[i.cname()]([s.val(f, x, env, args, None) for x in o], w)
            g = s.m.functions.get(c)
            if g is None or g.decl: raise Imprecise("call of %s at %s" % (i.cname(), i.inrepo()))
            rs = s.call(g, [s.val(f, x, env, args, g.args[k]["t"]) for k, x in enumerate(o)], depth + 1)
            if not rs: raise Imprecise("no return")
            r = rs[0]
            for q in rs[1:]: r = join(r, q)
            return r
        raise Imprecise("%s at %s" % (op, i.inrepo()))
