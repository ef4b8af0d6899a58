"""Strings in fixed-size buffers: lengths are intervals along every path; a copy, concatenation or formatted write has to
fit the array (or allocation) it goes to, and what is read as a string has to end."""
import itertools, re, build, ir, summ, worlds, outcome
from summ import Poly
from c05 import CONFIGS
from worlds import Worlds, iv, isi, exact, libname, gstr
LONG = (1 << 31) - 1                    # an argument, name or line may be as long as that
STRFN = "^(strlen|strnlen|str(n|l)?(cpy|cat)|stp(n)?cpy|(__)?mem(cpy|move|set)|v?sn?printf|sscanf|__isoc[0-9]+_[fs]?scanf|fgets|gets|scanf)$"
EXAMINED = ("strcmp", "strncmp", "strcasecmp", "strncasecmp", "strchr", "strrchr", "strstr", "fopen", "fopen64", "printf", "fprintf", "puts", "fputs", "atoi", "atol", "strtol", "strtoul", "strtod", "atof", "access", "stat", "open", "remove", "unlink", "perror", "rename")
FMT = re.compile(r"%(?P<fl>[-+ #0']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+)?)?(?P<l>hh|h|ll|l|q|j|z|t|L)?(?P<c>[a-zA-Z%])|%(?P<bad>.)", re.S)
SCAN = re.compile(r"%(?P<s>\*)?(?P<w>\d+)?(?P<l>hh|h|ll|l|q|j|z|t|L|m)?(?P<c>\[\^?\]?[^]]*\]|[a-zA-Z%])", re.S)
DIGITS = {8: 3, 16: 5, 32: 10, 64: 20}
class Strings(Worlds):
    """string state of an object: ("s", shortest, longest, surely ended within the array, everything from here on is zero)"""
    def __init__(s, m, f, **kw):
        Worlds.__init__(s, m, f, **kw); s.done = {}; s.examined = set(); s.assumed = {}
        s.sized = {}; s.rels = {}
        s.argload = {}
    # ---------------------------------------------------------------- objects
    def cap(s, root):
        if isinstance(root, tuple) and root[0] == "a":
            n = s.f.inst[root[1]].d.get("size"); return None if n is None else int(n)
        if isinstance(root, tuple) and root[0] == "g":
            t = re.fullmatch(r"\[(\d+) x i8\]", (s.m.globals.get(root[1]) or {}).get("t") or "")
            return int(t.group(1)) if t else None
        return None
    def place(s, o, st):
        """(object, lowest offset, highest offset) or None"""
        v = s.val(o, st)
        if v is None or v[0] != "obj": return None
        if v[2] is not None: return v[1], v[2], v[2]
        if o[0] == "i":
            i = s.f.inst[o[1]]
            if i.op == "getelementptr" and "goff" in i.d:
                b = s.place(i.ops[0], st)
                if b is not None and b[1] is not None:
                    lo, hi = b[1] + i.d["goff"], (None if b[2] is None else b[2] + i.d["goff"])
                    for x, sc in i.d["gvar"]:
                        w = s.val(x, st)
                        if not isi(w) or w[1] is None or w[2] is None or sc <= 0: return b[0], None, None
                        lo += w[1] * sc; hi = None if hi is None else hi + w[2] * sc
                    return b[0], lo, hi
        return v[1], None, None
    def root(s, o, st):
        """what a string operand is: (kind, key)"""
        if o[0] == "g" or o[0] == "ce":
            t = gstr(s.m, o)
            if t is not None: return "const", len(t.encode("latin-1", "replace")) if not isinstance(t, bytes) else len(t)
        p = s.place(o, st)
        if p is not None:
            r, lo, hi = p
            if isinstance(r, int) and libname(s.f.inst[r]) in ("mm_typecode_to_str", "mm_strdup", "strdup"): return "ext", ("ext", r)
            if r == "argv" or isinstance(r, tuple) and r[0] in ("arg", "argi", "ext"): return "ext", r
            return "obj", p
        k = s.extkey(o)
        return ("ext", k) if k else ("?", None)
    def fromargs(s, o):
        """the text of an argument is looked at character by character"""
        e = s.fullval(o)
        return e is not None and any(re.match(r"\[[^]\[]*#?arg1[^]\[]*\]:ptr$", str(a)) or str(Poly.atom(a)).startswith("[") and "arg1]" in str(Poly.atom(a)) for a in e.atoms())
    def extkey(s, o):
        if o[0] in ("null", "c"): return None
        e = s.fullval(o)
        return ("ext", str(e)) if e is not None else None
    def length(s, o, st):
        """(shortest, longest, ended, known) of a string that is read"""
        k, r = s.root(o, st)
        if k == "const": return r, r, True, True
        if k == "ext":
            lo, hi = s.facts(r, st)
            return lo, hi, True, True
        if k == "obj":
            root, off, offhi = r
            g = s.m.globals.get(root[1]) if isinstance(root, tuple) and root[0] == "g" else None
            if g is not None and g.get("str") is not None and off is not None and off == offhi:
                t = g["str"].split("\0")[0]
                if off <= len(t): return len(t) - off, len(t) - off, True, True
            v = st.mem.get((root, "str"))
            if v is None: return 0, LONG, True, False
            c = s.cap(root); ended = v[3] or c is not None and v[4] is not None and v[4] < c
            if off == 0 == offhi or off is None: return (v[1] if off is not None else 0), v[2], ended, True
            return max(0, v[1] - (offhi if offhi is not None else v[2])), max(0, v[2] - off), ended, True
        return 0, LONG, True, False
    def facts(s, r, st):
        f = st.env.get(("len", r))
        lo, hi = (f[1] or 0, LONG if f[2] is None else f[2]) if f else (0, LONG)
        if isinstance(r, tuple) and r[0] == "arg":
            for k, v in st.env.items():
                if isinstance(k, tuple) and k[0] == "all" and v[0] == "all" and v[1] <= r[1] and (r[1] - v[1]) % v[4] == 0 and all(c is None or r[1] < c for c in v[3]): hi = min(hi, v[2])
        return lo, hi
    def put(s, root, st, lo, hi, ended, z=None):
        old = st.mem.get((root, "str")); oz = old[4] if old else None
        if z is None: z = oz
        st.mem[(root, "str")] = ("s", lo, min(hi, LONG), ended, z if z is None else max(z, min(hi + 1, LONG) if hi < LONG else LONG))
    # ---------------------------------------------------------------- verdicts
    def judge(s, i, st, ok, text, n, key=""):
        """ok: True, False or None (undecided)"""
        k = (n, worlds.where(i), i.id)
        if ok is None: s.unknown.setdefault(("text", worlds.where(i), n), ("text", i, text, None))
        elif not ok:
            if st.unc or ("lost",) in st.env: s.unknown.setdefault(("text", worlds.where(i), n), ("text", i, text, None))
            else: s.found.setdefault(("text", worlds.where(i), n), ("text", i, text, None))
        s.done.setdefault(k, i)
    def polyfits(s, i, dst, off, need):
        """the allocation is at least as large as need, by closed form"""
        return s.sized_poly(dst, off, need)
    def sized_poly(s, dst, need):
        try:
            r = dst
            while r[0] == "i" and s.f.inst[r[1]].op == "getelementptr": 
                j = s.f.inst[r[1]]
                if j.d.get("goff", 1) or j.d.get("gvar"): return None
                r = j.ops[0]
            if r[0] != "i": return None
            a = s.f.inst[r[1]]; n = libname(a) if a.op == "call" else ""
            if n in ("malloc",) or (a.callee or "") in ("_Znam", "_Znwm"): size = s.fullval(a.ops[0])
            elif n == "calloc": x, y = s.fullval(a.ops[0]), s.fullval(a.ops[1]); size = x * y if x is not None and y is not None else None
            else: return None
        except (KeyError, TypeError): return None
        if size is None or need is None: return None
        d = strip(size) - strip(need)
        if all(v >= 0 for v in d.m.values()): return True
        if d.isconst(): return False
        return None
    def lenpoly(s, o):
        """length of an unknown string as a closed form: the value of a strlen of the same string"""
        p = s.fullval(o)
        if p is None: return None
        for i in s.f.calls():
            if libname(i) == "strlen" and s.fullval(i.ops[0]) == p: return s.fullval(["i", i.id])
        return None
    def fits(s, i, st, dst, need, what, needpoly=None, exactneed=True):
        """need bytes (a number) are written from dst on"""
        p = s.place(dst, st)
        cap = s.cap(p[0]) if p is not None and p[0] is not None else None
        if cap is not None and p[1] is not None:
            hi = p[2] if p[2] is not None else None
            if hi is not None and hi + need <= cap: s.judge(i, st, True, "", what); return True
            if needpoly is not None:                       # correlated: size - offset
                base = s.fullval(dst); e = s.offpoly(dst)
                if e is not None:
                    d = Poly.const(cap) - (strip(e) + strip(needpoly))
                    if all(v >= 0 for v in d.m.values()): s.judge(i, st, True, "", what); return True
            if hi is None or p[1] != p[2]:
                ok = None if p[1] + (need if need < LONG else 0) <= cap else False
                if need >= LONG and not exactneed: ok = None
            else: ok = False
            s.judge(i, st, ok, "%s can write %s into an array of %d%s" % (what, "%d bytes" % need if need < LONG else "any number of bytes", cap, " at offset %d" % p[1] if p[1] else ""), what); return ok
        if needpoly is not None:
            r = s.sized_poly(dst, needpoly)
            if r: s.judge(i, st, True, "", what); return True
            if r is False: s.judge(i, st, False, "%s writes more than was allocated" % what, what); return False
        a = s.f.inst.get(dst[1]) if dst[0] == "i" else None
        if a is not None and a.op == "call" and libname(a) == "malloc":
            c = s.val(a.ops[0], st)
            if isi(c) and c[1] is not None and c[1] >= need and need < LONG: s.judge(i, st, True, "", what); return True
            c = exact(c)
            if c is not None and c < need: s.judge(i, st, False, "%s can write %d bytes into %d allocated" % (what, need, c), what); return False
        s.judge(i, st, None, "%s: the size of the destination is not known" % what, what); return None
    def offpoly(s, o):
        """offset of a pointer in its object, as a closed form"""
        if o[0] != "i": return None
        i = s.f.inst[o[1]]
        if i.op == "alloca": return Poly.const(0)
        if i.op == "getelementptr" and "goff" in i.d:
            b = s.offpoly(i.ops[0])
            if b is None: return None
            r = b + Poly.const(i.d["goff"])
            for v, sc in i.d["gvar"]:
                e = s.fullval(v)
                if e is None: return None
                r = r + e * Poly.const(sc)
            return r
        return None
    def ended(s, i, st, o, what, limit=None):
        lo, hi, e, known = s.length(o, st)
        k, r = s.root(o, st)
        if k in ("ext", "?"): s.within(i, st, o, what)
        if k == "obj":
            if not known:
                root = r[0]
                if isinstance(root, tuple) and root[0] == "a" and st.mem.get((root, "raw")) is None and s.virgin(root, st): s.judge(i, st, False, "%s reads an array in which no string has been stored" % what, what + " reads")
                else: s.judge(i, st, None, "%s reads a string whose end is not known" % what, what + " reads")
            elif not e and (limit is None or limit > lo): s.judge(i, st, False, "%s reads a string that may not be ended" % what, what + " reads")
            else: s.judge(i, st, True, "", what + " reads")
        return lo, hi, e, known
    def virgin(s, root, st): return ("touched", root) not in st.env
    def touch(s, root, st):
        if isinstance(root, tuple): st.env[("touched", root)] = ("t",)
    # ---------------------------------------------------------------- instructions
    def argv(s, i, k, st): pass
    def step(s, i, st):
        if i.op == "load":
            a = s.val(i.ops[0], st)
            if s.main and a and a[0] == "obj" and a[1] == "argv":
                if a[2] is not None: st.env[i.id] = ("obj", ("arg", a[2] // 8), 0); st.env[("seen", i.id)] = ("seen", a[2] // 8); return [st]
                e = s.fullval(["i", i.id]); x = argindex(s, i)
                st.env.pop(("seen", i.id), None)
                if e is not None and x is not None: st.env[i.id] = ("obj", ("argi", str(e), x), 0)
                else: st.env.pop(i.id, None); s.examined.add("argv")
                return [st]
            if a and a[0] == "obj" and isinstance(a[1], tuple) and a[1][0] in ("arg", "argi", "ext"): s.examined.add(a[1])
            elif i.t == "i8" and s.fromargs(i.ops[0]): s.examined.add("chars")
        if i.op == "store":
            p = s.place(i.ops[1], st); v = s.val(i.ops[0], st)
            if v and v[0] == "obj" and isinstance(v[1], tuple) and v[1][0] == "a": s.touch(v[1], st)
            if p is not None and isinstance(p[0], tuple) and p[0][0] in ("a", "g"):
                root = p[0]; c = s.cap(root); w = int(i.d.get("sz") or SZ.get(i.d.get("vt"), 1))
                if i.d.get("vt", "").startswith("i"):
                    if p[1] is not None and c is not None and isarray(s, root):
                        ok = True if p[2] is not None and p[2] + w <= c else False if p[1] == p[2] else None
                        if ok is None and s.walks(i): ok = True
                        s.judge(i, st, ok, "a store at offset %s of an array of %d" % (p[1], c), "store")
                    elif c is not None and isarray(s, root) and i.d.get("vt") == "i8":
                        s.judge(i, st, True if s.walks(i) else None, "a store at an unknown place of an array of %d" % c, "store")
                    old = st.mem.get((root, "str"))
                    if i.d.get("vt") == "i8" and p[1] is not None and p[1] == p[2] and exact(v) == 0:
                        if old is not None: st.mem[(root, "str")] = ("s", min(old[1], p[1]), min(old[2], p[1]) if not old[3] or p[1] <= old[2] else old[2], True, old[4])
                        elif p[1] == 0: st.mem[(root, "str")] = ("s", 0, 0, True, None)
                        elif c is not None: st.mem[(root, "str")] = ("s", 0, p[1], True, None) if not s.virgin(root, st) else ("s", 0, p[1], True, None)
                    elif old is not None and not s.walks(i):
                        if p[2] is not None and p[1] == p[2] and exact(v) not in (None, 0) and old[3] and p[1] < old[1]: pass
                        else:
                            del st.mem[(root, "str")]
                s.touch(root, st)
                keep = st.mem.get((root, "str")); out = Worlds.step(s, i, st)
                if keep is not None:
                    for x in out: x.mem[(root, "str")] = keep
                return out
        return Worlds.step(s, i, st)
    def walks(s, i):
        """a character that is not the end of its string is replaced: the pointer moves from the start of a string and
        stops at its end"""
        o = i.ops[1]
        if o[0] != "i": return False
        l = s.f.loopof.get(i.bb.id, -1)
        if l == -1: return False
        # the block is reached only where the character read at the same pointer is not zero
        lp = s.f.loops[l]; h = s.f.blocks[lp.header]
        for b in lp.blocks:
            t = s.f.blocks[b].insts[-1]
            if t.op != "br" or len(t.ops) != 3 or t.ops[0][0] != "i": continue
            if all(x in lp.blocks for x in (t.ops[1][1], t.ops[2][1])): continue
            c = s.f.inst[t.ops[0][1]]
            if c.op != "icmp" or c.d["pred"] not in ("eq", "ne") or c.ops[1][0] not in ("c", "zero") or c.ops[1][0] == "c" and int(c.ops[1][1]) != 0: continue
            x = c.ops[0]
            while x[0] == "i" and s.f.inst[x[1]].op in ("zext", "sext", "trunc"): x = s.f.inst[x[1]].ops[0]
            if x[0] != "i": continue
            ld = s.f.inst[x[1]]
            p = s.samechar(ld, lp)
            if p is not None and (p == o or s.fullval(p) is not None and s.fullval(p) == s.fullval(o)): return True
        return False
    def samechar(s, ld, lp):
        """address of the character tested in a loop"""
        if ld.op == "load": return ld.ops[0]
        if ld.op == "phi":                      # rotated: the value read for the next round
            ps = [s.f.inst[v[1]].ops[0] for _, v in ld.d["inc"] if v[0] == "i" and s.f.inst[v[1]].op == "load"]
            for i in s.f.blocks[ld.bb.id].insts:
                if i.op == "phi" and sorted(str(v) for _, v in i.d["inc"]) == sorted(map(str, ps)): return ["i", i.id]
        return None
    # ---------------------------------------------------------------- refinement
    def assume(s, r, truth, st):
        if not Worlds.assume(s, r, truth, st): return False
        s.back(st)
        i = s.f.inst[r[1]] if r[0] == "i" else None
        if i is not None and i.op == "icmp" and i.ops[0][0] != "null":
            a, b = s.fullval(i.ops[0]), s.fullval(i.ops[1]); p = i.d["pred"] if truth else summ.NEGPRED[i.d["pred"]]
            if a is not None and b is not None and "strlen" in str(a) + str(b) and p != "ne":
                a, b = strip(a), strip(b); one = Poly.const(1); q = p[-2:]
                for d in ([a - b, b - a] if p == "eq" else [a - b] if q == "ge" else [a - b - one] if q == "gt" else [b - a] if q == "le" else [b - a - one]):
                    s.rels[str(d)] = d; st.env[("rel", str(d))] = ("t",)
        return True
    def within(s, i, st, o, what):
        """a pointer into a string of the caller stays between its start and its end"""
        if o[0] != "i": return
        g = s.f.inst[o[1]]
        if g.op != "getelementptr" or "goff" not in g.d or len(g.d["gvar"]) > 1 or s.place(o, st) is not None and isinstance(s.place(o, st)[0], tuple) and s.place(o, st)[0][0] in ("a", "g"): return
        b = s.fullval(g.ops[0])
        if b is None or not any(libname(c) == "strlen" and s.fullval(c.ops[0]) == b for c in s.f.calls()): return
        off = Poly.const(g.d["goff"]); lo = g.d["goff"]
        for v, sc in g.d["gvar"]:
            e = s.fullval(v); w = s.val(v, st)
            if e is None: return
            off = off + strip(e) * Poly.const(sc); lo = lo + w[1] * sc if lo is not None and isi(w) and w[1] is not None and sc > 0 else None
        l = [c for c in s.f.calls() if libname(c) == "strlen" and s.fullval(c.ops[0]) == b][0]; n = strip(s.fullval(["i", l.id]))
        rels = [s.rels[k[1]] for k in st.env if isinstance(k, tuple) and k[0] == "rel"]
        iva = {}
        for c in s.f.calls():
            if libname(c) == "strlen" and s.fullval(["i", c.id]) is not None:
                for a in strip(s.fullval(["i", c.id])).atoms():
                    x = s.length(c.ops[0], st); iva[a] = (x[0], x[1] if x[1] < LONG else None)
        def nonneg(d):
            low = 0
            for k, v in d.m.items():
                if not k: low += v; continue
                x = iva.get(k[0]) if len(k) == 1 else None
                x = x or (0, None)
                if v < 0 and x[1] is None: return False
                low += v * (x[0] if v > 0 else x[1])
            return low >= 0
        for d, name, sure in ((off, "start", lo is not None and lo >= 0), (n - off, "end", False)):
            if sure or nonneg(d) or any(nonneg(d - r) for r in rels): s.judge(i, st, True, "", what + " in"); continue
            cl = set(d.atoms()); near = [r for r in rels if set(r.atoms()) & cl]
            for r in near: cl |= set(r.atoms())
            ok = None
            if 1 <= len(cl) <= 3 and all("strlen" in str(a)[:60] and all(len(k) <= 1 for k in x.m) for x in near + [d] for a in x.atoms()):
                for vals in itertools.product(range(6), repeat=len(cl)):
                    if any(not iva.get(a, (0, None))[0] <= x or iva.get(a, (0, None))[1] is not None and x > iva[a][1] for a, x in zip(cl, vals)): continue
                    A = dict(zip(cl, vals)); ev = lambda x: sum(v * (A[k[0]] if k else 1) for k, v in x.m.items())
                    if ev(d) < 0 and all(ev(r) >= 0 for r in near): ok = False; break
            s.judge(i, st, ok, "%s reads a string past its %s (nothing on the path says that the one is as long as the other)" % (what, name), what + " in")
    def back(s, st):
        """what is known about a value computed from a length is known about the length"""
        for _ in range(3):
            ch = False
            for k in [k for k in st.env if isinstance(k, int)]:
                v = st.env[k]; i = s.f.inst.get(k)
                if i is None or not isi(v): continue
                if i.op in ("add", "sub") and i.ops[1][0] == "c" and i.ops[0][0] == "i":
                    c = int(i.ops[1][1]); c = c if i.op == "add" else -c
                    if c >= 1 << 62: c -= 1 << 64
                    o = st.env.get(i.ops[0][1])
                    if isi(o) and o[1] is not None and o[1] + c >= 0: ch |= s.narrow(i.ops[0][1], None if v[1] is None else v[1] - c, None if v[2] is None else v[2] - c, st)
                elif i.op == "add" and i.ops[0][0] == "i" and i.ops[1][0] == "i":
                    for x, y in ((0, 1), (1, 0)):
                        o = st.env.get(i.ops[y][1])
                        if isi(o) and o[1] is not None and v[2] is not None: ch |= s.narrow(i.ops[x][1], None, v[2] - o[1], st)
                elif i.op in ("zext", "sext", "trunc", "freeze") and i.ops[0][0] == "i":
                    o = st.env.get(i.ops[0][1])
                    if isi(o) and o[1] is not None and o[1] >= 0 and o[2] is not None and o[2] <= LONG: ch |= s.narrow(i.ops[0][1], v[1], v[2], st)
                elif i.op == "call" and libname(i) == "strlen":
                    k2, r = s.root(i.ops[0], st)
                    if k2 == "ext":
                        lo, hi = s.facts(r, st)
                        nlo, nhi = max(lo, v[1] or 0), min(hi, LONG if v[2] is None else v[2])
                        if (nlo, nhi) != (lo, hi): st.env[("len", r)] = iv(nlo, nhi); ch = True
                    elif k2 == "obj" and st.env.get(("lenof", i.id)) == ("t",):
                        m = st.mem.get((r[0], "str"))
                        if m and r[1] == 0 and v[2] is not None and (v[2] < m[2] or (v[1] or 0) > m[1]): st.mem[(r[0], "str")] = ("s", max(m[1], v[1] or 0), min(m[2], v[2]), m[3], m[4]); ch = True
            if not ch: return
    def narrow(s, k, lo, hi, st):
        o = st.env.get(k)
        if not isi(o): return False
        nlo = o[1] if lo is None else lo if o[1] is None else max(lo, o[1]); nhi = o[2] if hi is None else hi if o[2] is None else min(hi, o[2])
        if (nlo, nhi) == (o[1], o[2]): return False
        st.env[k] = iv(nlo, nhi, o[3]); return True
    def enter(s, n):
        l = s.headers.get(n.bb)
        if l is not None:
            li = s.f.loops.index(l)
            if n.prev in l.blocks:
                # one more round: what was found out about argv[i] in it
                lo = None; hi = -1; step = None
                for i in s.argloads(li):
                    e = s.fullval(["i", i.id]); x = argindex(s, i)
                    if e is None or x is None or x[0] != li: continue
                    f = n.env.get(("len", ("argi", str(e), x))); k = n.env.pop(("seen", i.id), None)
                    if k is not None: f = n.env.get(("len", ("arg", k[1])))
                    h = f[2] if f and f[2] is not None else LONG
                    if step is not None and (step, lo) != (x[2], x[1]): s.examined.add("argv"); continue
                    hi = h if hi < 0 else min(hi, h); lo = x[1]; step = x[2]
                old = n.env.get(("all", li))
                if hi < 0: hi = LONG; lo = 0; step = 1
                if old and old[0] == "all":
                    hi = max(hi, old[2])
                    if (lo, step) != (old[1], old[4]): s.examined.add("argv"); hi = LONG
                n.env[("all", li)] = ("all", lo, hi, (), step)
            else: n.env.pop(("all", li), None)
            for k in [k for k in n.env if isinstance(k, tuple) and k[0] == "len" and k[1][0] == "argi" and k[1][2][0] == li]: del n.env[k]
        return Worlds.enter(s, n)
    def argloads(s, li):
        if li not in s.argload:
            s.argload[li] = [i for b in s.f.loops[li].blocks for i in s.f.blocks[b].insts if i.op == "load" and i.t == "ptr" and argindex(s, i) is not None]
        return s.argload[li]
    def go(s, st, tgt):
        n = Worlds.go(s, st, tgt)
        for li, l in enumerate(s.f.loops):
            if st.bb in l.blocks and tgt not in l.blocks and ("all", li) in n.env:
                v = n.env[("all", li)]; sc = s.scopes(li, l, st.bb, tgt)
                if sc is None:
                    if v[2] < LONG: n.env[("lost",)] = ("t",)
                    del n.env[("all", li)]
                else: n.env[("all", li)] = (v[0], v[1], v[2], sc, v[4])
        return n
    def scopes(s, li, l, bb, tgt):
        """upper ends of the indexes seen when the loop is left here: a number, or None for the argument count"""
        t = s.f.blocks[bb].insts[-1]
        if t.op != "br" or len(t.ops) != 3: return None
        truth = t.ops[2][1] == tgt
        out = []
        def go(r, truth):
            if r[0] != "i": return False
            c = s.f.inst[r[1]]
            if c.op == "icmp":
                p = c.d["pred"] if truth else summ.NEGPRED[c.d["pred"]]
                for a, b, q in ((c.ops[0], c.ops[1], p), (c.ops[1], c.ops[0], swap(p))):
                    x = s.fullval(a); y = s.fullval(b)
                    if x is None or y is None: continue
                    ivs = [z for z in x.atoms() if z[0] == "iv"]
                    if len(ivs) != 1 or q[-2:] not in ("ge", "gt", "eq"): continue
                    d = x - Poly.atom(ivs[0]) * Poly.const(int(x.m.get((ivs[0],), 0)))
                    if not d.isconst() or int(x.m.get((ivs[0],), 0)) <= 0: continue
                    if y.isconst(): out.append(int(y.cval()) + (q[-2:] == "gt")); return True
                    if y == Poly.atom(("arg", 0, "#arg0")) or str(y) == "#arg0": out.append(None); return True
                return False
            if c.op in ("and", "select") and not truth and (c.op == "and" or c.ops[2][0] == "c" and not int(c.ops[2][1])): return go(c.ops[0], False) and go(c.ops[1], False)
            if c.op in ("or", "select") and truth and (c.op == "or" or c.ops[1][0] == "c" and int(c.ops[1][1])): return go(c.ops[0], True) and go(c.ops[1] if c.op == "or" else c.ops[2], True)
            if c.op == "xor": return go(c.ops[0], not truth)
            return False
        return tuple(out) if go(t.ops[0], truth) else None
    # ---------------------------------------------------------------- calls
    def expansion(s, i, k, st):
        """(shortest, longest, format known) of what a format at operand k becomes"""
        t = gstr(s.m, i.ops[k])
        if t is None: return 0, LONG, False
        lo = hi = 0; pos = 0; a = k + 1; known = True
        for mt in FMT.finditer(t):
            lit = len(t[pos:mt.start()]); lo += lit; hi += lit; pos = mt.end(); c = mt.group("c")
            if c == "%": lo += 1; hi += 1; continue
            w = mt.group("w"); p = mt.group("p")
            if c is None: return 0, LONG, False
            wv = 0; pv = None
            if w == "*": known = False; a += 1
            elif w: wv = int(w)
            if p == "*":
                v = s.val(i.ops[a], st) if a < len(i.ops) else None; a += 1
                pv = v[2] if isi(v) and v[2] is not None else LONG
            elif p: pv = int(p)
            elif "." in mt.group(0): pv = 0
            o = i.ops[a] if a < len(i.ops) else None; a += 1
            if o is None: return 0, LONG, False
            if c == "s":
                l, h, e, kn = s.ended(i, st, o, "a conversion", pv)
                if not kn: known = False
                if pv is not None: l = min(l, pv); h = min(h, pv)
            elif c == "c": l = h = 1
            elif c in "di": l, h = s.digits(o, st, True, mt.group("l"))
            elif c == "u": l, h = s.digits(o, st, False, mt.group("l"))
            elif c in "xX": l, h = 1, 16 + 2
            elif c == "o": l, h = 1, 23
            elif c == "p": l, h = 3, 18
            elif c in "fF": l, h = 1, 310 + 1 + (6 if pv is None else pv) + 1
            elif c in "eEgGaA": l, h = 1, (6 if pv is None else max(1, pv)) + 10 + (14 if c in "aA" else 0)
            else: return 0, LONG, False
            if pv is not None and c in "diuxXo": h = max(h, pv + 1)
            lo += max(l, wv); hi += max(h, wv)
        lit = len(t[pos:]); return lo + lit, min(LONG, hi + lit), known
    def digits(s, o, st, signed, l):
        bits = {"hh": 8, "h": 16, "l": 64, "ll": 64, "q": 64, "j": 64, "z": 64, "t": 64}.get(l, 32)
        v = s.val(o, st); src = o; neg = signed
        while src[0] == "i" and s.f.inst[src[1]].op in ("zext", "sext"):
            j = s.f.inst[src[1]]; w = None
            x = j.ops[0]; tx = s.ftype(x)
            if tx is None: break
            if j.op == "zext": neg = False; bits = min(bits, tx)
            else: bits = min(bits, tx)
            src = x
        h = DIGITS.get(bits, 20) + (1 if neg else 0)
        if bits == 64 and signed: h = 20
        if isi(v) and v[1] is not None and v[2] is not None: h = min(h, max(len(str(v[1])), len(str(v[2])))); return min(len(str(v[1])), len(str(v[2]))) if v[1] >= 0 else 1, h
        return 1, h
    def ftype(s, x):
        if x[0] == "i": t = s.f.inst[x[1]].t
        elif x[0] == "a": t = s.f.args[x[1]]["t"] if isinstance(s.f.args[x[1]], dict) else None
        else: t = None
        return int(t[1:]) if t and re.fullmatch(r"i\d+", t) else None
    def size(s, o, st):
        v = s.val(o, st)
        return (v[1] if v[1] is not None and v[1] >= 0 else 0, v[2]) if isi(v) else (0, None)
    def call(s, i, st):
        n = libname(i); c = i.callee or ""
        if c.startswith("llvm.mem") or n in ("memcpy", "memmove", "memset", "__memcpy_chk", "bzero"): return s.mem(i, st, n if not c.startswith("llvm") else c.split(".")[1])
        n = re.sub(r"^__(\w+)_chk$", r"\1", n)
        if n not in ("strlen", "strnlen", "strcpy", "stpcpy", "strncpy", "stpncpy", "strcat", "strncat", "sprintf", "snprintf", "vsprintf", "vsnprintf", "sscanf", "fscanf", "scanf", "fgets", "gets", "strftime", "strcmp", "strncmp", "fopen", "printf", "fprintf", "puts", "strlcpy"):
            for o in i.ops:
                p = s.place(o, st)
                if p is not None and p[0] is not None:
                    if isinstance(p[0], tuple) and p[0][0] in ("a", "g"): s.touch(p[0], st)
                    if isinstance(p[0], tuple) and p[0][0] in ("arg", "argi", "ext") and n not in EXAMINED: s.examined.add(p[0])
                    if p[0] == "argv" and not c.startswith("llvm."): s.examined.add("argv")
                elif o[0] == "i" and n not in EXAMINED and s.fromargs(o): s.examined.add(s.extkey(o))
            return Worlds.call(s, i, st)
        def ret(v):
            if v is None: st.env.pop(i.id, None)
            else: st.env[i.id] = v
            return [st]
        O = i.ops; root = lambda o: (s.place(o, st) or (None,))[0]
        def setstr(o, lo, hi, ended, z=None):
            p = s.place(o, st)
            if p is None or not isinstance(p[0], tuple) or p[0][0] not in ("a", "g"): return
            s.touch(p[0], st)
            old = st.mem.get((p[0], "str"))
            if p[1] == 0 == p[2]: s.put(p[0], st, lo, hi, ended, z)
            elif p[1] is not None and p[2] is not None and old is not None: s.put(p[0], st, min(old[1], p[1]), p[2] + hi, ended)
            else: st.mem.pop((p[0], "str"), None)
        if n in ("strlen", "strnlen"):
            lo, hi, e, kn = s.ended(i, st, O[0], n)
            if n == "strlen" and s.root(O[0], st)[0] == "obj": st.env[("lenof", i.id)] = ("t",)
            if n == "strnlen":
                m = s.size(O[1], st)[1]; hi = hi if m is None else min(hi, m)
            ret(iv(lo, hi)); return [st]
        if n in ("strcmp", "strncmp"):
            lim = s.size(O[2], st)[1] if n == "strncmp" else None
            for o in O[:2]: s.ended(i, st, o, n, lim)
            return Worlds.call(s, i, st)
        if n in ("fopen", "puts"):
            s.ended(i, st, O[0], n); return Worlds.call(s, i, st)
        if n in ("printf", "fprintf"):
            s.expansion(i, 0 if n == "printf" else 1, st); kept = {k: v for k, v in st.mem.items() if k[1] == "str"}
            out = Worlds.call(s, i, st)
            for x in out:
                for k, v in kept.items(): x.mem.setdefault(k, v)
            return out
        if n in ("strcpy", "stpcpy"):
            lo, hi, e, kn = s.ended(i, st, O[1], n)
            lp = s.lenpoly(O[1])
            s.fits(i, st, O[0], hi + 1, n, lp + Poly.const(1) if lp is not None else None, kn) if kn else s.judge(i, st, None, "the length of what is copied is not known", n)
            setstr(O[0], lo, hi, True); return ret(s.val(O[0], st) if n == "strcpy" else None)
        if n in ("strncpy", "stpncpy"):
            lo, hi, e, kn = s.length(O[1], st); a, b = s.size(O[2], st)
            if not e and (b is None or lo < b): s.ended(i, st, O[1], n, b)
            s.fits(i, st, O[0], LONG if b is None else b, n, s.fullval(O[2]), b is not None) if b is not None or s.fullval(O[2]) is not None else s.judge(i, st, None, "the number of characters is not known", n)
            fin = a > 0 and hi < a
            z = st.mem.get((root(O[0]), "str")); z = z[4] if z else None
            setstr(O[0], min(lo, a), min(hi, LONG if b is None else b), fin)
            r = root(O[0]); 
            if (r, "str") in st.mem:
                v = st.mem[(r, "str")]; st.mem[(r, "str")] = ("s", v[1], v[2], v[3], None if z is None or b is None else max(z, b))
            return ret(s.val(O[0], st) if n == "strncpy" else None)
        if n in ("strcat", "strncat"):
            l0, h0, e0, k0 = s.ended(i, st, O[0], n); l1, h1, e1, k1 = s.ended(i, st, O[1], n) if n == "strcat" else s.length(O[1], st)
            if n == "strncat":
                a, b = s.size(O[2], st); h1 = h1 if b is None else min(h1, b); l1 = min(l1, a)
            if e0 and k0 and k1: 
                q = s.place(O[0], st)
                s.fits(i, st, O[0], h0 + h1 + 1, n)
            elif not (k0 and k1): s.judge(i, st, None, "the length of what is joined is not known", n)
            if k0: setstr(O[0], l0 + l1, min(LONG, h0 + h1), True)
            return ret(s.val(O[0], st))
        if n in ("sprintf", "vsprintf"):
            lo, hi, kn = s.expansion(i, 1, st) if n == "sprintf" else (0, LONG, False)
            s.fits(i, st, O[0], hi + 1, n, None, kn) if kn else s.judge(i, st, None, "the length of what is formatted is not known", n)
            setstr(O[0], lo, hi, True); return ret(iv(lo, hi))
        if n in ("snprintf", "vsnprintf"):
            lo, hi, kn = s.expansion(i, 2, st) if n == "snprintf" else (0, LONG, False); a, b = s.size(O[1], st)
            if not (O[0][0] in ("null", "zero") or exact(s.val(O[1], st)) == 0):
                if b is None and s.fullval(O[1]) is None: s.judge(i, st, None, "the size given is not known", n)
                else:                    # no more than the text itself is written, whatever size is given
                    need = min(LONG if b is None else b, hi + 1)
                    s.fits(i, st, O[0], need, n, s.fullval(O[1]), b is not None or kn)
                setstr(O[0], min(lo, max(0, a - 1)), min(hi, LONG if b is None else max(0, b - 1)), a > 0)
            return ret(iv(lo, hi))
        if n == "strlcpy":
            return Worlds.call(s, i, st)
        if n in ("fgets", "gets"):
            a, b = s.size(O[1], st) if n == "fgets" else (0, None)
            if n == "gets": s.fits(i, st, O[0], LONG, n)
            elif b is None and s.fullval(O[1]) is None: s.judge(i, st, None, "the size given is not known", n)
            else: s.fits(i, st, O[0], LONG if b is None else b, n, s.fullval(O[1]), b is not None)
            out = Worlds.call(s, i, st)
            for x in out:
                v = x.env.get(i.id)
                p = s.place(O[0], x)
                if p is None or not isinstance(p[0], tuple) or p[0][0] not in ("a", "g"): continue
                if exact(v) == 0: s.touch(p[0], x)          # nothing read: what was there is still there, or not
                else: s.touch(p[0], x); s.put(p[0], x, 0, LONG if b is None else max(0, b - 1), True)
                if exact(v) == 0: x.mem.pop((p[0], "str"), None); x.mem[(p[0], "raw")] = ("t",)
            return out
        if n == "strftime":
            a, b = s.size(O[1], st)
            s.fits(i, st, O[0], LONG if b is None else b, n, s.fullval(O[1]), b is not None); setstr(O[0], 0, LONG if b is None else max(0, b - 1), True); return ret(None)
        if n in ("sscanf", "fscanf", "scanf"):
            f = 0 if n == "scanf" else 1; t = gstr(s.m, O[f]); src = LONG
            if n == "sscanf": src = s.ended(i, st, O[0], n)[1]
            outs = []
            if t is None: s.judge(i, st, None, "the format is not known", n)
            else:
                a = f + 1
                for mt in SCAN.finditer(t):
                    ch = mt.group("c")
                    if ch == "%" or mt.group("s"): continue
                    if a >= len(O): break
                    o = O[a]; a += 1
                    if ch[0] in "sS[" and mt.group("l") != "m":
                        w = int(mt.group("w")) if mt.group("w") else src
                        s.fits(i, st, o, min(w, src) + 1, n + " %s"); outs.append((o, min(w, src), ch))
                    elif ch[0] == "c":
                        s.fits(i, st, o, int(mt.group("w") or 1), n + " %c"); outs.append((o, None, ch))
                    else: outs.append((o, -1, ch))
            kept = {k: v for k, v in st.mem.items() if k[1] == "str"}
            res = Worlds.call(s, i, st)
            for x in res:
                for k, v in kept.items(): x.mem.setdefault(k, v)
                v = x.env.get(i.id); done = exact(v) if isi(v) else None
                for j, (o, w, ch) in enumerate(outs):
                    p = s.place(o, x)
                    if p is None or not isinstance(p[0], tuple) or p[0][0] not in ("a", "g"): continue
                    if w == -1: s.touch(p[0], x); continue
                    if done is not None and done <= j:
                        continue                            # not reached: stays as it was
                    s.touch(p[0], x)
                    if w is None: x.mem.pop((p[0], "str"), None)
                    else: s.put(p[0], x, 1, w, True)
            return res
        return Worlds.call(s, i, st)
    def mem(s, i, st, n):
        O = i.ops; a, b = s.size(O[2] if n != "bzero" else O[1], st)
        if n == "inline": n = "memcpy"
        p = s.place(O[0], st); r = p[0] if p else None
        mine = isinstance(r, tuple) and r[0] in ("a", "g") and isarray(s, r)
        src = s.root(O[1], st) if n not in ("memset", "bzero") else ("?", None)
        text = mine or src[0] in ("const", "ext") and p is not None and mine
        before = st.mem.get((r, "str")) if mine else None
        if mine:
            np = s.fullval(O[2] if n != "bzero" else O[1])
            if b is not None or np is not None: s.fits(i, st, O[0], LONG if b is None else b, n, np, b is not None)
            else: s.judge(i, st, None, "the number of bytes is not known", n)
        l = s.length(O[1], st) if n not in ("memset", "bzero") and mine else None
        app = mine and p[1] is not None and p[1] != p[2] and before is not None and p[1] == before[1] and p[2] == before[2]
        out = Worlds.call(s, i, st)
        for x in out:
            if mine:
                s.touch(r, x); x.mem.pop((r, "str"), None)
                if n in ("memset", "bzero"):
                    if p[1] == 0 == p[2] and (n == "bzero" or exact(s.val(O[1], x)) == 0):
                        c = s.cap(r); x.mem[(r, "str")] = ("s", 0, 0, True, 0 if b is not None and c is not None and a >= c else None)
                elif l is not None and l[3] and l[2] <= LONG and p[1] is not None and p[2] is not None:
                    whole = a > l[1] if l[0] == l[1] else True if s.copiesend(i, l) else False
                    if p[1] == 0 == p[2]: x.mem[(r, "str")] = ("s", min(l[0], a), min(l[1], LONG if b is None else b), bool(whole), None)
                    elif before is not None and (app or before[1] >= p[1]): x.mem[(r, "str")] = ("s", p[1] + min(l[0], a), p[2] + min(l[1], LONG if b is None else b), bool(whole), None)
            for o in O[:2]:
                q = s.place(o, x)
                if q is not None and isinstance(q[0], tuple) and q[0][0] == "a": s.touch(q[0], x)
        return out
    def copiesend(s, i, l):
        """the count is the length of the source and one"""
        c, lp = s.fullval(i.ops[2]), s.lenpoly(i.ops[1])
        return c is not None and lp is not None and strip(c) - strip(lp) == Poly.const(1)
SZ = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "ptr": 8, "float": 4, "double": 8}
def isarray(s, root):
    """an array of characters"""
    if root[0] == "a":
        t = s.f.inst[root[1]].d.get("aty") or ""
        return bool(re.match(r"\[\d+ x i8\]", t))
    g = s.m.globals.get(root[1]) or {}
    return bool(re.match(r"\[\d+ x i8\]", g.get("t", "") or "")) and not g.get("const")
def strip(p):
    """lengths fit the types they are stored in"""
    if not isinstance(p, Poly): return p
    out = Poly.const(0)
    for k, v in p.m.items():
        t = Poly.const(v)
        for a in k: t = t * (strip(a[2]) if a[0] in ("trunc",) else strip(a[-1]) if a[0] in ("sext", "zext") and isinstance(a[-1], Poly) else Poly.atom(a))
        out = out + t
    return out
def swap(p): return p if p in ("eq", "ne") else p[0] + {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}[p[1:]]
def argindex(s, i):
    """(loop, first index, step) if this reads argv[i] for the rounds of a loop"""
    e = s.fullval(i.ops[0])
    if e is None: return None
    base = [a for a in e.atoms() if a[0] == "arg" and a[1] == 1]; ivs = [a for a in e.atoms() if a[0] == "iv"]
    if len(base) != 1 or len(ivs) != 1: return None
    d = e - Poly.atom(base[0]); c = int(d.m.get((ivs[0],), 0))
    if c <= 0 or c % 8: return None
    d = d - Poly.atom(ivs[0]) * Poly.const(c)
    l = str(ivs[0][1])
    return (int(l[1:]), int(d.cval()) // 8, c // 8) if d.isconst() and l[:1] == "L" and l[1:].isdigit() else None

def units():
    out = [("prog", s, d) for s, d, _ in outcome.PROGRAMS] + [("mm",)] + [("io", c) for c in CONFIGS[:1]] + [("common",)]
    return out
NB = ("-fno-builtin",)
def load(it):
    if it[0] == "prog":
        bcs = [build.compile(outcome.SRC + it[1], it[2], ndebug=False, extra=NB), build.compile(outcome.SRC + "common.cpp", ndebug=False, extra=NB)]
        m = build.dump(bcs, roots=["^main$"], noinline=build.opaque("mm_.*", "Coo_to_MatrixBlock", "BlockFactory.*", "partition_.*"), libattrs=True, reaching="^(" + outcome.IO[2:-2] + "|" + STRFN[2:-2] + ")$")
        return m, [("main", True)]
    if it[0] == "mm":
        m = build.dump([build.compile(build.REPO + "/dep/mm_io/mm_io.c", ndebug=False, extra=NB)], roots=["^mm_"], noinline=["^mm_"], libattrs=True)
    elif it[0] == "common":
        m = build.dump([build.compile(outcome.SRC + "common.cpp", ndebug=False, extra=NB)], roots=["."], noinline=["."], libattrs=True)
    else:
        bcs = [build.compile(build.VERIF + "/harness/io.cpp", it[1], ndebug=False, extra=NB), build.compile(outcome.SRC + "common.cpp", ndebug=False, extra=NB)]
        m = build.dump(bcs, roots=["^(rd|wr)_"], noinline=build.opaque("mm_.*", "Coo_to_MatrixBlock", "BlockFactory.*", "partition_.*"), libattrs=True, reaching=outcome.IO)
    return m, [(n, False) for n in sorted(m.functions) if not m.functions[n].decl and (it[0] != "io" or n.startswith(("rd_", "wr_")))]
def one(ck, it):
    m, fs = load(it)
    for n, main in fs:
        f = m.functions[n]; what = "%s%s" % (it[1], " " + it[2][-1] if it[2] else "") if main else n
        if not any(re.match(STRFN, i.callee or "") or libname(i) in ("printf", "fprintf", "fgets", "sscanf", "fscanf", "strftime") or (i.callee or "").startswith("llvm.mem") for i in f.calls()) and not any(i.op == "alloca" and "x i8]" in (i.d.get("aty") or "") for i in f.inst.values()): continue
        try: w = Strings(m, f, main=main, faults=1).run()
        except worlds.GaveUp as e: ck.undec(what, str(e)); continue
        bad = 0
        for k, (kind, i, text, site) in sorted(w.found.items(), key=lambda x: str(x[0])):
            if kind != "text": continue
            if w.examined: ck.undec(what, text + " (unless what is known about the text elsewhere excludes it)"); continue
            ck.bad("%s/%s/%s" % (it[1] if main else n, outcome.fn(i), k[2]), "%s: %s" % (what, text), i.inrepo()); bad += 1
        for k, (kind, i, text, site) in sorted(w.unknown.items(), key=lambda x: str(x[0])):
            if kind == "text" and (kind,) + k[1:] not in w.found: ck.undec(what, "%s (%s)" % (text, i.inrepo()))
        nk = len(w.done)
        if not bad:
            for _ in range(nk): ck.ok()
            ck.ok("%s: %d uses of strings on all paths (%d states)" % (what, nk, w.nstates))
        ck.analysed.append("%s: %d states, %d uses of strings, %d arrays of characters" % (what, w.nstates, nk, sum(1 for i in f.inst.values() if i.op == "alloca" and "x i8]" in (i.d.get("aty") or ""))))
def run(ck):
    ck.rule("along every path of every tool, driver, reader, writer and of mm_io, with arguments, names and lines of any length unless a test on the path limits them: every copy, concatenation, formatted write, scan and character store fits the array or allocation it goes to, and every string read from an array has been stored there with its end")
    ck.assume.append("arguments and strings handed in by callers are ended; no string is longer than 2^31-1 characters; file contents are lines of any length")
    ck.parallel(one, units())
    ck.cov["functions"] = len(ck.analysed)
    return 60
