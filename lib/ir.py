"""Loading of the IR dump and basic control-flow facts (dominators, loops, reachability)."""
import json, re, subprocess, os, sys, tempfile

class Inst:
    __slots__ = ("id", "op", "t", "ops", "d", "bb", "fn", "pos")
    def __init__(s, d, bb, fn, pos):
        s.id = d["id"]; s.op = d["op"]; s.t = d["t"]; s.ops = d.get("ops", []); s.d = d; s.bb = bb; s.fn = fn; s.pos = pos
    def loc(s):
        for f, l, n in s.d.get("dbg") or []:
            return "%s:%d" % (short(f), l)
        return "%s:?" % (s.fn.file or "?")
    def locs(s):
        return ["%s:%d(%s)" % (short(f), l, n) for f, l, n in s.d.get("dbg") or []]
    def inrepo(s):
        """innermost location inside the repository"""
        for f, l, n in s.d.get("dbg") or []:
            if isrepo(f): return "%s:%d" % (short(f), l)
        return s.loc()
    @property
    def callee(s): return s.d.get("callee")
    def cname(s):
        """undecorated callee name (no template args / params)"""
        c = s.d.get("cdem")
        return bare(c) if c else None

def isrepo(f): return "/repo/" in f or (not f.startswith("/usr") )
def short(f):
    f = f.replace("/verif/harness/../..", "")
    i = f.find("/repo/")
    return f[i + 6:] if i >= 0 else f

_bare = {}
def bare(d):
    """demangled name -> qualified name without template arguments, parameters, return type"""
    if d in _bare: return _bare[d]
    out = []; depth = 0; i = 0
    s = d
    # drop ABI/lambda decorations gently
    s = s.replace("operator<<", "operator@LL").replace("operator<", "operator@L").replace("operator>", "operator@G").replace("operator()", "operator@CALL").replace("operator->", "operator@ARROW")
    s = s.replace("(anonymous namespace)", "@anon")
    res = ""; 
    while i < len(s):
        c = s[i]
        if c == "<": depth += 1
        elif c == ">": depth -= 1
        elif c == "(" and depth == 0:
            # parameter list unless it is part of a scope (lambda inside function)
            j = i; pd = 0
            while j < len(s):
                if s[j] == "(": pd += 1
                elif s[j] == ")":
                    pd -= 1
                    if pd == 0: break
                j += 1
            rest = s[j + 1:]
            m = re.match(r"( const)?::", rest)
            if m:
                i = j + 1 + (len(m.group(0)) - 2); continue
            break
        elif depth == 0: res += c
        i += 1
    res = res.strip()
    if " " in res and not res.startswith("operator"):
        k = res.rfind(" ")
        # keep "operator new[]"
        m = re.search(r"(\S*operator (new|delete)(\[\])?)$", res)
        res = m.group(1) if m else res[k + 1:]
    res = res.replace("@LL", "<<").replace("@L", "<").replace("@G", ">").replace("@CALL", "()").replace("@ARROW", "->").replace("@anon", "(anonymous namespace)")
    _bare[d] = res
    return res

class Block:
    __slots__ = ("id", "insts", "succ", "pred", "fn", "name")

class Loop:
    __slots__ = ("id", "header", "parent", "depth", "blocks", "exits", "btc", "latches")

class Function:
    def __init__(s, d, mod):
        s.mod = mod; s.name = d["name"]; s.dem = d["dem"]; s.args = d["args"]; s.ret = d["ret"]; s.decl = d["decl"]
        s.linkage = d["linkage"]; s.file = short(d.get("file", "")); s.line = d.get("line", 0); s.sp = d.get("sp", "")
        s.noreturn = d.get("noreturn", False)
        s.blocks = []; s.inst = {}; s.loops = []
        if s.decl: return
        for bd in d["blocks"]:
            b = Block(); b.id = bd["id"]; b.succ = bd["succ"]; b.fn = s; b.pred = []; b.name = bd["name"]
            b.insts = [Inst(x, b, s, k) for k, x in enumerate(bd["insts"])]
            for i in b.insts: s.inst[i.id] = i
            s.blocks.append(b)
        for b in s.blocks:
            for t in b.succ: s.blocks[t].pred.append(b.id)
        for ld in d["loops"]:
            l = Loop(); l.id = ld["id"]; l.header = ld["header"]; l.parent = ld["parent"]; l.depth = ld["depth"]
            l.blocks = set(ld["blocks"]); l.exits = ld["exits"]; l.btc = ld.get("btc"); l.latches = ld["latches"]
            s.loops.append(l)
        s._dom()
        s.loopof = {}
        for l in sorted(s.loops, key=lambda l: l.depth):
            for b in l.blocks: s.loopof[b] = l.id
    def _dom(s):
        n = len(s.blocks)
        order = []; seen = set()
        st = [(0, iter(s.blocks[0].succ))]; seen.add(0)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); st.append((t, iter(s.blocks[t].succ))); break
            else:
                order.append(b); st.pop()
        order.reverse(); s.rpo = order
        num = {b: i for i, b in enumerate(order)}
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                ni = None
                for p in s.blocks[b].pred:
                    if p in idom:
                        ni = p if ni is None else s._isect(ni, p, idom, num)
                if idom.get(b) != ni: idom[b] = ni; ch = True
        s.idom = idom; s.reach0 = seen
    @staticmethod
    def _isect(a, b, idom, num):
        while a != b:
            while num[a] > num[b]: a = idom[a]
            while num[b] > num[a]: b = idom[b]
        return a
    def dominates(s, a, b):
        while True:
            if a == b: return True
            if b == 0 or b not in s.idom: return False
            b = s.idom[b]
    def inst_dom(s, i, j):
        if i.bb.id == j.bb.id: return i.pos < j.pos
        return s.dominates(i.bb.id, j.bb.id)
    def reachable(s, start, avoid=()):
        seen = set(); st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid: continue
            seen.add(b); st.extend(s.blocks[b].succ)
        return seen
    def insts(s):
        for b in s.blocks:
            if b.id in s.reach0:
                for i in b.insts: yield i
    def calls(s):
        for i in s.insts():
            if i.op in ("call", "invoke") and not (i.d.get("intr") and i.callee.startswith("llvm.dbg")): yield i
    def order(s):
        """instruction id -> position in an order in which loop bodies come before what follows the loop"""
        if not hasattr(s, "_ord"):
            done = []; seen = set()
            def go(b):
                st = [(b, None)]
                seen.add(b)
                st = [(b, iter(s._succs(b)))]
                while st:
                    x, it = st[-1]
                    for y in it:
                        if y not in seen:
                            seen.add(y); st.append((y, iter(s._succs(y)))); break
                    else: done.append(x); st.pop()
            go(0)
            s._ord = {i.id: n for n, i in enumerate(j for b in reversed(done) for j in s.blocks[b].insts)}
        return s._ord
    def _succs(s, b):
        nest = s.loop_nest(b)
        return sorted(s.blocks[b].succ, key=lambda t: sum(1 for l in nest if t in s.loops[l].blocks))
    def selfrec(s):
        if not hasattr(s, "_sr"): s._sr = any(i.callee == s.name for i in s.calls())
        return s._sr
    def loop_nest(s, bid):
        """outer..inner loop ids containing block"""
        out = []; l = s.loopof.get(bid, -1)
        while l != -1:
            out.append(l); l = s.loops[l].parent
        return out[::-1]
    def users(s):
        if not hasattr(s, "_users"):
            u = {}
            for i in s.insts():
                for o in i.ops:
                    if o and o[0] == "i": u.setdefault(o[1], []).append(i)
                for _, o in i.d.get("inc", []):
                    if o and o[0] == "i": u.setdefault(o[1], []).append(i)
                if "ind" in i.d and i.d["ind"][0] == "i": u.setdefault(i.d["ind"][1], []).append(i)
            s._users = u
        return s._users

class Module:
    def __init__(s, path):
        d = json.load(open(path))
        s.functions = {}; s.types = d["types"]; s.globals = d["globals"]
        for f in d["functions"]: s.functions[f["name"]] = Function(f, s)
        s.bydem = {}
        for f in s.functions.values(): s.bydem.setdefault(bare(f.dem), []).append(f)
    def defined(s): return [f for f in s.functions.values() if not f.decl]
