import build, eq, summ, interp
from summ import Poly
NAMES = {0: "A", 1: "x", 2: "y"}
CHUNK = {0: "A", 1: "x", 2: "y", 3: "p", 4: "#first", 5: "#last", 6: "#bsize"}
CONFIGS = [("TCFG=0",), ("TCFG=1",), ("TCFG=2",), ("TCFG=3",)]
def chunk_of(m, f):
    """the self-recursive helpers a product calls"""
    return sorted({i.callee for i in f.calls() if i.callee in m.functions and not m.functions[i.callee].decl and m.functions[i.callee].selfrec()})
def assume(I):
    a = I.A(4, "#first"); n = I.h("asm") % 9 + 1 if I.h("asn") % 3 else 1
    I.memo[("A", 5)] = a + n
def rec(es): return [e for e in es if e.kind == "call" and any(a[:2] == ("fnname", "REC") for a in e.addr.atoms())]
def adapt(ei, es):
    """any split point strictly inside the range serves: it is renamed to the reference's"""
    ri, rs = rec(ei), rec(es)
    if len(ri) != 2 or len(rs) != 2: return
    arg = lambda n: Poly.atom(("arg", n, CHUNK[n]))
    mid = [e.extra[5] for e in ri if e.extra[4] == arg(4)]; ref = [e.extra[5] for e in rs if e.extra[4] == arg(4)][0]
    if len(mid) != 1 or mid[0] == ref: return
    inner = lambda m: summ.Effect("ret", [], [], summ.ZERO, Poly.atom(("and01", Poly.atom(("lt", arg(4), m)), Poly.atom(("lt", m, arg(5))))), None)
    f = interp.Gen().effect(inner(mid[0])); n = 0
    for k in range(400):
        I = interp.Interp(k, (2, 3, 4)); assume(I)
        if I.A(5, "#last") - I.A(4, "#first") < 2: continue
        if list(f(I))[0][2] != 1: return
        n += 1
    if n < 100: return
    for e in ri: e.extra = tuple(ref if x == mid[0] else x for x in e.extra)
def one(ck, cfg):
    bc = build.compile(build.VERIF + "/harness/blocked.cpp", cfg)
    m = build.dump([bc])
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        b = n[5:]; f = m.functions[n]; g = m.functions["spec_" + b]
        eq.compare(ck, b, f, g, NAMES, "product of %s (%s)" % (b, ", ".join(cfg)))
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
        cs = chunk_of(m, g)
        if not cs: continue
        ci = chunk_of(m, f)
        if len(ci) != 1:
            ck.undec(b + ".chunk", "no single recursive chunk routine"); continue
        eq.compare(ck, b + ".chunk", m.functions[ci[0]], m.functions[cs[0]], CHUNK, "chunk recursion of %s" % b, assume=assume, adapt=adapt)
def run(ck):
    ck.rule("loop-nest effect summary of every blocked product routine equals that of the reference: every block k of block-row b exactly once, with x + column_offset(block_column(k)) and y + row_offset(b)")
    ck.rule("the recursive chunk routine splits [first,last) at an inner point, gives the second half a zero-filled buffer of the block-row's height and adds all of it back; compared inductively with the reference recursion")
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 40
