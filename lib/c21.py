import re, build, eq, summ, interp
from summ import Poly, Summary, akey
from c05 import CONFIGS, SORTS
from c16 import Own, event
NAMES = {0: "A", 1: "x", 2: "y"}
REPS = {"coo": ("coo",), "csr": ("csr",), "csrp": ("csr",), "dense": ("dense",)}         # what a type's name stands for
BUILD = {"Coo_to_Coo": "coo", "Coo_to_Csr": "csr", "Coo_to_Dense": "dense"}
CLASSES = {"Coo": ("coo", "coo"), "BlockCsrSerial": ("csr", "csr"), "BlockCsrParallel": ("csrp", "csrp"), "DenseSerial": ("dense", "dense"), "DenseParallel": ("dense", "densep")}
OPS = (("spmv", "multiplication"), ("serial", "serial multiplication"), ("count", "counting"), ("release", "release"))
def const(f):
    s = Summary(f); r = [e for e in s.summarise() if e.kind == "ret"]
    return int(r[0].val.cval())
def deep(p):
    for a in p.atoms():
        yield a
        for x in a:
            if isinstance(x, Poly): yield from deep(x)
class Real(interp.Gen):
    """floating-point arithmetic on counts is arithmetic on numbers"""
    def atom(s, a):
        if a[0] in ("uitofp", "sitofp", "fpext", "fptrunc"): return s.poly(a[-1])
        if a[0] in ("lt", "le") and any(x[0] in ("uitofp", "sitofp", "inv") for x in deep(a[1] - a[2])):
            d = a[1] - a[2] if a[0] == "lt" else a[2] - a[1]            # true: d < 0
            k, v = min((k, v) for k, v in ((tuple(map(akey, k)), v) for k, v in d.m.items())); n = {tuple(map(akey, x)): y / abs(v) for x, y in d.m.items()}
            flip = v < 0; key = repr(sorted((x, -y if flip else y) for x, y in n.items()))
            return "%sI.FLT(%s<0,%r,%d)" % ("" if a[0] == "lt" else "1-", s.poly(d), key, flip)
        if a[0] == "inv": return "I.INV(%s)" % s.poly(a[1])
        return interp.Gen.atom(s, a)
    def poly(s, p, cmp=False):
        if not isinstance(p, Poly): return interp.Gen.poly(s, p, cmp)
        out = []
        for k, v in p.m.items():
            out.append("*".join(["(%r)" % int(v) if v.denominator == 1 else "(%d/%d)" % (v.numerator, v.denominator)] + [s.atom(a) for a in k]))
        return "(" + "+".join(out or ["0"]) + ")"
class Sizes(Own):
    """rows, columns and nonzeros of a block: every density and shape"""
    def A(s, i, name):
        r = s.memo.get(("A", i))
        if r is None and name.startswith("#"):
            r = s.memo[("A", i)] = s.rnd.choice((1, 2, 3, 4, 6, 10, 30, 100, 1000, 60000))
        return r if r is not None else Own.A(s, i, name)
    seen = flips = None
    def FLT(s, v, key, neg):
        """a comparison of sizes; one that came out the same way everywhere goes either way when flips is set"""
        v = int(v) ^ neg
        if s.seen is not None: s.seen.setdefault(key, set()).add(v)
        if s.flips and key in s.flips: v = s.h("flip", key) >> 5 & 1
        return v ^ neg
    def INV(s, x):
        if x == 0: raise interp.NoMeaning()
        return 1 / x
def choose(f, observe, tries=1500):
    """(what was recorded, what was built) under many interpretations of the conditions; None if not understood"""
    s = Summary(f); es = s.summarise(); out = {}; order = f.order()
    keys = lambda x: order[f.blocks[f.loops[int(x[1:])].header].insts[0].id] if isinstance(x, str) else order[x.id]
    try: gens = [(e, Real(e.summ).effect(e, plain=True, keys=keys)) for e in es if e.kind in ("ret", "call") or e.kind == "set" and not e.loops]
    except interp.NoMeaning as x: return None, str(x)
    if not any(e.kind == "ret" for e, _ in gens): return None, "the returned type"
    hs = interp.hints_of([e for e, _ in gens]); n = 0; seen = {}
    for k in range(tries):
        I = Sizes(900 + k, hs); I.seen = seen if k < tries * 2 // 3 else None
        if I.seen is None: I.flips = {x for x, v in seen.items() if len(v) == 1}
        try: evs = sorted((t[0], e, t[1:]) for e, g in gens for t in list(g(I)))
        except (interp.TooBig, interp.NoMeaning, ValueError, OverflowError, NameError, TypeError): continue
        n += 1
        try: r = observe(I, evs)
        except KeyError as x: return None, str(x)
        out.setdefault(r, k)
    return (out, n) if n > tries // 8 else (None, "only %d interpretations" % n)
def name_of(e):
    a = list(e.addr.atoms())
    return a[0][1].split("::")[-1].split("<")[0] if len(a) == 1 and a[0][0] == "fnname" else None
def freed(m, f):
    """what a release hands back: [multiset of (family, address)] under a few interpretations; None if not understood"""
    s = Summary(f); es = s.summarise()
    if s.unres: return None
    try: gs = [(v, interp.Gen(e.summ).effect(summ.Effect("ret", e.loops, e.guards, v[2], summ.ZERO, e.inst), plain=True)) for e in es for v in [event(m, e)] if v and v[2] is not None]
    except interp.NoMeaning: return None
    out = []
    for k in range(40):
        I = Own(300 + k); r = []
        try:
            for v, g in gs:
                for t in list(g(I)):
                    if t[1]: r.append((v[0], v[1], t[1]))
        except (interp.TooBig, interp.NoMeaning, ValueError, OverflowError): continue
        out.append((k, sorted(r)))
    return dict(out) or None
def releases(ck, what, m, fi, fs, loc):
    a, b = freed(m, fi), freed(m, fs)
    if a is None or b is None: ck.undec(what, "not summarised"); return
    for k in a.keys() & b.keys():
        if a[k] != b[k]: ck.bad("release: %s" % what.split(" (")[0], "%s: hands back %d things, its data are %d%s" % (what, len(a[k]), len(b[k]), "" if len(a[k]) != len(b[k]) else " others"), loc); return
    ck.ok(what)
def block(ck, m, cfg, val):
    where = " (%s)" % ", ".join(cfg); f = m.functions["make_block"]
    off = None
    for e in Summary(m.functions["impl_count_0"]).summarise():
        if e.kind == "set": off = e.addr
    def observe(I, evs):
        built = []; typ = None; ret = None; at = I.A(0, "arg0") + int((off - Poly.atom(("arg", 0, "arg0"))).cval())
        for _, e, t in evs:
            if e.kind == "call":
                n = name_of(e)
                if n in BUILD: built.append(BUILD[n])
            elif e.kind == "ret": ret = t[2]
            elif t[1] == at: typ = t[2]
        return typ, ret, tuple(built)
    r, n = choose(f, observe)
    what = "the type recorded for a block" + where
    if r is None: ck.undec(what, "not summarised: %s" % n); return
    pairs = set(); loc = "include/matrix/cgbr.h: Coo_to_MatrixBlock"
    if not any(b for _, _, b in r): ck.undec(what, "what is built is not recognised"); return
    for (typ, ret, built), k in sorted(r.items(), key=str):
        if len(built) != 1: ck.bad("Coo_to_MatrixBlock: %d representations built" % len(built), "%s: on some path %s is built" % (what, " and ".join(built) or "nothing"), loc)
        elif typ != ret: ck.bad("Coo_to_MatrixBlock: %s recorded, %s returned" % (typ, ret), "%s: type %s is recorded but %s returned" % (what, typ, ret), loc)
        elif typ in val.values() and built[0] not in [x for k, v in val.items() if v == typ for x in REPS[k]]:
            ck.bad("Coo_to_MatrixBlock: %s for %s" % (typ, built[0]), "%s: type %d is recorded for a block built as %s" % (what, typ, built[0]), loc)
        else: ck.ok("%s: type %d for %s" % (what, typ, built[0])); pairs.add((typ, built[0]))
    ck.analysed.append("Coo_to_MatrixBlock%s: %d interpretations, types %s" % (where, n, sorted(pairs)))
    for typ, rep in sorted(pairs):
        for op, opname in OPS:
            fi = m.functions.get("impl_%s_%d" % (op, typ)); fs = m.functions.get("spec_%s_%d_%s" % (op, typ, rep))
            if fi is None or fs is None: ck.bad("no operation for type %d" % typ, "%s: type %d is outside the enumeration" % (what, typ), loc); continue
            if op == "release": releases(ck, "release of a block of type %d, built as %s%s" % (typ, rep, where), m, fi, fs, "include/matrix/cgbr.h: release(MatrixBlock)"); continue
            eq.compare(ck, "%s/%s" % (op, rep), fi, fs, NAMES, "%s of a block of type %d, built as %s%s" % (opname, typ, rep, where), drop=())
def table(m, cls):
    for n, g in m.globals.items():
        if n.startswith("_ZTV") and re.match(r"_ZTV\d+%sI" % cls, n) and g.get("elts"): return n, g["elts"]
    return None, None
def slot(m, f):
    for e in Summary(f).summarise():
        if e.kind != "call": continue
        k = [a for a in e.addr.atoms() if a[0] == "load"]
        if len(k) == 1:
            d = k[0][2] - Poly.atom(("load", "ptr", e.extra[0]))
            if d.isconst(): return int(d.cval()) // 8
def objects(ck, cfg, val):
    where = " (%s)" % ", ".join(cfg); what = "the type reported for a virtual block" + where; loc = "include/matrix/blocks.h: BlockFactoryDefault::create"
    m = build.dump([build.compile(build.VERIF + "/harness/dispatch.cpp", cfg)], roots=["^(spec_v|impl_v|value|make_object|slot)", "D0Ev$", "spmv"], noinline=build.opaque(*SORTS))
    cntoff = 0
    for e in Summary(m.functions["impl_vcount"]).summarise():
        if e.kind == "ret":
            d = [a[2] for a in e.val.atoms() if a[0] == "load"]
            cntoff = int((d[0] - Poly.atom(("arg", 0, "arg0"))).cval()) if len(d) == 1 and (d[0] - Poly.atom(("arg", 0, "arg0"))).isconst() else None
    if cntoff is None: ck.undec("count of a virtual block" + where, "not found")
    tabs = {n: n for n in m.globals if n.startswith("_ZTV")}
    def observe(I, evs):
        names = {I.U("g", n): n for n in tabs}; ret = None; vptr = None; cnt = None
        obj = I.L("ptr", I.A(0, "arg0"))
        for _, e, t in evs:
            if e.kind == "ret": ret = t[2]
            elif e.kind == "set" and t[1] == obj and isinstance(t[2], int): vptr = names.get(t[2] - t[2] % interp.SP, vptr)
            elif e.kind == "set" and t[1] == obj + (cntoff or -1): cnt = t[2]
        c = re.match(r"_ZTV\d+([A-Za-z]+\w*?)I", vptr).group(1) if vptr else None
        return ret, c, cnt is not None and cnt % (1 << 32) == I.A(4, "#arg4") % (1 << 32)
    r, n = choose(m.functions["make_object"], observe)
    if r is None: ck.undec(what, "not summarised: %s" % n); return
    seen = set()
    for (ret, c, counted), k in sorted(r.items(), key=str):
        if c not in CLASSES: ck.undec(what, "class %s is not known" % c); continue
        want = val[CLASSES[c][0]]
        if ret != want: ck.bad("create: %s for %s" % (ret, c), "%s: type %s is reported for a %s" % (what, ret, c), loc)
        elif cntoff is not None and not counted: ck.bad("create: count of %s" % c, "a %s does not record the number of entries it was made from%s" % (c, where), loc)
        else: ck.ok("%s: %d for %s" % (what, ret, c))
        seen.add(c)
    ck.analysed.append("BlockFactoryDefault::create%s: %d interpretations, classes %s" % (where, n, sorted(seen)))
    sp, se = slot(m, m.functions["slot_spmv"]), slot(m, m.functions["slot_end"])
    if sp is None or se is None: ck.undec("tables of virtual functions", "places not found"); return
    for c in sorted(CLASSES):
        n, es = table(m, c)
        if es is None: continue
        fn = es[2 + sp] if 2 + sp < len(es) else None; end = es[2 + se] if 2 + se < len(es) else None
        f = m.functions.get(fn[1]) if fn and fn[0] == "fn" else None
        if f is None or f.decl: ck.bad("%s: no product" % c, "a %s has no product of its own%s" % (c, where), loc); continue
        eq.compare(ck, "product of a %s" % c, f, m.functions["spec_virtual_" + CLASSES[c][1]], NAMES, "the product found through the table of %s%s" % (c, where))
        ok = bool(end and end[0] == "fn" and re.match(r"_ZN\d+\w+D0Ev$", end[1]) and c in end[1])
        if ok: ck.ok("deleting a %s through its base runs its destructor%s" % (c, where))
        else: ck.bad("%s: destructor" % c, "deleting a %s through its base does not run its destructor%s" % (c, where), loc)
    eq.compare(ck, "virtual count", m.functions["impl_vcount"], m.functions["spec_vcount"], {}, "counting a virtual block" + where, drop=())
def one(ck, cfg):
    m = build.dump([build.compile(build.VERIF + "/harness/dispatch.cpp", cfg)], roots=["^(impl|spec|value|make_block|slot)"], noinline=["^[a-zA-Z ]*Coo_to_(Coo|Csr|Dense)<"])
    val = {k: const(m.functions["value_" + k]) for k in REPS}
    if len(set(val.values())) != len(val): ck.bad("types with equal numbers", "two block types have the same number", "include/typedefs.h: MatrixType")
    block(ck, m, cfg, val)
    objects(ck, cfg, val)
def run(ck):
    ck.rule("under every outcome of the conditions in Coo_to_MatrixBlock exactly one representation is built, the type recorded is the one returned and names it; for every such pair, multiplication, serial multiplication, counting and release of a block of that type have the effect summary of the reference on that representation's data")
    ck.rule("the type BlockFactoryDefault returns names the class of the object it made; the product and the destructor in that class's table are those of its data")
    ck.assume.append("which type is chosen (the density thresholds) is a performance matter (C26)")
    ck.parallel(one, CONFIGS)
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 12
