import re, os, subprocess, build, eq, summ, tokens, worlds, outcome
from c05 import CONFIGS
from c14 import SPOST, stream
V = False
OPAQUE = ("mm_typecode_to_str",)
def text(x): return stream(x) or "mm_typecode_to_str" in repr(x.addr) or x.kind in eq.MEM and summ.contains(x.addr, lambda a: a[0] == "alloca")
def lib(ck):
    """mm_io, with the two routines that parse header lines replaced by the model's"""
    src = build.fresh("mm%d_%d.c")
    t = open(build.REPO + "/dep/mm_io/mm_io.c").read()
    t = re.sub(r"^((?:static\s+)?int\s+)(mm_read_banner|mm_read_mtx_crd_size)(\s*\()|^(char\s*\*\s*)(mm_typecode_to_str)(\s*\()", lambda m: "%stext_%s%s" % tuple(x for x in m.groups() if x), t, flags=re.M)
    t = re.sub(r'^(\s*#\s*include\s*)"mm_io.h"', r'\1"mm_io/mm_io.h"', t, flags=re.M)
    open(src, "w").write(t)
    bc = build.compile(build.VERIF + "/harness/mmlib.cpp", ['MMIO="%s"' % src], extra=["-Wno-everything", "-fpermissive"])
    m = build.dump([bc], roots=["^(impl|spec)_"], noinline=build.opaque("mm_strdup") + ["^mm_strdup$"], post=SPOST, libattrs=True)
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        eq.compare(ck, "mm_" + n[5:], m.functions[n], m.functions["spec_" + n[5:]], {}, "mm_io %s" % n[5:], drop=(), skip=stream, verbose=V, same=("lib_sprintf",))
        ck.analysed.append("mm_io " + n)
KINDS = [("matrix", "M"), ("coordinate", "C", "array", "A"), ("real", "R", "complex", "C", "pattern", "P", "integer", "I"), ("general", "G", "symmetric", "S", "hermitian", "H", "skew-symmetric", "K")]
def compare(n, x, y, k):
    """result of a comparison of two known strings"""
    if n in ("strcasecmp", "strncasecmp"): x, y = x.lower(), y.lower()
    if k is not None: x, y = (x + "\0")[:k], (y + "\0")[:k]
    return 0 if x == y else 1 if x > y else -1
def header(ck):
    """the routines of mm_io that parse header lines"""
    m = build.dump([build.compile(build.REPO + "/dep/mm_io/mm_io.c", extra=["-fno-builtin"])], roots=["^mm_read_(banner|mtx_(crd|array)_size)$"], libattrs=True)
    f = m.functions["mm_read_banner"]; low = lowered(f)
    def call(w, n, a, ext, i):
        if n == "fgets": return [(a[0], ext, ())]
        if n in ("sscanf", "fscanf"): return [(5, tuple((p[1], k) for k, p in enumerate(a[2:]) if tokens.isp(p)), ())]
        if n == "strlen" and worlds.gstr(m, i.ops[0]) is not None: return [(len(worlds.gstr(m, i.ops[0])), ext, ())]
        if n in ("strcmp", "strncmp", "memcmp", "bcmp", "strcasecmp", "strncasecmp"):
            d = dict(ext); t = []
            for j in (0, 1):
                c = worlds.gstr(m, i.ops[j])
                if c is None and tokens.isp(a[j]) and a[j][2] == 0 and a[j][1] in d:
                    c = w.words[d[a[j][1]]]
                    if d[a[j][1]] and "case" not in n and not any(h for b, h in low if b == a[j][1] and f.dominates(h, i.bb.id)): c = "\1" + c
                t.append(c)
            if None in t: return None
            return [(compare(n, t[0], t[1], a[2] if len(a) > 2 and n != "strcmp" else None), ext, ())]
    def run(words, want):
        w = tokens.Walk(f, call, lambda b, e: None); w.words = words; what = "header `%s`" % " ".join(words)
        for v, mem, ext, i in w.run():
            if want is None:
                if v == 0: return ck.bad("banner/%s" % "/".join(words), "mm_read_banner accepts the %s" % what, f.name)
                if not isinstance(v, int): return ck.undec(what, "result not determined")
            else:
                got = [mem.get((("arg", 1), k)) for k in range(4)]
                if v is None or None in got and v == 0: return ck.undec(what, "result not determined")
                if v: return ck.bad("banner/%s" % "/".join(words), "mm_read_banner refuses the %s" % what, f.name)
                if got != [ord(c) for c in want]: return ck.bad("banner/%s" % "/".join(words), "mm_read_banner takes the %s for kind `%s`, not `%s`" % (what, "".join(map(chr, got)), want), f.name)
        if not w.out: return ck.undec(what, "no path")
        ck.ok("%s: %s" % (what, want or "refused"))
    ok = "%%MatrixMarket"
    for x in KINDS[1][::2]:
        for y in KINDS[2][::2]:
            for z in KINDS[3][::2]: run([ok, "matrix", x, y, z], "M" + "".join(KINDS[k + 1][KINDS[k + 1].index(t) + 1] for k, t in enumerate((x, y, z))))
    good = [ok, "matrix", "coordinate", "real", "general"]
    for k, bad in enumerate(("%%Matrix", "vector", "sparse", "double", "triangular")): run(good[:k] + [bad] + good[k + 1:], None)
    for name, n in (("crd", 3), ("array", 2)): sizes(ck, m, m.functions["mm_read_mtx_%s_size" % name], n)
    ck.analysed.append("mm_io header routines")
CONV = re.compile(r"%([-+ #0]*)(\*|\d+)?(?:\.(\d+|\*))?(hh|h|ll|l|L|q|j|z|t)?(\[[^]]*\]|[a-zA-Z%])")
def formats(ck, cfg):
    """the text of a number determines it: conversions agree with their arguments, numbers are kept apart, digits suffice"""
    src, cc = (build.REPO + "/dep/mm_io/mm_io.c", ["clang-18"]) if cfg is None else (build.VERIF + "/harness/io.cpp", ["clang++-18", "-std=c++17"] + ["-D" + d for d in cfg])
    r = subprocess.run(cc + ["-fsyntax-only", "-w", "-Wformat", "-Wformat-extra-args", "-Werror=format", "-Werror=format-extra-args", "-Werror=format-insufficient-args", "-I" + build.REPO + "/include", "-I" + build.REPO + "/dep", "-I" + build.VERIF + "/harness", src], capture_output=True, text=True)
    for l in r.stderr.splitlines():
        g = re.match(r"(.*?):(\d+):\d+: error: (.*) \[.*format", l)
        if g: ck.bad("format/%s/%s" % (os.path.basename(g.group(1)), g.group(3)[:60]), "a conversion and its argument disagree: %s" % g.group(3), "%s:%s" % (g.group(1).replace(build.REPO + "/", ""), g.group(2)))
    if r.returncode and "error:" in r.stderr and "format" not in r.stderr: raise build.Broken("cannot check %s: %s" % (src, r.stderr[:1000]))
    m = outcome.mmio() if cfg is None else outcome.routines(cfg); seen = 0
    for f in sorted(m.defined(), key=lambda f: f.name):
        for i in f.calls():
            n = worlds.libname(i)
            if n not in ("fprintf", "fscanf", "sscanf") or n == "fprintf" and stderr(f, i.ops[0]): continue
            fmt = worlds.gstr(m, i.ops[1]); what = "%s: %s" % (f.name, n)
            if fmt is None: ck.undec(what, "the format is not a constant (%s)" % i.inrepo()); continue
            why = judge(n, fmt); seen += 1
            if why: ck.bad("format/%s/%s" % (outcome.fn(i), fmt.strip()), "%s with format `%s`: %s" % (n, fmt.strip(), why), i.inrepo())
            else: ck.ok("%s: %s `%s`" % (f.name, n, fmt.strip()))
    ck.analysed.append("%d formats" % seen)
def stderr(f, o):
    i = f.inst.get(o[1]) if o[0] == "i" else None
    return i is not None and i.op == "load" and i.ops[0][0] == "g" and i.ops[0][1] == "stderr"
def judge(n, fmt):
    cs = [c for c in CONV.finditer(fmt) if c.group(5) != "%"]
    for c in cs:
        flags, width, prec, length, conv = c.groups()
        if conv in "xXoiaA" and not (conv in "aA" and n == "fprintf"):
            if not (conv == "i" and n == "fprintf"): return "numbers are not decimal"
        if n == "fprintf":
            if conv in "eEgG" and (prec is None or prec != "*" and int(prec) < (16 if conv in "eE" else 17)): return "too few digits to read the same value back"
            if conv in "fF": return "a fixed number of decimals does not keep small values"
            if conv in "di" and prec == "0" or conv in "diu" and length in ("h", "hh"): return "large numbers are cut off"
        else:
            if width == "*": return "a number of the line is skipped"
            if conv in "diu" and (width and int(width) < 10 or length in ("h", "hh")): return "large numbers are cut off"
            if conv in "eEfFgG" and width and int(width) < 24: return "digits are cut off"
    if n == "fprintf" and any(c.group(5) in "diueEgGs" for c in cs):
        for a, b in zip(cs, cs[1:]):
            if not re.search(r"\s", fmt[a.end():b.start()]): return "numbers are not kept apart"
        if cs[-1].group(5) != "s" and not fmt.endswith("\n"): return "the line is not ended"
        if fmt[:cs[0].start()].strip(): return "text before the first number"
    elif n != "fprintf":
        if re.sub(r"\s", "", CONV.sub("", fmt)): return "text between the numbers is expected"
def lowered(f):
    """(buffer, block before which it is turned into lower case)"""
    out = []
    def bases(o, seen=()):
        if o[0] != "i" or o[1] in seen: return set()
        i = f.inst[o[1]]
        if i.op == "alloca": return {("alloca", i.id)}
        if i.op == "phi": return set().union(*[bases(v, seen + (o[1],)) for _, v in i.d["inc"]])
        if i.op in ("getelementptr", "bitcast", "select"): return set().union(*[bases(v, seen + (o[1],)) for v in i.ops])
        return set()
    for i in f.calls():
        if worlds.libname(i) not in ("tolower", "__ctype_tolower_loc"): continue
        l = f.loopof.get(i.bb.id, -1)
        if l == -1: continue
        lp = f.loops[l]
        for b in lp.blocks:
            for j in f.blocks[b].insts:
                if j.op == "store":
                    h = lp.header; d = f.idom.get(h, h)
                    for x in bases(j.ops[1]): out.append((x, h)); out.append((x, d))
    return out
def sizes(ck, m, f, n):
    """comment lines are skipped, the numbers of the first other line (or, when it is blank, of the text after it) are stored in order"""
    for lines in (["7"], ["%", "7"], ["%", "%%", "7"], ["\n"], ["%", "\n"]):
        def call(w, name, a, ext, i):
            if name == "fgets":
                k = ext[0] + 1; return [(a[0], (k, a[0][1] if tokens.isp(a[0]) else None, ext[2]), ())]
            if name in ("sscanf", "fscanf"):
                if name == "sscanf":
                    cur = lines[ext[0] - 1] if 0 < ext[0] <= len(lines) else "entry"
                    if cur != "7": return [(0 if cur != "\n" else -1, ext, ())]
                elif ext[0] != len(lines) or lines[-1] != "\n": return [(n, ext[:2] + ("stream",), ())]
                st = []
                for k, p in enumerate(a[2:]):
                    if tokens.isp(p) and p[2] is not None: st.append(((p[1], p[2]), ("tok", k))); st += [((p[1], p[2] + j), None) for j in (1, 2, 3)]
                fmt = worlds.gstr(m, i.ops[1])
                return [(len(re.findall("%", fmt)) if fmt else n, ext, tuple(st))]
        def text(b, ext):
            if b != ext[1] or not ext[0]: return None
            return (lines[ext[0] - 1] if ext[0] <= len(lines) else "entry")
        w = tokens.Walk(f, call, text); what = "%s, header lines %r" % (f.name, lines); bad = None; good = 0
        try: outs = w.run((0, None, None))
        except tokens.GaveUp as e: ck.undec(what, str(e)); continue
        for v, mem, ext, i in outs:
            if v is None: bad = bad or "undetermined"; continue
            if v: bad = bad or "the sizes are not read"; continue
            good += 1
            if ext[0] != len(lines) or ext[2]: bad = "other lines are read for the sizes"
            elif [mem.get((("arg", k + 1), 0)) for k in range(n)] != [("tok", k) for k in range(n)]: bad = "the numbers do not end up in the arguments in their order"
        if not outs: ck.undec(what, "no path")
        elif bad == "undetermined": ck.undec(what, bad)
        elif bad: ck.bad("sizes/%s/%s" % (f.name, "+".join("comment" if l[0] == "%" else "blank" if l == "\n" else "sizes" for l in lines)), "%s: %s" % (what, bad), f.name)
        else: ck.ok(what)
def one(ck, it):
    if it is None: return lib(ck)
    if it == "header": return header(ck)
    if it[0] == "format": return formats(ck, it[1])
    cfg, kinds = it
    bc = build.compile(build.VERIF + "/harness/mmtext.cpp", list(cfg) + ([] if kinds else ["NOERROR"]))
    m = build.dump([bc], roots=["^(impl|spec)_"], noinline=build.opaque(*OPAQUE), post=SPOST, libattrs=True)
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        b = n[5:]
        eq.compare(ck, b, m.functions[n], m.functions["spec_" + b], {}, "MatrixMarket %s (%s)" % (b, ", ".join(cfg)), drop=("dealloc",) if kinds else (), skip=text)
        ck.analysed.append("%s [%s]" % (n, ",".join(cfg)))
def run(ck):
    ck.rule("with a text file modelled as a sequence of words, reading and writing a MatrixMarket file has the effects of the reference, for every kind of file: one entry per line, mirrored once when symmetric and off the diagonal, indices shifted by one, sizes as given; files of other kinds are refused before their entries are read; mm_io's readers, writers and kind names equal their references")
    ck.assume += ["lines are well formed here (C12 judges those that are not); header lines are parsed as C15's banner obligations say"]
    ck.parallel(one, [(c, k) for c in CONFIGS for k in (False, True)] + [None, "header"] + [("format", c) for c in CONFIGS + [None]])
    ck.cov["functions"] = len(ck.analysed)
    return 320
