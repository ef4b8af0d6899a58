"""Every function the headers declare has a definition with that signature, and every template compiles with the supported
types: declarations come from the compiler's syntax tree, templates are instantiated for every configuration."""
import glob, os, re, build, astq
from c05 import CONFIGS
OWN = ("common.cpp", "mm_io.c")
BY = {"T": "T_", "VT": "T_", "Value_t": "T_", "IT": "I_", "Index_t": "I_", "SIT": "S_", "SmallIndex_t": "S_", "RIT": "I_", "CIT": "I_"}
def headers():
    hs = sorted(glob.glob(build.REPO + "/include/**/*.h", recursive=True)) + [build.REPO + "/dep/mm_io/mm_io.h"]
    return [os.path.relpath(h, build.REPO) for h in hs if os.path.exists(h)]
def inc(h): return '#include "%s"\n' % h.split("/", 1)[1]
PRE = "#include <cstdio>\n#include <cstdint>\n#include <cstdlib>\n"
def unit(text, name="u%d_%d.cpp"):
    p = build.fresh(name); open(p, "w").write(text); return p
def rel(p): return p[len(build.REPO) + 1:] if p.startswith(build.REPO + "/") else None
def plain(x): return not x["dependent"]
def run(ck):
    ck.rule("declared and defined: every function without a body in a header has, in the syntax tree of common.cpp or mm_io.c, a definition with the same symbol and type; nothing with a body in a header would be defined twice by two sources")
    ck.rule("instantiation: every class template is explicitly instantiated, with all members, and every function template used, with the value, index and narrow index types of %d configurations; an error inside a header is a violation" % len(CONFIGS))
    ck.assume.append("supported types are those of the configurations in harness/types.h")
    astq.ensure(); build.tmp()
    # ---- headers that can be included
    alone = {}
    hs = headers()
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(8) as ex: alone = dict(zip(hs, ex.map(lambda h: astq.decls(unit(PRE + inc(h))), hs)))
    good = [h for h in hs if not alone[h][1]]
    text = PRE + "".join(map(inc, good))
    usable = list(good)
    for h in hs:
        if h in good: continue
        r, e = astq.decls(unit(text + inc(h)))
        if e:
            at = [x for x in e if rel(x[0])] or e
            ck.bad("header/%s" % h, "the header %s cannot be used: %s" % (h, at[0][2]), "%s:%d" % (rel(at[0][0]) or at[0][0], at[0][1]))
        else: ck.ok(); usable.append(h)
    for h in good: ck.ok()
    ck.cov["headers"] = len(hs); ck.cov["headers_usable"] = len(usable)
    text = PRE + "".join(map(inc, usable))
    recs, errs = astq.decls(unit(text))
    for f, l, t in errs:
        if rel(f): ck.bad("together/%s" % rel(f), "the headers cannot be used together: %s" % t, "%s:%d" % (rel(f), l))
        else: ck.undec("headers together", t)
    # ---- definitions
    defs = {}
    for s, cpp in ((build.REPO + "/src/common.cpp", True), (build.REPO + "/dep/mm_io/mm_io.c", False)):
        r, e = astq.decls(s, cpp)
        if e: raise build.Broken("%s: %s" % (s, e[0][2]))
        for x in r:
            if x["k"] == "function" and x.get("body") and "symbol" in x and x["external"]: defs.setdefault(x["symbol"], []).append((x["type"], x["at"], x["name"], x["ctype"]))
    seen = set()
    for x in recs:
        if x["k"] != "function": continue
        at = rel(x["at"].rsplit(":", 1)[0]) + ":" + x["at"].rsplit(":", 1)[1]
        key = "%s/%s" % (at.split(":")[0], x["name"])
        if x["dependent"]:
            if x["defined"]: continue
            if (x["name"], x["type"]) in seen: continue
            seen.add((x["name"], x["type"]))
            ck.bad("declared/" + key, "%s %s is declared, but there is no definition of it" % (x["name"], x["type"]), at); continue
        if x["defined"]:
            if x["body"] and x["external"] and not x["inline"] and not x["main"] and "symbol" in x: ck.bad("twice/" + key, "%s is defined in a header and not inline: two sources that include it cannot be linked" % x["name"], at)
            elif x["body"]: ck.ok()
            continue
        if "symbol" not in x: continue
        if not x["external"]: ck.bad("declared/" + key, "%s is declared static in a header and has no definition there" % x["name"], at); continue
        d = defs.get(x["symbol"])
        if not d:
            near = [t for v in defs.values() for t, _, n, _ in v if n == x["name"]]
            ck.bad("declared/" + key + "(%s)" % x["type"], "%s is declared as %s, but %s" % (x["name"], x["type"], "defined as %s" % "; ".join(near) if near else "never defined"), at)
        elif norm(d[0][3]) != norm(x["ctype"]): ck.bad("declared/" + key + "(%s)" % x["type"], "%s is declared as %s, but defined as %s" % (x["name"], x["type"], d[0][0]), at)
        else: ck.ok("%s %s: declared and defined (%s)" % (x["name"], x["type"], rel(d[0][1].rsplit(":", 1)[0])))
    # ---- templates
    classes = [x for x in recs if x["k"] == "class"]; funcs = [x for x in recs if x["k"] == "function" and x["dependent"]]
    insts = []
    for x in classes:
        ps = x["tparams"]
        if all(p["kind"] == "type" and p["name"] in BY for p in ps): insts.append("template %s %s<%s>;" % (x["tag"], x["name"], ", ".join(BY[p["name"]] for p in ps)))
        else: ck.undec(x["name"], "the template's parameters are not value and index types")
    done = {}
    units = [("gen", text + '#include "types.h"\n' + "\n".join(insts) + "\n" + addresses(funcs), "TCFG=%d" % c) for c in range(len(CONFIGS))]
    for h in sorted(glob.glob(build.VERIF + "/harness/*.cpp")):
        if os.path.basename(h) in ("mmlib.cpp",): continue
        for c in range(len(CONFIGS)): units.append(("file", h, "TCFG=%d" % c))
    def one(u):
        return u, astq.decls(unit(u[1]) if u[0] == "gen" else u[1], True, (u[2],))
    told = set()
    with cf.ThreadPoolExecutor(8) as ex:
        for u, (r, e) in ex.map(one, units):
            for f, l, t in e:
                p = rel(f)
                if p:
                    if ("%s:%d" % (p, l), t) in told: continue
                    told.add(("%s:%d" % (p, l), t))
                    ck.bad("instance/%s/%s" % (p, re.sub(r"[^\w' ]", " ", t)[:60].strip()), "used with %s: %s" % (u[2], t), "%s:%d" % (p, l))
                else: ck.undec("%s %s" % (os.path.basename(u[1]) if u[0] == "file" else "generated", u[2]), "line %d: %s" % (l, t))
            for x in r:
                if "instances" in x and not x.get("none"): done[(x["k"], x["name"], x["at"], x.get("type"))] = done.get((x["k"], x["name"], x["at"], x.get("type")), 0) + x["instances"]
            ck.analysed.append("%s %s: %d declarations" % ("generated instantiations" if u[0] == "gen" else os.path.basename(u[1]), u[2], len(r)))
    n = 0
    for k, c in sorted(done.items()):
        if k[0] == "class": continue
        if c: ck.ok(); n += 1
        else: ck.undec("%s %s" % (k[1], k[3]), "never instantiated (%s)" % rel(k[2].rsplit(":", 1)[0]))
    ck.cov["templates_instantiated"] = n; ck.cov["functions"] = len([x for x in recs if x["k"] == "function"])
    return 200
def norm(t): return re.sub(r"\s+", "", t.replace("struct ", "").replace("_Bool", "bool").replace("(void)", "()"))
def addresses(funcs):
    """function templates over value and index types only: their address is taken"""
    out = []
    for x in funcs:
        if "tparams" not in x or x["method"] or not all(p["kind"] == "type" and p["name"] in BY and not p["pack"] for p in x["tparams"]): continue
        ty = "%s (*)(%s)" % (x["ret"], ", ".join(x["args"])); n = len(out)
        ps = [p["name"] for p in x["tparams"]]
        out.append("template <%s> struct addr_%d { typedef %s (*P)(%s); static P get() { return static_cast<P>(&::%s<%s>); } };\nvoid * at_%d() { return (void *) addr_%d<%s>::get(); }" % (", ".join("class " + p for p in ps), n, x["ret"], ", ".join(x["args"]), x["name"], ", ".join(ps), n, n, ", ".join(BY[p] for p in ps)))
    return "\n".join(out) + "\n"
