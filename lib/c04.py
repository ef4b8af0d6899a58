import build, ptr
from c01 import CONFIGS
FREE = {"free", "operator delete", "operator delete[]"}
PURE = {"__assert_fail", "abort", "omp_get_num_threads", "omp_get_max_threads", "omp_get_thread_num", "omp_in_parallel", "__clang_call_terminate", "strlen"}
def quiet(n): return n in ptr.HEAP or n in FREE or n in PURE or (n or "").startswith(("std::__throw", "std::terminate"))
def inner(m, f, i):
    """name of the product routine an indirect call reaches: blocks are multiplied through their virtual routine"""
    return i.callee is None
def writes(m, f, memo, stack=()):
    """[(root, instruction, how)] of everything f may modify, in terms of its own arguments"""
    if f.name in memo: return memo[f.name]
    if f.name in stack: return set()
    out = set()
    def add(r, i, how):
        out.add((r, i.inrepo(), how))
    for i in f.insts():
        if i.op == "store":
            for r in ptr.roots(f, i.ops[1]): add(r, i, "store")
        elif i.op in ("atomicrmw", "cmpxchg"):
            for r in ptr.roots(f, i.ops[0]): add(r, i, "store")
        elif i.op in ("call", "invoke"):
            c = i.callee or ""; n = i.cname()
            if c.startswith("llvm.mem"):
                for r in ptr.roots(f, i.ops[0]): add(r, i, "store")
            elif i.d.get("intr"): continue
            elif n in FREE:
                for r in ptr.roots(f, i.ops[0]): add(r, i, "release")
            elif quiet(n): continue
            elif c in m.functions and not m.functions[c].decl:
                for r, w, how in writes(m, m.functions[c], memo, stack + (f.name,)):
                    if ptr.top(r)[0] != "arg": add(r, i, how + " in " + n); continue
                    for b in ptr.roots(f, i.ops[ptr.top(r)[1]]): 
                        d = r; k = 0
                        while d[0] == "load": d = d[1]; k += 1
                        for _ in range(k): b = ("load", b)
                        out.add((b, w, how))
            elif i.callee is None:
                # a block's virtual product routine: (block, x, y); it may modify its y only
                if len(i.ops) == 3:
                    for r in ptr.roots(f, i.ops[2]): add(r, i, "block product into")
                else: add(("?",), i, "indirect call")
            else: add(("extern", n), i, "call of")
    if not stack: memo[f.name] = out
    return out
def one(ck, job):
    src, cfg = job
    m = build.dump([build.compile(build.VERIF + "/harness/" + src, cfg)])
    for n in sorted(m.functions):
        if not n.startswith("impl_"): continue
        f = m.functions[n]; b = n[5:]; memo = {}; bad = []; und = []; k = 0
        # fixpoint over the recursive helpers
        for r, w, how in sorted(writes(m, f, memo), key=str):
            k += 1; t = ptr.top(r)
            if r == ("arg", 2) or t[0] in ("heap", "alloca") and r == t or r == ("null",): continue
            if t[0] == "arg" and t[1] in (0, 1): bad.append((w, "%s %s" % (how, "the matrix" if t[1] == 0 else "the input vector")))
            elif t[0] == "g": bad.append((w, "%s global state (%s)" % (how, t[1])))
            elif t[0] == "arg": bad.append((w, "%s memory reached through the result vector" % how))
            else: und.append((w, "%s %s" % (how, r)))
        ck.analysed.append("%s [%s]: %d writes" % (n, ",".join(cfg), k))
        if not k: raise build.Broken("%s writes nothing" % n)
        if bad: ck.bad(b, "product routine of %s (%s): %s" % (b, ", ".join(cfg), "; ".join(x[1] + " at " + x[0] for x in bad[:4])), bad[0][0])
        elif und: ck.undec(b, "; ".join(x[1] + " at " + x[0] for x in und[:4]))
        else: ck.ok("%s (%s): all %d writes go to y or to memory it allocates" % (b, ", ".join(cfg), k))
def run(ck):
    ck.rule("every store, memory intrinsic, release and call in a product routine (helpers inlined, recursion summarised) modifies only memory rooted at y or at its own allocations; roots are traced through arithmetic, joins and loads")
    ck.assume += ["virtual block products are themselves among the analysed routines", "pointers kept in the result vector's memory do not exist (its elements are numbers)"]
    ck.parallel(one, [(s, c) for s in ("kernels.cpp", "blocked.cpp") for c in CONFIGS])
    ck.cov["functions"] = len(ck.analysed)
    return 4 * 24
