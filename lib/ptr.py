"""What an address is computed from: the roots of a pointer, through selections, joins, arithmetic and loads."""
HEAP = {"malloc", "calloc", "aligned_alloc", "operator new", "operator new[]", "realloc"}
def roots(f, r, seen=None):
    """set of ("arg",n) ("heap",id) ("alloca",id) ("g",name) ("load",root) ("call",name) ("null",) ("?",)"""
    seen = set() if seen is None else seen
    k = r[0]
    if k == "a": return {("arg", r[1])}
    if k == "g": return {("g", r[1])}
    if k in ("null", "zero", "undef", "c"): return {("null",)}
    if k == "fn": return {("g", r[1])}
    if k == "ce":
        out = set()
        for o in r[2]: out |= roots(f, o, seen)
        return out - {("null",)} or {("null",)}
    if k != "i": return {("?",)}
    i = f.inst[r[1]]
    if i.id in seen: return set()
    seen.add(i.id)
    if i.op in ("getelementptr", "bitcast", "inttoptr", "ptrtoint", "addrspacecast", "freeze"): return roots(f, i.ops[0], seen)
    if i.op == "select": return roots(f, i.ops[1], seen) | roots(f, i.ops[2], seen)
    if i.op == "phi":
        out = set()
        for _, v in i.d["inc"]: out |= roots(f, v, seen)
        return out
    if i.op == "alloca": return {("alloca", i.id)}
    if i.op == "load":
        src = roots(f, i.ops[0], set(seen))
        out = set()
        for b in src:
            if b[0] == "alloca":
                ws = stored(f, b, seen)
                if ws is not None: out |= ws; continue
            out.add(("load", b))
        return out
    if i.op in ("call", "invoke"):
        n = i.cname() or "indirect"
        if n in HEAP: return {("heap", i.id)}
        if (i.callee or "").startswith(("llvm.launder", "llvm.strip", "llvm.expect")): return roots(f, i.ops[0], seen)
        return {("call", n)}
    if i.op in ("add", "sub", "and", "or"): return roots(f, i.ops[0], seen) | roots(f, i.ops[1], seen)
    if i.op == "extractvalue": return roots(f, i.ops[0], seen)
    return {("?",)}
def stored(f, b, seen):
    """roots of the pointers kept in a local object, None if it escapes"""
    out = set()
    for i in f.insts():
        if i.op == "store":
            if b in roots(f, i.ops[0], set()): return None
            if b in roots(f, i.ops[1], set()): out |= roots(f, i.ops[0], set(seen))
        elif i.op in ("call", "invoke") and not (i.callee or "").startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume")):
            if any(b in roots(f, o, set()) for o in i.ops): return None
    return out
def top(b):
    while b[0] == "load": b = b[1]
    return b
