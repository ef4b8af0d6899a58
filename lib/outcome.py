"""The functions and programs whose outcomes C11, C12, C13 and C19 judge."""
import os, build, worlds
SRC = build.REPO + "/src/"
IO = "^(fopen|fopen64|fdopen|fclose|fread|fwrite|fscanf|__isoc[0-9]+_[fs]scanf|sscanf|fprintf|fputs|fputc|fgets|fflush|ferror|feof|exit|mm_(read|write)_.*)$"
DEFS = ["VALTYPE=float", "ITYPE=uint32_t", "SITYPE=uint16_t", "ITERATIONS=10", "INDEXTYPE=uint32_t", "SINDEXTYPE=uint16_t"]
# program, defines, [(argument count or None, output files at least)]
TOOLS = [("tools/convert.cpp", (), [(None, 1)]), ("tools/sort.cpp", (), [(None, 1), (4, 3), (5, 3)]), ("tools/permute.cpp", (), [(None, 2)]), ("tools/permute.cpp", ("INVPERM",), [(None, 2)]),
         ("tools/expanded.cpp", (), [(None, 1)]), ("tools/prepare.cpp", (), [(None, 4)]), ("tools/convert_blocked.cpp", (), [(None, 1)]),
         ("tools/double2float.c", (), [(None, 1)]), ("tools/one2zero.c", (), [(None, 1)]), ("tools/pprint.c", (), [(None, 0)])]
DRIVERS = [("drivers/%s.cpp" % n, tuple(DEFS), [(None, 0)]) for n in ("csr", "cswr", "bench", "pbench")] + [
          ("drivers/blocked.cpp", tuple(DEFS + ["MATRIXTYPE=" + t]), [(None, 0)]) for t in ("Csbr<VALTYPE,ITYPE>", "Csbr2<VALTYPE,ITYPE>", "Cgbr<VALTYPE,ITYPE,SITYPE>", "Cgbr2<VALTYPE,ITYPE,SITYPE>")]
PROGRAMS = TOOLS + DRIVERS

def routines(cfg):
    """readers and writers of include/io and common.cpp"""
    bcs = [build.compile(build.VERIF + "/harness/io.cpp", cfg, ndebug=False), build.compile(SRC + "common.cpp", ndebug=False)]
    return build.dump(bcs, roots=["^(rd|wr)_"], noinline=build.opaque("mm_.*", "Coo_to_MatrixBlock", "BlockFactory.*", "partition_.*"), libattrs=True, reaching=IO)
def mmio():
    return build.dump([build.compile(build.REPO + "/dep/mm_io/mm_io.c", ndebug=False)], roots=["^mm_"], noinline=["^mm_"], libattrs=True)
def program(src, defs):
    bcs = [build.compile(SRC + src, defs, ndebug=False), build.compile(SRC + "common.cpp", ndebug=False)]
    return build.dump(bcs, roots=["^main$"], noinline=build.opaque("mm_.*", "Coo_to_MatrixBlock", "BlockFactory.*", "partition_.*"), libattrs=True, reaching=IO)
def mmio_functions(m):
    """(function, arguments that are files, is it a reader / writer / opener)"""
    for n in sorted(m.functions):
        f = m.functions[n]
        if f.decl or not n.startswith(("mm_read", "mm_write")): continue
        args = {}
        if f.args and "FILE" in filetype(f): args[0] = ("file", ("arg", 0))
        yield f, args
def filetype(f):
    return "FILE" if any(worlds.libname(i) in ("fgets", "fscanf", "fprintf", "fread", "fwrite") for i in f.calls()) and not any(worlds.libname(i) == "fopen" for i in f.calls()) else ""

def judge(ck, w, name, kinds, what):
    """report the outcomes of the given kinds"""
    n = 0
    for k, (kind, i, text, site) in sorted(w.found.items(), key=lambda x: str(x[0])):
        if any(kind == x or kind.startswith(x + ":") and ":" not in x for x in kinds):
            ck.bad("%s/%s/%s%s" % (name, kind, fn(i), "/" + fn(site) if site is not None and fn(site) != fn(i) else ""), "%s: %s" % (what, text), i.inrepo()); n += 1
    for k, (kind, i, text, site) in sorted(w.unknown.items(), key=lambda x: str(x[0])):
        if any(kind == x or kind.startswith(x + ":") and ":" not in x for x in kinds): ck.undec("%s: %s" % (what, kind), "%s (%s)" % (text, i.inrepo()))
    return n
def fn(i):
    import ir
    for f, l, n in i.d.get("dbg") or []:
        if ir.isrepo(f) and "harness" not in f: return ir.bare(n)
    return i.fn.name
def count(w, *libs): return sum(1 for k in w.sites if k[0] in libs)
