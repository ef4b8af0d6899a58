"""Compiling /repo's current sources (through harness units that only call its public API) to analysed IR."""
import os, subprocess, tempfile, shutil, sys, atexit
import ir
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GSB_REPO", "/repo")
TOOL = os.path.join(VERIF, "build", "irdump")

class Broken(Exception):
    """analysis could not be carried out (exit 2)"""

_tmp = None
_count = 0
def fresh(pat):
    global _count
    _count += 1
    return os.path.join(tmp(), pat % (os.getpid(), _count))
def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="gsbv.")
        atexit.register(shutil.rmtree, _tmp, ignore_errors=True)
    return _tmp

def ensure_tool():
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src): return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    fl = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
    fl = [f for f in fl if not f.startswith("-std=")]
    r = subprocess.run(["clang++-18", "-O1"] + fl + ["-std=c++17", "-fno-rtti", src, "-o", TOOL + ".tmp%d" % os.getpid(), "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode: raise Broken("building irdump: " + r.stderr[-2000:])
    os.rename(TOOL + ".tmp%d" % os.getpid(), TOOL)

PRE = "function(sroa,early-cse,simplifycfg)"
POST = "function(sroa,instcombine<no-verify-fixpoint>,simplifycfg,early-cse<memssa>,gvn,dse,loop-simplify,lcssa,instcombine<no-verify-fixpoint>,loop-simplify,lcssa),globaldce"

def compile(src, defs=(), openmp=False, std="-std=c++17", opt="-O1", lang=None, ndebug=True, extra=(), first=()):
    """source file -> bitcode path"""
    out = fresh("u%d_%d.bc")
    c = src.endswith(".c")
    cmd = ["clang-18" if c else "clang++-18", "-g", opt, "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-w", "-emit-llvm", "-c"] + list(first) + [
           "-I" + REPO + "/include", "-I" + REPO + "/dep", "-I" + VERIF + "/harness"]
    if not c: cmd += [std, "-fno-exceptions", "-fno-rtti"]
    if ndebug: cmd.append("-DNDEBUG")
    if openmp: cmd.append("-fopenmp")
    cmd += ["-D" + d for d in defs] + list(extra) + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise CompileError(src, defs, r.stderr)
    return out

class CompileError(Broken):
    def __init__(s, src, defs, err):
        s.src = src; s.defs = defs; s.err = err
        Broken.__init__(s, "cannot compile %s %s:\n%s" % (src, " ".join(defs), err[:3000]))

def dump(bcs, roots=(), noinline=(), inline=True, pre=PRE, post=POST, libattrs=False, reaching=None, uninit=False):
    """bitcode files -> Module of the analysed IR"""
    ensure_tool()
    out = fresh("m%d_%d.json")
    cmd = [TOOL] + list(bcs)
    if inline: cmd.append("-inline-all")
    if libattrs: cmd.append("-libattrs")
    if uninit: cmd.append("-mark-uninit")
    if reaching: cmd.append("-inline-reaching=" + reaching)
    for n in noinline: cmd.append("-noinline=" + n)
    if pre: cmd.append("-pre=" + pre)
    if post: cmd.append("-post=" + post)
    for r in roots: cmd.append("-root=" + r)
    cmd += ["-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise Broken("irdump failed: " + r.stderr[-2000:])
    m = ir.Module(out); os.unlink(out)
    return m

def opaque(*names):
    """-noinline pattern for functions of these names (templates included)"""
    return ["^([a-zA-Z][^(]*[ :*&])?(%s)(<.*)?\\([^.]*$" % "|".join(names)]
