"""Declarations in /repo's files, as the compiler sees them (tool/astdump.cpp)."""
import json, os, subprocess, build
from build import Broken
TOOL = build.TOOL.replace("irdump", "astdump")
def ensure():
    src = os.path.join(build.VERIF, "tool", "astdump.cpp")
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src): return
    os.makedirs(os.path.dirname(TOOL), exist_ok=True)
    tmp = TOOL + ".tmp%d" % os.getpid()
    r = subprocess.run(["clang++-18", "-O1", "-std=c++17", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", tmp, "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"], capture_output=True, text=True)
    if r.returncode: raise Broken("building astdump: " + r.stderr[-2000:])
    os.rename(tmp, TOOL)
RES = None
def flags(cpp=True, defs=()):
    global RES
    if RES is None: RES = subprocess.run(["clang-18", "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    return (["-std=c++17"] if cpp else ["-std=gnu11"]) + ["-fopenmp", "-w", "-ferror-limit=0", "-resource-dir", RES, "-I" + build.REPO + "/include", "-I" + build.REPO + "/dep", "-I" + build.VERIF + "/harness"] + ["-D" + d for d in defs]
def decls(src, cpp=True, defs=(), extra=()):
    """records of one translation unit, and the compiler's errors as (file, line, text)"""
    ensure()
    r = subprocess.run([TOOL, build.REPO + "/", src, "--"] + (["-xc++"] if cpp else ["-xc"]) + flags(cpp, defs) + list(extra), capture_output=True, text=True)
    errs = []
    for l in r.stderr.splitlines():
        p = l.split(":")
        if len(p) > 3 and (p[3].strip() in ("error", "fatal error")): errs.append((os.path.realpath(p[0]) if os.path.exists(p[0]) else p[0], int(p[1]), ":".join(p[4:]).strip()))
    if not r.stdout.strip() and r.returncode: raise Broken("astdump %s: %s" % (src, r.stderr[-1500:]))
    return [json.loads(l) for l in r.stdout.splitlines() if l], errs
