"""Builds /repo's current working tree (out of tree) and the harness, per variant."""
import os, subprocess, hashlib, shutil, sys, fcntl, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JPS_REPO", "/repo")
BUILD = os.environ.get("JPS_BUILD", os.path.join(VERIF, "build"))
HOOK = "-DJPSTREAM_VERIF"
ASAN = "-fsanitize=address,bounds,null,shift,integer-divide-by-zero -fno-sanitize-recover=all -fno-omit-frame-pointer -g1"
VARIANTS = {
    # name: (cc, cxx, C flags, C++ flags, link flags)
    "asan": ("gcc", "g++", "-O1 %s %s" % (ASAN, HOOK), "-O1 %s" % ASAN, "-fsanitize=address,bounds,null,shift,integer-divide-by-zero"),
    "fast": ("gcc", "g++", "-O2 -g1 -DNDEBUG %s" % HOOK, "-O2 -DNDEBUG", ""),
    "real": ("gcc", "g++", "-O2 -g1 -DNDEBUG", "-O2 -DNDEBUG", ""),
    "pat": ("gcc", "g++", "-O1 -ftrivial-auto-var-init=pattern %s" % HOOK, "-O1 -ftrivial-auto-var-init=pattern", ""),
    "zero": ("gcc", "g++", "-O1 -ftrivial-auto-var-init=zero %s" % HOOK, "-O1 -ftrivial-auto-var-init=zero", ""),
    "leak": ("gcc", "g++", "-O2 -g1 %s" % HOOK, "-O2", ""),
    "tsan": ("gcc", "g++", "-O1 -g1 -fsanitize=thread %s" % HOOK, "-O1 -g1 -fsanitize=thread", "-fsanitize=thread"),
}
WRAP = ["pthread_create", "pthread_join", "pthread_mutex_lock", "nextToken", "strcmp", "malloc", "realloc", "free"]
PARTS = ["LEX", "PART", "LOAD", "AST", "EVAL", "DFA", "PIECES", "PARTIAL", "INTERNAL", "CT", "RX"]
INC = ["DFABuilder/include", "DFABuilder/interface", "JSONPathParser", "JSONQuery"]

def tree_hash():
    h = hashlib.sha256()
    for root in ("CMakeLists.txt", "DFABuilder", "JSONPathParser", "JSONQuery"):
        p = os.path.join(REPO, root)
        files = [p] if os.path.isfile(p) else sorted(
            os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*"))) + [os.path.abspath(__file__)]:
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

class BuildError(Exception):
    pass

def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))

def build(variant, want=("jpsrv",)):
    """Returns the directory holding the harness binaries for this variant."""
    cc, cxx, cf, cxf, lf = VARIANTS[variant]
    os.makedirs(BUILD, exist_ok=True)
    top = os.path.join(BUILD, variant)
    with open(os.path.join(BUILD, variant + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        stamp = os.path.join(top, "stamp")
        if os.path.exists(stamp) and open(stamp).read() == key + " ".join(sorted(want)):
            return top
        os.makedirs(top, exist_ok=True)
        cm = os.path.join(top, "cm")
        shutil.rmtree(cm, ignore_errors=True)      # always from scratch: file times say nothing when the clock has been set back or files were restored
        _run(["cmake", "-S", REPO, "-B", cm, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
              "-DCMAKE_C_COMPILER=/usr/bin/" + cc, "-DCMAKE_CXX_COMPILER=/usr/bin/" + cxx,
              "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-Wno-dev",
              "-DCMAKE_C_FLAGS=-D_GNU_SOURCE -w " + cf, "-DCMAKE_CXX_FLAGS=-w " + cxf])
        _run(["ninja", "-C", cm, "DFABuilder", "JSONPathParser", "JSONQueryEngine"])
        libs = [os.path.join(cm, "lib", "lib%s.a" % l) for l in ("JSONQueryEngine", "DFABuilder", "JSONPathParser")]
        inc = ["-I" + os.path.join(REPO, d) for d in INC] + ["-I" + os.path.join(VERIF, "harness")]
        H = os.path.join(VERIF, "harness")
        objs = []
        if "jpsrv" in want:
            C = [cc, "-std=gnu99", "-D_GNU_SOURCE", "-w", "-mcmodel=medium"] + cf.split() + inc
            def make(off, to):
                objs = [os.path.join(top, x) for x in ["jpsrv.c.o", "sched_shim.c.o"] + (["rx.cpp.o"] if "RX" not in off else [])]
                _run(C + ["-DJV_NO_" + x for x in off] + ["-c", os.path.join(H, "jpsrv.c"), "-o", objs[0]])
                _run(C + ["-c", os.path.join(H, "sched_shim.c"), "-o", objs[1]])
                if "RX" not in off: _run([cxx, "-std=c++11", "-w", "-mcmodel=medium"] + cxf.split() + inc + ["-c", os.path.join(H, "rx.cpp"), "-o", objs[2]])
                _run([cxx] + objs + lf.split() + ["-mcmodel=medium", *["-Wl,--wrap=" + w for w in WRAP],
                      "-Wl,--start-group"] + libs + ["-Wl,--end-group", "-lpthread", "-o", os.path.join(top, to)])
            try: make([], "jpsrv")
            except BuildError:          # leave out the commands whose part of the internal interface has changed
                off = []
                for x in PARTS:
                    try: make([y for y in PARTS if y != x], "part")
                    except BuildError: off.append(x)
                make(off, "jpsrv")
        with open(stamp, "w") as f:
            f.write(key + " ".join(sorted(want)))
        return top

if __name__ == "__main__":
    for v in sys.argv[1:] or ["asan", "fast"]:
        print(build(v))
