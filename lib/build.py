#!/usr/bin/env python3
"""Builds the drivers from /repo's current working tree (sources mirrored by content).

/repo is only read.  Everything goes to /verif/build (git-ignored).
"""
import fcntl, glob, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DIRS = ["Abstract", "Nastran", "Optistruct", "Aster", "Systus", "ResultReaders", "Commandline"]
# longest compilations first
ORDER = ["Model", "CSVResultReader", "Mesh", "Constraint", "MeshComponents", "NastranParser",
         "VegaCommandLine", "Analysis", "SystusWriter", "AsterWriter"]
COMPAT = """#ifdef __cplusplus
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
"""

def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)

def mirror():
    src = os.path.join(BUILD, "src")
    keep = set()
    for d in DIRS:
        for root, _, files in os.walk(os.path.join(REPO, d)):
            rel = os.path.relpath(root, REPO)
            for fn in files:
                if fn.endswith((".cpp", ".h", ".hpp", ".in", ".cc", ".c", ".hxx", ".ipp", ".inl")):
                    with open(os.path.join(root, fn), "rb") as f:
                        data = f.read()
                    p = os.path.join(src, rel, fn)
                    keep.add(p)
                    put(p, data)
    for root, _, files in os.walk(src):
        for fn in files:
            p = os.path.join(root, fn)
            if p not in keep and not fn.startswith("build_properties.h") and fn != "vp_compat.h":
                os.unlink(p)
    # build_properties.h
    ver = dict(MAJOR="3", MINOR="1", PATCH="1", EXTRA="")
    try:
        cm = open(os.path.join(REPO, "CMakeLists.txt"), errors="replace").read()
        for k in ver:
            m = re.search(r'set\s*\(\s*VEGA_%s_VERSION\s+"?([^")\s]*)"?\s*\)' % k, cm, re.I)
            if m:
                ver[k] = m.group(1)
    except OSError:
        pass
    sub = {"VEGA_MAJOR_VERSION": ver["MAJOR"], "VEGA_MINOR_VERSION": ver["MINOR"],
           "VEGA_PATCH_VERSION": ver["PATCH"], "VEGA_EXTRA_VERSION": ver["EXTRA"],
           "PROJECT_SOURCE_DIR": "/nonexistent", "PROJECT_BINARY_DIR": "/nonexistent",
           "TESTS_NIGHTLY_BUILD": "", "CMAKE_BUILD_TYPE": "Debug", "DOXYGEN_DOT_EXECUTABLE": ""}
    ones = {"ENABLE_ASTER", "RUN_NASTRAN", "VALGRIND_FOUND"}
    t = open(os.path.join(src, "Abstract", "build_properties.h.in")).read()
    t = re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), ""), t)
    t = re.sub(r"#cmakedefine01\s+(\w+)", lambda m: "#define %s %d" % (m.group(1), m.group(1) in ones), t)
    t = re.sub(r"#cmakedefine\s+(\w+)", lambda m: "#define %s" % m.group(1) if m.group(1) in ones else "/* %s */" % m.group(1), t)
    put(os.path.join(src, "Abstract", "build_properties.h"), t)
    put(os.path.join(src, "vp_compat.h"), COMPAT)
    return src

def ninja_file(src):
    inc = " ".join("-I%s" % os.path.join(src, d) for d in [""] + DIRS)
    flags = "-O0 -std=gnu++14 -w -fext-numeric-literals -pthread -include %s/vp_compat.h %s -I/usr/include/hdf5/serial" % (src, inc)
    libs = ("-lmedC /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lcrypto -lcurl -lsz -lz -ldl -lm "
            "-lboost_thread -lboost_date_time -lboost_program_options -lboost_filesystem -lboost_system "
            "-lboost_regex -lboost_chrono -lboost_atomic -lpthread "
            "-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial")
    out = ["flags = " + flags, "libs = " + libs,
           "rule cxx\n  command = g++ $flags $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n",
           "rule link\n  command = g++ -fuse-ld=gold -rdynamic -pthread -o $out $in $libs\n"]
    cpps = []
    for d in DIRS:
        for root, _, files in os.walk(os.path.join(src, d)):
            cpps += [os.path.join(root, f) for f in files if f.endswith((".cpp", ".cc"))]
    def rank(p):
        b = os.path.splitext(os.path.basename(p))[0]
        return (ORDER.index(b) if b in ORDER else 99, p)
    objs = []
    for p in sorted(cpps, key=rank):
        o = os.path.join(BUILD, "obj", os.path.relpath(p, src)[:-4] + ".o")
        is_main = os.path.basename(p) == "vegamain.cpp"
        out.append("build %s: cxx %s\n%s" % (o, p, "  extra = -Dmain=vega_main\n" if is_main else ""))
        objs.append(o)
    bins = []
    for drv, extra in (("vegadrv", True), ("compdrv", False)):
        s = os.path.join(VERIF, "driver", drv + ".cpp")
        if not os.path.exists(s):
            continue
        o = os.path.join(BUILD, "obj", drv + ".o")
        out.append("build %s: cxx %s\n" % (o, s))
        b = os.path.join(BUILD, drv)
        out.append("build %s: link %s %s\n" % (b, o, " ".join(objs)))
        bins.append(drv)
    put(os.path.join(BUILD, "build.ninja"), "\n".join(out) + "\n")
    return bins

def build(targets=("vegadrv",), quiet=True):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        src = mirror()
        bins = ninja_file(src)
        tg = [os.path.join(BUILD, t) for t in targets if t in bins]
        t0 = time.time()
        r = subprocess.run(["ninja", "-C", BUILD, "-k", "0", "-j", str(os.cpu_count() or 8)] + tg,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            sys.stdout.write(r.stdout[-6000:])
            raise SystemExit(3)
        if not quiet:
            print("build: %.1fs" % (time.time() - t0))
    return BUILD

if __name__ == "__main__":
    build(tuple(sys.argv[1:]) or ("vegadrv", "compdrv"), quiet=False)
