"""Builds harnesses of /verif/cc against the sources in /repo's working tree.

Everything goes to /verif/build (git-ignored).  The set of repository sources a
harness needs is discovered from #include lines: a header's sibling .cc, plus
the srcs of any cc_library that lists the header (so a helper moved to another
file of the same library is still linked)."""
import ast
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/src"
BUILD = os.environ.get("VERIF_BUILD", VERIF + "/build")
TF = "/opt/wod/tf/tensorflow"
ANDROID = "/usr/lib/x86_64-linux-gnu/android"
PY = "/opt/venv/bin/python"
INC = re.compile(r'^\s*#\s*include\s+"([^"]+)"', re.M)
PIMP = re.compile(r'^\s*import\s+(?:public\s+)?"([^"]+)"', re.M)

BASE = ("-std=c++17 -fPIC -pthread -w -DNDEBUG -D_GLIBCXX_USE_CXX11_ABI=1 "
        "-DEIGEN_MAX_ALIGN_BYTES=64 -I{src} -I{b}/gen -I{v}/cc -isystem {tf}/include "
        "-isystem /usr/include/android").format(src=SRC, b=BUILD, tf=TF, v=VERIF)
CXX = "g++ -O2 -D_GLIBCXX_ASSERTIONS " + BASE
LIBS = ("-L{tf} -Wl,-rpath,{tf} -l:libtensorflow_framework.so.2 -lglog -lz "
        "-L{a} -Wl,-rpath,{a} -l:libcrypto.so.0 -lrt -lm -lpthread").format(tf=TF, a=ANDROID)


def read(p):
    with open(p, encoding="utf-8", errors="replace") as f:
        return f.read()


def libs_by_header():
    """header path (relative to SRC) -> srcs of the cc_library listing it."""
    out = {}

    class Env(dict):
        def __missing__(self, name):
            return {"True": True, "False": False, "None": None}.get(name, lambda *a, **k: [])

    for d, dirs, files in os.walk(SRC + "/waymo_open_dataset"):
        if "BUILD" not in files:
            continue
        pkg = os.path.relpath(d, SRC)

        def lib(name=None, srcs=(), hdrs=(), **kw):
            for h in list(hdrs) + [s for s in srcs if s.endswith(".h")]:
                out.setdefault(pkg + "/" + h, set()).update(
                    pkg + "/" + s for s in srcs if s.endswith(".cc"))
        env = Env()
        env["cc_library"] = lib
        try:
            exec(compile(read(d + "/BUILD"), d + "/BUILD", "exec"), env)
        except Exception as e:  # a BUILD file we cannot read only narrows discovery
            print("note: %s/BUILD: %s" % (d, e), file=sys.stderr)
    return out


def discover(roots):
    """roots: absolute .cc files. Returns (repo .cc set, proto set) relative to SRC."""
    byh = libs_by_header()
    ccs, protos, seen = set(), set(), set()
    todo = list(roots)

    def add_proto(p):
        if p in protos or not os.path.exists(SRC + "/" + p):
            return
        protos.add(p)
        for q in PIMP.findall(read(SRC + "/" + p)):
            if q.startswith("waymo_open_dataset/"):
                add_proto(q)
    while todo:
        f = todo.pop()
        if f in seen or not os.path.exists(f):
            continue
        seen.add(f)
        for inc in INC.findall(read(f)):
            if inc.endswith(".pb.h"):
                add_proto(inc[:-5] + ".proto")
                continue
            if inc.startswith("waymo_open_dataset/"):
                p = SRC + "/" + inc
                todo.append(p)
                cands = set(byh.get(inc, ()))
                if inc.endswith(".h"):
                    cands.add(inc[:-2] + ".cc")
                for c in cands:
                    if os.path.exists(SRC + "/" + c) and not c.endswith("_test.cc"):
                        ccs.add(c)
                        todo.append(SRC + "/" + c)
            elif os.path.exists(VERIF + "/cc/" + inc):
                todo.append(VERIF + "/cc/" + inc)
    return ccs, protos


def build_cc(name, extra=(), exclude=(), flags="", units=()):
    """Builds /verif/cc/<name>.cc; returns the binary's path. Raises on failure."""
    main = "%s/cc/%s.cc" % (VERIF, name)
    # units: further sources of /verif/cc (one per command line tool of the repository).
    mains = [main] + ["%s/cc/%s.cc" % (VERIF, u) for u in units]
    roots = mains + [SRC + "/" + e for e in extra]
    ccs, protos = discover(roots)
    ccs |= set(extra)
    ccs -= set(exclude)
    # The harness may #include a repo .cc itself (tools): never link it twice.
    for f in mains:
        for inc in INC.findall(read(f)):
            ccs.discard(inc)
    os.makedirs(BUILD + "/ninja", exist_ok=True)
    os.makedirs(BUILD + "/gen", exist_ok=True)
    n = ["ninja_required_version = 1.5",
         "builddir = %s/ninja/%s.d" % (BUILD, name),
         "rule cxx\n  command = %s $opt -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n"
         "  deps = gcc\n  description = CXX $in" % CXX,
         "rule pbcxx\n  command = g++ -O1 %s -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n"
         "  deps = gcc\n  description = CXX $in" % BASE,
         "rule link\n  command = rm -f $out && g++ -pthread -o $out $in %s\n  description = LINK $out" % LIBS,
         "rule protoc\n  command = protoc -I%s --cpp_out=%s/gen $proto\n  description = PROTOC $proto" % (SRC, BUILD)]
    heads = " ".join("%s/gen/%s.pb.h" % (BUILD, p[:-6]) for p in sorted(protos))
    objs = []
    for p in sorted(protos):
        stem = p[:-6]
        b = "%s/gen/%s.pb" % (BUILD, stem)
        deps = " ".join(SRC + "/" + q for q in PIMP.findall(read(SRC + "/" + p))
                        if q.startswith("waymo_open_dataset/"))
        n.append("build %s.cc %s.h: protoc %s | %s\n  proto = %s/%s" % (b, b, SRC + "/" + p, deps, SRC, p))
        o = "%s/obj/%s.pb.o" % (BUILD, stem)
        n.append("build %s: pbcxx %s.cc || %s" % (o, b, heads))
        objs.append(o)
    for c in sorted(ccs):
        o = "%s/obj/%s.o" % (BUILD, c[:-3])
        n.append("build %s: cxx %s/%s || %s" % (o, SRC, c, heads))
        objs.append(o)
    for f in mains:
        o = "%s/obj/harness/%s.o" % (BUILD, os.path.basename(f)[:-3])
        n.append("build %s: cxx %s || %s\n  opt = %s" % (o, f, heads, flags))
        objs.append(o)
    out = "%s/bin/%s" % (BUILD, name)
    n.append("build %s: link %s" % (out, " ".join(objs)))
    n.append("default " + out)
    path = "%s/ninja/%s.ninja" % (BUILD, name)
    with open(path, "w") as f:
        f.write("\n".join(n) + "\n")
    os.makedirs("%s/ninja/%s.d" % (BUILD, name), exist_ok=True)
    r = subprocess.run(["ninja", "-f", path, "--quiet"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout[-8000:])
        raise RuntimeError("build of %s failed" % name)
    return out


def py_overlay():
    """A tree of symlinks to /repo's .py files plus freshly generated *_pb2.py.
    (Keeps /repo untouched and never trusts stale generated files.)"""
    import shutil
    root = BUILD + "/py"
    shutil.rmtree(root, ignore_errors=True)
    protos = []
    for d, dirs, files in os.walk(SRC + "/waymo_open_dataset"):
        dirs[:] = [x for x in dirs if x != "__pycache__"]
        rel = os.path.relpath(d, SRC)
        os.makedirs(root + "/" + rel, exist_ok=True)
        for f in files:
            if f.endswith(".proto"):
                protos.append(rel + "/" + f)
            if f.endswith("_pb2.py"):
                continue
            if f.endswith(".py"):
                os.symlink(d + "/" + f, "%s/%s/%s" % (root, rel, f))
    r = subprocess.run(["protoc", "-I" + SRC, "--python_out=" + root] + sorted(protos),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise RuntimeError("protoc --python_out failed")
    return root


def py_env(opts):
    """Environment of a Python harness: opts tf (stand-ins for TensorFlow and friends), ops (the C++ kernels)."""
    from checks import _OPS
    root = py_overlay()
    server = build_cc("ops_server", extra=_OPS) if opts.get("ops") else ""
    env = dict(os.environ, PYTHONPATH=":".join([VERIF + ("/py/tfshim" if opts.get("tf") else "/py/shim"), root, VERIF + "/py", VERIF + "/lib"]),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PROTOCOL_BUFFERS_PYTHON_IMPLEMENTATION="python",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", WOD_PY_ROOT=root, WOD_OPS_SERVER=server)
    env.pop("PYTHONSTARTUP", None)
    return env
