"""Builds the conformance harness against /repo's working tree, in several
configurations. Cached under /verif/build by a hash of all inputs."""
import hashlib, os, subprocess, sys, concurrent.futures, glob, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.environ.get("VP_OUT", ROOT)          # where builds, evidence and replay files go
BUILD = os.path.join(OUT, "build")
H = os.path.join(ROOT, "harness")

BASE = ["-DMPACK_HAS_CONFIG=1", "-g", "-w", "-fno-omit-frame-pointer"]
DBG = ["-DMPACK_DEBUG=1", "-DMPACK_CUSTOM_ASSERT=1", "-DMPACK_CUSTOM_BREAK=1", "-DMPACK_STRINGS=1"]
CE = ["-DMPACK_COMPATIBILITY=1", "-DMPACK_EXTENSIONS=1"]
# what: capabilities the generators and the specification header need
CONFIGS = {
    "dbg":     dict(cc="gcc", o="-O1", f=DBG + CE + ["-DVH_SMALL"], trk=1),
    "rel":     dict(cc="gcc", o="-O2", f=["-DNDEBUG", "-DVH_REALLOC"] + CE, trk=0),
    "size":    dict(cc="gcc", o="-Os", f=["-DNDEBUG", "-DMPACK_OPTIMIZE_FOR_SIZE=1", "-DVH_SMALL"] + CE, trk=0),
    "nolib":   dict(cc="gcc", o="-O1", f=["-DNDEBUG", "-DMPACK_STDLIB=0", "-DMPACK_STDIO=0", "-DMPACK_NO_BUILTINS=1",
                    "-DMPACK_BUILDER_INTERNAL_STORAGE=1", "-DVH_MID", "-DMPACK_STRINGS=0"] + CE, trk=0, file=0, print=0),
    "track":   dict(cc="gcc", o="-O1", f=["-DNDEBUG", "-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1",
                    "-DVH_MID", "-DVH_REALLOC", "-DMPACK_BUILDER_INTERNAL_STORAGE=1"] + CE, trk=1),
    "cxx":     dict(cc="g++", o="-O1", f=DBG + CE + ["-std=c++17", "-x", "c++"], trk=1),
    "noext":   dict(cc="clang", o="-O1", f=["-DNDEBUG", "-DMPACK_EXTENSIONS=0", "-DMPACK_COMPATIBILITY=0", "-DVH_SMALL"], trk=0, ext=0, compat=0),
    "nofloat": dict(cc="gcc", o="-O1", f=DBG + CE + ["-DMPACK_FLOAT=0", "-DMPACK_DOUBLE=0", "-DVH_SMALL"], trk=1, flt=0, dbl=0),
    "nodouble": dict(cc="gcc", o="-O1", f=["-DNDEBUG", "-DMPACK_DOUBLE=0", "-DVH_MID"] + CE, trk=0, dbl=0),
    "nomalloc": dict(cc="gcc", o="-O1", f=["-DNDEBUG", "-DVH_NOMALLOC"] + CE, trk=0, malloc=0, builder=0, file=0),
    "m32":     dict(cc="gcc", o="-O1", f=DBG + CE + ["-m32", "-msse2", "-mfpmath=sse", "-DVH_SMALL"], trk=1, m32=1),
    "nobuilder": dict(cc="gcc", o="-O1", f=DBG + CE + ["-DMPACK_BUILDER=0", "-DVH_SMALL"], trk=1, builder=0),
}
# two copies of the harness around one copy of the code (harness/inter/vhi.c)
INTER = {
    "idbg":    dict(cc="gcc", o="-O1", f=DBG + CE + ["-DVH_SMALL"], trk=1),
    "irel":    dict(cc="gcc", o="-O1", f=["-DNDEBUG", "-DVH_REALLOC"] + CE, trk=0),
    "itsan":   dict(cc="clang", o="-O1", f=["-DNDEBUG", "-DVH_MID", "-DMPACK_READ_TRACKING=1", "-DMPACK_WRITE_TRACKING=1"] + CE, trk=1, san="thread"),
}
NAMES = list(CONFIGS)          # what the checks use unless they say otherwise
for _c in INTER.values(): _c["inter"] = 1
CONFIGS.update(INTER)
DEFAULTS = dict(inter=0, san="address", file=1, print=1, ext=1, compat=1, flt=1, dbl=1, malloc=1, builder=1, m32=0)
for _c in CONFIGS.values():
    for _k, _v in DEFAULTS.items():
        _c.setdefault(_k, _v)
    _c["dprint"] = int("-DMPACK_DEBUG=1" in _c["f"] and _c["file"])
    _c["bufsz"] = 33 if "-DVH_SMALL" in _c["f"] else 70 if "-DVH_MID" in _c["f"] else 4096

def _hash(name):
    m = hashlib.sha256()
    m.update(repr(CONFIGS[name]).encode())
    m.update(repr(BASE).encode())
    for p in sorted(glob.glob(os.path.join(REPO, "src/mpack/*"))) + sorted(glob.glob(H + "/*.[ch]")) + sorted(glob.glob(H + "/inter/*.c")):
        m.update(os.path.basename(p).encode())
        m.update(open(p, "rb").read())
    return m.hexdigest()[:20]

class BuildError(Exception):
    pass

def twice(objs, tmp):
    """two copies of these objects as one each, their global symbols prefixed"""
    run = lambda *a: subprocess.run(a, check=True, stdout=subprocess.PIPE).stdout.decode()
    whole = os.path.join(tmp, "whole.o")
    run("ld", "-r", "-o", whole, *objs)
    defined = sorted({l.split()[-1] for l in run("nm", "--defined-only", "-g", whole).splitlines() if l.split()[-2] in "TDBRC"})
    out = []
    for p in "AB":
        m = os.path.join(tmp, p + ".syms"); o = os.path.join(tmp, p + ".o")
        with open(m, "w") as f: f.write("".join("%s %s_%s\n" % (s, p, s) for s in defined))
        run("objcopy", "--redefine-syms=" + m, whole, o)
        os.unlink(m); out.append(o)
    os.unlink(whole)
    return out

def build(name):
    c = CONFIGS[name]
    d = os.path.join(BUILD, "%s-%s" % (name, _hash(name)))
    exe = os.path.join(d, "vh")
    if os.path.exists(exe):
        return exe
    tmp = d + ".%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    san = ["-fsanitize=" + c["san"]]
    flags = BASE + san + [c["o"]] + c["f"] + ["-I", H, "-I", os.path.join(REPO, "src/mpack"), "-I", os.path.join(REPO, "src")]
    srcs = sorted(glob.glob(os.path.join(REPO, "src/mpack/*.c"))) + sorted(glob.glob(H + "/*.c")) + (sorted(glob.glob(H + "/inter/*.c")) if c["inter"] else [])
    procs, objs = [], []
    for s in srcs:
        o = os.path.join(tmp, os.path.basename(s) + ".o")
        objs.append(o)
        if c["inter"] and s.startswith(H):
            # not inlined, so that inline functions too exist once
            f = flags + (["-DVH_COPY", "-O0"] if os.path.dirname(s) == H else ["-DVHI_ASSERT"] if "-DMPACK_CUSTOM_ASSERT=1" in flags else [])
        else: f = flags
        procs.append((s, subprocess.Popen([c["cc"]] + f + ["-c", s, "-o", o],
                      stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
    err = ""
    for s, p in procs:
        out = p.communicate()[0].decode(errors="replace")
        if p.returncode:
            err += "%s: %s\n" % (s, out[-3000:])
    if err:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("config %s does not build:\n%s" % (name, err))
    link = objs
    if c["inter"]:
        mine = [o for o in objs if os.path.basename(o).startswith("vh") and os.path.basename(o) != "vhi.c.o"]
        link = [o for o in objs if o not in mine] + twice(mine, tmp)
    ld = [c["cc"]] + [f for f in c["f"] if f == "-m32"] + san + ["-Wl,--wrap=fopen"] + link + ["-lm", "-lpthread", "-o", os.path.join(tmp, "vh")]
    r = subprocess.run(ld, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise BuildError("config %s does not link:\n%s" % (name, r.stdout.decode(errors="replace")[-3000:]))
    for o in set(objs + link):
        os.unlink(o)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    # drop older builds of this configuration
    for old in glob.glob(os.path.join(BUILD, name + "-*")):
        if old != d and os.path.isdir(old) and not old.startswith(d) and "." not in os.path.basename(old):
            shutil.rmtree(old, ignore_errors=True)
    return exe

def build_all(names):
    os.makedirs(BUILD, exist_ok=True)
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        return dict(zip(names, ex.map(build, names)))

if __name__ == "__main__":
    names = sys.argv[1:] or NAMES
    for n, e in build_all(names).items():
        print(n, e)
