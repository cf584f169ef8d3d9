"""Builds the real sources of /repo, instrumented, plus the harnesses of /verif.

Objects are cached by content (ccache keyed on the preprocessed/direct content of the
sources and all their headers), never by time stamp, so a check always sees the current
working tree of /repo.
"""
import glob, hashlib, os, re, shutil, subprocess, sys, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))

INC = ["-I" + VERIF + "/shim"] + ["-I%s/%s" % (REPO, d) for d in (
    "include", "rdf3x/include", "rapidjson/include", "snap/glib-core", "snap/snap-core", "snap")]
UB = "bounds,shift,integer-divide-by-zero,signed-integer-overflow,return,bool,enum,vla-bound,unreachable"
BASE = ["-include", "cstdint", "-fPIC", "-fsigned-char", "-std=c++11", "-w", "-fno-omit-frame-pointer",
        "-DVERIF_MONITOR=1", "-pthread"]
TRIDENT = ["-DSERVER=1", "-DSPARQL=1", "-DANALYTICS=1", "-DML=1", "-D_GLIBCXX_ASSERTIONS"]
SNAPF = ["-fpermissive", "-fopenmp"]
VARIANTS = {
    "asan": ["-O1", "-g1", "-fsanitize=address," + UB],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O2", "-g1"],
}
CXX = ["g++"]
WHOLE = ["shim", "core", "rdf3x", "sparql"]


def _env():
    e = dict(os.environ)
    e.update(CCACHE_DIR=os.path.join(CACHE, "ccache"), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="6G",
             CCACHE_SLOPPINESS="time_macros,include_file_ctime,include_file_mtime,locale",
             CCACHE_NODIRECT="", LANG="C", LC_ALL="C", CCACHE_COMPRESSLEVEL="1", CCACHE_TEMPDIR=os.path.join(CACHE, "cctmp"))
    e.pop("CCACHE_NODIRECT", None)
    return e


HAVE_CCACHE = shutil.which("ccache") is not None


class BuildError(Exception):
    pass


def _rglob(pat):
    return sorted(glob.glob(os.path.join(REPO, pat), recursive=True))


def snap_units(glib=False):
    """(name, text) of one translation unit per file that the unity build of SNAP includes."""
    out = []
    def incs(p):
        txt = open(p, errors="replace").read()
        return [m.group(1) for m in re.finditer(r'^\s*#include "(\w+\.cpp)"', txt, re.M)]
    base = os.path.join(REPO, "snap/glib-core/base.cpp")
    top = os.path.join(REPO, "snap/snap-core/Snap.cpp")
    strip = re.sub(r'^\s*#include "\w+\.cpp".*$', "", open(base, errors="replace").read(), flags=re.M)
    # visible to the later files of the unity build, so to all units here
    pre = '#include "stdafx.h"\n#include "Snap.h"\n' + \
          'TStr operator+(const TStr&, const TStr&); TStr operator+(const TStr&, const char*);\n'
    if glib:
        pre = pre.replace("Snap.h", "base.h")
    out.append(("glib_base", strip))
    for f in incs(base):
        out.append(("glib_" + f[:-4], pre + '#include "%s/snap/glib-core/%s"\n' % (REPO, f)))
    if glib:
        return out
    for f in incs(top):
        if f == "base.cpp":
            continue
        d = "snap/snap-core" if os.path.exists(os.path.join(REPO, "snap/snap-core", f)) else "snap/glib-core"
        out.append(("snap_" + f[:-4], pre + '#include "%s/%s/%s"\n' % (REPO, d, f)))
    strip = re.sub(r'^\s*#include "\w+\.cpp".*$', "", open(top, errors="replace").read(), flags=re.M)
    out.append(("snap_top", strip))
    return out


def sources(component, unity=False):
    """list of (id, path, extra flags)"""
    r = []
    def add(paths, fl):
        for p in paths:
            r.append((os.path.relpath(p, REPO).replace("/", "_"), p, fl))
    if component == "shim":
        r.append(("shim", VERIF + "/shim/kognac_shim.cpp", TRIDENT))
    elif component == "core":
        for d in "binarytables files iterators kb model tree utils".split():
            add(_rglob("src/trident/%s/*.cpp" % d), TRIDENT)
        add([p for p in _rglob("src/trident/tests/*.cpp")], TRIDENT)
    elif component == "rdf3x":
        add(sorted(set(_rglob("rdf3x/src/*/*.cpp") + _rglob("rdf3x/src/*/*/*.cpp") + _rglob("rdf3x/src/*.cpp"))), TRIDENT)
    elif component == "sparql":
        add(_rglob("src/trident/sparql/*.cpp") + _rglob("src/layers/*.cpp"), TRIDENT)
    elif component == "ml":
        add(_rglob("src/trident/ml/*.cpp") + _rglob("src/trident/mining/*.cpp"), TRIDENT)
    elif component == "server":
        add(_rglob("src/trident/server/*.cpp"), TRIDENT)
    elif component == "ana":
        add(_rglob("src/snap/*.cpp"), TRIDENT + SNAPF)
    elif component == "cli":
        add(_rglob("src/client/*.cpp"), [x for x in TRIDENT if "SERVER" not in x] + SNAPF)
    elif component == "glib" and unity:
        add([os.path.join(REPO, "snap/glib-core/base.cpp")], SNAPF)
    elif component == "snap" and unity:
        add([os.path.join(REPO, "snap/snap-core/Snap.cpp")], SNAPF)
    elif component in ("snap", "glib"):
        d = os.path.join(CACHE, component + "tu")
        os.makedirs(d, exist_ok=True)
        for n, txt in snap_units(component == "glib"):
            p = os.path.join(d, n + ".cpp")
            if not os.path.exists(p) or open(p).read() != txt:
                with open(p + ".%d" % os.getpid(), "w") as f:
                    f.write(txt)
                os.replace(p + ".%d" % os.getpid(), p)
            r.append((n, p, SNAPF))
    else:
        # a single file of /repo ("src:path") or of /verif ("verif:path")
        kind, p = component.split(":", 1)
        p = os.path.join(REPO if kind == "src" else VERIF, p)
        r.append((p.strip("/").replace("/", "_"), p, TRIDENT + (SNAPF if kind == "verif+snap" else [])))
    return r


def compile_one(src, obj, flags):
    cmd = (["ccache"] if HAVE_CCACHE else []) + CXX + flags + ["-c", src, "-o", obj]
    p = subprocess.run(cmd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))
    return obj


def build(name, main, components, variant="asan", extra=(), snap=False, libs=(), std=None, unity=False):
    """Compiles everything and links an executable; returns its path."""
    os.makedirs(os.path.join(CACHE, "cctmp"), exist_ok=True)
    vf = VARIANTS[variant]
    jobs = []
    for c in components:
        od = os.path.join(CACHE, "obj", variant, c.replace("/", "_").replace(":", "_"))
        os.makedirs(od, exist_ok=True)
        for n, p, fl in sources(c, unity):
            jobs.append((p, os.path.join(od, n + ".o"), BASE + vf + fl + INC))
    hd = os.path.join(CACHE, "obj", variant, "harness")
    os.makedirs(hd, exist_ok=True)
    ho = os.path.join(hd, name + ".o")
    hfl = BASE + vf + TRIDENT + (SNAPF if snap else []) + INC + ["-I" + VERIF + "/harness"] + list(extra)
    if std:
        hfl.append("-std=" + std)
    jobs.insert(0, (os.path.join(VERIF, "harness", main), ho, hfl))
    # the big ones first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]) if os.path.exists(j[0]) else 0)
    errs = []
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(j, ex.submit(compile_one, *j)) for j in jobs]
        for j, f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs and ("snap" in components or "glib" in components) and not unity and \
            all("snaptu" in e or "glibtu" in e for e in errs):
        return build(name, main, components, variant, extra, snap, libs, std, unity=True)
    if errs:
        raise BuildError("\n".join(errs)[:8000])
    order = []
    for c in components:
        od = os.path.join(CACHE, "obj", variant, c.replace("/", "_").replace(":", "_"))
        order += [os.path.join(od, n + ".o") for n, _, _ in sources(c, unity)]
    bindir = os.path.join(CACHE, "bin", variant)
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, name)
    key = hashlib.sha256()
    for o in [ho] + order:
        key.update(open(o, "rb").read())
    key.update(repr((vf, libs, snap)).encode())
    stamp = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key.hexdigest()):
        ld = ["-fuse-ld=lld"] if shutil.which("ld.lld") else []
        san = [f for f in vf if f.startswith("-fsanitize")]
        cmd = CXX + ld + san + ["-pthread", "-o", exe + ".tmp"] + [ho] + order + \
              (["-fopenmp"] if snap else []) + list(libs) + ["-llz4", "-lz", "-ldl", "-lrt"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0 and any(c.startswith("src:") for c in components):
            # code moved between files: link the whole components instead of the listed files
            rest = [c for c in components if not c.startswith("src:") and c not in WHOLE]
            return build(name, main, rest + WHOLE, variant, extra, snap, libs, std, unity)
        if p.returncode != 0:
            raise BuildError("link of %s failed:\n%s" % (name, p.stdout[-4000:]))
        os.replace(exe + ".tmp", exe)
        open(stamp, "w").write(key.hexdigest())
    return exe


if __name__ == "__main__":
    import time
    t = time.time()
    variant = sys.argv[3] if len(sys.argv) > 3 else "asan"
    comps = sys.argv[2].split(",") if len(sys.argv) > 2 and sys.argv[2] else []
    print(build(sys.argv[1][:-4], sys.argv[1], comps, variant, snap="snap" in comps or "glib" in comps), "%.1fs" % (time.time() - t))
