"""Build the library under test from /repo's working tree, plus harness drivers.

Objects are cached in /verif/build/<variant>, keyed by a hash of the command
line and of the contents of every file that the compiler read (as listed by
-MMD in an earlier compilation of the same source), so that a stale object is
never used; with an empty cache everything is compiled (about half a minute on
8 cores)."""
import hashlib, os, re, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

VARIANTS = {
    # asserts stay on in every variant: the library rejects misuse with them
    "plain": ["-O1", "-g0"],
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer",
             "-D_GLIBCXX_SANITIZE_VECTOR=1"],
}
LIBS = ["-lfftw3", "-lopenblas", "-lgfortran", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def _sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        c = " ".join(cmd)
        raise BuildError("command failed: %s\n%s" % (c if len(c) < 600 else c[:300] + " ... " + c[-200:], p.stdout[-6000:]))
    return p.stdout


def sources():
    """The sources of libtensor, as the repository's own build lists them."""
    txt = open(os.path.join(REPO, "src/Makefile.inc")).read().replace("\\\n", " ")
    groups = {}
    for m in re.finditer(r"^(\w+)\s*=\s*(.*)$", txt, re.M):
        groups[m.group(1)] = m.group(2).split()
    out = []
    for g in ("basic_SOURCES", "fftw_SOURCES", "arpack_cpp_SOURCES", "arpack_SOURCES",
              "rand64_SOURCES"):
        out += [f for f in groups.get(g, []) if f.endswith((".cc", ".f"))]
    seen, res = set(), []
    for f in out:
        if f not in seen:
            seen.add(f)
            res.append(os.path.join(REPO, "src", f))
    return res


_hash = {}


def _file_hash(p):
    """of the contents; headers are hashed once per run"""
    if p not in _hash:
        try:
            _hash[p] = hashlib.sha256(open(p, "rb").read()).hexdigest()
        except OSError:
            _hash[p] = "missing"
    return _hash[p]


def includes():
    return ["-I" + os.path.join(VERIF, "harness/include"), "-I" + os.path.join(REPO, "include"),
            "-I" + REPO, "-I" + os.path.join(REPO, "src")]


def _deps(dfile):
    """files read by the compiler, other than the system's"""
    t = open(dfile).read().replace("\\\n", " ").split(":", 1)[1]
    return sorted(set(t.split()))


def _obj(src, flags, odir):
    fortran = src.endswith(".f")
    if fortran:
        cmd = ["gfortran", "-O1", "-g0", "-fallow-argument-mismatch", "-w", "-I" + os.path.dirname(src), "-c", src]
    else:
        cmd = ["g++", "-std=gnu++17", "-w"] + flags + includes() + ["-c", src]
    base = os.path.join(odir, re.sub(r"[^A-Za-z0-9_.]", "_", os.path.basename(src)) + "." +
                        hashlib.sha256("\0".join(cmd).encode()).hexdigest()[:12])

    def name(deps):
        return "%s.%s.o" % (base, hashlib.sha256("\0".join(d + "=" + _file_hash(d) for d in deps).encode()).hexdigest()[:24])
    lst = base + ".deps"        # lines: the sets of files seen so far
    known = [l.split() for l in open(lst)] if os.path.exists(lst) else []
    for deps in known:
        o = name(deps)
        if os.path.exists(o):
            return o
    tmp = base + ".tmp%d" % os.getpid()
    _sh(cmd + ([] if fortran else ["-MMD", "-MF", tmp + ".d"]) + ["-o", tmp])
    deps = [src] if fortran else _deps(tmp + ".d")
    if fortran:
        deps += sorted(os.path.join(d, f) for d in {os.path.dirname(src)} for f in os.listdir(d) if f.endswith(".h"))
    else:
        os.unlink(tmp + ".d")
    o = name(deps)
    os.rename(tmp, o)
    if deps not in known:
        with open(lst, "a") as f:
            f.write(" ".join(deps) + "\n")
    return o


def build(driver, variant="plain", extra=(), only=None, link=()):
    """Compile the library and harness/<driver>.cc; return the executable's path."""
    flags = VARIANTS[variant] + list(extra)
    odir = os.path.join(BUILD, variant)
    os.makedirs(odir, exist_ok=True)
    with open(os.path.join(odir, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _hash.clear()
        drv = os.path.join(VERIF, "harness", driver + ".cc")
        srcs = [s for s in sources() if only is None or only(os.path.relpath(s, os.path.join(REPO, "src")))]
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            fd = ex.submit(_obj, drv, flags, odir)   # slowest first
            objs = list(ex.map(lambda s: _obj(s, flags, odir), srcs))
            objs = [fd.result()] + objs
        key = hashlib.sha256("\0".join(objs + list(link)).encode()).hexdigest()[:24]
        exe = os.path.join(odir, driver + "." + key)
        if not os.path.exists(exe):
            tmp = exe + ".tmp%d" % os.getpid()
            san = [f for f in flags if f.startswith("-fsanitize")]
            _sh(["g++"] + san + ["-o", tmp] + objs + list(link) + LIBS)
            os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    for d in sys.argv[2:]:
        print(build(d, sys.argv[1]))
