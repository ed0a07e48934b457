#!/usr/bin/env python3
"""Mutation campaign: small random changes of the library in a scratch copy; which ones do the checks notice?

  tools/mutate.py WORKER SEED SECONDS [file-regex]     results appended to /tmp/mut/log.WORKER (json lines)

Never touches /repo: works in /tmp/mut/repoWORKER with objects in /tmp/mut/build (a cache shared by the workers)."""
import json, os, random, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [
    (r"include/tensor/(refcount\.h|detail/refcount\.hpp|detail/common\.h)", "P02 P01 P03"),
    (r"src/generated/sparse|src/sparse", "P13 P12"),
    (r"include/tensor/vector\.h", "P02 P09 P01 P03"),
    (r"detail/(tensor_base|initializer)", "P03 P01 P06 P11"),
    (r"tensor_slice\.hpp|views/range|tensor_view", "P04 P05"),
    (r"/io|matrix_form", "P27 P04"),
    (r"views/", "P04 P07"),
    (r"tensor_reshape", "P06"),
    (r"gen\.h|tensor_matrix\.hpp|linspace", "P11 P10"),
    (r"include/tensor/indices\.h|src/indices", "P11 P09 P04 P06 P03 P10"),
    (r"functional\.h|tensor_ops\.hpp|src/generated|numbers\.h", "P08 P09"),
    (r"src/compare", "P09"),
    (r"sparse", "P12 P13 P24"),
    (r"src/tensor/tensor_(fold|gemm|mmult)|gemm\.cc|gemv\.cc|tensor_blas", "P07 P13"),
    (r"src/tensor/tensor_sort", "P09"),
    (r"src/tensor", "P10 P06 P08 P09 P07"),
    (r"include/tensor/tensor\.h", "P03 P08 P09 P06 P01 P10 P11"),
    (r"src/arpack|arpack", "P24"),
    (r"src/linalg|linalg\.h", "P21 P25 P23 P24"),
    (r"fft", "P22"),
    (r"sdf/(isdir|make_dir|file_exists|delete_|rename_)", "P28 P14 P16"),
    (r"sdf", "P14 P17 P16 P15"),
    (r"jobs", "P18 P19"),
    (r"flags", "P26"),
    (r"tictoc", "P29"),
    (r"rand", "P20"),
    (r"map", "P24 P25"),
    (r"", "P03 P08"),
]
SKIP = r"backtrace|rand32|eigs_sym|tensor_lapack|arpack_[dz]\.h|config|clapack|cblas|eigs_auto|tensor_reshape\.hpp|arpack-ng"


def props(f):
    return next(p for r, p in MAP if re.search(r, f)).split()


def files(repo, pat):
    out = []
    built = {f[:-2] + ".cc" for _, _, fs in os.walk(repo + "/_build/src") for f in fs if f.endswith(".o")}
    for d in ("src", "include"):
        for b, _, fs in os.walk(os.path.join(repo, d)):
            for f in fs:
                p = os.path.relpath(os.path.join(b, f), repo)
                if f.endswith(".cc") and f not in built:
                    continue
                if re.search(r"\.(cc|h|hpp)$", f) and not re.search(SKIP, p) and re.search(pat, p):
                    out.append(p)
    return sorted(out)


REL = {"<": ["<=", ">"], ">": [">=", "<"], "<=": ["<"], ">=": [">"], "==": ["!="], "!=": ["=="]}


def sites(text):
    """(line, start, end, replacement) of everything that can be mutated"""
    out, depth = [], 0
    incomment = False
    for n, l in enumerate(text.split("\n")):
        s = l.strip()
        if incomment:
            incomment = "*/" not in s
            continue
        if s.startswith("/*"):
            incomment = "*/" not in s
            continue
        if not s or "std::cerr" in s or s.startswith(("//", "#", "*", "template", "namespace", "using", "class", "struct", "typedef", "extern")):
            continue
        c = l.split("//")[0]
        for m in re.finditer(r'(?<![<>=!\-+&|(])\s(<=|>=|==|!=|<|>)\s', c):
            for r in REL[m.group(1)]:
                out.append((n, m.start(1), m.end(1), r))
        for m in re.finditer(r'[\w)\]](\s*)([+\-*/%])(\s*)[\w(]', c):
            if m.group(2) == "*" and (m.group(1) != m.group(3)):
                continue
            if m.group(2) == "-" and c[m.end() - 1] == ">":
                continue
            r = {"+": "-", "-": "+", "*": "+", "/": "*", "%": "/"}[m.group(2)]
            out.append((n, m.start(2), m.end(2), r))
        for m in re.finditer(r'(\+\+|--)', c):
            if not re.search(r"operator", c):
                out.append((n, m.start(), m.end(), "--" if m.group() == "++" else "++"))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', c):
            v = int(m.group(1))
            out.append((n, m.start(1), m.end(1), str(v + 1)))
            if v:
                out.append((n, m.start(1), m.end(1), str(v - 1)))
        for m in re.finditer(r'&&|\|\|', c):
            if "operator" not in c:
                out.append((n, m.start(), m.end(), "||" if m.group() == "&&" else "&&"))
        for m in re.finditer(r'\b(if|while)\s*\(', c):
            k, e = 1, m.end()
            while e < len(c) and k:
                k += {"(": 1, ")": -1}.get(c[e], 0)
                e += 1
            if not k:
                out.append((n, m.end(), e - 1, "!(" + c[m.end():e - 1] + ")"))
                out.append((n, m.end(), e - 1, "false && (" + c[m.end():e - 1] + ")"))
        if re.match(r'^\s+[\w.\->\[\]()*+]+(\s*[+\-*/]?=[^=].*|\(.*\)|\+\+|--);\s*$', c) and not re.match(r'\s*(return|delete|throw|const|else)\b', c):
            out.append((n, len(c) - len(c.lstrip()), len(c.rstrip()), ";"))
        for m in re.finditer(r'\((\w+(?:\.\w+\(\))?), (\w+(?:\.\w+\(\))?)\)', c):
            out.append((n, m.start(), m.end(), "(%s, %s)" % (m.group(2), m.group(1))))
        for m in re.finditer(r'\b(conj)\(', c):
            out.append((n, m.start(1), m.end(1), ""))
        for m in re.finditer(r'\b(min|max)\(', c):
            out.append((n, m.start(1), m.end(1), "max" if m.group(1) == "min" else "min"))
        for m in re.finditer(r'\b(true|false)\b', c):
            out.append((n, m.start(), m.end(), "false" if m.group() == "true" else "true"))
        for m in re.finditer(r'\b(\w*)(begin|end|row|column|left|right|first|last|upper|lower)(\w*)\b', c):
            sw = {"begin": "end", "end": "begin", "row": "column", "column": "row", "left": "right", "right": "left",
                  "first": "last", "last": "first", "upper": "lower", "lower": "upper"}
            out.append((n, m.start(2), m.end(2), sw[m.group(2)]))
    return out


def run(prop, env):
    p = subprocess.run([sys.executable, V + "/check.py", prop, "quick"], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, cwd=V)
    return p.returncode, p.stdout


def main():
    w, seed, secs = sys.argv[1], int(sys.argv[2]), float(sys.argv[3])
    pat = sys.argv[4] if len(sys.argv) > 4 else ""
    repo, log = "/tmp/mut/repo" + w, "/tmp/mut/log." + w
    os.makedirs("/tmp/mut", exist_ok=True)
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD="/tmp/mut/build" + w, VERIF_NOMODELS="1", VERIF_EVIDENCE="/tmp/mut/evidence" + w)
    rng = random.Random(seed)
    fs = files(repo, pat)
    allsites = {}
    for f in fs:
        t = open(os.path.join(repo, f), errors="replace").read()
        allsites[f] = (t, sites(t))
    fs = [f for f in fs if allsites[f][1]]
    end = time.time() + secs
    while time.time() < end:
        # files by the square root of their number of sites: small files get their turn
        f = rng.choices(fs, [len(allsites[f][1]) ** .5 for f in fs])[0]
        t, ss = allsites[f]
        n, a, b, r = rng.choice(ss)
        ls = t.split("\n")
        old = ls[n]
        ls[n] = old[:a] + r + old[b:]
        open(os.path.join(repo, f), "w").write("\n".join(ls))
        res, det, t0 = "SURVIVED", "", time.time()
        for p in props(f):
            rc, out = run(p, env)
            if rc == 1:
                res, det = "killed", p
                break
            if rc != 0:
                res, det = ("nocompile" if "command failed" in out or "error:" in out else "ERROR"), p + " " + out[-300:]
                break
        open(os.path.join(repo, f), "w").write(t)
        with open(log, "a") as o:
            o.write(json.dumps({"res": res, "f": f, "line": n + 1, "old": old.strip(), "new": ls[n].strip(), "det": det,
                                "t": round(time.time() - t0)}) + "\n")


main()
