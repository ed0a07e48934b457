#!/usr/bin/env python3
"""plant.py ID...: validate planted bugs in the scratch copy /tmp/sw/repo (see DESIGN.md), then run the check of
their property against it.  Only used while developing; no check uses it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/sw/repo"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def demo(i):
    d = "/tmp/sw/demo"
    sh("rm -rf /tmp/sw/demo; mkdir -p /tmp/sw/demo; cp -r %s/seeded/%s/. /tmp/sw/demo/; rm -f /tmp/sw/demo/*.diff /tmp/sw/demo/meta.json" % (V, i))
    try:
        p = sh("bash /tmp/sw/demo/demo.sh", cwd=S, timeout=300)
        return p.returncode, p.stdout[-300:]
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests():
    p = sh("bash /tmp/sw/test.sh /tmp/sw/o.json")
    o = json.load(open("/tmp/sw/o.json"))
    ok = set(o.get("passed", o.get("pass", [])))
    b = json.load(open("/opt/vp/BASELINE.json"))
    st = set(b.get("stable", b.get("tests", b.get("passed", []))))
    return sorted(st - ok), len(st)


def main():
    args = sys.argv[1:]
    nocheck = "--nocheck" in args
    onlycheck = "--check" in args
    clean = "--clean" in args
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
    sh("git checkout -q -- . && git fetch -q /repo && git checkout -q --detach FETCH_HEAD", cwd=S)
    if not onlycheck:
        sh("bash /tmp/sw/build.sh")
        for i in ids:
            r = demo(i)
            if r[0] != 0:
                print(i, "DEMO FAILS ON CLEAN", r)
    for i in ids:
        meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
        p = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=S)
        if p.returncode:
            print(i, "DOES NOT APPLY", p.stdout); continue
        msg = ""
        if not onlycheck:
            b = sh("bash /tmp/sw/build.sh")
            if b.returncode:
                print(i, "DOES NOT BUILD", b.stdout[-1500:]); sh("git checkout -q -- .", cwd=S); continue
            r = demo(i)
            lost, n = tests()
            msg = "demo=%s tests lost=%s/%d" % (r, lost[:5], n)
        res = ""
        if not nocheck:
            t = time.time()
            e = dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/sw/build", VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            p = sh("python3 check.py %s quick" % meta["property"], cwd=V, env=e)
            res = "%s rc=%d %.0fs %s" % ("CAUGHT" if p.returncode == 1 and "VIOLATION property=" + meta["property"] in p.stdout else "MISSED", p.returncode, time.time() - t,
                                         p.stdout[:300].replace("\n", " / "))
        print(i, meta["property"], msg, res, flush=True)
        sh("git checkout -q -- .", cwd=S)


main()
