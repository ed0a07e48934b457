"""Run cases on the real library and let TLC judge the recorded trace.

  cases --driver--> trace (what the library did) --TLC, specs/Trace*.tla--> bad events
"""
import json, os, re, shutil, signal, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

import build as B

VERIF = B.VERIF
SPECS = os.path.join(VERIF, "specs")
JAR = ":".join("/opt/veriftools/tla/" + j for j in ("tla2tools.jar", "CommunityModules-deps.jar"))
NCPU = min(8, os.cpu_count() or 4)
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:handle_segv=1:"
                        "max_malloc_fill_size=10000000:allocator_may_return_null=0:detect_stack_use_after_return=1:symbolize=0",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LC_ALL="C")
for k in ("RANDSEED", "VERIF_STDERR"):
    ENV.pop(k, None)


class CheckError(Exception):
    pass


def workdir(prop):
    d = os.path.join(B.BUILD, "run", "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def tlc(module, cfg, wd, env=None, workers=1, heap="1500m", args=(), timeout=800):
    """Run TLC on specs/<module>.tla; returns (exit code, output)."""
    meta = os.path.join(wd, "tlc-%s-%s-%d" % (module, os.path.basename(cfg), time.monotonic_ns()))
    os.makedirs(meta)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m",
           "-XX:TieredStopAtLevel=4", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", cfg] + list(args) + [module + ".tla"]
    e = dict(ENV)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC on %s took more than %d s" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def tlc_counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


# TLC breaks long tuples over several lines
BAD = re.compile(r'^<<\s*"BAD",\s*(-?\d+)\s*(?:,((?:.|\n(?=[ ]))*))?>>[ ]*$', re.M)


def run_driver(exe, cases, wd, tag, timeout=600, env=None):
    cf, tf = os.path.join(wd, tag + ".cases"), os.path.join(wd, tag + ".trace")
    with open(cf, "w") as f:
        for c in cases:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    sd = os.path.join(wd, tag + ".dir")     # scratch directory of the driver
    os.makedirs(sd, exist_ok=True)
    e = dict(ENV)
    e["VERIF_SCRATCH"] = sd
    e.update(env or {})
    try:
        p = subprocess.run([exe, cf, tf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e,
                           cwd=sd, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("driver took more than %d s" % timeout)
    if p.returncode != 0:
        raise CheckError("driver failed (%d): %s" % (p.returncode, p.stdout[-1500:]))
    ev = [json.loads(l) for l in open(tf)]
    hung = bool(ev) and ev[-1]["r"].get("died") == 14      # the driver stops after a few hangs
    if [x["id"] for x in ev] != [c["id"] for c in cases][:len(ev) if hung else None]:
        raise CheckError("the driver lost events: %d of %d" % (len(ev), len(cases)))
    return ev, tf


def judge(module, events, tf, wd, cfg=None, env=None):
    """ids of the events the specification does not allow -> detail"""
    bad = {}
    start = 0
    n = len(events)
    while start < n:
        path = tf
        if start:
            path = tf + ".%d" % start
            with open(path, "w") as f:
                for x in events[start:]:
                    f.write(json.dumps(x, separators=(",", ":")) + "\n")
        e = {"TRACE": path}
        e.update(env or {})
        rc, out = tlc(module, cfg or module + ".cfg", wd, env=e)
        found = list(BAD.finditer(out))
        if len(found) != out.count('"BAD"'):
            raise CheckError("cannot read the verdicts of TLC:\n%s" % out[-1500:])
        for m in found:
            bad[int(m.group(1))] = " ".join((m.group(2) or "").split())
        if rc == 0:
            if tlc_counts(out)[1] != n - start + 1:
                raise CheckError("TLC judged %d of %d events\n%s" % (tlc_counts(out)[1] - 1, n - start, out[-800:]))
            break
        # an evaluation error: the recorded result lies outside the domain of the specification
        m = re.findall(r"^(?:/\\ )?i = (\d+)", out, re.M)
        if not m or os.environ.get("VERIF_TLC_STRICT"):
            raise CheckError("TLC failed on %s:\n%s" % (module, out[-3000:]))
        k = start + int(m[-1])
        if k >= n:
            raise CheckError("TLC failed on %s:\n%s" % (module, out[-3000:]))
        err = re.findall(r"^Error: (.*(?:\n.*){0,4})", out, re.M)
        bad[events[k]["id"]] = "outside the domain of the specification: " + " ".join(err)[:300]
        start = k + 1
        if len(bad) > 40:
            break
    return bad


def conformance(driver, variant, module, cases, wd, chunks=None, extra=(), link=(), env=None, cfg=None, timeout=600):
    """Returns (bad events with details, all events)."""
    exe = B.build(driver, variant, extra=extra, link=link)
    for k, c in enumerate(cases):
        c["id"] = k
    if not cases:
        raise CheckError("no cases")
    n = chunks or max(1, min(NCPU, len(cases) // 50))
    parts = [cases[k::n] for k in range(n)]     # interleaved: chunks of similar cost

    def one(k):
        t0 = time.time()
        ev, tf = run_driver(exe, parts[k], wd, "%s%d" % (module, k), env=env, timeout=timeout)
        t1 = time.time()
        b = judge(module, ev, tf, wd, cfg=cfg)
        return ev, b, t1 - t0, time.time() - t1
    with ThreadPoolExecutor(max_workers=NCPU) as ex:
        res = list(ex.map(one, range(n)))
    if os.environ.get("VERIF_TIMES"):
        print("times: driver %.1f tlc %.1f (max over chunks)" % (max(r[2] for r in res), max(r[3] for r in res)))
    evs = {e["id"]: e for r in res for e in r[0]}
    badd = {i: d for r in res for i, d in r[1].items()}
    if badd:    # run the rejected ones once more: only what fails again is reported
        ids = sorted(badd)[:60]
        again = [{k: v for k, v in evs[i].items() if k != "r"} for i in ids]
        ev2, tf2 = run_driver(exe, again, wd, module + "-again", env=env, timeout=timeout)
        b2 = judge(module, ev2, tf2, wd, cfg=cfg)
        # memory errors count at once; what depends on what ran before is looked for in a run of the same chunk
        flaky = [i for i in ids if i not in b2 and evs[i]["r"].get("died") not in (299, 11, 7, 8, 4)]
        for k in sorted({i % n for i in flaky}):
            ev3, tf3 = run_driver(exe, parts[k], wd, "%s-again%d" % (module, k), env=env, timeout=timeout)
            b3 = judge(module, ev3, tf3, wd, cfg=cfg)
            flaky = [i for i in flaky if i % n != k or i not in b3]
        b2 = set(b2) | (set(ids) - set(flaky))
        if flaky:
            print("note: %d rejected events were accepted on the second run: %s" % (len(flaky), [json.dumps(evs[i])[:900] for i in flaky[:2]]))
        for i in flaky:
            evs[i]["flaky"] = True
        badd = {i: d for i, d in badd.items() if i in b2 or i not in ids}
    return [dict(evs[i], detail=badd[i]) for i in sorted(badd)], [evs[k] for k in sorted(evs)]
