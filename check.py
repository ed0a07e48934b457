#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decide one property on /repo's current tree."""
import collections, json, os, re, shutil, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B
import conform as C
import checks


def known_findings():
    """lines "known: property=<id> match=<json> <what fails>" of known-findings.txt"""
    out = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        m = re.match(r"known: property=(\S+) match=(\{.*?\}) (.*)$", l)
        if m:
            out.append((m.group(1), json.loads(m.group(2)), m.group(3).strip()))
    return out


def matches(ev, pat):
    return all(ev.get(k) == v for k, v in pat.items())


def short(ev, n=700):
    s = json.dumps(ev, separators=(",", ":"))
    return s if len(s) <= n else s[:n] + "..."


def nontrivial(ev):
    """an event whose inputs are not all empty, and which was not a mere refusal"""
    return "died" not in ev["r"] and len(json.dumps({k: v for k, v in ev.items() if k not in ("r", "id")})) > 40


ROUNDS, BUDGET = 12, 240      # of the thorough tier: how often the cases are drawn anew; seconds


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    wd = C.workdir(prop)
    evdir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    res = []
    try:
        for u in checks.CHECKS[prop]:
            if os.environ.get("VERIF_NOMODELS") and not isinstance(u, checks.Unit):
                continue        # tools/mutate.py: the models do not depend on the code
            t = time.time()
            r = u.run(prop, seed, tier, wd)
            r["wall"] = time.time() - t
            res.append(r)
        more = [(u, r) for u, r in zip(checks.CHECKS[prop], res) if isinstance(u, checks.Unit)] if tier == "thorough" else []
        for k in range(1, ROUNDS):      # other cases, from other seeds, while there is time
            for u, r in more:
                if time.time() - t0 < BUDGET and r["wall"] < BUDGET / 2:
                    q = u.run(prop, seed * 100 + k, tier, wd)
                    r["bad"] += q["bad"]
                    r["rounds"] = k + 1
                    r["more"] = r.get("more", 0) + len(q["evs"])
                    r["more_refused"] = r.get("more_refused", 0) + sum("died" in e["r"] for e in q["evs"])
    except (C.CheckError, B.BuildError) as x:
        print("ERROR: %s" % x)
        sys.exit(2)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(wd, ignore_errors=True)
    known = [k for k in known_findings() if k[0] == prop]
    bad, hit = [], collections.Counter()
    for r in res:
        for e in r["bad"]:
            if e.get("flaky"):
                continue
            for k in known:
                if matches(e, k[1]):
                    hit[k[2]] += 1
                    break
            else:
                bad.append(dict(e, module=r["module"]))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k[2]))
    evs = [e for r in res for e in r["evs"]]
    total = len(evs) + sum(r.get("more", 0) for r in res)
    rej = sum(1 for e in evs if "died" in e["r"]) + sum(r.get("more_refused", 0) for r in res)
    ops = collections.Counter(e.get("op", "?") for e in evs)
    distinct = {json.dumps({k: v for k, v in e.items() if k not in ("r", "id")}, sort_keys=True) for e in evs if nontrivial(e)}
    step = max(1, len(evs) // 4)
    level = checks.LEVEL[prop]
    modules = {}
    for r in res:
        m = modules.setdefault(r["module"] if r["module"] not in modules or not r.get("driver") else r["module"] + "/" + r["driver"], {})
        m.update({k: r[k] for k in ("states", "transitions", "covered", "rounds") if k in r})
        m.update(events=len(r["evs"]) + r.get("more", 0), wall_s=round(r["wall"], 1))
    cov = {"evaluations": total, "distinct_nontrivial": len(distinct),
           "rule": "each case is a call on the real library with inputs from lib/gen_*.py (seeded); TLC computes the required "
                   "result in the module named below and compares. Non-trivial: not refused by the library and with non-empty inputs; "
                   "distinct: different inputs.",
           "refusals_checked": rej, "operations": dict(ops),
           "modules": modules,
           "samples": [short(e, 1500) for e in evs[::step][:4]]}
    st = sum(r.get("states", 0) for r in res)
    if level == "model_checking":
        cov["states"] = st
        cov["transitions"] = sum(r.get("transitions", 0) for r in res)
        cov["traces_validated_against_impl"] = sum(r.get("traces", len(r["evs"]) + r.get("more", 0)) for r in res)
        cov["samples"] = cov["samples"] or [short(s, 1500) for r in res for s in r.get("samples", [])][:4]
    if any(r.get("exhaustive") for r in res):
        cov["exhaustive_parts"] = [r["exhaustive"] for r in res if r.get("exhaustive")]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(checks, "ASSUME", {}).get(prop, []),
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        rp = os.path.join(evdir, "replay-%s.json" % prop)
        with open(rp, "w") as f:
            for e in bad[:50]:
                f.write(json.dumps(e, separators=(",", ":")) + "\n")
        for e in bad[:3]:
            print("violates %s (%s): %s" % (e["module"], e.get("detail") or "result", short(e)))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        sys.exit(1)
    print("OK property=%s: %d events (%d refusals)%s, %.1f s" % (
        prop, total, rej, ", %d model states" % st if st else "", time.time() - t0))


if __name__ == "__main__":
    main()
