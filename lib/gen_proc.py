"""Schedules of processes that share a data file (P15) and crashes (P16)."""
import itertools, os, re

import conform as C


def out(n=1, close=True):
    return {"kind": "out", "recs": n, "close": close}


def rd(n=0, close=True):
    return {"kind": "in", "recs": n, "close": close}


def case(prog, sched, pre=(), **kw):
    return dict({"op": "lock", "prog": prog, "sched": sched, "pre": list(pre)}, **kw)


def blocks(lens, first, n=2):
    s, p = [], first
    for x in lens:
        s += [p] * x
        p = (p + 1) % n
    return s


def two_process(depth, grid):
    """every schedule of two processes with up to `depth` context switches (coarse steps)"""
    progs = [[[out(), out()], [out()]], [[out(), rd(1)], [out()]], [[out()], [out(), out()]]]
    for prog in progs:
        for first in (0, 1):
            for lens in itertools.product(grid, repeat=depth):
                yield case(prog, blocks(lens, first), pre=[1], coarse=True)


def three_process(rng):
    prog = [[rng.choice([out(), out(rng.randint(1, 3), rng.random() < .5), rd(1, rng.random() < .5)]) for _ in range(rng.choice([1, 1, 2]))] for _ in range(3)]
    s = []
    while len(s) < 60:
        s += [rng.randrange(3)] * rng.choice([1, 1, 1, 2, 3, 5, 8])
    return case(prog, s, pre=[4, 5], coarse=rng.random() < .7)


def fine(rng):
    n = rng.choice([2, 2, 3, 4])
    prog = [[rng.choice([out(rng.randint(1, 2), rng.random() < .5), rd(1)]) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
    s = []
    while len(s) < 150:
        s += [rng.randrange(n)] * rng.choice([1, 1, 2, 4, 9])
    return case(prog, s, pre=[9], nostdin=rng.random() < .2, stale=rng.random() < .3)


def fresh(rng):
    """nobody has created the file yet: writers only"""
    n = rng.choice([2, 3])
    s = []
    while len(s) < 60:
        s += [rng.randrange(n)] * rng.choice([1, 1, 2, 3])
    return case([[out(rng.randint(1, 2)) for _ in range(rng.choice([1, 2]))] for _ in range(n)], s, coarse=rng.random() < .5,
                nostdin=rng.random() < .2)


def killed(rng):
    n = rng.choice([2, 3])
    prog = [[rng.choice([out(), rd(1)]) for _ in range(rng.choice([1, 2]))] for _ in range(n)]
    s = []
    while len(s) < 60:
        s += [rng.randrange(n)] * rng.choice([1, 1, 2, 3, 7])
    s.insert(rng.randrange(1, 50), -1 - rng.randrange(n))
    return case(prog, s, pre=[4], coarse=rng.random() < .5)


STEPS = {"Open": 1, "Flock": 1, "Check": 1, "GiveUp": 2, "DOpen": 1, "Write": 0, "DClose": 1, "Unlink": 1, "Release": 1}


def from_model(cfg, num, wd, seed, kills=False):
    """schedules that are behaviours of the model MCLock, from TLC's simulator"""
    d = os.path.join(wd, "sim-" + cfg)
    os.makedirs(d)
    rc, o = C.tlc("MCLock", cfg + ".cfg", wd, workers=1,
                  args=["-simulate", "file=%s/t,num=%d" % (d, num), "-depth", "60", "-seed", str(seed)])
    res = []
    for f in sorted(os.listdir(d)):
        t = open(os.path.join(d, f)).read()
        acts = re.findall(r"\\\* (?:<)?(\w+)\((\d)\)", t)
        if not acts:
            acts = re.findall(r"<(\w+)\((\d)\) line", t)
        if not acts:
            last = [int(x) for x in re.findall(r"last = (\d+)", t)]
            acts = [("Open", x) for x in last if x]
        s = []
        for a, p in acts:
            if a == "Kill":
                s.append(-int(p))
            else:
                s += [int(p) - 1] * STEPS.get(a, 1)
        if s:
            res.append(s)
    if not res:
        raise C.CheckError("no behaviours from TLC's simulator: %s" % o[-800:])
    return res


def p15(rng, tier, wd=None):
    q = tier == "quick"
    cases = list(two_process(3, [1, 2, 3, 5, 7, 8, 9] if q else range(1, 17)))
    if q:
        cases = [c for c in cases if rng.random() < .9]
    for k in range(300 if q else 6000):
        cases.append(three_process(rng))
    for k in range(150 if q else 3000):
        cases.append(fine(rng))
    for k in range(100 if q else 2000):
        cases.append(fresh(rng))
    for k in range(100 if q else 2000):
        cases.append(killed(rng))
    for cfg, n in (("MCLockSim", 300 if q else 4000), ("MCLockWeakSim", 300 if q else 4000)):
        for s in from_model(cfg, n, wd, rng.randrange(10 ** 6)):
            cases.append(case([[out(), out()], [out(), out()], [out()]], s, pre=[1], coarse=True))
    return cases


def p16(rng, tier, wd=None):
    q = tier == "quick"
    cases = []
    for k in range(24 if q else 250):
        new = [rng.randint(1, 999) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        c = {"op": "crash", "mode": 4, "new": new, "tmp": rng.random() < .4, "close": rng.random() < .5}
        if rng.random() < .7:
            c["old"] = rng.choice([[rng.randint(1000, 1999) for _ in range(rng.choice([0, 1, 2, 4]))], new])
        cases.append(c)
    for k in range(6 if q else 60):
        c = {"op": "crash", "mode": -1, "new": [rng.randint(1, 999) for _ in range(rng.choice([0, 1, 2]))]}
        if rng.random() < .8:
            c["old"] = [rng.randint(1000, 1999) for _ in range(rng.choice([0, 1, 2]))]
        cases.append(c)
    return cases


def p17crash(rng, tier, wd=None):
    return [{"op": "crash", "mode": 1, "old": [rng.randint(1000, 1999) for _ in range(rng.choice([0, 1, 2, 3]))],
             "new": [rng.randint(1, 999) for _ in range(rng.choice([1, 2]))], "close": rng.random() < .5}
            for _ in range(12 if tier == "quick" else 150)]
