"""Histories of flag tables (P26)."""
import itertools


def history(rng, n, bad):
    ops = [{"o": "special", "t": 2}]
    cnt = [0, 0, 0]
    for _ in range(n):
        t = rng.choice([0, 1, 2])
        ks = list(range(cnt[t])) + ([-1] if t == 2 else [])
        k = rng.random()
        v = rng.choice([0, 1, -1, 2, 100, rng.randint(-10**6, 10**6)])
        if k < .3 or not ks:
            ops.append({"o": "create", "t": t, "v": v})
            cnt[t] += 1
        elif k < .55:
            ops.append({"o": "set", "t": t, "k": rng.choice(ks), "v": v})
        elif k < .6:
            ops.append({"o": "set2", "t": t, "k": rng.choice(ks), "k2": rng.choice(ks), "v": v})
        elif k < .63:
            ops.append({"o": "copy", "t": 0})
            cnt[0] = cnt[1]
        else:
            ops.append({"o": "get", "t": t, "k": rng.choice(ks)})
    for t in range(3):      # at the end, everything is looked at
        for k in list(range(cnt[t])) + ([-1] if t == 2 else []):
            ops.append({"o": "get", "t": t, "k": k})
    if bad:
        t = rng.choice([0, 1, 2])
        b = rng.choice([0, 0, 1, 7, 1000, -1, -2, -2**31])
        ops.append(dict({"o": rng.choice(["get", "set"]), "t": t, "k": 0, "v": 5, "bad": b}))
        if t == 2 and b >= 0:
            ops[-1]["bad"] = b + 500      # other parts of the library may own keys there
    return {"op": "flags", "ops": ops}


def many_keys(rng, n):
    """a table that keeps growing: nothing set earlier is lost on the way"""
    t = rng.choice([0, 1, 2])
    ops, cnt = [{"o": "special", "t": 2}], 0
    for j in range(n):
        ops.append({"o": "create", "t": t, "v": rng.randint(-10**6, 10**6)})
        if rng.random() < .2:
            ops.append({"o": "set", "t": t, "k": rng.randint(0, j), "v": rng.randint(-10**6, 10**6)})
        if rng.random() < .2:
            ops.append({"o": "get", "t": t, "k": rng.randint(0, j)})
    ops += [{"o": "get", "t": t, "k": k} for k in (range(n) if n < 400 else sorted(rng.sample(range(n), 400)))]
    return {"op": "flags", "ops": ops}


def p26(rng, tier):
    cases = [many_keys(rng, n) for n in ((128, 129, 257, 700) if tier == "quick" else (64, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1025))]
    # every short history of one table
    acts = [("create", 0), ("create", 3), ("set", 0, 4), ("set", 1, 5), ("get", 0), ("get", 1), ("bad", 0)]
    for n in range(1, 5 if tier == "quick" else 6):
        for h in itertools.product(acts, repeat=n):
            cnt, ops, ok = 0, [{"o": "special", "t": 2}], True
            for j, a in enumerate(h):
                if a[0] == "create":
                    ops.append({"o": "create", "t": 0, "v": a[1]})
                    cnt += 1
                elif a[0] == "bad":
                    ok = ok and j == n - 1
                    ops.append({"o": "get" if cnt % 2 else "set", "t": 0, "k": 0, "v": 9, "bad": 0})
                elif a[1] >= cnt:
                    ok = False
                elif a[0] == "set":
                    ops.append({"o": "set", "t": 0, "k": a[1], "v": a[2]})
                else:
                    ops.append({"o": "get", "t": 0, "k": a[1]})
            if ok:
                cases.append({"op": "flags", "ops": ops})
    for _ in range(700 if tier == "quick" else 6000):
        cases.append(history(rng, rng.choice([1, 3, 8, 20, 60, 200]), rng.random() < .3))
    return cases
