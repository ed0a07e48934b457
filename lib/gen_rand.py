"""Histories of draws of random numbers (P20)."""

SEEDS = [0, 1, 2, 5489, 12345, 19650218, 2**31, 2**31 - 1, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64 - 1, 2**63 - 1, 0xdeadbeefcafebabe]
# after these seeds, draw k (from 0) is a real number that rounds to 1 as a float
FLOAT1 = [(82219, 273), (356289, 186)]


def limbs(x):
    return [(x >> (16 * k)) & 0xffff for k in range(4)]


def seed(rng, w):
    k = rng.random()
    if k < .55:
        s = rng.choice(SEEDS) if rng.random() < .4 else rng.getrandbits(rng.choice([8, 16, 31, 32, 33, 48, 64]))
        return {"seed": limbs(s)}
    return {"env": rng.choice([0, 1, -1, 42, -2**31, 2**31 - 1, 5489, rng.randint(-10**6, 10**6), rng.randint(-2**31, 2**31 - 1)])}


def one(rng, w, room):
    k = rng.random()
    if k < .45:
        return {"o": rng.choice("iulUfdz")}
    if k < .75 or w == 32:
        o = rng.choice(["I1", "I2", "L1", "L2", "U1", "U2", "D2", "h"])
        n = rng.choice([1, 2, 3, 7, 10, 100, 1000, 65536, 10**6, rng.randint(1, 2**20), rng.randint(1, 2**29 - 1)])
        c = {"o": o, "n": n, "m": 0}
        if o[1:] == "2":
            m = rng.choice([0, 1, rng.randint(0, 1000), rng.randint(0, 2**20)])
            if o != "U2" and rng.random() < .5:
                m = -m
            c["m"] = m
            c["n"] = m + min(n, 2**29 - 1)
            if o == "D2":
                c["m"], c["n"] = m % 1000 * rng.choice([1, -1]), 0
                c["n"] = c["m"] + rng.randint(1, 5000)
                if rng.random() < .4:
                    c["one"], c["m"] = True, 0
                    c["n"] = rng.randint(1, 5000)
        if o == "h":
            c["n"] = rng.randint(1, 2047)
        return c
    d = [rng.choice([1, 1, 2, 2, 3, 4]) for _ in range(rng.randint(1, 6))]
    if rng.random() < .15:
        d[rng.randrange(len(d))] = 0
    c = {"o": rng.choice("RC"), "d": d}
    if rng.random() < .3:
        c["fill"] = True
    elif rng.random() < .3:
        c["list"] = True
    return c


def uses(w, o):
    r = 1 if w == 64 else 2
    if o["o"] in "RC" and "d" in o:
        n = r * (2 if o["o"] == "C" else 1)
        for x in o["d"]:
            n *= x
        return n
    return {"f": r, "d": r, "D2": r, "h": r, "z": 2 * r}.get(o["o"], 1)


def segment(rng, w, words):
    s = seed(rng, w)
    ops, n = [], 0
    kind = rng.random()
    fixed = rng.choice("iulUfdz")
    while n < words and len(ops) < 400:
        o = {"o": fixed} if kind < .25 else one(rng, w, words - n)
        ops.append(o)
        n += uses(w, o)
    s["ops"] = ops
    return s


def history(rng, w, big):
    nn = 312 if w == 64 else 624
    segs = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        words = rng.choice([5, 20, 60, nn - 2, nn, nn + 3, nn + 30]) if rng.random() < big else rng.choice([1, 5, 12, 40])
        segs.append(segment(rng, w, words))
    return {"op": "rand", "w": w, "segs": segs}


def p20(rng, tier):
    big = .35
    cases = [history(rng, 64, big) for _ in range(150 if tier == "quick" else 1500)]
    # several blocks in a row
    for _ in range(2 if tier == "quick" else 12):
        cases.append({"op": "rand", "w": 64, "segs": [segment(rng, 64, rng.randint(2, 5) * 312 + rng.choice([-1, 0, 1, 5]))]})
    # the largest reals
    for s, k in FLOAT1:
        for o in "fdz":
            ops = [{"o": "d"}] * k + [{"o": o}, {"o": "f"}]
            cases.append({"op": "rand", "w": 64, "segs": [{"seed": limbs(s), "ops": ops}]})
    # RANDSEED seen at the start of the program
    for _ in range(20 if tier == "quick" else 100):
        s = segment(rng, 64, rng.choice([3, 10, 320]))
        while "env" not in s:
            s = segment(rng, 64, 10)
        s["fresh"] = True
        cases.append({"op": "rand", "w": 64, "segs": [s]})
    # sparse matrices: the sequence they use is their own affair, but it is always the same
    for _ in range(60 if tier == "quick" else 500):
        segs = []
        for _ in range(rng.randint(1, 3)):
            s = seed(rng, 64)
            s["ops"] = [one(rng, 64, 30) if rng.random() < .5 else
                        {"o": rng.choice("SZ"), "n": rng.randint(1, 6), "m": rng.randint(1, 6), "pc": rng.choice([1, 10, 20, 50, 90, 100])}
                        for _ in range(rng.randint(1, 12))]
            segs.append(s)
        cases.append({"op": "twin", "w": 64, "segs": segs})
    return cases


def p20_32(rng, tier):
    return [history(rng, 32, .25) for _ in range(100 if tier == "quick" else 1000)]
