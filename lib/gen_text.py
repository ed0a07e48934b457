"""Cases for the text output (P27)."""
import itertools
from gen_dense import ten

NAN, INF, NEGZERO = 2000000003, 2000000001, 1999999999


def value(rng, q):
    r = rng.random()
    if q == 1 and r < .04:
        return rng.choice([NAN, INF, -INF, NEGZERO])
    if r < .15:
        return 0
    lim = rng.choice([9, 100, 999999 if q == 1 else 3999])
    return rng.randint(-lim, lim)


def p27(rng, tier):
    out = []
    N = 1 if tier == "quick" else 10

    def tensor(d, c, plain=False):
        n = 1
        for x in d:
            n *= x
        q = rng.choice([1, 1, 2, 4])
        v = lambda: (lambda z: 7 if plain and abs(z) > 10 ** 8 else z)(value(rng, q))
        t = {"c": c, "d": list(d), "e": [[v(), v() if c else 0] for _ in range(n)]}
        if q != 1:
            t["q"] = q
        return t

    shapes = [[]] + [list(d) for r in range(1, 4) for d in itertools.product((0, 1, 2, 3), repeat=r)]
    for d in shapes:
        for c in (False, True):
            for k in ("tensor", "matrix"):
                if d or k == "tensor":
                    out.append({"k": k, "x": tensor(d, c) if d else {"c": c, "d": [0], "e": []}})
    for _ in range(300 * N):
        c = rng.random() < .5
        k = rng.choice(["tensor", "tensor", "vector", "matrix", "matrix", "sparse", "smatrix"])
        r = 1 if k == "vector" else 2 if k in ("sparse", "smatrix") else rng.choice([1, 2, 2, 3]) if k == "matrix" else rng.randint(1, 6)
        d = [rng.choice([0, 1, 2, 3, 4, 5]) if r < 4 else rng.randint(1, 3) for _ in range(r)]
        out.append({"k": k, "x": tensor(d, c, plain=k in ("sparse", "smatrix"))})
    for k, d in (("tensor", [1100]), ("vector", [1030]), ("tensor", [33, 31]), ("tensor", [3, 11, 2, 3, 4]), ("matrix", [130, 3]), ("matrix", [2, 140]),
                 ("matrix", [300]), ("sparse", [25, 26]), ("smatrix", [26, 25]), ("tensor", [1] * 9), ("tensor", [200, 1, 1]), ("vector", [300]),
                 ("tensor", [65, 5]), ("matrix", [3, 12, 9])):
        for c in (False, True):              # long ones: nothing is left out
            out.append({"k": k, "x": tensor(d, c, plain=k in ("sparse", "smatrix"))})
    for n in (20, 130, 520):
        out.append({"k": "indices", "l": [rng.randint(-99999, 99999) for _ in range(n)]})
        out.append({"k": "booleans", "l": [rng.random() < .5 for _ in range(n)]})
        out.append({"k": "scan", "l": [[rng.randint(-999999, 999999), rng.randint(-999999, 999999)] for _ in range(n)]})
    for _ in range(60 * N):
        out.append({"k": rng.choice(["indices", "static"]), "l": [rng.randint(-99999, 99999) for _ in range(rng.choice([0, 1, 2, 3, 7]))]})
        out.append({"k": "booleans", "l": [rng.random() < .5 for _ in range(rng.choice([0, 1, 2, 5]))]})
        out.append({"k": "number", "n": [value(rng, 1), value(rng, 1)]})
        out.append({"k": "scan", "l": [[rng.randint(-999999, 999999), rng.randint(-999999, 999999)] for _ in range(rng.randint(1, 4))]})
    out = [dict(c, op="text") for c in out if not (c["k"] == "static" and len(c["l"]) not in (1, 2, 3))]
    return out
