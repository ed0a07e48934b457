"""Cases for the Fourier transforms (P22)."""
import itertools
import math
from gen_dense import ten

LENGTHS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20]


def ask(rng, r, bad=False):
    k = rng.choice(["all", "one", "set", "set"])
    ev = {"k": k}
    if k == "one":
        ev["dim"] = rng.randrange(r) if not bad else rng.choice([r, r + 1, -1, -2, 100, 10 ** 9 + rng.randrange(r or 1), 12 * 10 ** 8 + rng.randrange(r or 1), rng.randrange(r or 1) - 10 ** 9])
    elif k == "set":
        ev["conv"] = [rng.random() < .5 for _ in range(r if not bad else rng.choice([r + 1, r - 1, 0]))]
    return ev


def dims(rng, limit, move=False):
    r = rng.choice([1, 1, 2, 2, 2, 3, 3, 4, 5, 7, 9])
    while True:
        d = [rng.choice(LENGTHS[:rng.choice([3, 5, 8, 20] if r < 6 else [1, 2, 2, 3])]) for _ in range(r)]
        if math.prod(d) <= limit:
            return d


def p22(rng, tier):
    out = []
    n = 1200 if tier == "quick" else 9000

    def add(op, d, **kw):
        ev = {"op": op, "x": ten(rng, d, True), "dir": rng.choice([-1, 1]), "sh": rng.random() < .3}
        ev.update(kw)
        out.append(ev)

    # every length, both directions, pulses and constants
    for m in LENGTHS:
        for dr in (-1, 1):
            for p in sorted({0, 1 % m, m // 2, m - 1}):
                x = {"c": True, "d": [m], "e": [[int(j == p), 0] for j in range(m)]}
                for k in ({"k": "all"}, {"k": "one", "dim": 0}, {"k": "set", "conv": [True]}):
                    out.append(dict({"op": "fft", "x": x, "dir": dr, "sh": False}, **k))
            add("fftshift", [m], k="all", dir=dr)
            add("fftshift", [m, 2], k="one", dim=0, dir=dr)
            add("fftshift", [3, m], k="one", dim=1, dir=dr)
    # every subset of the dimensions
    for d in ([2, 3], [3, 2, 4], [1, 4, 3], [2, 1, 2, 3], [5, 2]):
        for conv in itertools.product((False, True), repeat=len(d)):
            for dr in (-1, 1):
                add("fft", d, k="set", conv=list(conv), dir=dr)
                add("fftshift", d, k="set", conv=list(conv), dir=dr)
        for dim in range(len(d)):
            for dr in (-1, 1):
                add("fft", d, k="one", dim=dim, dir=dr)
                add("fftshift", d, k="one", dim=dim, dir=dr)
    # nothing to transform
    for d in ([0], [0, 3], [3, 0], [2, 0, 2], [0, 0]):
        for k in ({"k": "all"}, {"k": "one", "dim": 0}, {"k": "one", "dim": len(d) - 1}, {"k": "set", "conv": [True] * len(d)},
                  {"k": "set", "conv": [False] * len(d)}):
            for op in ("fft", "fftshift", "fft_back"):
                add(op, d, **k)
    for j in range(n):
        d = dims(rng, 60 if j % 4 else 150)
        add("fft", d, **ask(rng, len(d), bad=rng.random() < .05))
        d = dims(rng, 200)
        add("fft_back", d, **{"in": rng.random() < .5, **ask(rng, len(d))})
        d = dims(rng, 150)
        add("fftshift", d, **ask(rng, len(d), bad=rng.random() < .05))
        out[-1]["x"]["e"] = [[rng.randint(-10**6, 10**6), rng.randint(-10**6, 10**6)] for _ in out[-1]["x"]["e"]]
    # a longer one now and then
    # (FFTW plans some of these, as 11 x 11 and 11 x 13, in its input when it is allowed to)
    for m in (32, 45, 64, 97, 100, 121, 127, 143, 169, 187, 242, 256):
        add("fft", [m], k="all", dir=-1)
        add("fft", [m], **{"k": "one", "dim": 0} if m % 2 else {"k": "set", "conv": [True]})
        if m < 150:
            add("fft", [m, 2] if m % 2 else [2, m], **rng.choice([{"k": "one", "dim": 1 - m % 2}, {"k": "set", "conv": [m % 2 == 1, m % 2 == 0]}, {"k": "all"}]))
        add("fft_back", [m], k="all", **{"in": False})
        add("fft_back", [m, 3], k="one", dim=0, **{"in": True})
        add("fftshift", [m], k="all")
        add("fftshift", [2, m], k="all")
    return out
