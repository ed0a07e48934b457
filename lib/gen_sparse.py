"""Cases for the sparse matrices (P12, P13)."""
import itertools
from gen_dense import ten, size, elems, extreme


def dense(rng, n, m, c, fill=None, lo=-9, hi=9):
    p = rng.choice((0, 0.1, 0.3, 0.3, 0.5, 0.8, 1)) if fill is None else fill
    t = ten(rng, [n, m], c, lo, hi)
    for e in t["e"]:
        if rng.random() >= p:
            e[0] = e[1] = 0
        elif c and rng.random() < 0.2:
            e[rng.randrange(2)] = 0
    # rows and columns that are empty
    if n and rng.random() < 0.3:
        for i in rng.sample(range(n), rng.randint(1, n)) if rng.random() < 0.5 else [rng.choice((0, n - 1))]:
            for j in range(m):
                t["e"][i + n * j] = [0, 0]
    if m and rng.random() < 0.2:
        j = rng.choice((0, m - 1))
        for i in range(n):
            t["e"][i + n * j] = [0, 0]
    return t


def wild(rng, t):
    """some of the numbers that are not zero are tiny or huge"""
    p = rng.choice((0.1, 0.5, 1))
    for e in t["e"]:
        for j in (0, 1):
            if e[j] and rng.random() < p:
                e[j] = extreme(rng)
    return t


def compress(t, zeros=0.0, rng=None):
    n, m = t["d"]
    rs, cl, e = [0], [], []
    for i in range(n):
        for j in range(m):
            v = t["e"][i + n * j]
            if v != [0, 0] or (rng and rng.random() < zeros):
                cl.append(j)
                e.append(v)
        rs.append(len(cl))
    return {"c": t["c"], "d": [n, m], "rs": rs, "cl": cl, "e": e}


def dims(rng, small=False):
    k = rng.random()
    if k < 0.06:
        return rng.choice(((0, 0), (0, 3), (3, 0), (1, 0), (0, 1)))
    if k < 0.2:
        return rng.choice(((1, 1), (1, 4), (4, 1), (1, 2), (2, 1)))
    hi = 4 if small else 7
    return rng.randint(1, hi), rng.randint(1, hi)


def sp(rng, n, m, c, zeros=0.03, **k):
    return compress(dense(rng, n, m, c, **k), zeros if rng.random() < 0.3 else 0, rng)


def spare(rng, s):
    """the same matrix in storage with more elements than needed"""
    n, m = s["d"]
    if n * m > len(s["e"]):
        s = dict(s, cap=rng.randint(len(s["e"]) + 1, n * m))
    return s


def broken(rng, s):
    """the compressed form with one fault"""
    s = dict(s, rs=list(s["rs"]), cl=list(s["cl"]), e=list(s["e"]), d=list(s["d"]))
    n, m, l = s["d"][0], s["d"][1], len(s["e"])
    k = rng.randrange(12)
    if k == 0:
        s["rs"].append(l)
    elif k == 1:
        s["rs"].pop()
    elif k == 2:
        s["rs"][0] = rng.choice((1, -1, 3))
    elif k == 3:
        s["rs"][-1] = l + rng.choice((1, 2, 100))
    elif k == 4 and n > 1:
        s["rs"][rng.randrange(1, n)] = rng.choice((l + 1, l + 200, -1))
    elif k == 5:
        s["cl"].append(0)
    elif k == 6:
        s["e"].append([1, 0])
    elif k == 7 and l:
        s["cl"].pop()
    elif k == 8 and l:
        s["e"].pop()
    elif k == 9 and l:
        s["cl"][rng.randrange(l)] = rng.choice((-1, m, m + 1, m + 300, -m - 1))
    elif k == 10:
        s["d"].append(1)
    else:
        s["d"][rng.randrange(2)] *= -1
        if s["d"][0] == n and s["d"][1] == m:
            s["d"].append(0)
    return s


def programs(rng, n):
    return [{"op": "sp_prog", "seed": rng.randrange(2 ** 30), "objects": rng.choice((2, 3, 4)), "steps": rng.choice((10, 20, 30))} for _ in range(n)]


def p01(rng, tier):
    return programs(rng, 50 if tier == "quick" else 600)


def p12(rng, tier):
    out = []
    N = 500 if tier == "quick" else 4000
    # all matrices of zeros and ones up to 2x3 and 3x2
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (2, 3), (3, 2), (1, 4), (4, 1)):
        for b in itertools.product((0, 1), repeat=n * m):
            c = rng.random() < 0.5
            x = {"c": c, "d": [n, m], "e": [[v * rng.randint(1, 9), v * rng.randint(-2, 2) if c else 0] for v in b]}
            out.append({"op": "sp_dense", "x": x, "sh": rng.random() < 0.3})
    # every order of the coordinates of small matrices
    for q in ([(0, 0), (1, 1), (0, 1)], [(2, 0), (0, 2), (1, 1)], [(0, 0), (0, 0), (1, 0)], [(1, 2), (1, 0), (1, 1), (0, 2)]):
        for p in itertools.permutations(q):
            c = rng.random() < 0.3
            x = {"c": c, "d": [len(p)], "e": elems(rng, len(p), c, 1, 9)}
            for ev in ({}, {"nr": 4, "nc": 3}, {"nr": 2}, {"nr": 1, "nc": 1}):
                out.append(dict({"op": "sp_trip", "rows": [a for a, _ in p], "cols": [b for _, b in p], "x": x}, **ev))
    for k in range(N):
        c = rng.random() < 0.4
        n, m = dims(rng)
        x = dense(rng, n, m, c, lo=-10**6, hi=10**6)
        if rng.random() < 0.3:
            wild(rng, x)
        out.append({"op": "sp_dense", "x": x, "sh": rng.random() < 0.4})
        out.append({"op": "sp_repr", "s": compress(x, 0.05 if k % 4 == 0 else 0, rng)})
        # coordinates: the entries of a matrix, shuffled, some twice, some zero values
        q = [(i, j) for i in range(n) for j in range(m) if x["e"][i + n * j] != [0, 0]]
        rng.shuffle(q)
        if k % 3 == 0 and q:
            q += [rng.choice(q) for _ in range(rng.randint(1, 3))]
            rng.shuffle(q)
        v = elems(rng, len(q), c, -999, 999, nz=True)
        for j in range(len(v)):
            if rng.random() < 0.06:
                # a zero: only where the position is not repeated
                if q.count(q[j]) == 1:
                    v[j] = [0, 0]
            elif rng.random() < 0.1:
                v[j][0] = extreme(rng)
        ev = {"op": "sp_trip", "rows": [a for a, _ in q], "cols": [b for _, b in q], "x": {"c": c, "d": [len(q)], "e": v}, "sh": rng.random() < 0.3}
        w = rng.random()
        if w < 0.4:
            ev.update(nr=n, nc=m)
        elif w < 0.5:
            ev.update(nr=n + rng.randint(0, 3), nc=m + rng.randint(0, 3))
        elif w < 0.6:
            ev.update(nr=rng.randint(0, n))
        elif w < 0.7:
            ev.update(nr=rng.randint(0, n), nc=rng.randint(0, m))
        out.append(ev)
        if n and m:
            s = compress(x, 0.05 if k % 4 == 0 else 0, rng)
            out.append({"op": "sp_get", "s": s, "i": rng.randint(-n, n - 1), "j": rng.randint(-m, m - 1)})
            if k % 4 == 0:
                i, j = rng.choice(((n, 0), (n + 3, 0), (0, m), (0, m + 1), (-n - 1, 0), (0, -m - 1), (n, m), (n - 1, m), (10 ** 9 + rng.randrange(n), 0), (-10 ** 9 + rng.randrange(n), 0),
                                   (0, 10 ** 9 + rng.randrange(m)), (0, -10 ** 9 - rng.randint(0, m)), (12 * 10 ** 8, 0)))
                out.append({"op": "sp_get", "s": s, "i": i, "j": j})
        if k % 10 == 0:
            s = compress(x, 0, rng)
            out.append({"op": "sp_dim", "s": s, "i": rng.choice((0, 1, 1, 2, 3))})
            out.append({"op": "sp_conv", "s": sp(rng, n, m, False), "how": rng.randrange(3)})
            out.append({"op": "sp_eye", "n": n, "m": m, "c": c})
            out.append({"op": "sp_eye", "n": n, "c": c})
            out.append({"op": "sp_zero", "n": n, "m": m, "c": c})
            out.append({"op": "sp_random", "n": n, "m": m, "c": c, "pc": rng.choice((0, 10, 20, 50, 80, 100)), "seed": rng.randint(0, 9999)})
            out.append({"op": "sp_random", "n": n, "m": m, "c": c, "pc": 20, "def": True, "seed": rng.randint(0, 9999)})
        if k % 25 == 0:       # refused: lengths that differ, negative coordinates
            q = [[rng.randint(0, 3) for _ in range(3)] for _ in range(2)]
            z = {"c": c, "d": [3], "e": elems(rng, 3, c, 1, 9)}
            w = k // 25 % 4
            if w == 0:
                q[rng.randrange(2)][rng.randrange(3)] = -rng.randint(1, 3)
            elif w == 1:
                q[rng.randrange(2)].append(1)
            elif w == 2:
                z = {"c": c, "d": [2], "e": elems(rng, 2, c, 1, 9)}
            else:
                q[1].pop()
            out.append({"op": "sp_trip", "rows": q[0], "cols": q[1], "x": z, "nr": 5, "nc": 5})
    for k in range(N // 5):
        c = rng.random() < 0.4
        n, m = dims(rng)
        s = sp(rng, n, m, c)
        out.append({"op": "sp_repr", "s": broken(rng, s)})
        if n * m:
            out.append({"op": "sp_repr", "s": spare(rng, s)})
            out.append({"op": "sp_zero", "n": n, "m": m, "c": c, "cap": rng.randint(1, n * m)})
    for c in (False, True):
        for n, m in ((-1, 3), (3, -1), (-1, -1), (-2, 3), (0, -1), (-1, 0)):
            out.append({"op": "sp_zero", "n": n, "m": m, "c": c})
            out.append({"op": "sp_eye", "n": n, "m": m, "c": c})
    for c in (False, True):
        out.append({"op": "sp_none", "c": c})
    for d in ([3], [0], [2, 2, 2], [1, 1, 1]):
        out.append({"op": "sp_dense", "x": ten(rng, d, False, 1, 5)})
    return out + big_p12(rng, tier != "quick")


def scattered(rng, n, m, c, nz, lo=-9, hi=9):
    """a larger matrix with about nz entries"""
    t = {"c": c, "d": [n, m], "e": [[0, 0] for _ in range(n * m)]}
    rows = [i for i in range(n) if rng.random() < 0.8] or [0]
    for _ in range(nz):
        t["e"][rng.choice(rows) + n * rng.randrange(m)] = elems(rng, 1, c, lo, hi, nz=True)[0]
    return t


def big_p12(rng, full):
    out = []
    for n, m, nz in ((40, 30, 200), (5, 150, 160), (150, 5, 160), (30, 30, 900), (1, 400, 90), (400, 1, 90)):
        c = rng.random() < 0.4
        x = scattered(rng, n, m, c, nz, -10**6, 10**6)
        out.append({"op": "sp_dense", "x": x})
        s = compress(x)
        out.append({"op": "sp_repr", "s": s})
        for _ in range(4):
            out.append({"op": "sp_get", "s": s, "i": rng.randrange(-n, n), "j": rng.randrange(-m, m)})
        q = [(i, j) for i in range(n) for j in range(m) if x["e"][i + n * j] != [0, 0]][:250]
        rng.shuffle(q)
        q += [rng.choice(q) for _ in range(20)]
        v = elems(rng, len(q), c, -999, 999, nz=True)
        out.append({"op": "sp_trip", "rows": [a for a, _ in q], "cols": [b for _, b in q], "x": {"c": c, "d": [len(q)], "e": v}, "nr": n, "nc": m})
    for n, m in ((60, 40), (1, 200), (35, 35)):
        out += [{"op": "sp_eye", "n": n, "m": m, "c": False}, {"op": "sp_zero", "n": n, "m": m, "c": True},
                {"op": "sp_random", "n": n, "m": m, "c": rng.random() < 0.5, "pc": 20, "seed": rng.randint(0, 9999)}]
    return out


def big_p13(rng, full):
    out = []
    for n, m, nz in ((40, 30, 200), (5, 150, 160), (150, 5, 160), (25, 25, 600), (1, 300, 90)):
        c, c2 = rng.random() < 0.4, rng.random() < 0.4
        s = compress(scattered(rng, n, m, c, nz))
        for k in "+-*":
            out.append({"op": "sp_bin", "k": k, "s": s, "t": compress(scattered(rng, n, m, c2, nz))})
        for u in rng.sample(("neg", "transpose", "adjoint", "conj", "real", "imag"), 4):
            out.append({"op": "sp_un", "k": u, "s": compress(scattered(rng, n, m, True, nz)) if u != "transpose" else s})
        out.append({"op": "sp_num", "k": rng.choice(("*", "n*")), "s": s, "n": [3, 2 if c else 0], "nc": c})
        out.append({"op": "sp_mm", "k": "st", "s": s, "x": ten(rng, [m, 3], c2, -5, 5)})
        out.append({"op": "sp_mm", "k": "ts", "s": s, "x": ten(rng, [2, n], c2, -5, 5)})
        z = compress(scattered(rng, n, m, not c, nz))
        for w, d in (("st", [m]), ("ts", [n]), ("st", [m, 2, 2]), ("ts", [3, 1, n]), ("st", [m, 5]), ("ts", [7, n])):
            out.append({"op": "sp_mm", "k": w, "s": z, "x": ten(rng, d, rng.random() < 0.5, -5, 5)})
        out.append({"op": "sp_num", "k": "/", "s": dict(s, e=[[4 * a, 4 * b] for a, b in s["e"]]), "n": [rng.choice((2, -4)), 0], "nc": False})
        u = dict(s, e=[list(e) for e in s["e"]])
        if rng.random() < 0.7:
            u["e"][rng.choice((0, -1, len(u["e"]) // 2))][0] += 1
        if [0, 0] not in s["e"] + u["e"]:
            out.append({"op": "sp_equal", "s": s, "t": u})
    for a, b in (((5, 4), (6, 8)), ((1, 20), (20, 2))):
        out.append({"op": "sp_bin", "k": rng.choice(("kron", "kron2")), "s": sp(rng, *a, False), "t": sp(rng, *b, False)})
    out.append({"op": "sp_bin", "k": "kron2_sum", "s": sp(rng, 5, 5, False), "t": sp(rng, 6, 6, False)})
    return out


def multiple(rng, t, b, c):
    """every entry a multiple of the number b"""
    for e in t["e"]:
        x, y = e
        e[0], e[1] = x * b[0] - y * b[1], x * b[1] + y * b[0]
    if c:
        t["c"] = True
    return t


def p13(rng, tier):
    out = []
    N = 260 if tier == "quick" else 2200
    # all pairs of patterns of 0/1 on 1x3 and 2x2
    for n, m in ((1, 3), (2, 2), (3, 1)):
        P = list(itertools.product((0, 1), repeat=n * m))
        for a in P:
            for b in P:
                def mk(p):
                    return compress({"c": False, "d": [n, m], "e": [[v * rng.choice((1, 1, 2, -1)), 0] for v in p]})
                out.append({"op": "sp_bin", "k": rng.choice("+-*"), "s": mk(a), "t": mk(b)})
    # programs over several live matrices: the results of earlier steps are the operands of later ones
    out += programs(rng, 60 if tier == "quick" else 900)
    for k in range(N):
        c, c2 = rng.random() < 0.4, rng.random() < 0.4
        n, m = dims(rng)
        s = sp(rng, n, m, c, lo=-4, hi=4)
        for u in ("neg", "transpose", "adjoint", "conj", "real", "imag", "copy"):
            if rng.random() < 0.5:
                out.append({"op": "sp_un", "k": u, "s": compress(wild(rng, dense(rng, n, m, rng.random() < 0.5))) if rng.random() < 0.2
                            else sp(rng, n, m, rng.random() < 0.5)})
        for b in "+-*":
            t = sp(rng, n, m, c2, lo=-4, hi=4)
            if rng.random() < 0.4 and c == c2:       # many cancellations
                t = dict(t, **{"rs": s["rs"], "cl": s["cl"], "e": [v if rng.random() < 0.5 else [-v[0], -v[1]] for v in s["e"]]})
            out.append({"op": "sp_bin", "k": b, "s": s, "t": t})
        if k % 5 == 0:
            out.append({"op": "sp_bin", "k": rng.choice(("+", "-", "*", "kron", "kron2")), "s": sp(rng, min(n, 4), min(m, 4), c), "al": True})
            n2, m2 = rng.choice(((n + 1, m), (n, m + 1), (m, n), (n + 2, m + 2), (max(0, n - 1), m)))
            if (n2, m2) != (n, m):
                out.append({"op": "sp_bin", "k": rng.choice("+-*"), "s": s, "t": sp(rng, n2, m2, c2)})
        # numbers
        nc = rng.random() < 0.4
        z = elems(rng, 1, nc, -5, 5)[0]
        out.append({"op": "sp_num", "k": rng.choice(("*", "n*")), "s": s, "n": z, "nc": nc})
        b = elems(rng, 1, nc, -4, 4, nz=True)[0]
        if rng.random() < 0.5:
            b = rng.choice(([1, 0], [-1, 0], [2, 0], [-4, 0]))
            nc = False
        elif nc:      # quotients that are exact in floating point
            b = rng.choice(([0, 1], [0, -3], [5, 0], [1, 1], [-1, 1], [2, -2], [0, 4], [-3, 0]))
        x = multiple(rng, dense(rng, n, m, c, lo=-9, hi=9), b, nc and b[1] != 0)
        out.append({"op": "sp_num", "k": "/", "s": compress(x), "n": b, "nc": nc})
        # Kronecker products and sums
        a = dims(rng, small=True)
        b = dims(rng, small=True)
        if a[0] * a[1] * b[0] * b[1] <= 150:
            out.append({"op": "sp_bin", "k": rng.choice(("kron", "kron2")), "s": sp(rng, a[0], a[1], c), "t": sp(rng, b[0], b[1], c2)})
        n1, n2 = rng.randint(0, 4), rng.randint(0, 4)
        if n1 * n2 <= 12:
            out.append({"op": "sp_bin", "k": "kron2_sum", "s": sp(rng, n1, n1, c), "t": sp(rng, n2, n2, c2)})
        # products with tensors
        for w in ("st", "ts"):
            r = rng.choice((1, 2, 2, 3, 4, 8))
            l = m if w == "st" else n
            d = [rng.choice((1, 1, 2) if r > 4 else (0, 1, 2, 2, 3)) if rng.random() < 0.9 else 0 for _ in range(r - 1)]
            if rng.random() < 0.12:
                l = max(0, l + rng.choice((-1, 1, 2)))
            d = [l] + d if w == "st" else d + [l]
            if size(d) <= 120:
                out.append({"op": "sp_mm", "k": w, "s": s, "x": ten(rng, d, c2, -5, 5), "sh": rng.random() < 0.3})
        if k % 4 == 0:
            t = sp(rng, n, m, c, zeros=0, lo=0, hi=1)
            u = t if rng.random() < 0.5 else sp(rng, n, m, c, zeros=0, lo=0, hi=1)
            if rng.random() < 0.2:
                u = sp(rng, m, n, c, zeros=0)
            t, u = [dict(v) for v in (t, u)]
            for v in (t, u):
                if [0, 0] in v["e"]:
                    v["e"] = [[1, 0] if e == [0, 0] else e for e in v["e"]]
            out.append({"op": "sp_equal", "s": t, "t": u})
    # storage with preallocated elements
    for k in range(N // 4):
        c = rng.random() < 0.4
        n, m = dims(rng, small=True)
        s = spare(rng, sp(rng, n, m, c, lo=-4, hi=4))
        out.append({"op": "sp_un", "k": ("neg", "transpose", "adjoint", "conj", "real", "imag", "copy")[k % 7], "s": s})
        t = sp(rng, n, m, rng.random() < 0.4, lo=-4, hi=4)
        out.append({"op": "sp_bin", "k": rng.choice("+-*") if n * m > 12 else rng.choice(("+", "-", "*", "kron", "kron2")), "s": s, "t": spare(rng, t) if k % 2 else t})
        out.append({"op": "sp_num", "k": rng.choice(("*", "n*")), "s": s, "n": [rng.randint(-5, 5), 0], "nc": False})
        out.append({"op": "sp_mm", "k": "st", "s": s, "x": ten(rng, [m, 2], c, -5, 5)})
    out += big_p13(rng, tier != "quick")
    # the same with all numbers tiny or huge
    for e in out:
        deg = {"sp_bin": 2 if e.get("k") in ("*", "kron", "kron2") else 1, "sp_mm": 2, "sp_num": 2 if e.get("k") != "/" else 0}.get(e["op"])
        if e["op"] == "sp_bin" and e["k"] == "*":
            deg = 2
        if deg is not None and e.get("k") != "kron2_sum" and rng.random() < 0.15:
            p = rng.choice((-300, -100, -60, 60, 100, 300))
            e.update(pi=p, po=p * deg)
    return out


# ------------------------------------ more columns than an int can count
def limbs(v):
    r = []
    while v:
        r.append(v % 10000)
        v //= 10000
    return r


BASES = (2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 33 + 5, 3 * 2 ** 31, 10 ** 12, 2 ** 40 + 3, 2 ** 50 - 1, 9, 7)


TALL = (300, 32767, 32768, 65535, 65536, 66000)


def wide(rng, n=None, m=None, c=None, like=None):
    """a matrix of few rows and many columns; columns that agree modulo 2^31, 2^32"""
    n = (rng.randint(1, 5) if rng.random() < 0.9 else rng.choice(TALL)) if n is None else n
    m = rng.choice(BASES[:-2]) + rng.choice((0, 0, 0, 5, -3)) if m is None else m
    c = rng.random() < 0.4 if c is None else c
    pool = [j for b in BASES + (0, m) for j in (b - 1, b, b + 1, b + 3) if 0 <= j < m]
    own = [rng.choice(pool) for _ in range(3)] + [rng.randrange(m)]
    if like:
        own += [j for j in like if j < m]
    P = {(rng.randrange(n), rng.choice(own if rng.random() < 0.7 else pool)) for _ in range(rng.randint(0, 9))}
    P = sorted(P)
    return {"c": c, "n": n, "m": limbs(m), "ent": [[i, limbs(j), elems(rng, 1, c, -9, 9, nz=True)[0]] for i, j in P]}, P, m


def w12(rng, tier):
    out = []
    for _ in range(220 if tier == "quick" else 1800):
        s, P, m = wide(rng)
        out.append({"op": "wide_repr", "s": s})
        t = dict(s, ent=list(s["ent"]))
        rng.shuffle(t["ent"])
        if rng.random() < 0.4:
            t["m"] = limbs(rng.randrange(m + 1))
        if rng.random() < 0.3:
            t["n"] = rng.randint(0, t["n"])
        out.append({"op": "wide_trip", "s": t})
        for _ in range(3):
            j = rng.choice([q for _, q in P] or [0])
            j = rng.choice((j, j, (j + 2 ** 32) % m, j % 2 ** 32 % m, j % 2 ** 31 % m, m, m - 1, m + 2 ** 32, rng.randrange(m)))
            neg = rng.random() < 0.3
            out.append({"op": "wide_get", "s": s, "i": rng.randrange(s["n"]), "neg": neg, "j": limbs(m - j if neg and j < m else m + 1 if neg else j)})
        u, _, _ = wide(rng, s["n"], m, s["c"]) if rng.random() < 0.3 else (dict(s, ent=[list(e) for e in s["ent"]]), 0, 0)
        if u["ent"] and rng.random() < 0.3:
            e = u["ent"][-1]
            j = P[-1][1] if len(P) == len(u["ent"]) else 0
            e[1] = limbs((j + 2 ** 32) if j + 2 ** 32 < m else j)
            if rng.random() < 0.3:
                e[2] = [e[2][0] + 100, e[2][1]]
        elif rng.random() < 0.2:
            u["m"] = limbs(m + rng.choice((1, 2 ** 31, 2 ** 32)))
        out.append({"op": "wide_equal", "s": s, "t": u})
    return out


def w13(rng, tier):
    out = []
    for _ in range(220 if tier == "quick" else 1800):
        s, P, m = wide(rng)
        k = rng.choice(("neg", "conj", "real", "imag", "copy", "num"))
        out.append({"op": "wide_un", "k": k, "s": s, "z": elems(rng, 1, s["c"], -5, 5)[0]})
        m2 = m + rng.choice((1, 2 ** 31, 2 ** 32, 2 ** 33)) if rng.random() < 0.12 else m
        t, _, _ = wide(rng, s["n"], m2, like=[j for _, j in P] * 2)
        out.append({"op": "wide_bin", "k": rng.choice("+-*"), "s": s, "t": t})
        while True:
            a, _, ma = wide(rng, c=s["c"])
            b, _, mb = wide(rng, rng.randint(1, 3), rng.choice((1, 2, 3, 10, 65536, 70000, 2 ** 31 + 1)), s["c"])
            if ma * mb < 2 ** 62 and a["n"] * b["n"] < 10 ** 5 and len(a["ent"]) * len(b["ent"]) <= 30:
                break
        if rng.random() < 0.3:
            a, _, ma = wide(rng, 2, rng.choice((65536, 65537, 10 ** 5, 46341)), s["c"])
        if rng.random() < 0.5:
            a, b = b, a
        out.append({"op": "wide_kron", "k": rng.choice(("kron", "kron2")), "s": a, "t": b})
        if rng.random() < 0.2:
            c = rng.random() < 0.5
            a, b = (wide(rng, rng.choice((180, 200, 256, 300)), rng.choice((1, 5, 300, 70000)), c)[0] for _ in "ab")
            out.append({"op": "wide_kron", "k": rng.choice(("kron", "kron2")), "s": a, "t": b})
        if rng.random() < 0.3:
            s = wide(rng, rng.choice(TALL + (1, 2, 70)), rng.choice(TALL + (1, 3)))[0]
            out.append({"op": "wide_turn", "k": rng.choice(("adjoint", "transpose")), "s": s})
    return out
