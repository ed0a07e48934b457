"""Cases for the dense tensor operations (P03..P11).

Only inputs are made here; what the library has to answer is computed by
specs/TraceDense.tla.  The generator keeps numbers small enough for exact
arithmetic (and for TLC's 32-bit integers)."""
import itertools, math

ALLC = (False, True)


def size(d):
    return math.prod(d) if d else 0


def elems(rng, n, c, lo=-9, hi=9, nz=False):
    def num():
        while True:
            v = rng.randint(lo, hi)
            if v or not nz:
                return v
    return [[num(), num() if c else 0] for _ in range(n)]


def ten(rng, d, c=False, lo=-9, hi=9, nz=False, q=1):
    t = {"c": c, "d": list(d), "e": elems(rng, size(d), c, lo, hi, nz)}
    if q != 1:
        t["q"] = q
    return t


def extreme(rng):
    """a tiny or a huge number (see harness/common.hpp)"""
    return rng.choice((-1, 1)) * (rng.choice((1900000000, 1950000000)) + rng.randint(1, 999999))


def move(rng, d, c=False):
    """for operations that only move elements: distinct large values, sometimes special ones"""
    k = rng.random()
    t = ten(rng, d, c, -10**6, 10**6)
    if k < 0.15:
        for e in t["e"]:
            if rng.random() < 0.2:
                e[rng.randrange(2) if c else 0] = rng.choice([2000000003, 2000000001, -2000000001, 0, extreme(rng), extreme(rng)])
    elif k < 0.3:   # more than 24 significant bits
        for e in t["e"]:
            e[0] = rng.randint(-2**30, 2**30)
            if c:
                e[1] = rng.randint(-2**30, 2**30)
    return t


SMALL = [list(d) for r in (1, 2, 3) for d in itertools.product((0, 1, 2, 3), repeat=r)]
POOL = (0, 1, 1, 2, 2, 3, 3, 4, 5)


def shape(rng, rank=None, cap=120, zero=True, pool=POOL):
    while True:
        r = rank or rng.choice((1, 2, 2, 3, 3, 4, 5, 6))
        d = [rng.choice(pool) for _ in range(r)]
        if (zero or 0 not in d) and size(d) <= cap:
            return d


def shapes(rng, n, **k):
    return [shape(rng, **k) for _ in range(n)]


# ------------------------------------------------------------------- P03
def p03(rng, tier):
    out = []
    S = [d for d in SMALL] + shapes(rng, 60 if tier == "quick" else 250, cap=60)
    for d in S:
        c = rng.random() < 0.5
        x = move(rng, d, c)
        out.append({"op": "dims", "x": x})
        ok = [rng.randrange(-n, n) if n else None for n in d]
        allix = list(itertools.product(*[range(-n, n) for n in d])) if len(d) <= 3 and size(d) * 2 ** len(d) <= 60 else []
        if None not in ok:
            allix += [tuple(rng.randrange(-n, n) for n in d) for _ in range(6)]
            allix += [tuple(rng.randrange(0, n) for n in d) for _ in range(3)]
            allix += [tuple([n - 1 for n in d]), tuple([-n for n in d]), tuple([0] * len(d)), tuple([-1] * len(d))]
        for i in allix:
            out.append({"op": "get", "x": x, "i": list(i)})
        for i in rng.sample(allix, min(len(allix), 6)):
            v = [rng.randint(-999, 999), rng.randint(-999, 999) if c else 0]
            out.append({"op": rng.choice(("set", "set", "set_inplace")), "x": x, "i": list(i), "n": v,
                        "sh": rng.random() < 0.5})
        n = size(d)
        for k in range(min(n, 3)):
            out.append({"op": "getseq", "x": x, "i": rng.randrange(n)})
            out.append({"op": "setseq", "x": x, "i": rng.randrange(n), "n": [7, 0], "sh": rng.random() < 0.5})
            out.append({"op": "get", "x": x, "i": [rng.randrange(-n, n)]})
            out.append({"op": rng.choice(("set", "set_inplace")), "x": x, "i": [rng.randrange(-n, n)], "n": [-5, 0], "sh": rng.random() < 0.5})
        # one index out of range, the others right
        for j in range(len(d)):
            if rng.random() < (0.5 if tier == "quick" else 1):
                i = [q if q is not None else 0 for q in ok]
                m = d[j]
                i[j] = rng.choice([m, -m - 1, m + 1, -m - 2, 10**6, -10**6, 2**30] + [s * rng.choice(FAR) + rng.randint(-m, m) for s in (1, 1, -1)])
                if len(d) == 1 or size(d):
                    out.append({"op": rng.choice(("get", "set")), "x": x, "i": i, "n": [1, 0]})
        if rng.random() < 0.3 and n:
            k = rng.choice([q for q in range(2, 7) if q != len(d)])
            out.append({"op": rng.choice(("get", "set")), "x": x, "i": [0] * k, "n": [1, 0]})
        if rng.random() < 0.3:
            out.append({"op": "dimension", "x": x, "i": rng.choice([0, len(d) - 1, len(d), -1, -len(d) - 1, 7])})
        if rng.random() < 0.3:
            out.append({"op": "getdims", "x": x, "i": rng.randint(1, 6)})
        e = elems(rng, n, c, -999, 999)
        out.append({"op": "ctor", "c": c, "d": d, "e": e, "how": rng.randrange(2)})
        v = move(rng, [n], c)
        if n:
            out.append({"op": "ctor_data", "x": v, "d": d, "sh": True})
        if rng.random() < 0.2:
            out.append({"op": "ctor_data", "x": move(rng, [n + 1], c), "d": d})
        out.append({"op": "ctor_vec", "x": x, "how": rng.randrange(3), "sh": rng.random() < 0.5})
        out.append({"op": "fill", "x": x, "zero": rng.random() < 0.5, "n": [rng.randint(-9, 9), 3 if c else 0], "sh": rng.random() < 0.5})
        if not c:
            out.append({"op": "coerce", "x": x})
        out.append({"op": "assign", "x": move(rng, shape(rng, cap=20), c), "y": x, "sh": True})
    for d, n in WRAP + [(d, 0) for d in ([-1], [-2, 3], [3, -2], [-1, -1], [-2, -3], [2, -1, -1], [-1, -1, 0], [0, -4], [1, 1, 1, -1], [1, -1, 1, 1, -2], [1] * 4 + [-1, -2])]:
        for how in (0, 1):
            for c in (False, True):
                out.append({"op": "ctor", "c": c, "d": d, "e": [], "how": how})
        if n >= 0:
            out.append({"op": "ctor_data", "x": move(rng, [n], rng.random() < .5), "d": d})
    return out


# ---------------------------------------------------------------- P04, P05
# 2^32, 2^61 and 2^62 in the harness (numbers near them likewise): beyond what the specification can count to
FAR = (10**9, 12 * 10**8, 14 * 10**8)
WRAP = [([14 * 10**8 + k, 4], 4 * k) for k in (0, 1, 2, 3)] + [([12 * 10**8 + k, 8], 8 * k) for k in (0, 1, 2)] + [
    ([10**9, 10**9], 0), ([2, 14 * 10**8 + 1, 2], 4), ([4, 2, 12 * 10**8], 0), ([10**9 + 2, 10**9, 1], 0), ([2, 2, 2, 2, 12 * 10**8 + 1, 1], 16)]
WRAP += [(d[::-1], n) for d, n in WRAP]


def far_index(rng, n):
    return rng.choice((1, 1, -1)) * rng.choice(FAR) + rng.randrange(-n, n)


def far_range(rng, n):
    """an interval or index whose low 32 bits alone would be a legal one: (range, selected or None)"""
    f, k = rng.choice(FAR), rng.randrange(n)
    q = rng.randrange(9)
    if q == 0:
        return ["s", f + k]
    if q == 1:
        return ["r", k, f + n - 1]
    if q == 2:
        return ["i", [k, f + k, 0]]
    if q == 3:
        return ["t", k, f + k, rng.choice([f])]
    if q == 4:
        return ["s", -f + k]
    if q == 5:
        return ["t", f + k, k, -f]
    if q == 6:
        return ["t", k, n - 1, f + rng.randint(1, 2)]      # only the first one: legal
    if q == 7:
        return ["t", k, 0, -f - rng.randint(1, 2)]
    return ["r", -f + k, n - 1]


def one_range(rng, n, bad=False, empty=True):
    k = rng.random()
    if bad:
        k = rng.random()
        if k < 0.25:
            return ["s", rng.choice([n, n + 1, n + 5])]
        if k < 0.5:
            return ["r", rng.randint(0, n), n + rng.choice([0, 1, 3])]
        if k < 0.75:
            a = rng.randint(0, n)
            s = rng.randint(1, 3)
            return ["t", a, a + s * ((n - a) // s + 1), s]
        l = [rng.randrange(n) if n else 0 for _ in range(rng.randint(0, 3))] + [n + rng.choice([0, 2])]
        rng.shuffle(l)
        return ["i", l]
    if n == 0:
        return rng.choice([["f"], ["i", []], ["f"]])
    if k < 0.2:
        return ["s", rng.randrange(n)]
    if k < 0.35:
        return ["f"]
    if k < 0.5:
        a = rng.randrange(n)
        return ["r", a, rng.randint(a, n - 1)]
    if k < 0.65:
        a = rng.randrange(n)
        b = rng.randint(a, n - 1)
        return ["t", a, b, rng.randint(1, max(1, min(3, b - a + 1)))]
    if k < 0.77:      # descending
        a = rng.randrange(n)
        b = rng.randint(0, a)
        return ["t", a, b, -rng.randint(1, max(1, min(4, a - b + 1)))]
    if k < 0.81 and empty:
        a = rng.randint(1, n)
        return rng.choice((["i", []], ["r", a, a - 1], ["r", a, rng.randrange(a)], ["r", 0, -1],
                           ["t", a, rng.randrange(a), rng.randint(1, 3)], ["t", rng.randrange(a), a, -rng.randint(1, 3)]))
    m = rng.randint(1, n + 1)
    l = [rng.randrange(n) for _ in range(m)]
    if rng.random() < 0.5:
        l = rng.sample(range(n), min(m, n))
    return ["i", l]


def rlen(r, n):
    return {"s": lambda: 1, "f": lambda: n, "i": lambda: len(r[1]) if r[0] == "i" else 0,
            "r": lambda: max(0, r[2] - r[1] + 1) if r[0] == "r" else 0,
            "t": lambda: len(range(r[1], r[2] + (1 if r[3] > 0 else -1), r[3])) if r[0] == "t" else 0}[r[0]]()


def all_ranges(n):
    """every range of a dimension of length n, up to index lists of length 2"""
    out = [["f"]] + [["s", a] for a in range(n)]
    out += [["r", a, b] for a in range(n) for b in range(n)]
    out += [["t", a, b, s] for a in range(n) for b in range(n) for s in (1, 2, 3, -1, -2, -3)]
    out += [["i", list(l)] for m in (0, 1, 2) for l in itertools.product(range(n), repeat=m)]
    return out


def p04(rng, tier):
    out = []
    N = 900 if tier == "quick" else 5000
    # every range on vectors and every pair on small matrices
    for n in (1, 2, 3, 4):
        x = move(rng, [n], n % 2 == 0)
        for r in all_ranges(n):
            out.append({"op": "view", "x": x, "rg": [r]})
    m = all_ranges(3)
    for n1, n2 in ((2, 3), (3, 2), (3, 3)):
        A, Bq = all_ranges(n1), all_ranges(n2)
        x = move(rng, [n1, n2], rng.random() < 0.5)
        pairs = [(a, b) for a in A for b in Bq]
        for a, b in (pairs if tier != "quick" else rng.sample(pairs, 400)):
            out.append({"op": "view", "x": x, "rg": [a, b], "sh": rng.random() < 0.3})
    for k in range(N):
        d = shape(rng, zero=(k % 10 == 0))
        x = move(rng, d, rng.random() < 0.5)
        rg = [one_range(rng, n) for n in d]
        out.append({"op": rng.choice(("view", "view", "view2")), "x": x, "rg": rg, "sh": rng.random() < 0.4})
        if k % 12 == 0 and size(d):      # a single range over a tensor of any rank
            out.append({"op": "view", "x": x, "rg": [one_range(rng, size(d))]})
    for k in range(N // 12):
        d = shape(rng, zero=(k % 10 == 0))
        x = move(rng, d, rng.random() < 0.5)
        rg = [one_range(rng, n, empty=False) for n in d]
        j = rng.randrange(len(d))
        if k % 6 == 5:
            if len(d) < 6:
                rg.append(["s", 0])
            else:
                rg.pop()
            if len(rg) == len(d) or size(d) == 0:
                continue
        elif k % 6 == 4:
            rg[j] = rng.choice([["s", -1], ["r", -1, 0], ["i", [-1]], ["i", [0, -2]], ["t", -2, 0, 1]])
        else:
            rg[j] = one_range(rng, d[j], bad=True)
        if any(rlen(r, n) == 0 for q, (r, n) in enumerate(zip(rg, d)) if q != j):
            continue
        out.append({"op": "view", "x": x, "rg": rg})
    for k in range(N // 8):
        d = shape(rng, zero=False)
        x = move(rng, d, rng.random() < 0.5)
        rg = [one_range(rng, n, empty=False) for n in d]
        j = rng.randrange(len(d))
        rg[j] = far_range(rng, d[j])
        out.append({"op": "view", "x": x, "rg": rg, "sh": rng.random() < 0.4})
    return out


def with_len(rng, n, m):
    """a range of length m on a dimension of length n (or None)"""
    if n == 0:
        return ["f"] if m == 0 else None
    c = []
    if m == 1:
        c.append(["s", rng.randrange(n)])
    if m == n:
        c.append(["f"])
    if 1 <= m <= n:
        a = rng.randint(0, n - m)
        c.append(["r", a, a + m - 1])
        if m > 1 and (m - 1) * 2 < n:
            s = rng.randint(2, (n - 1) // (m - 1))
            a = rng.randint(0, n - 1 - (m - 1) * s)
            c.append(["t", a, a + (m - 1) * s, s])
            c.append(["t", a + (m - 1) * s, a, -s])
        c.append(["t", a + m - 1, a, -1])
    if m == 0:
        a = rng.randint(1, n)
        c.append(["r", a, a - 1])
    c.append(["i", [rng.randrange(n) for _ in range(m)]])
    c.append(["i", [rng.randrange(n) for _ in range(m)]])
    return rng.choice(c)


def p05(rng, tier):
    out = []
    N = 900 if tier == "quick" else 5000
    for k in range(N):
        c = rng.random() < 0.4
        d = shape(rng, zero=(k % 15 == 0), cap=80)
        x = move(rng, d, c)
        rg = [one_range(rng, n) for n in d]
        vd = [rlen(r, n) for r, n in zip(rg, d)]
        n = size(vd)
        ev = {"op": "vset", "x": x, "rg": rg, "sh": rng.random() < 0.5}
        j = rng.random()
        if j < 0.12:
            ev.update(src="n", n=[rng.randint(-99, 99), 5 if c else 0])
        elif j < 0.2 and size(d):
            ev.update(src="e", k=rng.randrange(size(d)))
        elif j < 0.5:
            ev.update(src="t", y=move(rng, vd, c), shy=rng.random() < 0.5)
        elif j < 0.65:
            # a view of another tensor with the same lengths
            d2 = [max(1, v) + rng.randint(0, 2) if v else rng.randint(0, 2) for v in vd]
            if size(d2) > 300:
                continue
            rg2 = [with_len(rng, a, v) for a, v in zip(d2, vd)]
            if None in rg2:
                continue
            ev.update(src="v", y=move(rng, d2, c), rg2=rg2, shy=rng.random() < 0.5)
        elif j < 0.85 and size(d):
            # a view of the tensor itself: overlapping source and destination
            rg2 = [with_len(rng, a, v) for a, v in zip(d, vd)]
            if None in rg2:
                continue
            ev.update(src="selfview", rg2=rg2)
        else:
            # the whole tensor into a permutation of itself
            rg = []
            for a in d:
                p = list(range(a))
                rng.shuffle(p)
                rg.append(rng.choice([["f"], ["i", p], ["i", p]]))
            ev.update(src=rng.choice(("self", "self", "copy")), rg=rg)
        out.append(ev)
    for k in range(N // 10):
        d = shape(rng, zero=False, cap=40)
        rg = [one_range(rng, n, empty=False) for n in d]
        j = rng.randrange(len(d))
        rg[j] = far_range(rng, d[j])
        ev = {"op": "vset", "x": move(rng, d, False), "rg": rg, "sh": rng.random() < .5}
        if rg[j][0] == "t" and abs(rg[j][1]) < 10**8 and abs(rg[j][2]) < 10**8 and k % 2:
            ev.update(src="t", y=move(rng, [1 if q == j else rlen(r, n) for q, (r, n) in enumerate(zip(rg, d))], False))
        else:
            ev.update(src="n", n=[7, 0])
        out.append(ev)
    # vectors and small matrices moved onto themselves, systematically
    for n in (2, 3, 4, 5):
        x = move(rng, [n], False)
        for r1 in all_ranges(n):
            for r2 in all_ranges(n):
                if rlen(r1, n) == rlen(r2, n) and rng.random() < (0.15 if tier == "quick" else 1):
                    out.append({"op": "vset", "x": x, "rg": [r1], "rg2": [r2], "src": "selfview", "sh": rng.random() < 0.5})
        for p in itertools.permutations(range(n)):
            if n < 5 or tier != "quick":
                out.append({"op": "vset", "x": x, "rg": [["i", list(p)]], "src": "self", "sh": rng.random() < 0.5})
    # sizes that do not match, positions outside
    for k in range(60 if tier == "quick" else 300):
        d = shape(rng, zero=False, cap=40)
        x = move(rng, d, False)
        rg = [one_range(rng, n, empty=False) for n in d]
        vd = [rlen(r, n) for r, n in zip(rg, d)]
        if k % 2:
            j = rng.randrange(len(vd))
            y = list(vd)
            y[j] = rng.choice([y[j] + 1, max(0, y[j] - 1) if y[j] > 1 else y[j] + 2])
            out.append({"op": "vset", "x": x, "rg": rg, "src": "t", "y": move(rng, y, False)})
        else:
            rg[rng.randrange(len(d))] = one_range(rng, max(d), bad=True)
            if any(r[0] == "i" and max(r[1], default=0) >= n or False for r, n in zip(rg, d)) or True:
                out.append({"op": "vset", "x": x, "rg": rg, "src": "n", "n": [1, 0]})
    return out


# ------------------------------------------------------------------- P06
def factorizations(n, r, cap=4):
    if r == 1:
        return [[n]]
    return [[k] + f for k in range(1, n + 1) if n % k == 0 for f in factorizations(n // k, r - 1)]


def p06(rng, tier):
    out = []
    full = tier != "quick"
    S = SMALL + shapes(rng, 120 if not full else 600)
    for d in S:
        c = rng.random() < 0.5
        x = move(rng, d, c)
        n = size(d)
        if n:
            f = factorizations(n, rng.randint(1, 6))
            out.append({"op": "reshape", "x": x, "d": rng.choice(f), "how": rng.randrange(3), "sh": rng.random() < 0.6})
        else:
            out.append({"op": "reshape", "x": x, "d": rng.choice([[0], [0, 2], [3, 0], [1, 0, 2]]), "how": rng.randrange(3), "sh": True})
        out.append({"op": "flatten", "x": x, "sh": rng.random() < 0.6})
        out.append({"op": "squeeze", "x": x, "sh": rng.random() < 0.6})
        r = len(d)
        for i in range(r):
            for j in range(r):
                if r <= 3 or rng.random() < (0.3 if not full else 1):
                    a, b = rng.choice([i, i - r]), rng.choice([j, j - r])
                    out.append({"op": "permute", "x": x, "i": a, "j": b, "sh": rng.random() < 0.4})
        if rng.random() < 0.3:
            out.append({"op": "permute0", "x": x})
        for i in range(r):
            for m in {0, 1, d[i], d[i] + 1, max(0, d[i] - 1), d[i] + 3}:
                if rng.random() < (0.4 if not full else 1):
                    out.append({"op": "change_dimension", "x": x, "i": rng.choice([i, i - r]), "n": m, "sh": rng.random() < 0.4})
        if r == 2:
            out.append({"op": "transpose", "x": x, "sh": rng.random() < 0.4})
            out.append({"op": "adjoint", "x": x, "sh": rng.random() < 0.4})
    # larger matrices: blocked loops
    for a, b in ((17, 5), (5, 17), (33, 2), (16, 16), (1, 40), (40, 1)) + (((64, 3), (31, 33)) if full else ()):
        x = move(rng, [a, b], True)
        out.append({"op": "transpose", "x": x})
        out.append({"op": "adjoint", "x": x})
        out.append({"op": "permute", "x": x, "i": 0, "j": 1})
    # adjacent singleton and length-one patterns in rank 5, 6
    for d in itertools.product((1, 2), repeat=5):
        x = move(rng, d, rng.random() < 0.5)
        out.append({"op": "squeeze", "x": x})
        i, j = rng.sample(range(5), 2)
        out.append({"op": "permute", "x": x, "i": i, "j": j})
    for k in range(40 if not full else 200):
        d = shape(rng, zero=False, cap=40)
        x = move(rng, d, k % 2 == 0)
        r = len(d)
        q = k % 5
        if q == 0:
            out.append({"op": "reshape", "x": x, "d": d + [2] if r < 6 else [size(d) + 1], "how": rng.randrange(3)})
        elif q == 1:
            out.append({"op": "reshape", "x": x, "d": [size(d) + rng.choice([-1, 1])], "how": rng.randrange(3)})
        elif q == 2:
            out.append({"op": "permute", "x": x, "i": rng.choice([r, -r - 1, far_index(rng, r), far_index(rng, r)]), "j": 0})
        elif q == 3:
            out.append({"op": "permute", "x": x, "i": 0, "j": rng.choice([r, -r - 1, far_index(rng, r), far_index(rng, r)])})
        else:
            out.append({"op": "change_dimension", "x": x, "i": rng.choice([r, -r - 1]), "n": 2})
    # dimensions whose product is right only in the arithmetic of the machine
    for how in range(3):
        for d, n in WRAP:
            out.append({"op": "reshape", "x": move(rng, [n], rng.random() < .5), "d": d, "how": how})
        for d in ([-1], [-2, 3], [3, -2], [-1, -1, 0], [0, -4], [-1, 1]):
            out.append({"op": "reshape", "x": move(rng, [0], rng.random() < .5), "d": d, "how": how})
        for n, d in ((6, [-2, -3]), (1, [-1, -1]), (4, [-2, 2, -1]), (4, [4, -1, -1])):
            out.append({"op": "reshape", "x": move(rng, [n], rng.random() < .5), "d": d, "how": how})
    return out


# ------------------------------------------------------------------- P07
def pair_types(rng):
    return rng.random() < 0.4, rng.random() < 0.4


def p07(rng, tier):
    out = []
    full = tier != "quick"
    # every pair of small shapes and contracted positions, sampled in quick mode
    ds = [d for d in SMALL if 0 not in d and len(d) <= 3]
    combos = []
    for a in ds:
        for b in ds:
            for i in range(len(a)):
                for j in range(len(b)):
                    if a[i] == b[j]:
                        combos.append((a, i, b, j))
    rng.shuffle(combos)
    for a, i, b, j in combos[:700 if not full else 6000]:
        ca, cb = pair_types(rng)
        x, y = ten(rng, a, ca), ten(rng, b, cb)
        I, Jj = rng.choice([i, i - len(a)]), rng.choice([j, j - len(b)])
        out.append({"op": rng.choice(("fold", "foldc")), "x": x, "i": I, "y": y, "j": Jj, "sh": rng.random() < 0.3})
    for k in range(250 if not full else 2000):
        a, b = shape(rng, zero=False, cap=60), shape(rng, zero=False, cap=60)
        i, j = rng.randrange(len(a)), rng.randrange(len(b))
        b[j] = a[i]
        if size(a) // a[i] * (size(b) // b[j]) > 400 or size(b) > 100:
            continue
        if len(a) + len(b) - 2 > 10:
            continue
        ca, cb = pair_types(rng)
        out.append({"op": rng.choice(("fold", "foldc")), "x": ten(rng, a, ca), "i": rng.choice([i, i - len(a)]),
                    "y": ten(rng, b, cb), "j": rng.choice([j, j - len(b)])})
    # zero-sized surviving dimensions
    for k in range(40):
        a, b = shape(rng, rank=rng.randint(2, 4), cap=30), shape(rng, rank=rng.randint(1, 3), cap=30)
        i, j = rng.randrange(len(a)), rng.randrange(len(b))
        if a[i] == 0:
            a[i] = 2
        b[j] = a[i]
        a[(i + 1) % len(a)] = 0
        ca, cb = pair_types(rng)
        out.append({"op": rng.choice(("fold", "foldc")), "x": ten(rng, a, ca), "i": i, "y": ten(rng, b, cb), "j": j})
    # the same object on both sides
    for k in range(80 if not full else 400):
        a = shape(rng, zero=False, cap=25)
        i = rng.randrange(len(a))
        same = [j for j in range(len(a)) if a[j] == a[i]]
        out.append({"op": rng.choice(("fold", "foldc", "fold", "foldin" if False else "fold")), "x": ten(rng, a, rng.random() < 0.5),
                    "i": i, "j": rng.choice(same), "al": rng.choice((1, 2)), "y": {"c": False, "d": [1], "e": [[0, 0]]}})
    # foldin
    for k in range(300 if not full else 2000):
        a = shape(rng, rank=rng.choice((1, 2, 2, 2, 3)), zero=False, cap=40)
        b = shape(rng, zero=False, cap=40)
        i, j = rng.randrange(len(a)), rng.randrange(len(b))
        b[j] = a[i]
        if size(a) // a[i] * (size(b) // b[j]) > 300 or len(a) + len(b) - 2 > 9:
            continue
        c = rng.random() < 0.5
        op = "foldin" if c or rng.random() < 0.6 else "foldin_into"
        ev = {"op": op, "x": ten(rng, a, c), "i": rng.choice([i, i - len(a)]), "y": ten(rng, b, c), "j": rng.choice([j, j - len(b)])}
        if op == "foldin_into":
            zd = [rng.choice(POOL) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.5:
                zd = b[:j] + a[:i] + a[i + 1:] + b[j + 1:] or [1]
            if rng.random() < 0.8 and size(zd) < 200:
                ev["z"] = ten(rng, zd, False)
            if rng.random() < .2:
                ev["out"] = rng.choice((1, 2))
        out.append(ev)
    # mmult
    for k in range(300 if not full else 1500):
        m, l, n = rng.choice(POOL[1:]), rng.choice(POOL[1:]), rng.choice(POOL[1:])
        k2 = rng.random()
        a, b = [m, l], [l, n]
        if k2 < 0.2:
            a = [l]
        elif k2 < 0.4:
            b = [l]
        elif k2 < 0.45:
            a, b = [l], [l]
        elif k2 < 0.55:
            a, b = [m, 2, l], [l, n]
        elif k2 < 0.65:
            a, b = [m, l], [l, n, 2]
        elif k2 < 0.7:
            a[0] = 0
        elif k2 < 0.75 :
            b[-1] = 0 if len(b) > 1 else l
        ca, cb = pair_types(rng)
        op = "mmult"
        if rng.random() < 0.3:
            op, ca, cb = "mmult_into", False, False
        ev = {"op": op, "x": ten(rng, a, ca), "y": ten(rng, b, cb), "sh": rng.random() < 0.3}
        if op == "mmult_into" and rng.random() < 0.8:
            ev["z"] = ten(rng, rng.choice([[m, n], [2, 2], [3], [m * n], [n, m]]), False)
        if op == "mmult_into" and rng.random() < 0.2:
            ev["out"] = rng.choice((1, 2))
        out.append(ev)
    for k in range(60 if not full else 400):   # fold_into
        a, b = shape(rng, zero=False, cap=40), shape(rng, zero=False, cap=40)
        i, j = rng.randrange(len(a)), rng.randrange(len(b))
        b[j] = a[i]
        if size(a) // a[i] * (size(b) // b[j]) > 300 or len(a) + len(b) - 2 > 9:
            continue
        ev = {"op": "fold_into", "x": ten(rng, a), "i": i, "y": ten(rng, b), "j": j}
        zd = a[:i] + a[i + 1:] + b[:j] + b[j + 1:] or [1]
        if rng.random() < 0.8:
            ev["z"] = ten(rng, zd if rng.random() < 0.5 else [3, 2])
        if rng.random() < .2:
            ev["out"] = rng.choice((1, 2))
        if rng.random() < .1:       # a tensor with itself
            i, j = rng.choice([(p, q) for p in range(len(a)) for q in range(len(a)) if a[p] == a[q]])
            if size(a) ** 2 // a[i] ** 2 <= 300 and 2 * len(a) <= 11:
                ev.update(y=ev["x"], i=i, j=j, al=1)
        out.append(ev)
    # bigger products, through the blocked kernels of the BLAS
    for m, l, n in ((17, 23, 5), (40, 3, 9), (8, 64, 3), (33, 33, 2)) + (((50, 20, 30), (65, 17, 12)) if full else ()):
        ca, cb = pair_types(rng)
        out.append({"op": "mmult", "x": ten(rng, [m, l], ca), "y": ten(rng, [l, n], cb)})
        out.append({"op": "fold", "x": ten(rng, [l, m], ca), "i": 0, "y": ten(rng, [n, l], cb), "j": 1})
        out.append({"op": "foldc", "x": ten(rng, [l, m], True), "i": 0, "y": ten(rng, [n, l], cb), "j": 1})
        out.append({"op": "foldc", "x": ten(rng, [m, l], ca), "i": 1, "y": ten(rng, [l, n], True), "j": 0})
    # scprod
    for k in range(80):
        d = shape(rng, zero=(k % 10 == 0))
        c = rng.random() < 0.6
        ev = {"op": "scprod", "x": ten(rng, d, c), "y": ten(rng, d, c)}
        if k % 5 == 0:
            ev["al"] = rng.choice((1, 2))
        out.append(ev)
    for k in range(30):
        c = rng.random() < 0.6
        d, e = shape(rng, zero=(k % 10 == 0), cap=40), shape(rng, zero=(k % 10 == 1), cap=40)
        if size(d) != size(e):
            out.append({"op": "scprod", "x": ten(rng, d, c), "y": ten(rng, e, c)})
    # mismatches
    for k in range(70 if not full else 300):
        a, b = shape(rng, zero=False, cap=40), shape(rng, zero=False, cap=40)
        i, j = rng.randrange(len(a)), rng.randrange(len(b))
        ca, cb = pair_types(rng)
        q = k % 7
        if q < 3:
            b[j] = a[i] + rng.choice([1, 2, -1])
            b[j] = b[j] or a[i] + 1
            out.append({"op": ("fold", "foldc", "fold_into")[q], "x": ten(rng, a, ca and q < 2), "i": i, "y": ten(rng, b, cb and q < 2), "j": j})
        elif q == 3:
            b[j] = a[i] + 1
            out.append({"op": "foldin", "x": ten(rng, a, ca), "i": i, "y": ten(rng, b, ca), "j": j})
        elif q == 4:
            b[0] = a[-1] + 1
            out.append({"op": "mmult", "x": ten(rng, a, ca), "y": ten(rng, b, cb)})
        elif q == 5:
            b[j] = a[i]
            out.append({"op": "fold", "x": ten(rng, a, ca), "i": rng.choice([len(a), -len(a) - 1]), "y": ten(rng, b, cb), "j": j})
        else:
            b[j] = a[i]
            out.append({"op": "fold", "x": ten(rng, a, ca), "i": i, "y": ten(rng, b, cb), "j": rng.choice([len(b), -len(b) - 1])})
    return out


# ------------------------------------------------------------------- P08
def p08(rng, tier):
    out = []
    full = tier != "quick"
    S = [d for d in SMALL] + shapes(rng, 80 if not full else 500)
    SX = 1 << 20

    def quot(ev):      # quotients of real numbers are exact, complex ones may be rounded
        if not (ev["x"]["c"] or ev.get("nc") or isinstance(ev.get("y"), dict) and ev["y"]["c"]):
            for k in ("fx", "sc", "ss"):
                del ev[k]
        out.append(ev)
    for k in range(40):
        nc = k % 2 == 1
        out.append({"op": "number", "n": [rng.randint(-9999, 9999), rng.randint(-9999, 9999) if nc else 0] if k > 3 else [0, k % 2], "nc": nc})
    for d in S:
        for rep in range(2 if not full else 6):
            ca, cb = pair_types(rng)
            k = rng.choice("+-*/")
            sh, shy = rng.random() < 0.5, rng.random() < 0.4
            if k == "/":
                m = 5 if ca or cb else 999
                y = ten(rng, d, cb, -m, m, nz=True)
                x = ten(rng, d, ca or cb, -9, 9)
                if m > 5:
                    x = ten(rng, d, False, -m, m)
                if cb:
                    ca = True
                e = []
                for a, b in zip(x["e"], y["e"]):      # exact quotients
                    re, im = a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]
                    e.append([re, im])
                x = {"c": ca, "d": list(d), "e": e if ca else [[v[0], 0] for v in e]}
                ev = {"op": rng.choice(("t/t", "t/=t")), "x": x, "y": y, "fx": True, "sc": SX, "ss": SX, "sh": sh, "shy": shy}
                quot(ev)
                # t/n, n/t
                nc = ca and rng.random() < 0.5
                b = [rng.choice([-4, -2, -1, 1, 2, 5, 49, -98, 41]), rng.choice([-3, 1, 2]) if nc else 0]
                x = {"c": ca, "d": list(d), "e": [[v[0] * b[0] - v[1] * b[1], v[0] * b[1] + v[1] * b[0]] for v in elems(rng, size(d), ca)]}
                quot({"op": rng.choice(("t/n", "t/=n")), "x": x, "n": b, "nc": nc, "fx": True, "sc": SX, "ss": SX, "sh": sh})
                nc = rng.random() < 0.5
                nu = 12 if ca or nc else rng.choice((12, 49 * 8, 41 * 55))
                units = [v for v in range(-nu, nu + 1) if v and nu % v == 0]
                x = {"c": ca, "d": list(d), "e": [[rng.choice(units), 0] if not ca or rng.random() < 0.5 else [0, rng.choice(units)] for _ in range(size(d))]}
                quot({"op": "n/t", "x": x, "n": [nu * rng.randint(-3, 3), nu * rng.randint(-3, 3) if nc else 0], "nc": nc, "fx": True, "sc": SX, "ss": SX, "sh": sh})
            else:
                x, y = ten(rng, d, ca, -999, 999), ten(rng, d, cb, -999, 999)
                op = rng.choice(("t%st", "t%s=t")) % k
                if op == "t%s=t" % k and cb and not ca:
                    op = "t%st" % k
                out.append({"op": op, "x": x, "y": y, "sh": sh, "shy": shy})
                nc = rng.random() < 0.4
                n = [rng.randint(-99, 99), rng.randint(-99, 99) if nc else 0]
                op = rng.choice(("t%sn", "t%s=n", "n%st")) % k
                if "=" in op and nc and not ca:
                    op = "t%sn" % k
                out.append({"op": op, "x": x, "n": n, "nc": nc, "sh": sh})
            # aliased right-hand sides
            if rng.random() < 0.6:
                k = rng.choice("+-*")
                out.append({"op": rng.choice(("t%st", "t%s=t")) % k, "x": ten(rng, d, ca, -99, 99), "al": rng.choice((1, 2)), "sh": sh})
            if size(d) and rng.random() < 0.6:
                k = rng.choice("+-*")
                out.append({"op": "t%s=n" % k, "x": ten(rng, d, ca, -99, 99), "k": rng.randrange(size(d)), "nc": ca, "sh": sh})
            if size(d) and rng.random() < 0.2:   # x /= x[k]
                v = rng.choice([2, 3, -4, 5])
                e = [[v * rng.randint(-9, 9), v * rng.randint(-9, 9) if ca else 0] for _ in range(size(d))]
                p = rng.randrange(size(d))
                e[p] = [v, 0]
                quot({"op": "t/=n", "x": {"c": ca, "d": list(d), "e": e}, "k": p, "nc": ca, "fx": True, "sc": SX, "ss": SX, "sh": sh})
        c = rng.random() < 0.5
        x = ten(rng, d, c, -999, 999)
        for op in rng.sample(("neg", "conj", "real", "imag", "to_complex"), 3):
            out.append({"op": op, "x": x, "sh": rng.random() < 0.5})
        out.append({"op": "abs", "x": ten(rng, d, True, -9, 9), "sc": SX, "fx": True, "sh": rng.random() < 0.5})
        out.append({"op": "abs", "x": ten(rng, d, False, -46000, 46000), "sc": 1, "sh": rng.random() < 0.5})
        # real numbers with fractions, away from ties (and ties, which go away from zero)
        out.append({"op": "round", "x": ten(rng, d, False, -40, 40, q=rng.choice((1, 2, 4, 8)))})
        if rng.random() < 0.5:
            out.append({"op": "to_complex2", "x": ten(rng, d, False, -999, 999), "y": ten(rng, d, False, -999, 999)})
        f = rng.choice(("cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "sqrt", "log"))
        x = ten(rng, d, c, 1 if f in ("log", "sqrt") and not c else -12, 12, nz=True, q=4)
        out.append({"op": "umap", "f": f, "x": x, "fx": True, "sc": SX, "sh": rng.random() < 0.4})
    for f in ("cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "sqrt", "log"):
        for c in ALLC:
            x = ten(rng, [3, 4], c, 1 if f in ("log", "sqrt") and not c else -12, 12, nz=True, q=4)
            out.append({"op": "umap", "f": f, "x": x, "fx": True, "sc": SX})
    # long vectors, where a vectorised loop would have a remainder
    for n in (7, 15, 16, 17, 31, 63, 65, 100) + ((257, 500) if full else ()):
        for ca, cb in itertools.product(ALLC, repeat=2):
            k = rng.choice("+-*")
            out.append({"op": "t%st" % k, "x": ten(rng, [n], ca, -99, 99), "y": ten(rng, [n], cb, -99, 99)})
            if ca or not cb:
                out.append({"op": "t%s=t" % k, "x": ten(rng, [n], ca, -99, 99), "y": ten(rng, [n], cb, -99, 99), "sh": rng.random() < 0.5})
    # magnitudes and fractions: scaled inputs x/q
    for k in range(60):
        d = shape(rng, zero=False, cap=30)
        ca, cb = pair_types(rng)
        q = rng.choice((2, 8, 1024, 2**20))
        op = rng.choice("+-")
        out.append({"op": "t%st" % op, "x": ten(rng, d, ca, -2**28, 2**28, q=q), "y": ten(rng, d, cb, -2**28, 2**28, q=q), "sc": q})
        out.append({"op": "t*t", "x": ten(rng, d, ca, -2**14, 2**14, q=256), "y": ten(rng, d, cb, -2**14, 2**14, q=256), "sc": 65536})
        nc = rng.random() < 0.5
        out.append({"op": rng.choice(("t+n", "t-n", "n+t", "n-t")), "x": ten(rng, d, ca, -2**28, 2**28, q=q), "n": [rng.randint(-2**28, 2**28), rng.randint(-2**28, 2**28) if nc else 0], "nc": nc, "nq": q, "sc": q})
        out.append({"op": rng.choice(("neg", "conj", "real", "imag")), "x": ten(rng, d, ca, -2**29, 2**29, q=q), "sc": q})
    # different dimensions
    for k in range(60 if not full else 250):
        a = shape(rng, zero=False, cap=40)
        b = list(a)
        j = rng.randrange(len(b))
        b[j] += rng.choice([1, 2])
        ca, cb = pair_types(rng)
        op = rng.choice(("t+t", "t-t", "t*t", "t/t", "t+=t", "t-=t", "t*=t", "t/=t", "to_complex2"))
        if "=" in op and cb:
            ca = True
        if op == "to_complex2":
            ca = cb = False
        out.append({"op": op, "x": ten(rng, a, ca, 1, 9), "y": ten(rng, b, cb, 1, 9)})
    for k in "+-*/":
        for ca, cb in itertools.product(ALLC, repeat=2):
            for a, b in (([2], [5]), ([5], [2]), ([0], [3]), ([3], [0]), ([2, 3], [3, 3]), ([7], [2, 3]), ([2, 3, 2], [2, 3])):
                out.append({"op": "t%st" % k, "x": ten(rng, a, ca, 1, 9), "y": ten(rng, b, cb, 1, 9)})
                if ca or not cb:
                    out.append({"op": "t%s=t" % k, "x": ten(rng, a, ca, 1, 9), "y": ten(rng, b, cb, 1, 9), "sh": rng.random() < .5})
    for a, b in (([2], [5]), ([5], [2]), ([0], [3]), ([3], [0])):
        out.append({"op": "to_complex2", "x": ten(rng, a, False), "y": ten(rng, b, False)})
    return out


# ------------------------------------------------------------------- P09
REL = ("==", "!=", "<", ">", "<=", ">=")


def p09(rng, tier):
    out = []
    full = tier != "quick"
    S = [[0], [1], [2], [5], [2, 3], [1, 1], [0, 3], [2, 1, 3]] + shapes(rng, 40 if not full else 250)
    for d in S:
        x, y = ten(rng, d, False, -2, 2), ten(rng, d, False, -2, 2)
        for k in REL:
            out.append({"op": "cmp_tt", "k": k, "x": x, "y": y})
            out.append({"op": rng.choice(("cmp_tn", "cmp_nt")), "k": k, "x": x, "n": [rng.randint(-2, 2), 0]})
            xi, yi = [rng.randint(-2, 2) for _ in range(size(d))], [rng.randint(-2, 2) for _ in range(size(d))]
            out.append({"op": "cmp_ii", "k": k, "x": xi, "y": yi})
            out.append({"op": rng.choice(("cmp_in", "cmp_ni")), "k": k, "x": xi, "n": rng.randint(-2, 2)})
        if rng.random() < 0.3:
            out.append({"op": "cmp_tt", "k": rng.choice(REL), "x": x, "al": rng.choice((1, 2))})
        z, w = ten(rng, d, True, -1, 1), ten(rng, d, True, -1, 1)
        for k in ("==", "!="):
            out.append({"op": "cmp_tt", "k": k, "x": z, "y": w})
            out.append({"op": rng.choice(("cmp_zn", "cmp_nz")), "k": k, "x": z, "n": [rng.randint(-1, 1), rng.randint(-1, 1)]})
        # equal, or different in one element or one part or the dimensions
        for c in ALLC:
            x = ten(rng, d, c, -9, 9)
            v = rng.randrange(4)
            y = {"c": c, "d": list(d), "e": [list(e) for e in x["e"]]}
            if v == 1 and size(d):
                y["e"][rng.choice([0, size(d) - 1, rng.randrange(size(d))])][1 if c and rng.random() < 0.5 else 0] += rng.choice([1, -1])
            elif v == 2:
                y["d"] = [1] + d if len(d) < 6 else list(d)
            elif v == 3 and len(d) > 1:
                y["d"] = d[::-1]
            out.append({"op": rng.choice(("all_equal", "some_unequal")), "x": x, "y": y})
            out.append({"op": "vec_equal", "x": x, "y": y})
            n = [rng.randint(-2, 2), rng.randint(-2, 2) if c else 0]
            t = {"c": c, "d": list(d), "e": [list(n) for _ in range(size(d))]}
            if size(d) and rng.random() < 0.5:
                t["e"][rng.choice([0, size(d) - 1])][0] += 1
            out.append({"op": "all_equal_n", "x": t, "n": n, "left": rng.random() < 0.5})
        b1, b2 = [rng.random() < 0.5 for _ in range(size(d))], [rng.random() < 0.5 for _ in range(size(d))]
        if rng.random() < 0.3:
            b1 = [True] * len(b1)
        if rng.random() < 0.2:
            b1 = [False] * len(b1)
        if b1 and rng.random() < 0.2:
            b1[-1] = not b1[-1]
        for op in ("bnot", "all_of", "any_of", "none_of", "which"):
            out.append({"op": op, "x": b1})
        for op in ("band", "bor"):
            out.append({"op": op, "x": b1, "y": b2})
        n = size(d)
        xs = {"c": False, "d": [n], "e": [[rng.choice([rng.randint(-3, 3), rng.randint(-1000, 1000)]), 0] for _ in range(n)]}
        ev = {"op": rng.choice(("sort", "sort_indices")), "x": xs, "sh": rng.random() < 0.5}
        if rng.random() < 0.7:
            ev["rev"] = rng.random() < 0.5
        out.append(ev)
        out.append({"op": rng.choice(("sort_i", "sort_indices_i")), "x": [e[0] for e in xs["e"]], "rev": rng.random() < 0.5})
        if n:
            x = ten(rng, d, False, -1000, 1000)
            if rng.random() < 0.3:
                x = ten(rng, d, False, -1000, -5)
            out.append({"op": "min", "x": x})
            out.append({"op": "max", "x": x})
    # exhaustive: every pair of values under every relation, with numbers on either side
    for k in REL:
        for a in (-1, 0, 1):
            for b in (-1, 0, 1):
                A = {"c": False, "d": [1], "e": [[a, 0]]}
                out += [{"op": "cmp_tn", "k": k, "x": A, "n": [b, 0]}, {"op": "cmp_nt", "k": k, "x": A, "n": [b, 0]},
                        {"op": "cmp_in", "k": k, "x": [a], "n": b}, {"op": "cmp_ni", "k": k, "x": [a], "n": b},
                        {"op": "cmp_ii", "k": k, "x": [a], "y": [b]},
                        {"op": "cmp_tt", "k": k, "x": A, "y": {"c": False, "d": [1], "e": [[b, 0]]}}]
    for a in itertools.product((-1, 0, 1), repeat=2):
        for b in itertools.product((-1, 0, 1), repeat=2):
            for k in ("==", "!="):
                A = {"c": True, "d": [1], "e": [list(a)]}
                out += [{"op": "cmp_zn", "k": k, "x": A, "n": list(b)}, {"op": "cmp_nz", "k": k, "x": A, "n": list(b)},
                        {"op": "cmp_tt", "k": k, "x": A, "y": {"c": True, "d": [1], "e": [list(b)]}}]
    # not-a-number, infinities and both zeros
    NAN, INF, NZ = 2000000003, 2000000001, 1999999999
    V = (0, 1, NZ, NAN, INF, -INF)
    for a in V:
        for b in V:
            A, Bt = ({"c": False, "d": [1], "e": [[v, 0]]} for v in (a, b))
            for k in REL:
                out.append({"op": rng.choice(("cmp_tn", "cmp_nt")), "k": k, "x": A, "n": [b, 0]})
                out.append({"op": "cmp_tt", "k": k, "x": A, "y": Bt})
            out += [{"op": rng.choice(("all_equal", "some_unequal")), "x": A, "y": Bt}, {"op": "all_equal_n", "x": A, "n": [b, 0], "left": rng.random() < 0.5}]
    for k in range(120 if not full else 600):
        d = shape(rng, zero=False, cap=12)
        c = rng.random() < 0.5
        x, y = ten(rng, d, c, 0, 1), ten(rng, d, c, 0, 1)
        if rng.random() < 0.5:
            y["e"] = [list(e) for e in x["e"]]
        for t in (x, y):
            for _ in range(rng.choice((0, 1, 1, 2))):
                rng.choice(t["e"])[rng.randrange(2) if c else 0] = rng.choice(V)
        if rng.random() < 0.5:
            out.append({"op": "cmp_tt", "k": rng.choice(("==", "!=") if c else REL), "x": x, "y": y})
            out.append({"op": rng.choice(("cmp_zn", "cmp_nz") if c else ("cmp_tn", "cmp_nt")), "k": rng.choice(("==", "!=") if c else REL),
                        "x": x, "n": rng.choice(y["e"])})
        else:
            out.append({"op": rng.choice(("all_equal", "some_unequal")), "x": x, "y": y})
            n = rng.choice(x["e"])
            out.append({"op": "all_equal_n", "x": dict(x, e=[list(n) for _ in x["e"]]), "n": n, "left": rng.random() < 0.5})
        n = rng.randint(1, 12)
        xs = {"c": False, "d": [n], "e": [[rng.choice([rng.randint(-3, 3), INF, -INF]), 0] for _ in range(n)]}
        out.append({"op": rng.choice(("sort", "sort_indices")), "x": xs, "rev": rng.random() < 0.5})
        out.append({"op": rng.choice(("min", "max")), "x": xs})
        # indices beyond what a double holds
        bp = rng.choice((31, 32, 53, 60, 62)) * rng.choice((-1, 1))
        xi, yi = ([rng.randint(-9, 9) for _ in range(n)] for _ in range(2))
        out.append({"op": rng.choice(("sort_i", "sort_indices_i")), "x": xi, "rev": rng.random() < 0.5, "bp": bp})
        out.append({"op": rng.choice(("cmp_in", "cmp_ni")), "k": rng.choice(REL), "x": xi, "n": rng.randint(-9, 9), "bp": bp})
        out.append({"op": "cmp_ii", "k": rng.choice(REL), "x": xi, "y": yi, "bp": bp})
    xi = [rng.randint(-2000, 2000) for _ in range(1050)]
    xs = {"c": False, "d": [1050], "e": [[e, 0] for e in xi]}
    out += [{"op": "sort", "x": xs, "rev": rng.random() < 0.5}, {"op": "sort_indices", "x": xs, "rev": rng.random() < 0.5},
            {"op": "sort_i", "x": xi, "rev": rng.random() < 0.5}, {"op": "sort_indices_i", "x": xi, "rev": rng.random() < 0.5}]
    for n in (30, 64, 200):
        xs = {"c": False, "d": [n], "e": [[rng.randint(-n // 2, n // 2), 0] for _ in range(n)]}
        for rev in ALLC:
            out.append({"op": "sort", "x": xs, "rev": rev})
            out.append({"op": "sort_indices", "x": xs, "rev": rev})
        for v in (1, 2, 3):      # many elements that are equal
            xi = [rng.randrange(v) for _ in range(n)]
            xs = {"c": False, "d": [n], "e": [[e, 0] for e in xi]}
            for rev in ALLC:
                out += [{"op": op, "x": xs, "rev": rev} for op in ("sort", "sort_indices")]
                out += [{"op": op, "x": xi, "rev": rev} for op in ("sort_i", "sort_indices_i")]
    for k in range(60 if not full else 300):
        n = rng.randint(1, 4)
        yi = [rng.randint(-2, 2) for _ in range(n)]
        xi = list(yi)
        if k % 2:
            xi = (yi + [rng.randint(-2, 2)] * 2)[:rng.randint(0, n + 2)]
        if xi and rng.random() < .3:
            xi[rng.randrange(len(xi))] += 1
        out.append({"op": "gen_equal", "x": xi, "y": yi})
    for xi in ([], [1], [1, 2], [2, 1], [1, 2, 3]):
        for yi in ([], [1], [1, 2], [2, 1], [1, 2, 3], [1, 2, 4]):
            out.append({"op": "all_equal_i", "x": xi, "y": yi})
            out.append({"op": "some_unequal_i", "x": xi, "y": yi})
    for n, m in ((2, 5), (5, 2), (0, 3), (3, 0), (1, 300), (300, 1)):
        for k in REL:
            out.append({"op": "cmp_tt", "k": k, "x": ten(rng, [n]), "y": ten(rng, [m])})
            out.append({"op": "cmp_ii", "k": k, "x": [0] * n, "y": [0] * m})
            if k in ("==", "!="):
                out.append({"op": "cmp_tt", "k": k, "x": ten(rng, [n], True), "y": ten(rng, [m], True)})
        for op in ("band", "bor"):
            out.append({"op": op, "x": [True] * n, "y": [True] * m})
        for op in ("all_equal", "some_unequal"):
            for c in ALLC:
                out.append({"op": op, "x": ten(rng, [n], c, 1, 1), "y": ten(rng, [m], c, 1, 1)})
    for d in ([0], [0, 3], [2, 0, 2]):
        for op in ("min", "max"):
            out.append({"op": op, "x": ten(rng, d)})
    for k in range(24):
        n = rng.randint(1, 6)
        m = n + rng.choice([1, 2])
        q = k % 4
        if q == 0:
            out.append({"op": "cmp_tt", "k": rng.choice(REL), "x": ten(rng, [n]), "y": ten(rng, [m])})
        elif q == 1:
            out.append({"op": "cmp_ii", "k": rng.choice(REL), "x": [0] * m, "y": [0] * n})
        elif q == 2:
            out.append({"op": rng.choice(("band", "bor")), "x": [True] * m, "y": [True] * n})
        else:
            out.append({"op": "cmp_tt", "k": rng.choice(("==", "!=")), "x": ten(rng, [n], True), "y": ten(rng, [m], True)})
    return out


# ------------------------------------------------------------------- P10
TRIPLES = [(3, 4), (4, 3), (5, 12), (6, 8), (-3, 4), (8, -15), (0, 7), (7, 0), (-5, 0), (0, 0), (0, -2), (20, 21)]


def p10(rng, tier):
    out = []
    full = tier != "quick"
    S = SMALL + shapes(rng, 100 if not full else 500)
    for d in S:
        c = rng.random() < 0.5
        x = ten(rng, d, c, -99, 99)
        n, r = size(d), len(d)
        sh = rng.random() < 0.4
        out.append({"op": "sum", "x": x, "sh": sh})
        if n:
            out.append({"op": "mean", "x": x, "sc": 1 << 20, "fx": True, "sh": sh})
            out.append({"op": "mean_ndx", "x": x, "i": rng.choice([-r, r - 1, rng.randrange(-r, r)]), "sc": 1 << 20, "fx": True, "sh": sh})
        s = ten(rng, d, c, -9, 9)
        out.append({"op": "norm0", "x": s, "sc": 1 << 20, "fx": True})
        n2 = sum(v * v for e in s["e"] for v in e)
        out.append({"op": "norm2", "x": s, "sc": 1 << 20 if n2 < 1900 else 100, "fx": True})
        out.append({"op": "norm0", "x": ten(rng, d, False, -46000, 46000), "sc": 1})
        if r == 2:
            t = {"c": c, "d": list(d), "e": [list(rng.choice(TRIPLES)) if c else [rng.randint(-9, 9), 0] for _ in range(n)]}
            if d[1] > 0 or d[0] == 0 or True:
                out.append({"op": "matrix_norminf", "x": t, "fx": True})
            out.append({"op": "trace", "x": x, "sh": sh})
        if r >= 2:
            i, j = rng.sample(range(r), 2)
            out.append({"op": "trace2", "x": x, "i": rng.choice([i, i - r]), "j": rng.choice([j, j - r]), "sh": sh})
            i, j = rng.sample(range(r), 2)
            I, J = rng.choice([i, i - r]), rng.choice([j, j - r])
            if d[i] and d[j]:
                for w in range(-d[i] + 1, d[j]):
                    if rng.random() < (0.5 if not full else 1):
                        out.append({"op": "take_diag", "x": x, "w": w, "i": I, "j": J, "sh": sh})
            if d[0] and d[-1] and rng.random() < 0.5:
                out.append({"op": "take_diag0", "x": x, "w": rng.randint(-d[0] + 1, d[-1] - 1)})
        i = rng.randrange(r)
        cv = c and rng.random() < 0.5
        v = ten(rng, [d[i]], cv, -9, 9)
        out.append({"op": rng.choice(("scale", "scale_inplace")), "x": x, "i": rng.choice([i, i - r]), "y": v, "sh": sh, "shy": rng.random() < 0.3})
    for n in range(0, 5):
        for w in range(-3, 4):
            c = rng.random() < 0.5
            v = ten(rng, [n], c, 1, 99)
            if n:
                out.append({"op": "diag", "x": v, "w": w, "sh": rng.random() < 0.3})
    for rows in range(1, 6):
        for cols in range(1, 6):
            for w in range(-rows + 1, cols):
                l = min(rows - max(0, -w), cols - max(0, w))
                out.append({"op": "diag_rc", "x": ten(rng, [l], rng.random() < 0.5, 1, 99), "w": w, "rows": rows, "cols": cols})
    # every diagonal of every small matrix
    for a in range(1, 5):
        for b in range(1, 5):
            x = move(rng, [a, b], rng.random() < 0.5)
            for w in range(-a + 1, b):
                out.append({"op": "take_diag", "x": x, "w": w, "i": 0, "j": 1, "member": rng.random() < .5})
                out.append({"op": "take_diag0", "x": x, "w": w, "member": True})
                out.append({"op": "take_diag", "x": x, "w": rng.randint(-b + 1, a - 1), "i": 1, "j": 0})
            y = ten(rng, [a, b], False, -9, 9)
            out.append({"op": "trace", "x": y})
            for i in (0, 1, -1, -2):
                for j in (0, 1, -1, -2):
                    if i % 2 != j % 2:
                        out.append({"op": "trace2", "x": y, "i": i, "j": j})
    for k in range(150 if not full else 800):
        r = rng.choice((1, 2, 2))
        c = rng.random() < 0.5
        a, b = shape(rng, rank=r, cap=12, zero=(k % 9 == 0)), shape(rng, rank=r, cap=12, zero=(k % 11 == 0))
        out.append({"op": rng.choice(("kron", "kron2")), "x": ten(rng, a, c), "y": ten(rng, b, c)})
        if r == 2:
            a[1], b[1] = a[0], b[0]
        a, b = [max(1, q) for q in a], [max(1, q) for q in b]
        if size(a) * size(b) <= 150:
            out.append({"op": "kron2_sum", "x": ten(rng, a, c), "y": ten(rng, b, c)})
        if k % 6 == 0:
            out.append({"op": rng.choice(("kron", "kron2", "kron2_sum")), "x": ten(rng, [2, 2], c), "al": rng.choice((1, 2))})
    for k in range(40 if not full else 150):
        d = shape(rng, zero=False, cap=40)
        x = ten(rng, d, k % 2 == 0)
        i = rng.randrange(len(d))
        q = k % 5
        if q == 0:
            out.append({"op": rng.choice(("scale", "scale_inplace")), "x": x, "i": i, "y": ten(rng, [d[i] + rng.choice([1, 2])])})
        elif q == 1:
            out.append({"op": rng.choice(("scale", "scale_inplace")), "x": x, "i": rng.choice([len(d), -len(d) - 1]), "y": ten(rng, [d[-1]])})
        elif q == 2 and len(d) != 2:
            out.append({"op": "trace", "x": x})
        elif q == 3:
            out.append({"op": "diag_rc", "x": ten(rng, [rng.randint(1, 3)]), "w": rng.choice([5, 6, 9, -3, -4, -8]), "rows": 2, "cols": 4})
            out.append({"op": "diag_rc", "x": ten(rng, [3]), "w": rng.choice([0, 1, -1]), "rows": rng.choice([2, 6]), "cols": rng.choice([5, 7])})
        elif q == 4 and len(d) >= 2:
            out.append({"op": "take_diag", "x": x, "w": rng.choice([-d[0], d[1], d[1] + 3, -d[0] - 2]), "i": 0, "j": 1})
    for d in ([2], [2, 2], [3, 3], [2, 3], [2, 2, 2], [3, 2, 2, 3]):
        r = len(d)
        for c in ALLC:
            x = ten(rng, d, c)
            bad = [(i, j) for i in range(-r - 1, r + 1) for j in range(-r - 1, r + 1)
                   if not (-r <= i < r and -r <= j < r) or i % r == j % r]
            for i, j in rng.sample(bad, min(6, len(bad))):
                out.append({"op": rng.choice(("take_diag", "trace2")), "x": x, "w": 0, "i": i, "j": j})
            for q in range(2 if r > 1 else 0):
                i, j = far_index(rng, r), rng.randrange(-r, r)
                out.append({"op": "trace2", "x": x, "w": 0, "i": i if q else j, "j": j if q else i})
            for i in (-r - 1, r, r + 5) if r > 1 else ():
                out.append({"op": "mean_ndx", "x": x, "i": i, "reject": True, "fx": True, "sc": 1 << 20})
            if r != 2:
                out.append({"op": "matrix_norminf", "x": x, "reject": True})
            for e in ([2], [2, 2], [2, 2, 2]):
                if len(e) != r or r > 2:
                    out.append({"op": rng.choice(("kron", "kron2", "kron2_sum")), "x": x, "y": ten(rng, e, c)})
    return out


# ------------------------------------------------------------------- P11
def p11(rng, tier):
    out = []
    full = tier != "quick"
    for n in list(range(1, 12)) + [20, 33, 64, 1000]:
        for k in range(3 if not full else 12):
            c = rng.random() < 0.4
            q = rng.choice((1, 1, 4, 10))
            a, b = elems(rng, 2, c, -20, 20)
            out.append({"op": "linspace", "a": a, "b": b, "n": n, "nc": c, "q": q, "fx": True, "sc": q << 20, "ss": 1 << 20})
            d = shape(rng, zero=False, cap=8, rank=rng.choice((1, 1, 2, 3)))
            if rng.random() < 0.2:
                d = [1] * rng.randint(1, 4)
            if n <= 12:
                ev = {"op": "linspace_t", "x": ten(rng, d, c, -50, 50), "y": ten(rng, d, c, -50, 50), "n": n, "fx": True, "sc": 1 << 20, "ss": 1 << 20, "sh": rng.random() < 0.3}
                if rng.random() < 0.1:
                    ev["al"] = 1
                out.append(ev)
    for a in range(-3, 4):
        for b in range(-3, 7):
            if b >= a - 1:
                for s in (1, 2, 3):
                    if b >= a:
                        out.append({"op": "iota", "a": a, "b": b, "step": s})
                        out.append({"op": "indices_range", "a": a, "b": b, "step": s})
                if b >= a:
                    out.append({"op": "iota", "a": a, "b": b})
                    out.append({"op": "indices_range", "a": a, "b": b})
    for k in range(60):
        x, y = [rng.randint(-9, 9) for _ in range(rng.randint(0, 6))], [rng.randint(-9, 9) for _ in range(rng.randint(0, 6))]
        out.append({"op": "concat", "x": x, "y": y})
        out.append({"op": "total_size", "x": [rng.randint(0, 5) for _ in range(rng.randint(0, 6))]})
        out.append({"op": "index_to_tensor", "x": x})
    for d in SMALL + shapes(rng, 40):
        for k in ("zeros", "ones"):
            out.append({"op": "gen", "k": k, "c": rng.random() < 0.5, "d": d, "how": rng.randrange(2)})
    for a in range(0, 5):
        out.append({"op": "gen", "k": "eye", "c": rng.random() < 0.5, "d": [a]})
        for b in range(0, 5):
            out.append({"op": "gen", "k": "eye", "c": rng.random() < 0.5, "d": [a, b]})
    for n in range(1, 8):
        for k in "irz":
            e = [rng.randint(-99, 99) for _ in range(n)]
            out.append({"op": "listgen", "k": k, "e": e if k == "i" else [[v, 3 * v + 1 if k == "z" else 0] for v in e]})
    for c in ALLC:      # different numbers of elements; the number of points when none is given
        for a, b in (([2], [5]), ([5], [2]), ([2, 3], [2]), ([1], [4]), ([0], [2]), ([2], [0])):
            out.append({"op": "linspace_t", "x": ten(rng, a, c), "y": ten(rng, b, c), "n": 3, "reject": True, "fx": True, "sc": 1 << 20, "ss": 1 << 20})
        a, b = elems(rng, 2, c, -20, 20)
        out.append({"op": "linspace", "a": a, "b": b, "n": 100, "dn": True, "nc": c, "q": 1, "fx": True, "sc": 1 << 20, "ss": 1 << 20})
        for d in ([1], [2], [2, 2]):
            out.append({"op": "linspace_t", "x": ten(rng, d, c, -50, 50), "y": ten(rng, d, c, -50, 50), "n": 100, "dn": True, "fx": True, "sc": 1 << 20, "ss": 1 << 20})
    for d, n in (([2, 2], 4), ([4], 4), ([4, 1], 4), ([2, 3], 6), ([3, 2], 6), ([1, 6], 6), ([2, 2], 6), ([3, 3], 6), ([2, 3], 4)):
        out.append({"op": "listgen_dims", "e": elems(rng, n, False), "d": d})
    return out


# --------------------------------------------- the same on larger tensors
BIG = ((700,), (41, 23), (300, 3), (2, 333), (9, 11, 8), (3, 1, 160), (5, 6, 4, 7), (2, 3, 4, 5, 6), (3, 2, 4, 2, 3, 4), (1, 600, 1), (1025,), (32, 32), (35, 37), (33, 3, 34))


def bigs(rng, n, full):
    return [list(d) for d in (BIG if full else rng.sample(BIG, n))]


def big_p03(rng, full):
    out = []
    for d in bigs(rng, 6, full):
        c = rng.random() < 0.5
        x = move(rng, d, c)
        n = size(d)
        out += [{"op": "ctor", "c": c, "d": d, "e": elems(rng, n, c, -999, 999), "how": rng.randrange(2)},
                {"op": "ctor_data", "x": move(rng, [n], c), "d": d, "sh": True},
                {"op": "ctor_vec", "x": x, "how": rng.randrange(3), "sh": True},
                {"op": "fill", "x": x, "zero": rng.random() < 0.5, "n": [7, 3 if c else 0], "sh": True},
                {"op": "assign", "x": move(rng, [3], c), "y": x, "sh": True}]
        for _ in range(3):
            ix = [rng.randrange(-m, m) for m in d]
            out += [{"op": "get", "x": x, "i": ix}, {"op": rng.choice(("set", "set_inplace")), "x": x, "i": ix, "n": [-77, 0], "sh": rng.random() < 0.5}]
        out.append({"op": "setseq", "x": x, "i": n - 1, "n": [7, 0], "sh": True})
    return out


def big_p04(rng, full):
    out = []
    for d in bigs(rng, 6, full):
        x = move(rng, d, rng.random() < 0.5)
        for _ in range(3):
            out.append({"op": rng.choice(("view", "view2")), "x": x, "rg": [rng.choice((one_range(rng, n), ["f"], ["i", [rng.randrange(n) for _ in range(min(n, 40))]]))
                                                                          for n in d], "sh": rng.random() < 0.5})
        out.append({"op": "view", "x": x, "rg": [one_range(rng, size(d))]})
    return out


def big_p05(rng, full):
    out = []
    for d in bigs(rng, 6, full):
        c = rng.random() < 0.4
        x = move(rng, d, c)
        for _ in range(2):
            rg = [rng.choice((one_range(rng, n), ["f"])) for n in d]
            vd = [rlen(r, n) for r, n in zip(rg, d)]
            if size(vd) <= 1200:
                out.append({"op": "vset", "x": x, "rg": rg, "src": "t", "y": move(rng, vd, c), "sh": rng.random() < 0.5, "shy": rng.random() < 0.5})
                out.append({"op": "vset", "x": x, "rg": rg, "src": "n", "n": [5, 4 if c else 0], "sh": rng.random() < 0.5})
                rg2 = [with_len(rng, a, v) for a, v in zip(d, vd)]
                if None not in rg2:
                    out.append({"op": "vset", "x": x, "rg": rg, "src": "selfview", "rg2": rg2, "sh": rng.random() < 0.5})
        rg = []
        for a in d:
            q = list(range(a))
            rng.shuffle(q)
            rg.append(rng.choice([["i", q], ["i", q], ["t", a - 1, 0, -1], ["f"]]))
        out.append({"op": "vset", "x": x, "rg": rg, "src": rng.choice(("self", "copy"))})
    return out


def big_p06(rng, full):
    out = []
    for d in bigs(rng, 6, full):
        x = move(rng, d, rng.random() < 0.5)
        r = len(d)
        out.append({"op": "reshape", "x": x, "d": rng.choice(factorizations(size(d), rng.choice((1, 2, 3)))), "how": rng.randrange(3), "sh": True})
        out.append({"op": "squeeze", "x": x, "sh": True})
        for _ in range(3 if r > 1 else 1):
            out.append({"op": "permute", "x": x, "i": rng.randrange(-r, r), "j": rng.randrange(-r, r)})
            i = rng.randrange(r)
            out.append({"op": "change_dimension", "x": x, "i": i, "n": max(0, d[i] + rng.choice((-1, 1, 2, -d[i] // 2))), "sh": rng.random() < 0.5})
        if r == 2:
            out += [{"op": "transpose", "x": x}, {"op": "adjoint", "x": x}]
    return out


def big_p07(rng, full):
    out = []
    # long contractions, many products: (shape, index, shape, index)
    F = (((400, 2), 0, (3, 400), 1), ((2, 400), 1, (400, 2), 0), ((600,), 0, (600,), 0), ((4, 30, 5), 1, (3, 30, 2), 1), ((30, 4, 5), 0, (2, 3, 30), 2),
         ((3, 4, 30), 2, (30, 6), 0), ((150, 2), 1, (2, 4), 0), ((2, 150), 0, (4, 2), 1), ((5, 2, 60), 1, (2, 2), 0), ((3, 40), 0, (9, 3, 1), 1))
    for a, i, b, j in (F if full else rng.sample(F, 6)):
        ca, cb = pair_types(rng)
        for op in ("fold", "foldc"):
            out.append({"op": op, "x": ten(rng, a, ca), "i": i, "y": ten(rng, b, cb), "j": j})
        if i == len(a) - 1 and j == 0:
            out.append({"op": "mmult", "x": ten(rng, a, ca), "y": ten(rng, b, cb)})
        if len(a) <= 2:
            out.append({"op": "foldin", "x": ten(rng, a, ca), "i": i, "y": ten(rng, b, ca), "j": j})
    for d in bigs(rng, 4, full):
        out.append({"op": "scprod", "x": ten(rng, d, rng.random() < 0.5), "y": ten(rng, d, rng.random() < 0.5)})
    return [e for e in out if e["op"] != "scprod" or e["x"]["c"] == e["y"]["c"]]


def big_p08(rng, full):
    out = []
    for d in bigs(rng, 8, full):
        ca, cb = pair_types(rng)
        for k in "+-*":
            sh = rng.random() < 0.5
            op = rng.choice(("t%st", "t%s=t")) if ca or not cb else "t%st"
            out.append({"op": op % k, "x": ten(rng, d, ca, -999, 999), "y": ten(rng, d, cb, -999, 999), "sh": sh})
            out.append({"op": rng.choice(("t%sn", "t%s=n", "n%st")) % k, "x": ten(rng, d, ca, -999, 999), "n": [rng.randint(-99, 99), 7 if ca else 0], "nc": ca, "sh": sh})
        y = ten(rng, d, False, -99, 99, nz=True)
        x = {"c": False, "d": d, "e": [[rng.randint(-999, 999) * b[0], 0] for b in y["e"]]}
        out.append({"op": rng.choice(("t/t", "t/=t")), "x": x, "y": y})
        x = {"c": False, "d": d, "e": [[rng.randint(-999, 999) * 49, 0] for _ in range(size(d))]}
        out.append({"op": rng.choice(("t/n", "t/=n")), "x": x, "n": [49, 0]})
        x = {"c": False, "d": d, "e": [[rng.choice((1, 2, 3, -4, 6, -12)), 0] for _ in range(size(d))]}
        out.append({"op": "n/t", "x": x, "n": [36, 0]})
        for op in ("neg", "conj", "real", "imag", "to_complex"):
            out.append({"op": op, "x": ten(rng, d, ca, -999, 999)})
        out.append({"op": "abs", "x": ten(rng, d, False, -999, 999), "sc": 1})
        out.append({"op": "round", "x": ten(rng, d, False, -40, 40, q=4)})
        out.append({"op": "to_complex2", "x": ten(rng, d, False, -999, 999), "y": ten(rng, d, False, -999, 999)})
        out.append({"op": "umap", "f": rng.choice(("cos", "sin", "exp", "sqrt", "log", "tanh")), "x": ten(rng, d, False, 1, 12, q=4), "fx": True, "sc": 1 << 20})
    return out


MID = ((131,), (12, 11), (5, 6, 5), (1, 97), (70, 2), (3, 3, 4, 4))


def arith(rng, k, form, ca, cb, d):
    """one operation between tensors, or a tensor and a number, of given types, with an exact result"""
    c = ca or cb
    SX = 1 << 20
    n = size(d)
    if k == "/":
        q = elems(rng, n, c, -9, 9)
        if form in ("t%st", "t%s=t"):
            y = ten(rng, d, cb, -5, 5, nz=True)["e"]
        else:
            y = [[rng.choice([-4, -2, 2, 5, 41]), rng.choice([-3, 1, 2]) if cb else 0]] * n
        if form == "n%st":           # number / tensor: ca is the type of the tensor, cb that of the number
            units = (1, -1, 2, 3, -4, 6, -12)
            x = [[rng.choice(units), 0] if not ca or rng.random() < 0.5 else [0, rng.choice(units)] for _ in range(n)]
            ev = {"x": {"c": ca, "d": list(d), "e": x}, "n": [24, -36 if cb else 0], "nc": cb}
        else:
            if cb and not ca:        # a complex quotient of a real number: conj(y) divides |y|^2
                x = [[(b[0] * b[0] + b[1] * b[1]) * rng.choice((1, -1, 2)), 0] for b in y]
            elif ca and not cb or not c:
                x = [[a[0] * b[0], a[1] * b[0]] for a, b in zip(q, y)]
            else:
                x = [[a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]] for a, b in zip(q, y)]
            ev = {"x": {"c": ca, "d": list(d), "e": x}}
            if form in ("t%st", "t%s=t"):
                ev["y"] = {"c": cb, "d": list(d), "e": y}
            else:
                ev.update(n=list(y[0]) if y else [2, 0], nc=cb)
        if c:
            ev.update(fx=True, sc=SX, ss=SX)
    else:
        ev = {"x": ten(rng, d, ca, -99, 99)}
        if form in ("t%st", "t%s=t"):
            ev["y"] = ten(rng, d, cb, -99, 99)
        else:
            ev.update(n=[rng.randint(-99, 99), rng.randint(1, 99) if cb else 0], nc=cb)
    ev.update(op=form % k, sh=rng.random() < 0.5)
    return ev


def mid_p08(rng, full):
    """every operator, form and pair of types on tensors of some hundred elements"""
    out = []
    for k in "+-*/":
        for form in ("t%st", "t%s=t", "t%sn", "t%s=n", "n%st"):
            for ca in ALLC:
                for cb in ALLC:
                    if "=" in form and cb and not ca:
                        continue
                    for d in (MID if full else rng.sample(MID, 1)):
                        out.append(arith(rng, k, form, ca, cb, list(d)))
    for c in ALLC:
        for op in ("neg", "conj", "real", "imag", "to_complex"):
            out.append({"op": op, "x": ten(rng, list(rng.choice(MID)), c, -999, 999)})
    return out


def mid_p09(rng, full):
    """every relation and form on some hundred elements, equal up to one place"""
    out = []
    for c in ALLC:
        for k in ("==", "!=") if c else REL:
            d = list(rng.choice(MID))
            n = size(d)
            x = ten(rng, d, c, -1, 1)
            y = {"c": c, "d": d, "e": [list(e) for e in x["e"]]}
            y["e"][rng.choice((0, n - 1, rng.randrange(n)))][rng.randrange(2) if c else 0] += 1
            out.append({"op": "cmp_tt", "k": k, "x": x, "y": y})
            for op in ("cmp_zn", "cmp_nz") if c else ("cmp_tn", "cmp_nt"):
                out.append({"op": op, "k": k, "x": x, "n": [rng.randint(-1, 1), rng.randint(0, 1) if c else 0]})
    for k in REL:
        xi, yi = ([rng.randint(-2, 2) for _ in range(130)] for _ in range(2))
        out += [{"op": "cmp_ii", "k": k, "x": xi, "y": yi}, {"op": "cmp_in", "k": k, "x": xi, "n": 1}, {"op": "cmp_ni", "k": k, "x": xi, "n": 0}]
    return out


def big_p09(rng, full):
    out = []
    for d in bigs(rng, 6, full):
        n = size(d)
        for c in ALLC:
            x = ten(rng, d, c, -1, 1)
            y = {"c": c, "d": d, "e": [list(e) for e in x["e"]]}
            if rng.random() < 0.7:
                y["e"][rng.choice((0, n - 1, n // 2, rng.randrange(n)))][rng.randrange(2) if c else 0] += 1
            out.append({"op": rng.choice(("all_equal", "some_unequal")), "x": x, "y": y})
            v = [3, 2 if c else 0]
            t = {"c": c, "d": d, "e": [list(v) for _ in range(n)]}
            if rng.random() < 0.7:
                t["e"][rng.choice((0, n - 1, rng.randrange(n)))][0] += 1
            out.append({"op": "all_equal_n", "x": t, "n": v, "left": rng.random() < 0.5})
            k = rng.choice(("==", "!=") if c else REL)
            out.append({"op": "cmp_tt", "k": k, "x": x, "y": ten(rng, d, c, -1, 1)})
            out.append({"op": rng.choice(("cmp_zn", "cmp_nz") if c else ("cmp_tn", "cmp_nt")), "k": k, "x": x, "n": [0, rng.randint(0, 1) if c else 0]})
        b = [rng.random() < 0.5 for _ in range(n)]
        for one in ALLC:      # all but possibly one
            u = [one] * n
            if rng.random() < 0.7:
                u[rng.choice((0, n - 1, rng.randrange(n)))] = not one
            out += [{"op": op, "x": u} for op in ("all_of", "any_of", "none_of", "which")]
        out += [{"op": "bnot", "x": b}, {"op": "which", "x": b}, {"op": rng.choice(("band", "bor")), "x": b, "y": [rng.random() < 0.5 for _ in range(n)]}]
        xi, yi = ([rng.randint(-2, 2) for _ in range(n)] for _ in range(2))
        out += [{"op": "cmp_ii", "k": rng.choice(REL), "x": xi, "y": yi}, {"op": rng.choice(("cmp_in", "cmp_ni")), "k": rng.choice(REL), "x": xi, "n": 1}]
        m = rng.choice((50, 100, 300))
        xi = [rng.randint(-m, m) for _ in range(m)]
        for op in ("sort_i", "sort_indices_i"):
            out.append({"op": op, "x": xi, "rev": rng.random() < 0.5})
        xs = {"c": False, "d": [m], "e": [[v, 0] for v in xi]}
        for op in ("sort", "sort_indices"):
            out.append({"op": op, "x": xs, "rev": rng.random() < 0.5})
        x = ten(rng, d, False, -10**6, 10**6)
        out += [{"op": "min", "x": x}, {"op": "max", "x": x}]
    return out


def big_p10(rng, full):
    out = []
    for d in bigs(rng, 6, full):
        c = rng.random() < 0.5
        x = ten(rng, d, c, -99, 99)
        r = len(d)
        out += [{"op": "sum", "x": x}, {"op": "sum", "x": ten(rng, d, c, -2**20, 2**20)}, {"op": "mean", "x": x, "sc": 1 << 12, "fx": True},
                {"op": "mean_ndx", "x": x, "i": rng.randrange(-r, r), "sc": 1 << 12, "fx": True},
                {"op": "norm0", "x": ten(rng, d, False, -40000, 40000), "sc": 1}, {"op": "norm0", "x": ten(rng, d, True, -9, 9), "sc": 1 << 20, "fx": True},
                {"op": "norm2", "x": ten(rng, d, c, -1, 1), "sc": 1 << 20 if size(d) < 900 else 100, "fx": True}]
        i = rng.randrange(r)
        out.append({"op": rng.choice(("scale", "scale_inplace")), "x": x, "i": i, "y": ten(rng, [d[i]], c), "sh": rng.random() < 0.5})
        if r == 2:
            out.append({"op": "matrix_norminf", "x": ten(rng, d, False), "fx": True})
            out.append({"op": "trace", "x": x})
        if r >= 2:
            i, j = rng.sample(range(r), 2)
            out.append({"op": "trace2", "x": x, "i": i, "j": j})
            out.append({"op": "take_diag", "x": x, "w": rng.randint(-d[i] + 1, d[j] - 1), "i": i, "j": j})
    for n, w in ((20, 0), (17, 3), (25, -2)):
        out.append({"op": "diag", "x": ten(rng, [n], rng.random() < 0.5, 1, 99), "w": w})
    for a, b in (((5, 7), (6, 4)), ((40,), (20,)), ((1, 30), (20, 1)), ((12, 1), (3, 9))):
        c = rng.random() < 0.5
        for op in ("kron", "kron2"):
            out.append({"op": op, "x": ten(rng, a, c), "y": ten(rng, b, c)})
    out.append({"op": "kron2_sum", "x": ten(rng, [5, 5], False), "y": ten(rng, [6, 6], False)})
    return out


def big_p11(rng, full):
    out = []
    for d in bigs(rng, 4, full):
        for k in ("zeros", "ones"):
            out.append({"op": "gen", "k": k, "c": rng.random() < 0.5, "d": d, "how": 0})
    for d in ([23], [31, 18], [18, 31], [40, 1]):
        out.append({"op": "gen", "k": "eye", "c": rng.random() < 0.5, "d": d})
    for a, b, st in ((0, 999, 1), (-500, 500, 7), (3, 700, 1), (10, 400, 2)):
        out += [{"op": "iota", "a": a, "b": b, "step": st}, {"op": "indices_range", "a": a, "b": b, "step": st}]
    x, y = [rng.randint(-9, 9) for _ in range(300)], [rng.randint(-9, 9) for _ in range(200)]
    out += [{"op": "concat", "x": x, "y": y}, {"op": "index_to_tensor", "x": x}]
    for n, d in ((100, [3]), (30, [4, 5]), (257, [1]), (50, [2, 2, 2])):
        c = rng.random() < 0.5
        out.append({"op": "linspace_t", "x": ten(rng, d, c, -50, 50), "y": ten(rng, d, c, -50, 50), "n": n, "fx": True, "sc": 1 << 20, "ss": 1 << 20})
    return out


# how results scale with the numbers of the arguments
DEG = {op: 2 for op in ("fold", "foldc", "fold_into", "foldin", "foldin_into", "mmult", "mmult_into", "scprod", "t*t", "t*=t", "t*n", "t*=n",
                        "n*t", "kron", "kron2", "scale", "scale_inplace")}
DEG.update({op: 1 for op in ("t+t", "t+=t", "t-t", "t-=t", "t+n", "t+=n", "t-n", "t-=n", "n+t", "n-t", "neg", "conj", "real", "imag", "sum", "trace",
                             "trace2", "diag", "diag_rc", "take_diag", "take_diag0", "min", "max", "to_complex", "transpose", "adjoint", "sort")})
DEG.update({op: 1 for op in ("abs", "norm0", "norm2", "matrix_norminf", "mean", "mean_ndx")})
DEG.update({op: 0 for op in ("t/t", "t/=t", "t/n", "t/=n", "n/t")})
DEG.update({op: 0 for op in ("cmp_tt", "cmp_tn", "cmp_nt", "cmp_zn", "cmp_nz", "all_equal", "some_unequal", "all_equal_n", "sort_indices")})


# ------------------------------------------------- many dimensions, most of length one or two
def high_shape(rng, cap=96, zero=False):
    while True:
        d = [rng.choice((1, 1, 1, 2, 2, 3)) for _ in range(rng.choice((7, 7, 8, 8, 9, 10, 12, 17)))]
        if zero:
            d[rng.randrange(len(d))] = 0
        if size(d) <= cap:
            return d


def high(p, rng, full):
    out = []
    N = 30 if not full else 250
    for k in range(N):
        c = rng.random() < .5
        d = high_shape(rng, zero=k % 15 == 7)
        n, r = size(d), len(d)
        x = move(rng, d, c)
        s = ten(rng, d, c, -9, 9)
        i, j = rng.sample(range(r), 2)
        I, J = rng.choice([i, i - r]), rng.choice([j, j - r])
        sh = rng.random() < .4
        if p == "P03":
            out += [{"op": "dims", "x": x}, {"op": "ctor", "c": c, "d": d, "e": elems(rng, n, c, -999, 999), "how": 0},
                    {"op": "ctor_vec", "x": x, "how": rng.randrange(3), "sh": sh}, {"op": "dimension", "x": x, "i": rng.choice([I, r - 1, r])},
                    {"op": "assign", "x": move(rng, high_shape(rng), c), "y": x, "sh": True},
                    {"op": "fill", "x": x, "zero": rng.random() < .5, "n": [rng.randint(-9, 9), 3 if c else 0], "sh": sh},
                    {"op": "getdims", "x": x, "i": rng.randint(1, 6)}]
            if n:
                v = rng.randrange(n)
                out += [{"op": "getseq", "x": x, "i": v}, {"op": "setseq", "x": x, "i": v, "n": [7, 0], "sh": sh},
                        {"op": "ctor_data", "x": move(rng, [n], c), "d": d, "sh": True}, {"op": "get", "x": x, "i": [0] * rng.randint(2, 6)}]
            if not c:
                out.append({"op": "coerce", "x": x})
        elif p == "P04" and n:
            out += [{"op": "view", "x": x, "rg": [one_range(rng, n)], "sh": sh}, {"op": "view", "x": x, "rg": [["f"]] * rng.randint(2, 6)}]
        elif p == "P06":
            e = [v for v in d if v > 1] or [1]
            rng.shuffle(e)
            while len(e) < rng.choice((5, 8, 11, 20)):
                e.insert(rng.randrange(len(e) + 1), 1)
            out += [{"op": "reshape", "x": x, "d": e, "how": rng.randrange(2), "sh": sh}, {"op": "flatten", "x": x, "sh": sh},
                    {"op": "squeeze", "x": x, "sh": sh}, {"op": "permute0", "x": x}] + [
                        {"op": "change_dimension", "x": x, "i": rng.choice([q, q - r]), "n": rng.choice([0, 1, 2, d[q] + 1]), "sh": sh} for q in (i, j)] + [
                        {"op": "permute", "x": x, "i": a, "j": b, "sh": sh} for a, b in ((I, J), (J, I), (I, I), (0, -1), (rng.randrange(r), r))]
        elif p == "P07" and n:
            b = high_shape(rng, cap=24) if k % 2 else shape(rng, zero=False, cap=24)
            q = rng.randrange(len(b))
            b[q] = d[i]
            ca, cb = pair_types(rng)
            if n // d[i] * (size(b) // b[q]) <= 400 and size(b) <= 100:
                a, b = ten(rng, d, ca), ten(rng, b, cb)
                out.append({"op": rng.choice(("fold", "foldc")), "x": a, "i": I, "y": b, "j": rng.choice([q, q - len(b["d"])])})
                out.append({"op": rng.choice(("fold", "foldc")), "y": a, "j": I, "x": b, "i": rng.choice([q, q - len(b["d"])])})
            m = rng.randint(1, 3)
            out.append({"op": "foldin", "x": ten(rng, [d[i], m], c), "i": 0, "y": ten(rng, d, c), "j": I})
            out.append({"op": "mmult", "x": ten(rng, d, ca), "y": ten(rng, [d[-1], m], cb)})
            out.append({"op": "mmult", "x": ten(rng, [m, d[0]], cb), "y": ten(rng, d, ca)})
        elif p == "P08":
            y = ten(rng, d, rng.random() < .5, -9, 9)
            out += [{"op": rng.choice(("t+t", "t-t", "t*t")), "x": s, "y": y, "sh": sh}, {"op": rng.choice(("neg", "conj", "real", "imag", "to_complex")), "x": s, "sh": sh},
                    {"op": rng.choice(("t+=t", "t-=t", "t*=t")), "x": s, "y": ten(rng, d, c, -9, 9), "sh": sh}]
            e = list(d)
            e[i] += 1
            if n:
                out += [{"op": "t+t", "x": s, "y": ten(rng, e, c, -9, 9)}]
        elif p == "P09":
            out += [{"op": rng.choice(("all_equal", "some_unequal")), "x": s, "y": s if k % 2 else ten(rng, d, c)}]
            e = list(d)
            e[i], e[j] = e[j], e[i]      # as many elements in other dimensions
            out += [{"op": rng.choice(("all_equal", "some_unequal")), "x": s, "y": dict(s, d=e)}]
        elif p == "P10":
            out += [{"op": "sum", "x": s, "sh": sh}]
            if n:
                out += [{"op": "mean_ndx", "x": s, "i": I, "sc": 1 << 20, "fx": True, "sh": sh},
                        {"op": rng.choice(("scale", "scale_inplace")), "x": s, "i": I, "y": ten(rng, [d[i]], c and rng.random() < .5, -9, 9), "sh": sh},
                        {"op": "take_diag", "x": s, "w": rng.randint(-d[i] + 1, d[j] - 1), "i": I, "j": J, "sh": sh},
                        {"op": "trace2", "x": s, "i": I, "j": J, "sh": sh}]
        elif p == "P11":
            out += [{"op": "gen", "k": rng.choice(("zeros", "ones")), "c": c, "d": d, "how": 0}, {"op": "total_size", "x": d}]
    return out


def scaled(g, big, mid=None):
    """some of the cases with all numbers tiny or huge"""
    def f(rng, tier):
        out = g(rng, tier) + big(rng, tier != "quick") + high(g.__name__.upper(), rng, tier != "quick")
        if mid:
            out += mid(rng, tier != "quick")
        for e in out:
            k = DEG.get(e["op"])
            if k is not None and rng.random() < 0.12 and not any(
                    abs(v) > 1 << 30 for t in ("x", "y", "z") if isinstance(e.get(t), dict) for z in e[t]["e"] for v in z):
                p = rng.choice((-300, -100, -60, 60, 100, 300))
                e.update(pi=p, po=p * k)
        return out
    return f


GENS = {"P%02d" % k: scaled(globals()["p%02d" % k], globals()["big_p%02d" % k], globals().get("mid_p%02d" % k)) for k in range(3, 12)}
