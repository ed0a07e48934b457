"""Cases for linear algebra (P21, P23, P24, P25): integer matrices, with witnesses
(solutions, spectra, null vectors) that the specification checks itself."""
import itertools
from fractions import Fraction
from gen_dense import ten


# complex integer matrices as lists of rows of (re, im)
def mul(a, b):
    return [[(sum(x[0] * y[0] - x[1] * y[1] for x, y in zip(r, cc)), sum(x[0] * y[1] + x[1] * y[0] for x, y in zip(r, cc)))
             for cc in zip(*b)] for r in a]


def adj(a):
    return [[(z[0], -z[1]) for z in col] for col in zip(*a)]


def ident(n, v=1):
    return [[(v if i == j else 0, 0) for j in range(n)] for i in range(n)]


def T(a, c, d=None):
    n, m = len(a), len(a[0]) if a else 0
    return {"c": c, "d": d or [n, m], "e": [list(a[i][j]) for j in range(m) for i in range(n)]}


def big(a):
    return max((max(abs(z[0]), abs(z[1])) for r in a for z in r), default=0)


def num(rng, c, lo, hi):
    return (rng.randint(lo, hi), rng.randint(lo, hi) if c else 0)


def rnd(rng, n, m, c, lo=-9, hi=9, fill=1.0):
    return [[num(rng, c, lo, hi) if rng.random() < fill else (0, 0) for _ in range(m)] for _ in range(n)]


def solve_exact(a, b):
    """X with a X = b in fractions, or None"""
    n = len(a)
    z = [[(Fraction(x[0]), Fraction(x[1])) for x in r] + [(Fraction(x[0]), Fraction(x[1])) for x in s] for r, s in zip(a, b)]
    m = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    for k in range(n):
        p = next((i for i in range(k, n) if z[i][k] != (0, 0)), None)
        if p is None:
            return None
        z[k], z[p] = z[p], z[k]
        q = z[k][k]
        d = q[0] ** 2 + q[1] ** 2
        inv = (q[0] / d, -q[1] / d)
        z[k] = [m(inv, x) for x in z[k]]
        for i in range(n):
            if i != k and z[i][k] != (0, 0):
                f = z[i][k]
                z[i] = [(x[0] - m(f, y)[0], x[1] - m(f, y)[1]) for x, y in zip(z[i], z[k])]
    return [r[n:] for r in z]


def unimodular(rng, n, c, steps=None):
    """P and its inverse, both with Gaussian integer elements"""
    p, q = ident(n), ident(n)
    for _ in range(steps if steps is not None else n):
        i, j = rng.randrange(n), rng.randrange(n)
        if i == j:
            continue
        f = rng.choice([(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if c else []))
        e, ei = ident(n), ident(n)
        e[i][j] = f
        ei[i][j] = (-f[0], -f[1])
        p, q = mul(p, e), mul(ei, q)
    if rng.random() < .6:
        s = list(range(n))
        rng.shuffle(s)
        u = [[(1 if s[i] == j else 0, 0) for j in range(n)] for i in range(n)]
        p, q = mul(u, p), mul(q, adj(u))
    return p, q


def spectral(rng, n, c, lim=40, sym=False, distinct=True, values=None, lo=-9, hi=9, pairs=True):
    """x = P B P^-1 with its witness"""
    for _ in range(1000):
        if values:
            vals = [v if isinstance(v, tuple) else (v, 0) for v in values(rng, n)]
        elif distinct and not (c and not sym):
            vals = [(v, 0) for v in rng.sample(range(lo, hi + 1), n)]
        else:
            vals = [num(rng, c and not sym, lo, hi) for _ in range(n)]
            if distinct and len(set(vals)) < n:
                continue
        b = [[vals[i] if i == j else (0, 0) for j in range(n)] for i in range(n)]
        q = 1
        if sym:
            # P = product of reflections 2 - v v^T, v with four elements +-1 (or a phase), and permutations
            p = ident(n)
            for _ in range(rng.choice([0, 1, 1, 1, 2]) if n >= 4 else 0):
                v = [(0, 0)] * n
                for i in rng.sample(range(n), 4):
                    v[i] = rng.choice([(1, 0), (-1, 0)] + ([(0, 1), (0, -1)] if c else []))
                h = [[((2 if i == j else 0) - v[i][0] * v[j][0] - v[i][1] * v[j][1], -(v[i][1] * v[j][0] - v[i][0] * v[j][1]))
                      for j in range(n)] for i in range(n)]
                p = mul(p, h)
                q *= 4
            for _ in range(rng.choice([0, 1, 2])):       # 2x2 rotations by 45 degrees, times sqrt 2
                if n < 2 or q > 4:
                    break
                i, j = rng.sample(range(n), 2)
                u = [[(0, 0)] * n for _ in range(n)]
                f = rng.choice([(1, 0), (0, 1)] if c else [(1, 0)])
                left = [k for k in range(n) if k not in (i, j)]
                ok = len(left) % 2 == 0
                if not ok:
                    break
                rng.shuffle(left)
                for a1, b1 in [(i, j)] + list(zip(left[::2], left[1::2])):
                    u[a1][a1] = (1, 0)
                    u[b1][a1] = f
                    u[a1][b1] = (1, 0)
                    u[b1][b1] = (-f[0], -f[1])
                p = mul(p, u)
                q *= 2
            s = list(range(n))
            rng.shuffle(s)
            p = [[p[i][s[j]] for j in range(n)] for i in range(n)]
            pi = adj(p)
            x = mul(mul(p, b), pi)
            if any(z[0] % q or z[1] % q for r in x for z in r):
                # eigenvalues that are multiples of what is needed
                g = q
                b = [[(z[0] * g, z[1] * g) for z in r] for r in b]
                x = mul(mul(p, b), pi)
            x = [[(z[0] // q, z[1] // q) for z in r] for r in x]
        else:
            if pairs and not c and not values and rng.random() < .4 and n > 1:    # complex conjugate pairs
                i = 0
                while i + 1 < n:
                    if rng.random() < .5:
                        re, im = rng.randint(-5, 5), rng.choice([1, 2, 3, 5, -2])
                        b[i][i] = b[i + 1][i + 1] = (re, 0)
                        b[i + 1][i], b[i][i + 1] = (im, 0), (-im, 0)
                        i += 1
                    i += 1
            elif not distinct:
                for i in range(n - 1):
                    if rng.random() < .5:
                        b[i][i + 1] = num(rng, c, -2, 2)
            p, pi = unimodular(rng, n, c)
            x = mul(mul(p, b), pi)
        if big(x) <= lim and big(p) <= 60 and big(pi) <= 60:
            return {"x": T(x, c), "p": T(p, c), "b": T(b, c), "pi": T(pi, c), "q": q}
    raise AssertionError("no matrix")


def rank_def(rng, n, m, c, r):
    return mul(rnd(rng, n, r, c, -3, 3), rnd(rng, r, m, c, -3, 3))


def p21(rng, tier):
    out = []
    N = 1 if tier == "quick" else 8

    def add(op, **kw):
        out.append(dict({"op": op, "sh": rng.random() < .3}, **kw))
        if op in ("svd", "eig_sym") or (op == "eig" and kw["x"]["c"]):
            if rng.random() < .15:
                out[-1]["out"] = rng.choice((1, 2))      # the answer goes where the matrix was

    # ---- solve
    for _ in range(260 * N):
        c = rng.random() < .4
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 8])
        k = rng.choice([1, 1, 2, 3, 5])
        while True:
            a = rnd(rng, n, n, c, fill=rng.choice([1, 1, .5]))
            b = rnd(rng, n, k, c)
            x = solve_exact(a, b)
            if x is not None and all(abs(z[0]) < 100 and abs(z[1]) < 100 for r in x for z in r):
                break
        d = rng.choice([[n, k], [n, k], [n, 1, k], [n, k, 1]] + ([[n]] * 6 if k == 1 else []))
        add("solve", a=T(a, c), b=T(b, c, d), sh2=rng.random() < .3)
    for n in range(1, 5):
        for c in (False, True):
            a = [[(1 if i <= j else 0, 0) for j in range(n)] for i in range(n)]
            add("solve", a=T(a, c), b=T(a, c), al=True)              # A X = A, one object
            add("solve", a=T(a, c), b={"c": c, "d": [n, 0], "e": []})
            z = rnd(rng, n, n, c)
            j = rng.randrange(n)
            for i in range(n):
                z[i][j] = (0, 0)
            add("solve", a=T(z, c), b=T(rnd(rng, n, 1, c), c), sing=True)
            z = rnd(rng, n, n, c)
            z[j] = [(0, 0)] * n
            add("solve", a=T(z, c), b=T(rnd(rng, n, 2, c), c), sing=True)
    for _ in range(40):
        c = rng.random() < .4
        n, m, k = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
        add("solve", a=ten(rng, rng.choice([[n, m], [n, n], [n], [n, n, 1], [n, n, 2], [n, 1, n]]), c, 1, 9),
            b=ten(rng, rng.choice([[k], [k, 2], [2, k], [n + 1], [k, n]]), c))
        e = out[-1]
        if len(e["a"]["d"]) == 2 and e["a"]["d"][0] == e["a"]["d"][1] == e["b"]["d"][0]:
            out.pop()
    # ---- svd
    shapes = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 5), (5, 1), (2, 3), (3, 2), (3, 3), (4, 4), (4, 2), (2, 4), (5, 3), (3, 5), (6, 6), (7, 4), (4, 7)]
    for n, m in shapes:
        for c in (False, True):
            for ec in (False, True):
                for kind in range(3 * N):
                    if kind % 3 == 0:
                        x = rnd(rng, n, m, c)
                    elif kind % 3 == 1:
                        x = rank_def(rng, n, m, c, rng.randint(1, min(n, m)))
                    else:
                        x = rnd(rng, n, m, c, fill=.3)
                    add("svd", x=T(x, c), ec=ec, full=rng.random() < .4)
    for d in ([0, 3], [3, 0], [0, 0], [4], [2, 2, 2], [2, 3, 1], [0]):
        for c in (False, True):
            add("svd", x=ten(rng, d, c), ec=rng.random() < .5)
    # ---- eig
    for _ in range(220 * N):
        c = rng.random() < .5
        n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6])
        distinct = rng.random() < .75
        w = spectral(rng, n, c, distinct=distinct)
        if not distinct:
            w["tol"] = 60000
        add("eig", **w)
    for _ in range(60 * N):
        c = rng.random() < .5
        n = rng.randint(1, 6)
        add("eig", x=T(rnd(rng, n, n, c, fill=rng.choice([1, .4])), c))
    # ---- larger matrices
    for n in ((10, 16, 24, 33) if tier == "quick" else (9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 65)):
        for c in (False, True):
            x = rnd(rng, n, n, c, -4, 4)
            add("eig", x=T(x, c))
            y = [[(x[min(i, j)][max(i, j)][0], 0 if i == j else x[min(i, j)][max(i, j)][1] * (1 if i < j else -1)) for j in range(n)] for i in range(n)]
            add("eig_sym", x=T(y, c))
            for m in (n, n // 2, n + 3):
                add("svd", x=T(rnd(rng, n, m, c, -4, 4), c), ec=rng.random() < .5, full=rng.random() < .4)
            # far from singular, rows in any order; the solution is made of integers
            z = rnd(rng, n, n, c, -2, 2)
            for i in range(n):
                z[i][i] = (rng.choice([-1, 1]) * 4 * n, 0)
            rng.shuffle(z)
            add("solve", a=T(z, c), b=T(mul(z, rnd(rng, n, 2, c, -9, 9) if n < 32 else rnd(rng, n, 2, c, -3, 3)), c))
    # ---- symmetric
    for _ in range(200 * N):
        c = rng.random() < .5
        n = rng.choice([1, 2, 3, 4, 5, 6, 7])
        x = rnd(rng, n, n, c, fill=rng.choice([1, 1, .4]))
        x = [[(x[i][j][0] if i <= j else x[j][i][0], 0 if i == j else x[i][j][1] if i < j else -x[j][i][1]) for j in range(n)] for i in range(n)]
        add("eig_sym", x=T(x, c))
    for _ in range(80 * N):
        c = rng.random() < .5
        add("eig_sym", **spectral(rng, rng.randint(1, 8), c, sym=True, distinct=rng.random() < .6))
    for op in ("eig", "eig_sym"):
        for d in ([0, 0], [2, 3], [3, 2], [3], [2, 2, 2], [2, 2, 1], [0, 2], [1, 2], [2, 1]):
            for c in (False, True):
                add(op, x=ten(rng, d, c))
    return out


def blocky(rng, c, single=False, large=False):
    """a matrix made of blocks, rows and columns permuted"""
    nb = 1 if single else rng.randint(4, 9) if large else rng.choice([0, 1, 2, 2, 3, 3, 4])
    bl = []
    for _ in range(nb):
        k = rng.random()
        if k < .4:
            s = (1, 1)
        elif k < .7:
            n = rng.randint(2, 3)
            s = (n, n)
        else:
            s = rng.choice([(1, 2), (2, 1), (2, 3), (3, 2), (1, 3), (3, 1)])
        bl.append(s)
    n, m = sum(s[0] for s in bl), sum(s[1] for s in bl)
    er, ec = (rng.choice([0, 0, 1, 2]) for _ in range(2))
    n, m = n + er, m + ec
    if n == 0 or m == 0:
        n, m = max(n, 1), max(m, 1)
    if n > (20 if large else 7) or m > (20 if large else 7):
        return blocky(rng, c, single, large)
    if rng.random() < .35:
        n = m = max(n, m)
    x = [[(0, 0)] * m for _ in range(n)]
    i = j = 0
    for a, b in bl:
        deficient = rng.random() < .2
        y = rank_def(rng, a, b, c, 1) if deficient else rnd(rng, a, b, c)
        for p in range(a):
            for q in range(b):
                z = y[p][q]
                if z == (0, 0):
                    z = (1, 0)
                x[i + p][j + q] = z
        # some blocks are connected, but not full
        if not deficient and a > 1 and b > 1 and rng.random() < .4:
            x[i + rng.randrange(a)][j + rng.randrange(b)] = (0, 0)
        i, j = i + a, j + b
    if rng.random() < .75:
        rng.shuffle(x)
        s = list(range(m))
        rng.shuffle(s)
        x = [[r[k] for k in s] for r in x]
    return x


def webby(rng, c):
    """blocks that are barely connected: the search for blocks finds them in pieces and joins them"""
    sizes = []
    while sum(sizes) < rng.choice((3, 4, 5, 6, 7, 8)):
        sizes.append(rng.choice((1, 1, 2, 3, 3, 4, 5)))
    if sum(sizes) > 9:
        return webby(rng, c)
    n = sum(sizes)
    x = [[(0, 0)] * n for _ in range(n)]
    v = lambda: (lambda z: z if rng.random() < .5 else (-z[0], z[1]))(num(rng, c, 1, 9))
    i = 0
    for a in sizes:
        s = list(range(a))
        rng.shuffle(s)
        for p in range(a):
            x[i + p][i + s[p]] = v()
        k = rng.random()
        for p in range(1, a):        # a tree that joins the pairs (or nearly so)
            if k < .85 or rng.random() < .7:
                q = rng.randrange(p)
                if rng.random() < .5:
                    x[i + p][i + s[q]] = v()
                else:
                    x[i + q][i + s[p]] = v()
        i += a
    m = n
    if rng.random() < .2:            # a row or column more
        if rng.random() < .5:
            x.append([v() if rng.random() < .3 else (0, 0) for _ in range(m)])
        else:
            x = [r + [v() if rng.random() < .3 else (0, 0)] for r in x]
            m += 1
    rng.shuffle(x)
    s = list(range(m))
    rng.shuffle(s)
    return [[r[k] for k in s] for r in x]


def p23(rng, tier):
    out = []

    def add(x, c, **kw):
        out.append(dict({"op": "svd", "block": True, "x": T(x, c), "ec": rng.random() < .5, "full": rng.random() < .3,
                         "sh": rng.random() < .3}, **kw))
        if rng.random() < .1:
            out[-1]["out"] = rng.choice((1, 2))

    # every pattern of small matrices, economic and full
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2)):
        for b in itertools.product((0, 1), repeat=n * m):
            for ec in (False, True):
                c = rng.random() < .3
                x = [[num(rng, c, 1, 9) if b[i * m + j] else (0, 0) for j in range(m)] for i in range(n)]
                add(x, c, ec=ec)
    pats = list(itertools.product((0, 1), repeat=9))
    for b in (pats if tier != "quick" else rng.sample(pats, 200)):
        c = rng.random() < .3
        x = [[(lambda z: (-z[0], z[1]) if rng.random() < .5 else z)(num(rng, c, 1, 9)) if b[i * 3 + j] else (0, 0) for j in range(3)] for i in range(3)]
        add(x, c)
    for n in range(1, 8):                     # the identity, permutations, diagonals
        for ec in (False, True):
            add(ident(n), False, ec=ec)
            d = [[(rng.choice([-5, -1, 1, 2, 3, 0]) if i == j else 0, 0) for j in range(n)] for i in range(n)]
            rng.shuffle(d)
            add(d, False, ec=ec)
            d = [[num(rng, True, -5, 5) if i == j else (0, 0) for j in range(n)] for i in range(n)]
            rng.shuffle(d)
            add(d, True, ec=ec)
            add([[(0, 0)] * n for _ in range(n)], rng.random() < .5, ec=ec)
    for _ in range(500 if tier == "quick" else 5000):
        c = rng.random() < .4
        add(blocky(rng, c, single=rng.random() < .15), c)
    for _ in range(40 if tier == "quick" else 400):
        c = rng.random() < .4
        add(blocky(rng, c, large=True), c)
    for _ in range(300 if tier == "quick" else 4000):
        c = rng.random() < .4
        add(webby(rng, c), c)
    return out


# ---------------------------------------------------------------- P25
def rank(a):
    z = [[(Fraction(x[0]), Fraction(x[1])) for x in r] for r in a]
    m = lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    piv, k = [], 0
    for j in range(len(z[0])):
        p = next((i for i in range(k, len(z)) if z[i][j] != (0, 0)), None)
        if p is None:
            continue
        z[k], z[p] = z[p], z[k]
        q = z[k][j]
        d = q[0] ** 2 + q[1] ** 2
        inv = (q[0] / d, -q[1] / d)
        z[k] = [m(inv, x) for x in z[k]]
        for i in range(len(z)):
            if i != k and z[i][j] != (0, 0):
                f = z[i][j]
                z[i] = [(x[0] - m(f, y)[0], x[1] - m(f, y)[1]) for x, y in zip(z[i], z[k])]
        piv.append(j)
        k += 1
    return piv, z


def nullspace(a):
    """integer vectors that span it, as columns; None if there are none"""
    piv, z = rank(a)
    m = len(a[0])
    cols = []
    for j in range(m):
        if j in piv:
            continue
        v = [(Fraction(0), Fraction(0))] * m
        v[j] = (Fraction(1), Fraction(0))
        for r, p in enumerate(piv):
            v[p] = (-z[r][j][0], -z[r][j][1])
        den = 1
        for x in v:
            for y in x:
                den = den * y.denominator // __import__("math").gcd(den, y.denominator)
        cols.append([(int(x[0] * den), int(x[1] * den)) for x in v])
    return [list(r) for r in zip(*cols)] if cols else None


def gram(a):
    return mul(adj(a), a)


def add_m(a, b):
    return [[(x[0] + y[0], x[1] + y[1]) for x, y in zip(r, s)] for r, s in zip(a, b)]


def floats(a):
    return [[complex(*z) for z in r] for r in a]


def power_ok(a, v, dom, steps=400):
    """the Rayleigh quotients do not stand still before the iteration has converged: an input on which the
    stopping rule (documented: when the eigenvalue stops evolving) has nothing to say early"""
    n = len(a)
    last = None
    for _ in range(steps):
        nv = sum(abs(x) ** 2 for x in v) ** .5
        if nv == 0:
            return False
        v = [x / nv for x in v]
        w = [sum(a[i][j] * v[j] for j in range(n)) for i in range(n)]
        q = sum(w[i] * v[i].conjugate() for i in range(n))
        if max(abs(w[i] - dom * v[i]) for i in range(n)) < 1e-7 * abs(dom):
            return True
        if abs(q) < 1e-6 or (last is not None and abs(q - last) < 1e-9 * abs(q)):
            return False
        last, v = q, w
    return False


def p25(rng, tier):
    out = []
    N = 1 if tier == "quick" else 8

    def add(op, **kw):
        out.append(dict({"op": op, "sh": rng.random() < .3}, **kw))

    # ---- least squares
    done = 0
    while done < 220 * N:
        c = rng.random() < .4
        n, m = rng.choice([(1, 1), (2, 2), (3, 3), (4, 4), (3, 2), (4, 2), (5, 3), (2, 1), (6, 1), (6, 4), (2, 3), (1, 3), (2, 4), (3, 5)])
        k = rng.choice([1, 1, 2, 3])
        full = rng.random() < .75
        a = rnd(rng, n, m, c, -5, 5) if full else rank_def(rng, n, m, c, rng.randint(1, min(n, m)))
        if rng.random() < .05:
            a, full = [[(0, 0)] * m for _ in range(n)], False
        if big(a) > 15:
            continue
        piv, _ = rank(a)
        full = len(piv) == min(n, m)
        z = nullspace(a)
        if z and big(z) > 60:
            continue
        b = rnd(rng, n, k, c)
        # the singular values must be clear of the tolerance: bound the smallest through the Gram matrix
        s = gram(a) if n >= m else gram(adj(a))
        if full:
            inv = solve_exact(s, ident(len(s)))
            if any(abs(x[0]) > 1 or abs(x[1]) > 1 for r in inv for x in r):
                continue
            if n >= m:
                x = mul(inv, mul(adj(a), b))
            else:
                x = mul(adj(a), mul(inv, b))
            if any(abs(x0[0]) > 20 or abs(x0[1]) > 20 for r in x for x0 in r):
                continue
        d = rng.choice([[n, k], [n, k, 1]] + ([[n]] * 3 if k == 1 else []))
        ev = {"a": T(a, c), "b": T(b, c, d), "sh2": rng.random() < .3}
        if z:
            ev["z"] = T(z, c)
        if (piv and not full) or rng.random() < .3:
            ev["tol"] = True
        add("lsq", **ev)
        done += 1
    # larger ones, of full rank
    done = 0
    while done < 24 * N:
        c = done % 3 == 0
        n, m = rng.choice([(12, 6), (20, 4), (16, 8), (30, 2), (6, 12), (4, 20), (3, 25), (9, 6), (7, 10)])
        k = rng.choice([1, 2, 5])
        a, b = rnd(rng, n, m, c, -2, 2), rnd(rng, n, k, c, -5, 5)
        s = gram(a) if n >= m else gram(adj(a))
        inv = solve_exact(s, ident(len(s)))
        if any(abs(x[0]) > 1 or abs(x[1]) > 1 for r in inv for x in r):
            continue
        z = nullspace(a)
        if z and big(z) > 60:
            z = None
        ev = {"a": T(a, c), "b": T(b, c, [n, k]), "sh2": rng.random() < .3}
        if z:
            ev["z"] = T(z, c)
        add("lsq", **ev)
        done += 1
    # ---- conjugate gradients
    done = 0
    while done < 330 * N:
        c = rng.random() < .4
        n = rng.choice([1, 1, 2, 2, 3, 4, 5, 6]) if done >= 30 * N else rng.choice([8, 10, 13, 16, 20])
        kind = rng.random()
        if n > 6:
            g = rnd(rng, n, n, c, -1, 1, fill=2.5 / n)
            a = add_m(gram(g), ident(n, rng.randint(2, 5)))
        elif kind < .3:
            a = [[(rng.randint(1, 9) if i == j else 0, 0) for j in range(n)] for i in range(n)]
        else:
            g = rnd(rng, n, n, c, -2, 2)
            a = add_m(gram(g), ident(n, rng.randint(1, 5)))
        k = rng.choice([1, 1, 1, 2])
        b = rnd(rng, n, k, c)
        if rng.random() < .1:
            b = [[(0, 0)] * k for _ in range(n)]
        x = solve_exact(a, b)
        ev = {"a": T(a, c), "b": T(b, c, [n] if k == 1 and rng.random() < .8 else [n, k]), "form": rng.choice(["dense", "sparse", "fun", "closure"]), "how": rng.randint(0, 4),
              "sh2": rng.random() < .3}
        r = rng.random()
        if r < .5:
            x0 = rnd(rng, n, k, c)
            if rng.random() < .2:
                x0 = [[(0, 0)] * k for _ in range(n)]
            elif rng.random() < .2 and all(y.denominator == 1 for q in x for z in q for y in z):
                x0 = [[(int(z[0]), int(z[1])) for z in q] for q in x]      # the solution itself
                ev["at"] = "solution"
            ev["x0"] = T(x0, c, ev["b"]["d"])
        if rng.random() < .2:
            ev["it"] = rng.choice([n + 2, 20, 100])
        if rng.random() < .2:
            ev["tol"] = True
        add("cgs", **ev)
        done += 1
    # ---- power method
    done = 0
    while done < 300 * N:
        c = rng.random() < .4
        n = rng.choice([1, 2, 2, 3, 3, 4, 5])
        default = rng.random() < .4
        ratio = 5 if default else 2

        def values(rng, n):
            top = rng.choice([-1, 1]) * rng.randint(ratio, 12)
            rest = [rng.randint(-(abs(top) // ratio), abs(top) // ratio) for _ in range(n - 1)]
            v = [top] + rest
            if c and rng.random() < .5:
                v[0] = rng.choice([(0, top), (abs(top), 0), (3, 4) if ratio == 5 else (top, abs(top))])
                m = int((v[0][0] ** 2 + v[0][1] ** 2) ** .5) // ratio
                v[1:] = [rng.randint(-m, m) for _ in rest]
            return v
        w = spectral(rng, n, c, sym=rng.random() < .3, values=values)
        a = [[complex(*w["x"]["e"][i + n * j]) for j in range(n)] for i in range(n)]
        dom = max((complex(*w["b"]["e"][i + n * i]) for i in range(n)), key=abs)
        side = rng.choice(["left", "right"])
        if side == "left":
            a = [list(r) for r in zip(*a)]
        ev = dict(w, side=side, form=rng.choice(["dense", "sparse", "fun", "closure"]), how=rng.randint(0, 4))
        if not default:
            ev["it"] = 200
        if rng.random() < .5:
            v0 = rnd(rng, n, 1, c)
            if not power_ok(a, [complex(*z[0]) for z in v0], dom, 19 if default else 190):
                continue
            # (decided exactly: a component along the dominant eigenvector that is there, not one made of rounding)
            top = max(range(n), key=lambda i: abs(complex(*w["b"]["e"][i + n * i])))
            row = [w["p"]["e"][i + n * top] if side == "left" else w["pi"]["e"][top + n * i] for i in range(n)]
            if mul([row], v0) == [[(0, 0)]]:
                continue
            ev["v0"] = T(v0, c, [n])
        else:
            # random starting vectors: matrices on which the quotient keeps moving
            if not all(power_ok(a, [complex(rng.random() - .5, (rng.random() - .5) * c) for _ in range(n)], dom, 17 if default else 150) for _ in range(30)):
                continue
            if rng.random() < .2:
                ev["v0"] = T(rnd(rng, n + 1, 1, c), c, [n + 1])      # of the wrong size: ignored
        add("power", **ev)
        done += 1
    # ---- operands that do not fit
    for _ in range(40 * N):
        c = rng.random() < .5
        n, m = rng.sample((1, 2, 3, 4), 2)
        r = rng.randrange(8)
        bd = lambda n: rng.choice([[n], [n, 1], [n, 2], [n, 1, 2]])
        form = rng.choice(["dense", "sparse", "fun"])
        if r == 0:
            add("lsq", a=ten(rng, [n, rng.choice([n, m])], c), b=ten(rng, bd(m), c))
        elif r == 1:
            add("lsq", a=ten(rng, [n, m], c, lo=0, hi=0), b=ten(rng, bd(rng.choice([m, 0])), c))
        elif r == 2:
            add("lsq", a=ten(rng, rng.choice([[n], [n, 1, 1], [n, n, 1], [0, n], [n, 0], [0, 0]]), c), b=ten(rng, bd(n), c))
        elif r == 3:
            add("cgs", a=ten(rng, [n, m], c), b=ten(rng, [rng.choice([n, m])], c), form=form)
        elif r == 4:
            add("cgs", a=ten(rng, [n, n], c), b=ten(rng, bd(m), c), form=form)
        elif r == 5:
            add("cgs", a=T(ident(n), c), b=ten(rng, [n], c), x0=ten(rng, [m], c), form=form)
        elif r == 6:
            n = max(n, 2)
            add("cgs", a=ten(rng, rng.choice([[n], [n, n, 1]]), c), b=ten(rng, [n], c), form=rng.choice(["dense", "fun"]))
        else:
            d = rng.choice([[n, m], [n, m], [max(n, 2), max(n, 2), 1]])     # (a single number is taken whatever its rank)
            add("power", x=ten(rng, d, c), side=rng.choice(["left", "right"]), form=rng.choice(["dense", "sparse"]) if len(d) == 2 else "dense", it=50)
    # ---- exponential
    def expm(x, c, n, q=1, **kw):
        t = T(x, c)
        if q != 1:
            t["q"] = q
        add("expm", x=t, **kw)
    for k in range(130 * N):
        c = rng.random() < .5
        n = rng.randint(1, 4) if k >= 10 * N else rng.randint(6, 12)
        q = rng.choice([1, 2, 4, 16, 64] if n <= 4 else [4, 8, 16, 64])
        lim = rng.choice([.3, 1, 1, 2, 3, 5])
        while True:
            x = rnd(rng, n, n, c, -5, 5, fill=rng.choice([1, .5])) if n <= 4 else rnd(rng, n, n, c, -1, 1, fill=min(.3, lim * q / (3 * n)))
            if max(sum(abs(z[0]) + abs(z[1]) for z in r) for r in x) <= lim * q:
                break
        kw = {"order": rng.randint(5, 10)} if rng.random() < .3 else {}
        expm(x, c, n, q, **kw)
    for c in (False, True):
        for n in (1, 2, 3):
            expm([[(0, 0)] * n for _ in range(n)], c, n)
            expm(ident(n), c, n)
            expm(ident(n, -2), c, n)
        expm([[(0, 0), (-2, 0)], [(2, 0), (0, 0)]], c, 2)
        for d in ([2, 3], [3, 2], [3], [2, 2, 2], [2, 2, 1]):
            add("expm", x=ten(rng, d, c))
    done = 0
    while done < 60 * N:
        c = rng.random() < .4
        n = rng.randint(2, 5)
        p, pi = unimodular(rng, n, c, steps=rng.choice([0, 1, 2, n]))
        b = [[num(rng, c, -9, 9) if i < j else (0, 0) for j in range(n)] for i in range(n)]
        x = mul(mul(p, b), pi)
        if big(x) > 40:
            continue
        y, s = ident(n), ident(n, 24)
        for k, f in ((1, 24), (2, 12), (3, 4), (4, 1)):
            y = mul(y, x)
            s = add_m(s, [[(f * z[0], f * z[1]) for z in r] for r in y])
        if big(s) > 10 ** 6 or big(y) > 10 ** 6:
            continue
        add("expm_nil", x=T(x, c))
        done += 1
    # ---- of matrices of large norm: rotations and decays
    done = 0
    while done < 80 * N:
        c = rng.random() < .4
        n = rng.randint(1 + (not c), 4)
        p, pi = unimodular(rng, n, c, steps=rng.choice([0, 1, 2, n]))
        b = [[(0, 0)] * n for _ in range(n)]
        top = rng.choice([30, 100, 300, 1000, 2000, 2000, 4000, 100000])
        i = 0
        while i < n:
            far = rng.choice([-rng.randint(25, top)] + [-rng.randint(0, 3)] * 2)
            wm = top if far <= -25 else min(top, 2000)
            if i + 1 < n and rng.random() < .6:
                w = rng.choice([1, -1]) * rng.randint(wm // 2, wm)
                b[i][i] = b[i + 1][i + 1] = (far, 0)
                b[i][i + 1], b[i + 1][i] = (-w, 0), (w, 0)
                i += 2
            else:
                b[i][i] = (far, rng.randint(-wm, wm) if c and rng.random() < .6 else 0)
                i += 1
        x = mul(mul(p, b), pi)
        if big(p) > 4 or big(p) * big(pi) * n > 15 or big(x) > 10 ** 7:
            continue
        add("expm_decay", x=T(x, c), p=T(p, c), b=T(b, c), pi=T(pi, c), q=1)
        done += 1
    return out


# ---------------------------------------------------------------- P24
def p24(rng, tier):
    out = []
    N = 1 if tier == "quick" else 8

    def add(op, **kw):
        out.append(dict({"op": op, "sh": rng.random() < .3}, **kw))

    def case(n, c, sym, **kw):
        vals = None
        if n > 10:
            def vals(rng, n):
                v = rng.sample(range(-2 * n, 2 * n + 1), n)
                return v if not c or sym else [(x, rng.randint(-3, 3)) for x in v]
        w = spectral(rng, n, c, sym=sym, values=vals, lim=150 if sym else 60, pairs=False)
        ev = dict(w, form=rng.choice(["dense", "sparse", "fun", "closure"] + (["class"] if n > 4 else [])), how=rng.randint(0, 4),
                  t=rng.randint(0, 5 if c else 3), k=rng.randint(1, n if n <= 4 else min(n - 1, 5)), ptr=rng.random() < .5)
        ev.update(kw)
        if rng.random() < .3:
            # a start with a component along every eigenvector: what the iteration cannot see it cannot return
            for _ in range(100):
                z0 = [[num(rng, c, 1, 9)] for _ in range(n)]
                if all(z != [(0, 0)] for z in mul([[w["pi"]["e"][i + n * j] for j in range(n)] for i in range(n)], z0)):
                    ev["z0"] = T(z0, c, [n])
                    break
        if rng.random() < .3:
            ev["nc"] = True
        if rng.random() < .3:
            ev["again"] = True
        add("eigs", **ev)

    for c in (False, True):       # iterations that run out of time
        for form in ("sparse", "fun", "dense"):
            for nc in (False, True):
                if tier != "quick" or not (c and form == "dense"):
                    add("slow", n=1200, k=1, t=1, form=form, c=c, nc=nc)
    for n in range(1, 11):
        for c in (False, True):
            for t in range(6 if c else 4):
                for form in ("dense", "sparse", "fun") + (("class",) if n > 4 else ()):
                    case(n, c, not c and (n > 4 or rng.random() < .5), t=t, form=form)
    for _ in range(150 * N):
        n = rng.choice([2, 3, 4, 4, 5, 6, 7, 8])
        c = rng.random() < .5
        case(n, c, (not c and n > 4) or rng.random() < .3)
    for _ in range(20 * N):       # more than one cycle of the iteration
        n = rng.choice([21, 22, 24, 26])
        c = rng.random() < .5
        case(n, c, True, t=rng.choice([0, 2, 3]), k=rng.randint(1, 3))
    # refused
    for _ in range(60):
        c = rng.random() < .5
        n = rng.choice([1, 2, 3, 4, 5, 6])
        w = spectral(rng, n, c, sym=True)
        add("eigs", **dict(w, form=rng.choice(["dense", "sparse", "fun", "closure"]), how=rng.randint(0, 4), t=rng.randint(0, 5), k=rng.choice([0, n, n + 1, n + 5])))
    for n in (1, 2, 4, 5, 8):      # selectors that do not exist
        for c in (False, True):
            for form in ("dense", "sparse", "fun") + (("class",) if n > 4 else ()):
                add("eigs", **dict(spectral(rng, n, c, sym=True), form=form, t=rng.choice([6, 6, 7, 8, 100]), k=1))
    for d in ([2, 3], [3, 2], [5, 6], [6, 5]):
        for c in (False, True):
            add("eigs", x=ten(rng, d, c), form=rng.choice(["dense", "sparse"]), t=0, k=1)
    # a real matrix with five rows that is not symmetric: the library has no routine for it (known finding)
    w = [[(1 if i == j + 1 else i + 2 if i == j else 0, 0) for j in range(5)] for i in range(5)]
    p = ident(5)
    add("eigs", x=T(w, False), form="dense", t=0, k=2, ptr=False, finding="real-nonsymmetric", sp=[[v, 0] for v in range(2, 7)])
    for n in (2, 3, 5, 6, 9):
        for c in (False, True):
            for d in (-1, 1):
                add("badmap", x=T(rnd(rng, n, 1, c), c, [n]), how=rng.choice(["eigs", "eigs", "power", "cgs"]) if n > 3 else "eigs", d=d)
    # sessions with the object
    for _ in range(250 * N):
        c = rng.random() < .5
        n = rng.choice([5, 6, 8, 10])
        w = spectral(rng, n, c, sym=True)
        ops = []
        for _ in range(rng.randint(0, 2)):
            ops.append(rng.choice([{"o": "start"}, {"o": "rand"}, {"o": "tol"}, {"o": "maxit", "n": 100}, {"o": "status"}]))
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            ops += [{"o": "update"}, {"o": "status"}, rng.choice([{"o": "x"}, {"o": "y"}, {"o": "status"}, {"o": "rand"}, {"o": "msg"}, {"o": "size", "n": n}, {"o": "sety", "n": n}])]
        if rng.random() < .2:
            ops.insert(0, rng.choice([{"o": "msg"}, {"o": "size", "n": n}]))
        ev = {"x": w["x"], "t": rng.choice([0, 2, 3]), "k": rng.randint(1, 3), "ops": ops}
        if rng.random() < .35:     # what the first steps of the iteration refuse
            bad = rng.choice(["x", "y", "sety", "data", "vectors"]) if not any(o["o"] == "update" for o in ops) else rng.choice(["start", "tol", "maxit", "data", "vectors", "sety"])
            ops.append({"o": bad, "n": n + rng.choice([-2, -1, 1, 2]) if bad == "sety" else 10})
            ev["dies"] = True
        elif rng.random() < .7:
            ops += [{"o": "run", "must": 3}, {"o": "status"}]
            r = rng.random()
            if r < .35:
                ops += [{"o": "update"}, {"o": "status"}, {"o": "msg"}, {"o": "update"}]
            elif r < .5:
                ops += [{"o": "msg"}, {"o": "data", "n": ev["k"]}, {"o": "vectors", "n": n, "k": ev["k"]}, {"o": "status"}]
            elif r < .7:
                ops.append({"o": rng.choice(["x", "y", "start", "tol", "maxit", "sety"]), "n": n})
                ev["dies"] = True
        add("arpack", **ev)
    return out
