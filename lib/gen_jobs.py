"""Command lines, job files and data sets (P18, P19)."""


def T(s):
    return [ord(c) for c in s]


def real(rng, small=False):
    k = rng.random()
    if k < .4:
        v = str(rng.randint(-20, 20))
    elif k < .8:
        v = "%.*f" % (rng.randint(1, 4), rng.uniform(-50, 50))
    elif k < .86:
        v = "%de%d" % (rng.randint(-9, 9), rng.randint(-3, 2))
    elif k < .92:
        v = rng.choice([".5", "-.25", "3.", "+2", "+1.5", "0", "-0", "1E1", "2.5e-1", "00012", "-7.500000", "1e+2"])
    else:
        v = "%d.%d" % (rng.randint(-800, 800), rng.randint(0, 999))
    return v


BADNUM = ["x", "1x", "1.2.3", "--1", "1e", "e5", "+", "-", "1,5x", "0..1", "abc", "1e5e", "5-", "1e2.5", "$", ".", "-.", "1_0"]
BADINT = ["x", "3x", "1.5", "2e1", "+", "-", "--2", "99999999999999999999", "three", "4-", "5.0", "#", "1 2x"]
NAMES = ["a", "b", "theta", "x1", "Jz", "omega_0", "alpha", "U", "t'", "n.max", "k-1", "T", "longer_name_of_variable", "9", "-x"]


def sep(rng, file):
    s = " \t,;" if file else ",,,; \t"
    return "".join(rng.choice(s) for _ in range(rng.choice([1, 1, 1, 2, 3])))


def var(rng, name, budget, file=False):
    """text of a definition and its number of steps"""
    k = rng.random()
    w = [name, real(rng)]
    n = 1
    if k > .2:
        w.append(real(rng))
        n = 10
        if k > .35 or budget < 10:
            n = rng.randint(1, max(1, min(budget, rng.choice([2, 3, 4, 5, 7, 12]))))
            w.append(rng.choice(["%d", "%d", "%d", "+%d", "0%d"]) % n)
    s = w[0]
    for x in w[1:]:
        s += sep(rng, file) + x
    if rng.random() < .15:
        s = sep(rng, file).replace(",", " ") + s
    if rng.random() < .15:
        s += sep(rng, file)
    return s, n


def badvar(rng, name):
    k = rng.randrange(9)
    if k == 0:
        return name
    if k == 1:
        return name + "," + rng.choice(BADNUM)
    if k == 2:
        return "%s,1,%s" % (name, rng.choice(BADNUM).replace(",", ""))
    if k == 3:
        return "%s,1,2,%s" % (name, rng.choice(BADINT).replace(" ", ""))
    if k == 4:
        return "%s,1,2,3,%s" % (name, rng.choice(["4", "x", "0"]))
    if k == 5:
        return "%s,0,1,%d" % (name, rng.choice([0, -1, -5]))
    if k == 6:
        return rng.choice(["", " ", ",", ";;", "\t"])
    if k == 7:
        return "%s,%s,2,3" % (name, rng.choice(BADNUM).replace(",", ""))
    return "%s 1 2 3 4 5" % name


def grid(rng, files, nvars=None, maxjobs=60, tag=""):
    """options that define a grid: (list of [option, arg], names, number of jobs)"""
    names = rng.sample(NAMES, rng.choice([0, 1, 1, 2, 2, 3, 4]) if nvars is None else nvars)
    opts, N, k = [], 1, 0
    while k < len(names):
        if rng.random() < .4:
            m = rng.randint(1, len(names) - k) if rng.random() < .8 else 0
            text = ""
            for j in range(m):
                t, n = var(rng, names[k + j], max(1, maxjobs // N), True)
                N *= n
                if rng.random() < .2:
                    text += rng.choice(["\n", " \n", "\t\n", ",\n"])
                text += t + "\n"
            if text and rng.random() < .4:
                text = text[:-1]
            if rng.random() < .2:
                text += rng.choice(["\n", "\n\n", "  ", " \n"])
            k += m
            f = "f%d%s" % (len(files), tag)
            files.append({"name": T(f), "text": T(text)})
            opts.append(["--job", "@/" + f])
        else:
            t, n = var(rng, names[k], max(1, maxjobs // N))
            N *= n
            k += 1
            opts.append(["--variable", t])
    return opts, names, N


def flat(rng, opts, prog=True):
    a = ["prog"] if prog else []
    for o in opts:
        a += o
        if rng.random() < .08:
            a.append(rng.choice(["-v", "extra", "--verbose", "", "--jobs"]))
    return [T(x) for x in a]


def ranges(rng, N):
    """options that select jobs, valid ones mostly"""
    k = rng.random()
    if k < .2:
        return []
    if k < .35:
        return [["--this-job", str(rng.choice([0, N - 1, rng.randrange(N), N, N + 1, N + 7]))]]
    if k < .6:
        b = rng.choice([1, 2, 3, N, N + 1, max(1, N - 1), 2 * N, rng.randint(1, 2 * N)])
        o = [["--job-blocks", str(b)]]
        if rng.random() < .85:
            o.append(["--this-job", str(rng.choice([0, b - 1, rng.randrange(b), b, b + 2]))])
        return o
    if k < .85:
        f = rng.choice([0, N - 1, rng.randrange(N)])
        o = [["--first-job", str(f)]]
        if rng.random() < .8:
            o.append(["--last-job", str(rng.choice([f, N - 1, rng.randint(f, N - 1), N, N + 3]))])
        return o
    return [["--this-job", "%s%d" % (rng.choice(["+", "0", "00"]), rng.randrange(N))]]


def badranges(rng, N):
    k = rng.randrange(12)
    n = lambda: str(rng.randrange(N))
    if k == 0:
        return [["--this-job", str(-rng.randint(1, 5))]]
    if k == 1:
        return [["--job-blocks", str(rng.choice([0, -1, -3]))], ["--this-job", n()]]
    if k == 2:
        return [["--job-blocks", "3"], ["--this-job", "-1"]]
    if k == 3:
        return [["--first-job", str(rng.choice([-1, -4, N, N + 1, N + 9]))], ["--last-job", str(N + 20)]]
    if k == 4:
        return [["--last-job", n()]]
    if k == 5:
        f = rng.randint(1, max(1, N - 1))
        return [["--first-job", str(f)], ["--last-job", str(rng.choice([f - 1, 0, -1]))]]
    if k == 6:
        return [["--first-job", n()], ["--this-job", n()]]
    if k == 7:
        return [["--first-job", "0"], ["--last-job", n()], ["--this-job", n()]]
    if k == 8:
        return [["--job-blocks", "2"], [rng.choice(["--first-job", "--last-job"]), n()]]
    if k == 9:
        return [[rng.choice(["--this-job", "--first-job", "--job-blocks"]), rng.choice(BADINT + [""])]]
    if k == 10:
        return [["--first-job", "0"], ["--last-job", rng.choice(BADINT + [""])]]
    return [[rng.choice(["--this-job", "--first-job", "--job-blocks", "--variable", "--job", "--last-job"])]]


def job(rng, files, argv, names, mx=80, **kw):
    return dict({"op": "job", "files": files, "argv": argv, "names": [T(n) for n in names], "max": mx}, **kw)


def mix(rng, a, b):
    """shuffle options, keeping the order of those that define variables"""
    a, b = list(a), list(b)
    rng.shuffle(b)
    out = []
    while a or b:
        out.append((a if a and (not b or rng.random() < len(a) / (len(a) + len(b))) else b).pop(0))
    return out


def p18(rng, tier):
    cases = []
    for _ in range(900 if tier == "quick" else 6000):
        files = []
        g, names, N = grid(rng, files, maxjobs=rng.choice([6, 30, 60, 120]))
        cases.append(job(rng, files, flat(rng, mix(rng, g, ranges(rng, N))), rng.sample(names, len(names))))
    # all the blocks of a grid
    for _ in range(60 if tier == "quick" else 400):
        files = []
        g, names, N = grid(rng, files, nvars=rng.choice([1, 2, 3]), maxjobs=24)
        b = rng.choice([1, 2, 3, 5, N, N + 2, max(1, N - 1), rng.randint(1, 12)])
        runs = [{"argv": flat(rng, mix(rng, g, [["--job-blocks", str(b)], ["--this-job", str(k)]]))} for k in range(b)]
        runs += [{"argv": flat(rng, mix(rng, g, [["--job-blocks", str(b)], ["--this-job", str(b + k)]]))} for k in rng.sample([0, 1, 5], 1)]
        rng.shuffle(runs)
        cases.append({"op": "campaign", "files": files, "runs": runs, "names": [T(n) for n in names], "pre": rng.choice([0, 1]), "blocks": b})
    # all the blocks of large grids
    for _ in range(150 if tier == "quick" else 1500):
        nv = rng.choice([1, 1, 2, 3])
        names = rng.sample(NAMES, nv)
        top = {1: 3000, 2: 60, 3: 14}[nv]
        g = [["--variable", "%s,0,1,%d" % (x, rng.choice([1, 2, rng.randint(1, top), rng.randint(1, top)]))] for x in names]
        N = 1
        for o in g:
            N *= int(o[1].split(",")[-1])
        nb = rng.choice([rng.randint(1, 12), rng.randint(1, 80), rng.randint(1, 300), max(1, min(300, N + rng.randint(-2, 2)))])
        cases.append({"op": "split", "files": [], "argv": flat(rng, g), "nb": nb})
    cases += [huge(rng) for _ in range(25 if tier == "quick" else 250)]
    # data sets: overlapping runs, runs that die
    for _ in range(60 if tier == "quick" else 400):
        files = []
        g, names, N = grid(rng, files, nvars=rng.choice([1, 2, 3]), maxjobs=16)
        runs = []
        for _ in range(rng.randint(1, 5)):
            r = {"argv": flat(rng, mix(rng, g, ranges(rng, N)))}
            if rng.random() < .3:
                r["die"] = rng.randrange(4)
            runs.append(r)
        cases.append({"op": "campaign", "files": files, "runs": runs, "names": [T(n) for n in names], "pre": rng.choice([0, 0, 1, 1, 2] if _ % 9 == 0 else [0, 1])})
    return cases


def huge(rng):
    """a grid of more jobs than an int can count, and a few of them"""
    while True:
        sizes = [rng.choice([1, 2, 3, 10, 7, 1000, 4096, 30011, 65536, 65537, 70000]) for _ in range(rng.choice([2, 2, 3, 3, 4]))]
        n = 1
        for s in sizes:
            n *= s
        if 2 ** 31 < n < 10 ** 17:
            break
    names = rng.sample(NAMES, len(sizes))
    g = [["--variable", "%s,0,%d,%d" % (x, s - 1, s)] for x, s in zip(names, sizes)]

    def point(j):
        k = []
        for s in sizes:
            k.append(j % s)
            j //= s
        return k
    runs = []
    start = rng.choice([rng.randrange(n), rng.randrange(n), n - 1, n - 2, 2 ** 31 - 2, 2 ** 31 - 1, rng.randrange(2 ** 31, n), (2 ** 32 + rng.randrange(5)) % n])
    for _ in range(rng.randint(1, 4)):
        j = max(0, min(n - 1, start + rng.choice([0, 0, 1, -1, -2, 2 ** 32, -2 ** 32])))
        how = rng.choice(["exactly", "exactly", "on", "many"])
        if how == "exactly":
            runs.append((["--this-job", str(j)], {"how": how, "k": point(j), "n": 1}))
        elif how == "on":
            runs.append((["--first-job", str(j)], {"how": how, "k": point(j)}))
        else:
            l = min(n - 1, j + rng.randrange(4))
            runs.append((["--first-job", str(j), "--last-job", str(l)], {"how": "exactly", "k": point(j), "n": l - j + 1}))
    if rng.random() < .4:
        per = rng.randint(1, 3)
        nb = -(-n // per)
        b = rng.randrange(nb)
        runs += [(["--job-blocks", str(nb), "--this-job", str(q)], {"how": "block"}) for q in range(b, min(nb, b + 3))]
    return {"op": "grid", "sizes": sizes, "names": [T(x) for x in names], "max": 5,
            "runs": [dict(kw, argv=flat(rng, g + [o[q:q + 2] for q in range(0, len(o), 2)])) for o, kw in runs]}


def p19(rng, tier):
    cases = []
    for _ in range(1500 if tier == "quick" else 9000):
        files = []
        g, names, N = grid(rng, files)
        k = rng.random()
        kw = {}
        o = mix(rng, g, ranges(rng, N))
        if k < .3:
            pass
        elif k < .42:      # one malformed variable
            o.insert(rng.randint(0, len(o)), ["--variable", badvar(rng, "bad")])
        elif k < .52:      # one malformed file
            lines = [var(rng, n, 4, True)[0] for n in rng.sample(["p", "q", "r"], rng.randint(0, 3))]
            b = badvar(rng, "bad")
            if not b.strip(" ,;\t"):
                b = "bad"
            lines.insert(rng.randint(0, len(lines)), b)
            f = "bad%d" % len(files)
            files.append({"name": T(f), "text": T("\n".join(lines) + rng.choice(["", "\n"]))})
            o.insert(rng.randint(0, len(o)), ["--job", "@/" + f])
        elif k < .57:
            o.insert(rng.randint(0, len(o)), ["--job", rng.choice(["@/missing", "@/no/such", ""])])
        elif k < .75:
            b = badranges(rng, N)
            if len(b[-1]) == 1:      # an option without its argument can only come last
                o = mix(rng, g, b[:-1]) + b[-1:]
            else:
                o = mix(rng, g, b)
        elif k < .82:
            o = mix(rng, g, ranges(rng, N) if rng.random() < .5 else [])
            o.insert(rng.randint(0, len(o)), ["--print-jobs"])
        elif k < .84:
            o.insert(rng.randint(0, len(o)), ["--help"])
        elif k < .92:
            kw["want"] = T(rng.choice([n for n in NAMES if n not in names] + (names or ["zz"]) + [n + "x" for n in names] + [n[:-1] for n in names]))
        else:
            kw["default"] = [T(n) for n in rng.sample(NAMES, 4)]
        argv = flat(rng, o, rng.random() < .9)
        if len(o) and len(o[-1]) == 1 and o[-1][0] not in ("--print-jobs", "--help"):
            while argv[-1] != T(o[-1][0]):
                argv.pop()
        cases.append(job(rng, files, argv, names, 40, **kw))
    return cases
