"""Histories of operations on several live objects (P01, P02)."""
import math
from gen_dense import size, one_range, with_len, rlen, factorizations

SHAPES = [[1], [2], [3], [4], [6], [1, 2], [2, 2], [2, 3], [3, 2], [1, 1], [3, 1], [2, 1, 3], [2, 2, 2], [1, 2, 3], [0], [0, 2], [5]]


class Sim:
    """what the generator has to know of each object: its dimensions and a bound of its elements"""

    def __init__(self, rng):
        self.rng = rng
        self.d = {}
        self.m = {}

    def have(self, k):
        return sorted(s for s in self.d if s[0] in k)


def num(rng, c, lo=-9, hi=9):
    return [rng.randint(lo, hi), rng.randint(lo, hi) if c else 0]


def value_history(rng, n):
    S = Sim(rng)
    slots = ["R0", "R1", "R2", "C0", "C1", "I0", "I1", "V0", "S0", "S1"]
    ops = []

    def tensor(s, d):
        c = s[0] == "C"
        S.d[s], S.m[s] = list(d), 9
        return {"c": c, "d": list(d), "e": [num(rng, c) for _ in range(size(d))]}

    def emit(**o):
        ops.append(o)

    def new(s):
        if s[0] in "RC":
            emit(o="new", s=s, x=tensor(s, rng.choice(SHAPES)))
        elif s[0] == "I":
            d = rng.choice([x for x in SHAPES if 0 not in x])
            S.d[s], S.m[s] = [len(d)], ("l", list(d))
            emit(o="new", s=s, l=list(d))
        elif s[0] == "V":
            emit(o="new", s=s, x=tensor(s, [rng.choice((1, 2, 3, 6))]))
        elif s[0] == "S":
            t = [x for x in S.have("R") if len(S.d[x]) == 2 and min(S.d[x]) > 0]
            if not t:
                return new(rng.choice(["R0", "R1"]))
            t = rng.choice(t)
            S.d[s], S.m[s] = list(S.d[t]), S.m[t]
            emit(o="mksp", s=s, t=t)

    def inds(want=None):
        """index slots that hold legal dimensions of the wanted size"""
        return [i for i in S.have("I") if all(0 <= v <= 8 for v in S.m[i][1]) and size(S.m[i][1]) <= 40
                and (want is None or size(S.m[i][1]) == want) and S.m[i][1]]
    for s in rng.sample(slots[:8], 5):
        new(s)
    tries = 0
    while len(ops) < n and tries < 2000:
        tries += 1
        k = rng.random()
        live = sorted(S.d)
        if k < 0.10 or not live:
            new(rng.choice(slots))
            continue
        s = rng.choice(live)
        kind = s[0]
        same = S.have(kind)
        fam = [x for x in slots if x[0] == kind]
        c = kind == "C"
        d = S.d[s]
        if k < 0.30:      # copies
            t = rng.choice(same)
            o = rng.choice(("copy", "assign", "assign", "swap"))
            dst = rng.choice(fam)
            if o != "copy" and dst not in S.d:
                o = "copy"
            if o == "swap":
                emit(o=o, s=dst, t=t)
                S.d[dst], S.d[t] = S.d[t], S.d[dst]
                S.m[dst], S.m[t] = S.m[t], S.m[dst]
            elif o == "copy" and dst == t:
                continue
            else:
                emit(o=o, s=dst, t=t)
                S.d[dst], S.m[dst] = list(S.d[t]), S.m[t]
            continue
        if k < 0.34:
            emit(o="drop", s=s)
            del S.d[s], S.m[s]
            continue
        if k < 0.55 and kind != "S" and size(d):    # single elements
            p = rng.randrange(size(d))
            v = num(rng, c)
            if kind == "I":
                v = [rng.choice((1, 1, 2, 3, 6)), 0]
                o = rng.choice(("setseq", "setit", "setend"))
                l = list(S.m[s][1])
                l[p if o != "setend" else len(l) - 1 - p] = v[0]
                S.m[s] = ("l", l)
            else:
                o = rng.choice(("set", "set", "setseq", "setit", "setend")) if kind in "RC" else rng.choice(("setseq", "setit", "setend"))
                S.m[s] = max(S.m[s], 9)
            if o == "set":
                emit(o=o, s=s, i=[rng.randrange(-m, m) for m in d], n=v)
            else:
                emit(o=o, s=s, k=p, n=v)
            continue
        if kind in "RC":
            o = rng.choice(["fill", "reshapeI", "reshaped", "ctorI", "+=t", "-=t", "*=t", "+=n", "*=n", "vsett", "vsetv", "vsetn",
                            "byval", "vec", "dimsof", "newI", "into"] + ["f"] * 8 +
                           (["toV", "fromV", "tocomplex", "coerce", "svd", "solve"] if kind == "R" else ["realpart", "imagpart", "+=R"]))
            if o == "fill":
                emit(o=o, s=s, n=num(rng, c))
                S.m[s] = 9
            elif o == "reshapeI":
                i = inds(size(d))
                if i and size(d):
                    i = rng.choice(i)
                    emit(o=o, s=s, u=i)
                    S.d[s] = list(S.m[i][1])
            elif o == "reshaped" and size(d):
                nd = rng.choice(factorizations(size(d), rng.randint(1, 4)))
                emit(o=o, s=s, d=nd)
                S.d[s] = nd
            elif o == "ctorI" and size(d):
                i = inds(size(d))
                if i:
                    i = rng.choice(i)
                    dst = rng.choice(fam)
                    emit(o=o, s=dst, t=s, u=i)
                    S.d[dst], S.m[dst] = list(S.m[i][1]), S.m[s]
            elif o == "newI":
                i = inds()
                if i:
                    i = rng.choice(i)
                    emit(o=o, s=s, u=i, n=rng.randint(-5, 5), c=c)
                    S.d[s], S.m[s] = list(S.m[i][1]), 50
            elif o in ("+=t", "-=t", "*=t"):
                t = rng.choice([x for x in same if S.d[x] == d])
                m = S.m[s] * S.m[t] * 2 if o[0] == "*" else S.m[s] + S.m[t]
                if m < 10**6:
                    emit(o=o, s=s, t=t)
                    S.m[s] = m
            elif o == "+=R":
                t = [x for x in S.have("R") if S.d[x] == d]
                if t:
                    t = rng.choice(t)
                    emit(o=o, s=s, t=t)
                    S.m[s] += S.m[t]
            elif o in ("+=n", "*=n") and S.m[s] * 20 < 10**6:
                emit(o=o, s=s, n=num(rng, c))
                S.m[s] *= 20
            elif o in ("vsett", "vsetn", "vsetv") and d:
                rg = [one_range(rng, m) for m in d]
                vd = [rlen(r, m) for r, m in zip(rg, d)]
                if o == "vsetn":
                    emit(o=o, s=s, rg=rg, n=num(rng, c))
                    S.m[s] = max(9, S.m[s])
                elif o == "vsett":
                    t = [x for x in same if S.d[x] == vd]
                    if not t:
                        continue
                    t = rng.choice(t)
                    emit(o=o, s=s, rg=rg, t=t)
                    S.m[s] = max(S.m[s], S.m[t])
                else:
                    t = rng.choice(same)
                    if len(S.d[t]) != len(d):
                        continue
                    rg2 = [with_len(rng, a, v) for a, v in zip(S.d[t], vd)]
                    if None in rg2:
                        continue
                    emit(o=o, s=s, rg=rg, t=t, rg2=rg2)
                    S.m[s] = max(S.m[s], S.m[t])
            elif o in ("byval", "vec"):
                emit(o=o, s=s)
            elif o == "dimsof":
                i = rng.choice(("I0", "I1"))
                emit(o=o, s=i, t=s)
                S.d[i], S.m[i] = [len(d)], ("l", list(d))
            elif o == "toV":
                emit(o=o, s="V0", t=s)
                S.d["V0"], S.m["V0"] = [size(d)], S.m[s]
            elif o == "fromV" and "V0" in S.d:
                emit(o=o, s=s, t="V0")
                S.d[s], S.m[s] = list(S.d["V0"]), S.m["V0"]
            elif o in ("tocomplex", "coerce"):
                dst = rng.choice(("C0", "C1"))
                emit(o=o, s=dst, t=s)
                S.d[dst], S.m[dst] = list(d), S.m[s]
            elif o in ("realpart", "imagpart"):
                dst = rng.choice(("R0", "R1", "R2"))
                emit(o=o, s=dst, t=s)
                S.d[dst], S.m[dst] = list(d), S.m[s]
            elif o == "svd" and len(d) == 2 and size(d):
                emit(o=o, s=s, t=s)
            elif o == "solve" and len(d) == 2 and d[0] == d[1] and size(d):
                emit(o=o, s=s, t=s)
            elif o == "into" and kind == "R":
                t, u = rng.choice(same), rng.choice(same)
                if t == s or u == s or not S.d[t] or not S.d[u]:
                    continue
                i, j = rng.randrange(len(S.d[t])), rng.randrange(len(S.d[u]))
                f = rng.choice(("fold_into", "foldin_into", "mmult_into"))
                if f == "mmult_into":
                    i, j = len(S.d[t]) - 1, 0
                l = S.d[t][i]
                if l != S.d[u][j] or l == 0:
                    continue
                ra, rb = S.d[t][:i] + S.d[t][i + 1:], S.d[u][:j] + S.d[u][j + 1:]
                nd = ra + rb if f != "foldin_into" else S.d[u][:j] + ra + S.d[u][j + 1:]
                m = S.m[t] * S.m[u] * 2 * l
                if m > 10**6 or size(nd) > 40 or 0 in nd:
                    continue
                emit(o=f, s=s, t=t, u=u, i=i, j=j)
                S.d[s], S.m[s] = nd or [1], m
            elif o == "f":
                f = rng.choice(["neg", "conj", "flatten", "squeeze", "reshape", "permute", "transpose", "addn", "muln", "add", "sub",
                                "mul", "view", "chdim", "fold", "kron"])
                dst = rng.choice(fam)
                u = rng.choice(same)
                nd, m, e = list(d), S.m[s], {}
                if f == "flatten":
                    nd = [size(d)]
                elif f == "squeeze":
                    nd = [v for v in d if v != 1]
                    if not size(d):
                        continue
                    nd = nd or [1]
                elif f == "reshape":
                    if not size(d):
                        continue
                    nd = rng.choice(factorizations(size(d), rng.randint(1, 4)))
                    e = {"d": nd}
                elif f == "permute":
                    if not d:
                        continue
                    i, j = rng.randrange(len(d)), rng.randrange(len(d))
                    nd[i], nd[j] = nd[j], nd[i]
                    e = {"i": i, "j": j}
                elif f == "transpose":
                    if len(d) != 2:
                        continue
                    nd = [d[1], d[0]]
                elif f in ("addn", "muln"):
                    m = m * 20
                    e = {"n": num(rng, c)}
                elif f in ("add", "sub", "mul"):
                    if S.d[u] != d:
                        continue
                    m = m * S.m[u] * 2 if f == "mul" else m + S.m[u]
                    e = {"u": u}
                elif f == "view":
                    if not d:
                        continue
                    rg = [one_range(rng, v) for v in d]
                    nd = [rlen(r, v) for r, v in zip(rg, d)]
                    e = {"rg": rg}
                elif f == "chdim":
                    if not d:
                        continue
                    i = rng.randrange(len(d))
                    nd[i] = rng.randint(0 if size(d) < 3 else 1, 3)
                    e = {"i": i, "m": nd[i]}
                elif f == "fold":
                    if not d or not S.d[u]:
                        continue
                    i, j = rng.randrange(len(d)), rng.randrange(len(S.d[u]))
                    l = d[i]
                    if l != S.d[u][j] or l == 0:
                        continue
                    nd = d[:i] + d[i + 1:] + S.d[u][:j] + S.d[u][j + 1:]
                    if 0 in nd:
                        continue
                    nd = nd or [1]
                    m = m * S.m[u] * 2 * l
                    e = {"u": u, "i": i, "j": j}
                elif f == "kron":
                    if len(d) != len(S.d[u]) or len(d) not in (1, 2) or not size(d) or not size(S.d[u]):
                        continue
                    nd = [a * b for a, b in zip(d, S.d[u])]
                    m = m * S.m[u] * 2
                    e = {"u": u}
                if m > 10**6 or size(nd) > 40 or len(nd) > 6:
                    continue
                emit(o="f", f=f, s=dst, t=s, **e)
                S.d[dst], S.m[dst] = nd, m
        elif kind == "I":
            o = rng.choice(("concat", "dimsof", "def"))
            if o == "concat":
                t, u = rng.choice(same), rng.choice(same)
                l = S.m[t][1] + S.m[u][1]
                if len(l) <= 6:
                    dst = rng.choice(fam)
                    emit(o=o, s=dst, t=t, u=u)
                    S.d[dst], S.m[dst] = [len(l)], ("l", l)
            elif o == "def" and rng.random() < 0.3:
                emit(o=o, s=s, c=False, d=[0])
                S.d[s], S.m[s] = [0], ("l", [])
        elif kind == "S":
            o = rng.choice(("sadd", "ssub", "smuln", "stran", "poke", "poke", "full"))
            dst = rng.choice(fam)
            if o in ("sadd", "ssub"):
                u = rng.choice([x for x in same if S.d[x] == d])
                if S.m[s] + S.m[u] < 10**6:
                    emit(o=o, s=dst, t=s, u=u)
                    S.d[dst], S.m[dst] = list(d), S.m[s] + S.m[u]
            elif o == "smuln" and S.m[s] * 9 < 10**6:
                emit(o=o, s=dst, t=s, n=num(rng, False))
                S.d[dst], S.m[dst] = list(d), S.m[s] * 9
            elif o == "stran":
                emit(o=o, s=dst, t=s)
                S.d[dst], S.m[dst] = [d[1], d[0]], S.m[s]
            elif o == "poke":
                emit(o=o, s=s, t=s)
            elif o == "full":
                dst = rng.choice(("R0", "R1", "R2"))
                emit(o=o, s=dst, t=s)
                S.d[dst], S.m[dst] = list(d), S.m[s]
    return {"op": "history", "mode": "value", "slots": slots, "ops": ops}


def p01(rng, tier):
    n = 1200 if tier == "quick" else 2500
    return [value_history(rng, rng.choice((15, 30, 45))) for _ in range(n)]


# ----------------------------------------------------------------------- P02
def share_history(rng, n):
    fam = rng.choice(("R", "R", "C", "I", "V", "RV", "Q"))
    slots = {"R": ["R0", "R1", "R2", "R3"], "C": ["C0", "C1", "C2"], "I": ["I0", "I1", "I2"], "V": ["V0", "V1", "V2", "V3"], "Q": ["Q0", "Q1", "Q2", "Q3"],
             "RV": ["R0", "R1", "V0", "V1", "V2"]}[fam]
    c = fam == "C"
    d = {}
    ops = []

    def tensor(s):
        q = rng.choice(([36], [6, 6], [2, 3, 6], [4, 9]))
        if s[0] in "VQ":
            q = [rng.choice((36, 37))]
        if rng.random() < 0.05:
            q = [0]
        d[s] = q
        return {"c": s[0] == "C", "d": q, "e": [num(rng, s[0] == "C", -999, 999) for _ in range(size(q))]}

    def new(s):
        if s[0] == "I":
            k = rng.choice((36, 40, 0) if rng.random() < 0.1 else (36, 40))
            d[s] = [k]
            ops.append({"o": "new", "s": s, "l": [rng.randint(-99, 99) for _ in range(k)]})
        else:
            o = "borrow" if s[0] in "VQ" and rng.random() < 0.3 else "new"
            ops.append({"o": o, "s": s, "x": tensor(s)})
            if s[0] == "Q" and rng.random() < .5:
                ops[-1]["wrap"] = True      # around data that exists already
    new(slots[0])
    tries = 0
    while len(ops) < n and tries < 2000:
        tries += 1
        k = rng.random()
        live = sorted(d)
        if not live or k < 0.12:
            new(rng.choice(slots))
            continue
        s = rng.choice(live)
        same = [x for x in live if x[0] == s[0]]
        fams = [x for x in slots if x[0] == s[0]]
        dst = rng.choice(fams)
        cc = s[0] == "C"
        if k < 0.42:
            o = rng.choice(("copy", "copy", "assign", "assign", "assign", "swap"))
            if dst not in d:
                o = "copy"
            if o == "copy" and dst == s:
                continue
            ops.append({"o": o, "s": dst, "t": s})
            if o == "swap":
                d[dst], d[s] = d[s], d[dst]
            else:
                d[dst] = list(d[s])
        elif k < 0.55:
            ops.append({"o": "drop", "s": s})
            del d[s]
        elif k < 0.8:
            if not size(d[s]):
                continue
            p = rng.randrange(size(d[s]))
            o = rng.choice((("setseq",) if s[0] != "Q" else ()) + ("setit", "setend") + (("set",) if s[0] in "RC" else ()))
            e = {"o": o, "s": s, "n": num(rng, cc)}
            e.update({"i": [rng.randrange(-m, m) for m in d[s]]} if o == "set" else {"k": p})
            ops.append(e)
        elif s[0] in "RC":
            o = rng.choice(("fill", "reshaped", "+=t", "+=n", "vsetn", "byval", "vec", "f", "f", "f", "def") + (("toV", "fromV") if fam == "RV" else ()))
            if o == "fill" or o == "+=n":
                ops.append({"o": o, "s": s, "n": num(rng, cc)})
            elif o == "reshaped" and size(d[s]) == 36:
                d[s] = rng.choice(([36], [6, 6], [2, 3, 6], [1, 36], [4, 9]))
                ops.append({"o": o, "s": s, "d": d[s]})
            elif o == "+=t":
                t = rng.choice([x for x in same if d[x] == d[s]])
                if sum(1 for q in ops if q["o"] == "+=t") < 12:
                    ops.append({"o": o, "s": s, "t": t})
            elif o == "vsetn" and size(d[s]):
                ops.append({"o": o, "s": s, "rg": [one_range(rng, m) for m in d[s]], "n": num(rng, cc)})
            elif o in ("byval", "vec"):
                ops.append({"o": o, "s": s})
            elif o == "def" and rng.random() < 0.3:
                ops.append({"o": o, "s": s, "c": cc, "d": []})
                d[s] = []
            elif o == "toV":
                dst = rng.choice([x for x in slots if x[0] == "V"])
                ops.append({"o": o, "s": dst, "t": s})
                d[dst] = [size(d[s])]
            elif o == "fromV":
                t = [x for x in live if x[0] == "V"]
                if t:
                    t = rng.choice(t)
                    ops.append({"o": o, "s": s, "t": t})
                    d[s] = list(d[t])
            elif o == "f":
                f = rng.choice(("flatten", "squeeze", "reshape", "neg", "conj", "permute", "view"))
                nd, e = list(d[s]), {}
                if not size(nd):
                    continue
                if f == "flatten":
                    nd = [size(nd)]
                elif f == "squeeze":
                    nd = [v for v in nd if v != 1] or [1]
                elif f == "reshape":
                    nd = rng.choice(([36], [6, 6], [2, 3, 6], [1, 36])) if size(nd) == 36 else [size(nd)]
                    e = {"d": nd}
                elif f == "permute":
                    i, j = rng.randrange(len(nd)), rng.randrange(len(nd))
                    nd[i], nd[j] = nd[j], nd[i]
                    e = {"i": i, "j": j}
                elif f == "view":
                    e = {"rg": [["f"]] * len(nd)}
                ops.append(dict({"o": "f", "f": f, "s": dst, "t": s}, **e))
                d[dst] = nd
        else:
            o = rng.choice(("resize", "def", "resize_fail") if s[0] == "V" else ("resize", "def"))
            if o == "resize":
                m = rng.choice((36, 40, 0))
                ops.append({"o": o, "s": s, "m": m})
                d[s] = [m]
            elif o == "resize_fail":
                ops.append({"o": o, "s": s})
            else:
                ops.append({"o": o, "s": s, "c": False, "d": [0]})
                d[s] = [0]
    return {"op": "history", "mode": "share", "slots": slots, "ops": ops, "min": 240}


def ptr_history(rng, n):
    slots = ["P0", "P1", "P2", "P3"]
    live = set()
    ops = []
    while len(ops) < n:
        k = rng.random()
        if not live or k < 0.2:
            s = rng.choice(slots)
            ops.append({"o": "new", "s": s, "m": rng.randint(0, 999)})
            live.add(s)
            continue
        s = rng.choice(sorted(live))
        dst = rng.choice(slots)
        if k < 0.55:
            o = rng.choice(("copy", "assign", "assign", "swap"))
            if dst not in live:
                o = "copy"
            if o == "copy" and dst == s:
                continue
            ops.append({"o": o, "s": dst, "t": s})
            live.add(dst)
        elif k < 0.8:
            ops.append({"o": "drop", "s": s})
            live.discard(s)
        elif k < 0.9:
            ops.append({"o": "pset", "s": s, "n": [rng.randint(0, 999), 0]})
        else:
            ops.append({"o": "byval", "s": s})
    return {"op": "history", "mode": "ptr", "slots": slots, "ops": ops}


def p02(rng, tier):
    n = 900 if tier == "quick" else 2500
    out = [share_history(rng, rng.choice((12, 25, 40))) for _ in range(n)]
    out += [ptr_history(rng, rng.choice((8, 16, 30))) for _ in range(n // 3)]
    return out
