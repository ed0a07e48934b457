"""Data-file histories and damaged files (P14, P17)."""
import json
import struct
from gen_dense import size

SPECIAL = [0.0, -0.0, 1.0, -1.0, 1.5, -2.25, float("inf"), float("-inf"), 5e-324, 2.2250738585072014e-308,
           1.7976931348623157e308, 0.1, 1e-300, 2.0 ** 31, 2.0 ** 31 - 1, -2.0 ** 31, -2.0 ** 31 - 1, 2.0 ** 53, 2.0 ** 63,
           2.0 ** 64, 3.0, 1e10]
NANS = [bytes([0, 0, 0, 0, 0, 0, 0xf8, 0x7f]), bytes([1, 0, 0, 0, 0, 0, 0xf8, 0xff]), bytes([0x5a, 1, 2, 3, 4, 5, 0xf4, 0x7f])]
DIMS = [[1], [2], [3], [7], [1, 1], [2, 2], [3, 1], [1, 4], [2, 1, 3], [2, 2, 2], [1, 2, 1, 2], [1, 1, 2, 1, 3], [2, 1, 1, 2, 1, 2],
        [0], [0, 2], [3, 0, 2], [0, 0], [1, 2, 1, 1, 1, 2, 1, 2], [1] * 10, [2, 1, 1, 1, 1, 1, 3], [1, 1, 1, 1, 1, 1, 0, 2]]
NAMES = ["", "a", "b", "ab", "x1", "var with spaces", "RTensor", "sdf481", "a" * 62, "a" * 63, "b" * 64, "c" * 80, "n\xe9\xff", "A"]


def dbl(rng):
    k = rng.random()
    if k < .35:
        return list(struct.pack("<d", rng.choice(SPECIAL)))
    if k < .42:
        return list(rng.choice(NANS))
    if k < .6:
        return list(struct.pack("<d", float(rng.randint(-100, 100))))
    if k < .8:
        return list(struct.pack("<d", rng.uniform(-10, 10)))
    b = [rng.randrange(256) for _ in range(8)]
    if b[7] & 0x7f == 0x7f and b[6] & 0xf0 == 0xf0:
        b[6] &= 0x0f
    return b


def name(rng, pool=NAMES):
    return [ord(c) for c in rng.choice(pool)]


def tens(rng, c, d=None):
    d = rng.choice(DIMS) if d is None else d
    return {"d": d, "e": [[dbl(rng) for _ in range(2 if c else 1)] for _ in range(size(d))]}


def value(rng, t):
    if t == "i":
        v = rng.choice([0, 1, -1, 2 ** 31 - 1, -2 ** 31, 3, 7, -12345, rng.randint(-2 ** 31, 2 ** 31 - 1)])
        return list(struct.pack("<i", v))
    if t == "z":
        v = rng.choice([0, 1, 2, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 - 1, 2 ** 63, 2 ** 64 - 2048, rng.randrange(2 ** 53), rng.randrange(1000)])
        return list(struct.pack("<Q", v))
    if t == "d":
        return dbl(rng)
    if t == "c":
        return [dbl(rng), dbl(rng)]
    if t in "RC":
        return tens(rng, t == "C")
    return [tens(rng, t == "CV", rng.choice(DIMS[:6] + [[0], [0, 2], [2, 3]])) for _ in range(rng.choice([0, 1, 1, 2, 3]))]


TYPES = ["i", "z", "d", "c", "R", "C", "RV", "CV"]


def record(rng, types=TYPES, pool=NAMES):
    t = rng.choice(types)
    r = {"t": t, "name": name(rng, pool), "v": value(rng, t)}
    if not r["name"] and rng.random() < .5:
        r["anon"] = True
    return r


def request(rng, r, wrong=0.0):
    """a load that matches the record r, or (with probability wrong) one that may not"""
    q = {"t": r["t"], "name": r["name"]}
    if rng.random() < .25:
        q["name"] = []
    if not q["name"] and rng.random() < .5:
        q["anon"] = True
    if q["t"] in ("RV", "CV") and rng.random() < .5:
        q["pre"] = rng.choice([1, 2, 5])
    # the target holds a tensor of the same dimensions or size before
    d = r["v"]["d"] if q["t"] in "RC" else r["v"][0]["d"] if q["t"] in ("RV", "CV") and r["v"] else None
    if d is not None and rng.random() < .5:
        n = 1
        for x in d:
            n *= x
        q["pd"] = d if rng.random() < .7 or not d else [n]
    if rng.random() < wrong:
        if rng.random() < .5:
            s = "".join(map(chr, r["name"]))
            q["name"] = [ord(c) for c in rng.choice([s + "x" if len(s) < 60 else "zz", s[:-1] or "q", "other", s.upper() + "_"])]
            q.pop("anon", None)
        else:
            q["t"] = rng.choice(TYPES)
            q.pop("pre", None)
    if q["t"] in ("RV", "CV"):
        q.setdefault("pre", 0)
    return q


# names that some part of the machinery might read something into
PAIRS = [["a", "b"], ["a", "ab"], ["a.dat", "a"], ["a.x", "a.y"], ["x y", "x"], ["d/a", "d/b"], ["d/a", "a"], ["d.1/a", "d.1/a.2"],
         [".h", "..h"], ["a.tmp", "b"], ["a.lck", "b.lck"], ["-v", "--"], ["a.b.c", "a.b"], ["%s%n", "%d"], ["n" * 240, "n" * 239], ["~", "$HOME"],
         ["d/d/a", "d/a"], ["sdf", "sdf481"], ["a\\b", "a\tb"], ["a*", "a?"]]


def history(rng):
    files = rng.choice(PAIRS) if rng.random() < .7 else PAIRS[0]
    dirs = sorted({"/".join(f.split("/")[:k]) for f in files for k in range(1, f.count("/") + 1)})
    model, ss = {}, []
    for _ in range(rng.randint(2, 9)):
        f = rng.choice(files)
        k = rng.random()
        if k < .12:                          # two files at once
            two = []
            for g in rng.sample(files, 2):
                if g in model and rng.random() < .5:
                    two.append({"file": g, "kind": "in", "mode": 1, "steps": [request(rng, r) for r in model[g]]})
                else:
                    st = [record(rng) for _ in range(rng.choice([0, 1, 2, 3]))]
                    m = rng.choice([1, 1, 0, 4])
                    two.append({"file": g, "kind": "out", "mode": m, "steps": st})
                    model[g] = (model.get(g, []) if m == 1 else []) + st
                two[-1]["close"] = rng.choice([0, 1])
            order = [j for j in (0, 1) for _ in two[j]["steps"]]
            rng.shuffle(order)
            ss.append({"file": files[0], "kind": "two", "x": two[0], "y": two[1], "order": order, "swap": rng.random() < .5})
            continue
        if k < .2:
            ss.append({"file": f, "kind": "crash", "steps": [record(rng) for _ in range(rng.choice([0, 1, 2, 3]))]})
            continue
        k = (k - .2) / .8
        if k < .5:
            mode = rng.choice([1, 1, 1, 0, 4])
            st = [record(rng) for _ in range(rng.choice([0, 1, 1, 2, 3, 4]))]
            s = {"file": f, "kind": "out", "mode": mode, "steps": st, "close": rng.choice([0, 1, 2])}
            if mode == 1 and rng.random() < .5:
                s["defmode"] = True
            model[f] = (model.get(f, []) if mode == 1 else []) + st
            ss.append(s)
        elif k < .88:
            if f not in model and rng.random() < .8:
                continue
            recs = model.get(f, [])
            w = rng.choice([0, 0, 0, .15])
            st = [request(rng, r, w) for r in recs[:rng.choice([99, 99, 99, 1, 2])]]
            if rng.random() < .1:
                st.append({"t": "d", "name": []})          # one more than there are
            s = {"file": f, "kind": "in", "mode": 1, "steps": st, "close": rng.choice([0, 1, 2])}
            if rng.random() < .5:
                s["defmode"] = True
            ss.append(s)
        elif k < .95:
            g = rng.choice([x for x in files if x != f])
            ow = rng.random() < .6
            ss.append({"file": f, "kind": "rename", "to": g, "overwrite": ow})
            if f in model and (ow or g not in model):
                model[g] = model.pop(f)
        else:
            ss.append({"file": f, "kind": "delete"})
            model.pop(f, None)
    for f in files:
        if f in model:
            ss.append({"file": f, "kind": "in", "mode": 1, "close": 1, "steps": [request(rng, r) for r in model[f]]})
    case = {"op": "sdf", "ss": ss, "names": files + [f + x for x in (".tmp", ".lck") for f in files], "nfiles": 2}
    if dirs:
        case["mkdirs"] = dirs
    if rng.random() < .5:
        case.update(rel=True, pre=rng.choice(["", "", "./", ".//"]))
    return case


def big_file(rng, size_, nrec):
    """large tensors, and many records, in one file"""
    recs = []
    for k in range(nrec):
        r = record(rng, pool=["r%d" % k, "", "x" * 70])
        recs.append(r)
    for t, n in size_:
        d = rng.choice([[n], [n // 2, 2], [2, n // 4, 2]])
        recs.insert(rng.randint(0, len(recs)), {"t": t, "name": name(rng, ["big", "z" * 63]), "v": tens(rng, t == "C", d)})
    cut = rng.randint(0, len(recs))
    return {"op": "sdf", "names": ["a"], "nfiles": 1,
            "ss": [{"file": "a", "kind": "out", "mode": rng.choice([0, 1, 4]), "steps": recs[:cut], "close": 1},
                   {"file": "a", "kind": "out", "mode": 1, "steps": recs[cut:], "close": rng.choice([0, 1])},
                   {"file": "a", "kind": "in", "mode": 1, "close": 1, "steps": [request(rng, r) for r in recs]}]}


def full_disk(rng):
    """a write that does not fit: refused, or nothing is lost"""
    recs = [record(rng) for _ in range(rng.randint(1, 3))]
    return {"op": "sdf", "names": ["a"], "nfiles": 1,
            "ss": [{"file": "a", "kind": "out", "mode": rng.choice([0, 1, 4]), "steps": recs, "close": rng.choice([0, 1]),
                    "limit": rng.choice([0, 10, 63, 64, 100, 128, 136, 150, 160, 200, 300, 1000])},
                   {"file": "a", "kind": "in", "mode": 1, "close": 1, "steps": [request(rng, r) for r in recs]}]}


def every_type(rng):
    """each record type with each of its special values, read back as its own type"""
    out = []
    for v in SPECIAL + NANS:
        b = list(v) if isinstance(v, bytes) else list(struct.pack("<d", v))
        for t, x in (("d", b), ("c", [b, dbl(rng)]), ("c", [dbl(rng), b]), ("R", {"d": [1], "e": [[b]]}), ("C", {"d": [1, 1], "e": [[b, b]]})):
            r = {"t": t, "name": name(rng), "v": x}
            reads = [{"t": t, "name": r["name"]}]
            out.append({"op": "sdf", "names": ["a"], "nfiles": 1,
                        "ss": [{"file": "a", "kind": "out", "mode": 1, "steps": [r]}, {"file": "a", "kind": "in", "mode": 1, "steps": reads},
                               {"file": "a", "kind": "in", "mode": 1, "steps": [{"t": "i", "name": []}]},
                               {"file": "a", "kind": "in", "mode": 1, "steps": [{"t": "z", "name": []}]}]})
    for d in DIMS + [[2] * 6, [9, 9], [30], [300]]:
        for t in "RC":
            for wrap in (False, True):
                x = tens(rng, t == "C", d)
                r = {"t": t + "V", "name": name(rng), "v": [x, tens(rng, t == "C", [2]), x]} if wrap else {"t": t, "name": name(rng), "v": x}
                q = {"t": r["t"], "name": r["name"]}
                out.append({"op": "sdf", "names": ["a"], "nfiles": 1,
                            "ss": [{"file": "a", "kind": "out", "mode": rng.choice([0, 1, 4]), "steps": [r]}] +
                                  [{"file": "a", "kind": "in", "mode": 1, "steps": [dict(q, t=tt)]} for tt in TYPES]})
    for n in NAMES + [chr(k) for k in range(1, 256)] + ["x" * k for k in range(50, 70)]:
        r = record(rng, ["i", "d", "R"], [n])
        out.append({"op": "sdf", "names": ["a"], "nfiles": 1,
                    "ss": [{"file": "a", "kind": "out", "mode": 1, "steps": [r]},
                           {"file": "a", "kind": "in", "mode": 1, "steps": [{"t": r["t"], "name": r["name"]}]},
                           {"file": "a", "kind": "in", "mode": 1, "steps": [{"t": r["t"], "name": []}]},
                           {"file": "a", "kind": "in", "mode": 1, "steps": [{"t": r["t"], "name": [ord(c) for c in n[:40] + "?"]}]}]})
    return out


# the only input the code is known to get wrong (see known-findings.txt)
def big_size(v):
    b = list(struct.pack("<Q", v))
    return {"op": "sdf", "size_t": str(v), "names": ["a"], "nfiles": 1, "ss": [{"file": "a", "kind": "out", "mode": 1, "steps": [{"t": "z", "name": [97], "v": b}]},
            {"file": "a", "kind": "in", "mode": 1, "steps": [{"t": "z", "name": [97]}]}]}


def p14(rng, tier):
    n = 500 if tier == "quick" else 8000
    cases = every_type(rng) + [full_disk(rng) for _ in range(n // 5)]
    cases += [history(rng) for _ in range(n)]
    cases += [big_file(rng, s, r) for s, r in ((((("R", 1200),), 3), ((("C", 600),), 2), ((("R", 520), ("C", 516)), 5),
                                               ((), 50), ((("R", 4100),), 0), ((), 120)) if tier == "quick" else
              [([(rng.choice("RC"), 4 * rng.randint(1, 1500)) for _ in range(rng.randint(0, 2))], rng.randint(0, 80)) for _ in range(60)])]
    cases.append(big_size(2 ** 53 + 1))
    return cases


def small_record(rng):
    t = rng.choice(TYPES)
    r = {"t": t, "name": name(rng, ["a", "bc", "", "x" * 63, "y" * 70]), "v": value(rng, t)}
    if t in "RC":
        r["v"] = tens(rng, t == "C", rng.choice([[1], [2], [0], [2, 1], [1, 1, 2], [0, 3]]))
    if t in ("RV", "CV"):
        r["v"] = [tens(rng, t == "CV", rng.choice([[1], [0], [2]])) for _ in range(rng.choice([0, 1, 2]))]
        r["pre"] = 0
    return r


def p17(rng, tier):
    nf = 8 if tier == "quick" else 60
    cases = []
    sets = [[small_record(rng) for _ in range(rng.randint(1, 4))] for _ in range(nf)]
    sets += [[{"t": t, "name": [97], "v": small_record_of(rng, t), "pre": 0}] for t in TYPES]
    sets.append([])
    for recs in sets:
        upto = sum(150 + 60 * len(str(r["v"])) // 10 for r in recs) + 200
        for f in range(0, min(upto, 1200), 24):
            cases.append({"op": "sdfcut", "recs": recs, "from": f, "to": f + 24})
    for recs in sets:
        if not recs:
            continue
        # header: the six characters that describe the format
        cases.append({"op": "sdfflip", "recs": recs, "rec": 0 + 0, "at": [[k, b] for k in range(6) for b in (1, 2, 4, 128)]} | {"rec": 0})
        for k in range(1, len(recs) + 1):
            nm = recs[k - 1]["name"][:63]
            at = [[64 + j, b] for j in range(8) for b in (1, 2, 4, 0x80, 0x7f)] + [[64, x] for x in (3, 6, 12, 64)]
            if nm:
                at += [[j, rng.choice([1, 2, 16])] for j in range(len(nm)) if nm[j] not in (1, 2, 16)]
                if len(nm) < 63:
                    at.append([len(nm), 65])
            for j in range(0, len(at), 16):
                cases.append({"op": "sdfflip", "recs": recs, "rec": k, "at": at[j:j + 16]})
    rec = [{"t": "d", "name": [], "v": [0] * 8, "pre": 0}]
    raws = [[], [0], [0] * 63, [0] * 64, [0] * 300, [115], [115, 100], [115, 100, 102], [115, 100, 102] + [0] * 61, [65] * 64, [65] * 65,
            [255] * 400, [115, 100, 102] + [49] * 61, [115, 100, 102, 52, 56, 48] + [0] * 58, [115, 100, 102, 52, 52, 49] + [0] * 58,
            [115, 100, 102, 50, 56, 49] + [0] * 58, [83, 68, 70, 52, 56, 49] + [0] * 58, [115, 100, 102, 52, 56, 49]]
    raws += [[rng.randrange(256) for _ in range(rng.choice([1, 5, 60, 64, 100, 500]))] for _ in range(40 if tier == "quick" else 500)]
    for b in raws:
        if b[:6] == [115, 100, 102, 52, 56, 49] and len(b) >= 64:
            continue
        cases.append({"op": "sdfraw", "bytes": b, "recs": rec})
    cases.append({"op": "sdfraw", "dir": True, "recs": rec})
    cases.append({"op": "sdfraw", "recs": rec})
    cases.append({"op": "sdfraw", "nodir": True, "recs": rec})
    for m in (0, 1, 4):
        cases.append({"op": "sdfraw", "nodir": True, "out": True, "mode": m, "recs": rec})
    for m in (2, 3, 5, 7, -1):
        cases.append({"op": "sdfraw", "out": True, "mode": m, "recs": rec})
    return cases


def small_record_of(rng, t):
    while True:
        r = small_record(rng)
        if r["t"] == t:
            return r["v"]


def p01(rng, tier):
    """loads into tensors that share what they hold with copies"""
    cs = [c for c in p14(rng, "quick") if '"pd"' in json.dumps(c)]
    return rng.sample(cs, min(len(cs), 80 if tier == "quick" else 400))
