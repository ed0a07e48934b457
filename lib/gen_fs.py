"""Histories of the file helpers (P28)."""

NAMES = ["a", "b", "c", "x y", "n.tmp", "d.lck", ".h"]
MODES = [0o777, 0o700, 0o755, 0o711, 0o770, 0o722]


def clean(fs, p, fuel=12, last=True):
    """a rough copy of the tree, only to draw steps that do something"""
    return p in fs


def history(rng):
    names = rng.sample(NAMES, rng.choice([2, 2, 3]))
    um = rng.choice([0, 0o22, 0o77])

    def path(deep=.4):
        p = [rng.choice(names)]
        while rng.random() < deep and len(p) < 3:
            p.append(rng.choice(names))
        return p

    fs = {}      # entries made without links on the way
    steps = []

    def pick(kind=None):
        c = [p for p in fs if kind is None or fs[p] == kind]
        return list(rng.choice(sorted(c))) if c and rng.random() < .8 else path()

    for _ in range(rng.randint(3, 14)):
        r = rng.random()
        if r < .3:
            dirs = [p for p in fs if fs[p] == "dir" and len(p) < 3]
            par = rng.choice(sorted(dirs)) if dirs and rng.random() < .6 else ()
            p = par + (rng.choice(names),)
            if p in fs:
                continue
            k = rng.choice(["file", "file", "file", "sock", "fifo", "link"])
            s = {"o": k, "p": list(p), "c": []}
            if k == "file":
                s["c"] = ["c%d" % rng.randint(0, 9)]
            if k == "link":
                s["c"] = pick()
            fs[p] = k
            steps.append(s)
        elif r < .5:
            p = pick("dir")[:2] + ([rng.choice(names)] if rng.random() < .5 else [])
            s = {"o": "mkdir", "p": p, "mode": rng.choice(MODES)}
            if rng.random() < .3:
                s.update(mode=0o777, defmode=True)
            steps.append(s)
            par = tuple(p[:-1])
            if tuple(p) not in fs and (not par or fs.get(par) == "dir"):
                fs[tuple(p)] = "dir"
        elif r < .65:
            steps.append({"o": rng.choice(["exists", "isdir"]), "p": pick()})
        elif r < .75:
            p = pick()
            steps.append({"o": "delete", "p": p})
            if fs.get(tuple(p)) not in (None, "dir"):
                del fs[tuple(p)]
        else:
            p, q = pick(), (pick() if rng.random() < .5 else path())
            ow = rng.random() < .6
            steps.append({"o": "rename", "p": p, "q": q, "ow": ow, "defow": rng.random() < .5})
            if tuple(p) in fs:
                for e in list(fs):           # after a move the rough copy forgets: entries are asked for by the look at the end
                    if list(e[:len(p)]) == p or list(e[:len(q)]) == q:
                        del fs[e]
                steps[-1]["forget"] = True
                break
    for _ in range(rng.randint(1, 4)):
        steps.append({"o": rng.choice(["exists", "isdir"]), "p": pick()})
    if rng.random() < .1:
        steps.append({"o": rng.choice(["exists", "isdir", "mkdir", "delete"]), "p": ["@long"], "mode": 0o700})
    if rng.random() < .1:
        steps.append({"o": rng.choice(["exists", "isdir", "mkdir", "delete"]), "p": [""], "empty": True, "mode": 0o700})
    for s in steps:
        s["umask"] = um if s["o"] not in ("file", "fifo", "link", "sock") else 0
        if rng.random() < .3:
            s["rel"] = True
    return {"op": "fs", "steps": steps}


KINDS = ["none", "file", "dir", "full", "sock", "fifo", "link:file", "link:dir", "link:none", "link:self"]


def setup(kind, name):
    if kind == "none":
        return []
    if kind in ("file", "sock", "fifo"):
        return [{"o": kind, "p": [name], "c": ["of " + name] if kind == "file" else []}]
    if kind in ("dir", "full"):
        return [{"o": "mkdir", "p": [name], "mode": 0o700}] + ([{"o": "file", "p": [name, "in"], "c": ["inside"]}] if kind == "full" else [])
    to = kind[5:]
    t = {"file": "t_" + name, "dir": "u_" + name, "none": "nowhere", "self": name}[to]
    return (setup(to, t) if to in ("file", "dir") else []) + [{"o": "link", "p": [name], "c": [t]}]


def p28(rng, tier):
    out = []

    def add(steps):
        for s in steps:
            s.setdefault("umask", 0)
        out.append({"op": "fs", "steps": steps})
    for k in KINDS:                          # every helper on everything
        for op in ("exists", "isdir", "mkdir", "delete"):
            for rel in (False, True):
                add(setup(k, "a") + [{"o": op, "p": ["a"], "mode": 0o755, "rel": rel}, {"o": "exists", "p": ["a"]}, {"o": "isdir", "p": ["a"]}])
        for op in ("exists", "isdir", "mkdir", "delete"):     # and below it
            add(setup(k, "a") + [{"o": op, "p": ["a", "in"], "mode": 0o755}])
        for m in KINDS:
            for ow in (False, True):
                add(setup(k, "a") + setup(m, "b") + [{"o": "rename", "p": ["a"], "q": ["b"], "ow": ow, "defow": ow and k == "file"}])
        for q in (["a"], ["a", "x"], ["none", "x"], ["a", "in"], ["@long"]):
            add(setup(k, "a") + [{"o": "rename", "p": ["a"], "q": q, "ow": True}])
        add(setup(k, "a") + [{"o": "rename", "p": ["a", "in"], "q": ["a"], "ow": True}])
        add(setup(k, "a") + [{"o": "rename", "p": ["a", "in"], "q": ["b"], "ow": True}])
    for mode in MODES:
        for um in (0, 0o22, 0o77, 0o27):
            add([{"o": "mkdir", "p": ["a"], "mode": mode, "umask": um}])
    out += [history(rng) for _ in range(500 if tier == "quick" else 8000)]
    return out
