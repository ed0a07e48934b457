"""Histories of the stopwatch (P29)."""


def history(rng, n):
    ops, tics = [], 0
    for _ in range(n):
        k = rng.random()
        if k < .3 or not tics:
            ops.append({"o": "tic"})
            tics += 1
        elif k < .5:
            ops.append({"o": "toc"})
        elif k < .65:
            ops.append({"o": "tocw", "k": rng.randint(1, tics)})
        elif k < .85:
            ops.append({"o": "sleep", "us": rng.choice([3000, 10000, 30000, 60000])})
        elif k < .95:
            ops.append({"o": "busy", "us": rng.choice([3000, 10000, 30000])})
        else:
            ops.append({"o": "edge"})        # until shortly before the next whole second
    return {"op": "clock", "ops": ops + [{"o": "toc"}, {"o": "sleep", "us": 15000}, {"o": "toc"}, {"o": "tocw", "k": 1}]}


def p29(rng, tier):
    cases = [history(rng, rng.randint(2, 14)) for _ in range(60 if tier == "quick" else 1200)]
    edge = [{"o": "edge"}, {"o": "tic"}, {"o": "toc"}, {"o": "sleep", "us": 12000}, {"o": "toc"}, {"o": "tic"}, {"o": "tocw", "k": 1}, {"o": "tocw", "k": 2}]
    cases += [{"op": "clock", "ops": edge} for _ in range(8)]
    cases.append({"op": "clock", "ops": [{"o": "tic"}, {"o": "sleep", "us": 2300000}, {"o": "toc"}, {"o": "tocw", "k": 1}]})
    cases.append({"op": "clock", "ops": [{"o": "tic"}, {"o": "busy", "us": 700000}, {"o": "toc"}]})
    return cases
