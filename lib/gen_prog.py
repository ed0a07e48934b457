"""Random programs (P01): the driver draws the steps, here only how many and from which seed."""


def p01(rng, tier):
    return [{"op": "prog", "seed": rng.randrange(2 ** 30), "objects": rng.choice([2, 3, 4, 5, 6]), "steps": rng.choice([12, 25, 40])}
            for _ in range(400 if tier == "quick" else 4000)]
