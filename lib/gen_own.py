"""Calls of the whole library, each repeated to see whether it leaves storage behind (P02),
or made once to see whether it leaves its arguments alone (P01)."""
import gen_dense
import gen_fft
import gen_linalg
import gen_sdf
import gen_sparse
import gen_text

SKIP = {"slow"}


def kind(c):
    """calls of one operation that differ in their options, not in their numbers"""
    opt = tuple(sorted(k for k in c if k not in ("id",)))
    val = tuple((k, v) for k, v in sorted(c.items()) if isinstance(v, bool) or (isinstance(v, str) and len(v) < 12))
    return opt, val


def sample(gens, per, own=True):
    def gen(rng, tier):
        out = []
        for g in gens:
            cs = [c for c in g(rng, "quick") if c["op"] not in SKIP and len(str(c)) < 20000]
            by = {}
            for c in cs:
                by.setdefault(c["op"], {}).setdefault(kind(c), []).append(c)
            m = 1 if tier == "quick" else 8
            for op in sorted(by):                       # each operation gets its share
                kinds = [by[op][k] for k in sorted(by[op])]
                for k in kinds:
                    rng.shuffle(k)
                rng.shuffle(kinds)
                n = min(per * m, sum(map(len, kinds)))
                take = [k.pop() for k in kinds]         # and each of its forms at least once
                while len(take) < n:
                    take += [k.pop() for k in kinds if k]
                for c in take:
                    out.append(dict(c, own=True) if own else c)
        return out
    return gen


dense = sample([gen_dense.GENS[p] for p in sorted(gen_dense.GENS)], 12)
sparse = sample([gen_sparse.p12, gen_sparse.p13], 15)
linalg = sample([gen_linalg.p21, gen_linalg.p23, gen_linalg.p24, gen_linalg.p25], 25)
fft = sample([gen_fft.p22], 40)
text = sample([gen_text.p27], 20)

# the arguments, and what shares its storage with them
DENSE = [gen_dense.GENS[p] for p in sorted(gen_dense.GENS)]
dense_args = sample(DENSE, 12, False)
sparse_args = sample([gen_sparse.p12, gen_sparse.p13], 20, False)
linalg_args = sample([gen_linalg.p21, gen_linalg.p23, gen_linalg.p24, gen_linalg.p25], 25, False)
sample_fft_args = sample([gen_fft.p22], 40, False)


def fft_args(rng, tier):
    # all the long ones: plans that overwrite their input are made for few lengths
    return sample_fft_args(rng, tier) + [c for c in gen_fft.p22(rng, "quick") if max(c["x"]["d"] + [0]) > 100]


text_args = sample([gen_text.p27], 20, False)


def sdf(rng, tier):
    """files written and read in one process"""
    out = []
    for k in range(60 if tier == "quick" else 500):
        recs = [gen_sdf.record(rng) for _ in range(rng.choice([0, 1, 2, 5]))]
        out.append({"op": "sdf_own", "recs": recs, "mode": rng.choice([0, 1, 1, 4]), "close": k % 3, "move": k % 4 == 0, "own": True})
    for t in gen_sdf.TYPES:
        out.append({"op": "sdf_own", "recs": [gen_sdf.record(rng, [t])], "mode": 1, "close": 0, "move": False, "own": True})
    return out
