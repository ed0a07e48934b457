"""What each check runs."""
import random
import re

import conform as C
import gen_clock
import gen_dense
import gen_fft
import gen_flags
import gen_fs
import gen_jobs
import gen_linalg
import gen_own
import gen_prog
import gen_proc
import gen_rand
import gen_sdf
import gen_sparse
import gen_store
import gen_text


class Unit:
    """cases -> real library -> trace -> TLC"""

    def __init__(self, driver, module, gen, variant="asan", what="", **kw):
        self.driver, self.module, self.gen, self.variant, self.what, self.kw = driver, module, gen, variant, what, kw

    def run(self, prop, seed, tier, wd):
        rng = random.Random("%s/%s/%d" % (prop, self.module, seed))
        cases = self.gen(rng, tier, wd) if self.gen.__code__.co_argcount > 2 else self.gen(rng, tier)
        bad, evs = C.conformance(self.driver, self.variant, self.module, cases, wd, **self.kw)
        return {"bad": bad, "evs": evs, "module": self.module, "driver": self.driver}


class Model:
    """exhaustive exploration of a model with TLC"""

    def __init__(self, module, cfg=None, thorough_cfg=None, workers=8, heap="6g", args=()):
        self.module, self.cfg, self.tcfg = module, cfg or module + ".cfg", thorough_cfg
        self.workers, self.heap, self.args = workers, heap, args

    def run(self, prop, seed, tier, wd):
        cfg = self.tcfg if tier == "thorough" and self.tcfg else self.cfg
        rc, out = C.tlc(self.module, cfg, wd, workers=self.workers, heap=self.heap, args=self.args, timeout=850)
        gen, dist = C.tlc_counts(out)
        if rc != 0:
            # the model itself breaks the property: an error of the specification,
            # not of the code under test
            raise C.CheckError("the model %s (%s) fails:\n%s" % (self.module, cfg, out[-3000:]))
        return {"bad": [], "evs": [], "module": self.module, "states": dist, "transitions": gen}


class Refuted:
    """a variant of a model that breaks its property: TLC has to find out (or the model proves nothing)"""

    def __init__(self, module, cfg):
        self.module, self.cfg = module, cfg

    def run(self, prop, seed, tier, wd):
        rc, out = C.tlc(self.module, self.cfg, wd, workers=4, heap="4g", timeout=600)
        if not re.search(r"(Invariant|property|properties) .*(is|are|was|were) violated", out):
            raise C.CheckError("TLC does not refute %s (%s):\n%s" % (self.module, self.cfg, out[-2000:]))
        return {"bad": [], "evs": [], "module": self.module + " (" + self.cfg + ", refuted)"}


D = "drv_tensor"
DENSE = {p: [Unit(D, "TraceDense", g)] for p, g in gen_dense.GENS.items()}
RANGES = [Model("MCRanges", thorough_cfg="MCRangesDeep.cfg"), Refuted("MCRanges", "MCRanges_NoReset.cfg"),
          Refuted("MCRanges", "MCRanges_ZeroFactor.cfg")]
DENSE["P04"] = RANGES + [Model("MCRanges", "MCRangesSmall.cfg", "MCRangesWide.cfg")] + DENSE["P04"]
DENSE["P05"] = RANGES + DENSE["P05"]
MOVES = [Model("MCMoves", thorough_cfg="MCMovesDeep.cfg"), Model("MCMoves", "MCMovesSmall.cfg", "MCMovesWide.cfg")]
DENSE["P06"] = MOVES + [Refuted("MCMoves", "MCMoves_unit.cfg"), Refuted("MCMoves", "MCMoves_short.cfg")] + DENSE["P06"]
DENSE["P07"] = MOVES + [Refuted("MCMoves", "MCMoves_conj.cfg")] + DENSE["P07"]
DENSE["P10"] = MOVES[:1] + DENSE["P10"]
STORE = {
    "P01": [Model("MCStore"), Unit("drv_store", "TraceStore", gen_store.p01),
            Unit("drv_tensor", "TraceFrame", gen_own.dense_args), Unit("drv_sparse", "TraceFrame", gen_own.sparse_args),
            Unit("drv_linalg", "TraceFrame", gen_own.linalg_args), Unit("drv_fft", "TraceFrame", gen_own.fft_args),
            Unit("drv_text", "TraceFrame", gen_own.text_args),
            Unit("drv_prog", "TraceProg", gen_prog.p01), Unit("drv_sparse", "TraceSparse", gen_sparse.p01),
            Unit("drv_sdf", "TraceSdf", gen_sdf.p01)],
    "P02": [Model("MCStore", thorough_cfg="MCStoreDeep.cfg"), Unit("drv_store", "TraceStore", gen_store.p02),
            Unit("drv_tensor", "TraceOwn", gen_own.dense), Unit("drv_sparse", "TraceOwn", gen_own.sparse),
            Unit("drv_linalg", "TraceOwn", gen_own.linalg), Unit("drv_fft", "TraceOwn", gen_own.fft),
            Unit("drv_text", "TraceOwn", gen_own.text), Unit("drv_sdf", "TraceOwn", gen_own.sdf)],
}
DF = Model("MCDataFile", thorough_cfg="MCDataFileDeep.cfg")
FILES = {
    "P14": [DF, Unit("drv_sdf", "TraceSdf", gen_sdf.p14)],
    "P15": [Model("MCLock", thorough_cfg="MCLockDeep.cfg"), Model("MCLock", "MCLock2.cfg", "MCLock4.cfg"),
            Refuted("MCLock", "MCLock_NoCheck.cfg"), Refuted("MCLock", "MCLock_UnlinkLast.cfg"),
            Unit("drv_proc", "TraceProc", gen_proc.p15, "plain")],
    "P16": [DF, Refuted("MCDataFile", "MCDataFile_DeleteFirst.cfg"), Unit("drv_proc", "TraceProc", gen_proc.p16, "plain")],
    "P17": [DF, Refuted("MCDataFile", "MCDataFile_Unchecked.cfg"), Unit("drv_sdf", "TraceSdf", gen_sdf.p17),
            Unit("drv_proc", "TraceProc", gen_proc.p17crash, "plain")],
}
JOBS = {
    "P18": [Model("MCJobs", thorough_cfg="MCJobsDeep.cfg"), Unit("drv_misc", "TraceJobs", gen_jobs.p18)],
    "P19": [Unit("drv_misc", "TraceJobs", gen_jobs.p19)],
}
CLOCK = {"P29": [Model("MCClock", thorough_cfg="MCClockDeep.cfg"), Refuted("MCClock", "MCClock_cpu.cfg"), Refuted("MCClock", "MCClock_reset.cfg"),
                 Unit("drv_misc", "TraceClock", gen_clock.p29)]}
FLAGS = {"P26": [Model("MCFlags", thorough_cfg="MCFlagsDeep.cfg"), Unit("drv_misc", "TraceFlags", gen_flags.p26)]}
TEXT = {"P27": [Unit("drv_text", "TraceText", gen_text.p27)]}
RAND = {"P20": [Unit("drv_rand", "TraceRand", gen_rand.p20), Unit("drv_rand32", "TraceRand", gen_rand.p20_32)]}
SPARSE = {
    "P12": [Model("MCSparse", thorough_cfg="MCSparseDeep.cfg"), Unit("drv_sparse", "TraceSparse", gen_sparse.p12),
            Unit("drv_sparse", "TraceWide", gen_sparse.w12)],
    "P13": [Model("MCSparse", thorough_cfg="MCSparseDeep.cfg"), Unit("drv_sparse", "TraceSparse", gen_sparse.p13),
            Unit("drv_sparse", "TraceWide", gen_sparse.w13)],
}

HELPERS = {"P28": [Model("MCFs", thorough_cfg="MCFsDeep.cfg"), Refuted("MCFs", "MCFs_tree.cfg"), Refuted("MCFs", "MCFs_follow.cfg"),
                   Unit("drv_sdf", "TraceFs", gen_fs.p28)]}
FFT = {"P22": [Model("MCFft", thorough_cfg="MCFftDeep.cfg"), Refuted("MCFft", "MCFft_SkipLoop.cfg"), Unit("drv_fft", "TraceFft", gen_fft.p22)]}
L = "drv_linalg"
LINALG = {p: [Unit(L, "TraceLinalg", getattr(gen_linalg, p.lower()))] for p in ("P21", "P24", "P25")}
BLOCKS = {"P23": [Model("MCBlocks", thorough_cfg="MCBlocksDeep.cfg"), Refuted("MCBlocks", "MCBlocks_KeepCols.cfg"),
                  Unit(L, "TraceLinalg", gen_linalg.p23)]}

CHECKS, LEVEL, TECH, NOTE = {}, {}, {}, {}
NOTYET = {}


def register(group, level, tech, note):
    for p, u in group.items():
        CHECKS[p], LEVEL[p], TECH[p] = u, level, tech
        NOTE[p] = note[p] if isinstance(note, dict) else note


EXPL = ("Every recorded call of the real library on generated inputs is recomputed in TLA+ by TLC and compared exactly; "
        "rejections and memory errors (ASAN) are part of the trace. Exploration: holds for the inputs generated, not proved for all. "
        "Trusts the driver's printing of results, TLC and the compiler.")
MODELLED = ("P04", "P05", "P06", "P07", "P10")
register({p: u for p, u in DENSE.items() if p not in MODELLED}, "exploration",
         "TLA+ specification; TLC validates traces recorded from the real library", EXPL)
MC = {"P04": "MCRanges: the machines that walk over a slice, explored for every choice of ranges on small shapes, give the selected positions in order. ",
      "P06": "MCMoves: the pointer walks of permute, change_dimension and take_diag, for every small shape, give what the algebra says. ",
      "P07": "MCMoves: the calls of the matrix product that fold and foldin choose, for every small shape, add up the products of the definition. "}
MC["P05"], MC["P10"] = MC["P04"], MC["P06"]
register({p: DENSE[p] for p in MODELLED}, "exploration",
         "TLA+ models of the loops, exhaustive with TLC on small shapes; TLC validates traces recorded from the real library",
         {p: MC[p] + EXPL for p in MODELLED})
register(STORE, "model_checking", "TLA+ model of copy-on-write storage, exhaustive with TLC; histories of the real library validated against it",
         "MCStore is explored exhaustively for 3 (thorough: 4) objects: values, owner counts, no leak. The binding replays random histories on the "
         "real library (ASAN) and TLC compares the projection of every live object after every step with the model.")
register(FILES, "model_checking", "TLA+ models of the data file and of its lock, exhaustive with TLC; sessions, schedules and crashes of real processes "
         "replayed and validated against the specification",
         {"P14": "MCDataFile (writer field by field, reader, crashes) is explored exhaustively; histories of real sessions (ASAN) are judged by TraceSdf, "
                 "numbers compared byte by byte. Bounded by the generated histories.",
          "P15": "MCLock: every interleaving of up to 3 (4) processes, mutual exclusion, no lost block, progress; two weaker protocols are refuted. Real "
                 "processes are stopped with ptrace at every system call on the files and driven through all 2-process schedules of up to 3 switches, "
                 "schedules taken from TLC's simulator, and random ones; TLC judges each log and the final file.",
          "P16": "The real process is killed before/after every system call that touches the files; TLC checks that the public file is the old or the new one. "
                 "Death of the process, not of the machine (no fsync).",
          "P17": "Every truncation offset of the generated files, every bit-flip class of header, name and type, foreign files, and crashes while appending; TLC "
                 "decides what must be returned and what refused."})
register({"P18": JOBS["P18"]}, "model_checking", "TLA+ model of the job grid and its blocks, exhaustive with TLC; invocations of the real class validated against it",
         "MCJobs: every grid of up to 3 variables and 3 (4) steps and up to 7 (20) blocks is visited exactly once, in order. Real invocations (ASAN), all blocks "
         "of a grid, and data sets computed by overlapping and dying invocations are judged by TraceJobs with the same operators.")
register({"P19": JOBS["P19"]}, "exploration", "TLA+ specification of the command line and the job files, down to characters; TLC judges invocations of the real class",
         "The specification parses the same texts character by character and decides what must be refused and which jobs and values result. "
         "Bounded by the generated command lines; hexadecimal numbers, infinities and NaN are not generated.")
register(FLAGS, "model_checking", "TLA+ model of the flag table, exhaustive with TLC; histories of the real table validated against it",
         "MCFlags: all histories with up to 5 (7) keys and 4 values. Real histories: all of length <= 4 (5) over 7 actions, and long random ones on three tables.")
register(TEXT, "exploration", "TLA+ specification of the text of every printable object; TLC judges traces recorded from the real library",
         "The specification writes the text itself (string operators of TLC) and compares it with what operator<< and matrix_form wrote, character by "
         "character; numbers are integers and quarters, infinities and NaN, written with the default precision. Bounded by the generated objects.")
register(RAND, "exploration", "TLA+ specification of both Mersenne Twisters (limb arithmetic); TLC recomputes the sequences drawn from the real generator",
         "TLC computes the 64-bit and the 32-bit sequence from their published recurrence and checks every number drawn, in every mixture of types and "
         "tensors, exactly (floats to half a unit in the last place; real intervals to 2^-26 and for range). The 32-bit generator, not part of this "
         "configuration of the library, is compiled from its sources by the driver. Bounded by the seeds and histories generated.")
register(SPARSE, "model_checking", "TLA+ model of compressed-row matrices, exhaustive with TLC; traces recorded from the real library judged by it",
         "MCSparse: the row merge and the insertion of coordinates, on all 2x2 (thorough: 2x3) matrices and all short lists of coordinates. Every recorded call "
         "of the real library (ASAN) is judged by the form of its result (Canonical) and by the dense matrix it stands for (Full), recomputed in TLA+; "
         "all small 0/1 matrices are included, the rest is generated. Bounded by these inputs.")

register(LINALG, "exploration", "TLA+ specification of the defining equations in fixed point; TLC judges traces recorded from the real library",
         "TLC decides each answer of the real library (ASAN) by the equation that defines it, in fixed point (2^-20), on integer matrices whose exact spectrum, "
         "null space or solution comes with a witness that TLC checks itself. Bounded by the matrices generated; equations with integer coefficients hold to about 1e-9, the others (products of two answers) to about 1e-4; "
         "trusts the driver's rounding of results.")
register(BLOCKS, "model_checking", "TLA+ model of the block finder, exhaustive with TLC; decompositions by the real library judged by their defining equations",
         "MCBlocks: element by element, every 3x3 (thorough: 4x4) pattern yields exactly the connected components. The real block_svd (ASAN) is run on every pattern "
         "of up to 3x2 elements, on 3x3 patterns, on permuted, rectangular and deficient blocks; TLC checks orthonormality, order and product in fixed point.")
register(FFT, "model_checking", "TLA+ model of the transform's slicing, exhaustive with TLC; transforms by the real library recomputed in TLA+ from the definition",
         "MCFft: for all small tensors and dimensions each element lies in exactly one slice. TLC computes the discrete Fourier transform by its definition in fixed "
         "point (twiddle factors by Taylor series) and compares with every recorded transform (ASAN); shifts are compared exactly. Bounded by the tensors generated.")
register(HELPERS, "model_checking", "TLA+ model of a directory tree, exhaustive with TLC; histories of the real helpers on a scratch tree validated against it",
         "MCFs: every history of the helpers on trees of up to 3 (4) entries with files, links and special files: nothing lost, nothing else touched. After each "
         "step of a real history the whole scratch tree is compared with the model's. Permissions are not specified (checks run as root); paths of one file system.")
register(CLOCK, "model_checking", "TLA+ model of the stopwatch, exhaustive with TLC; timed histories of the real one validated against it",
         "MCClock: every history of up to 4 (5) calls over 4 (6) ticks of time, with and without the program at work. Real calls are enclosed by two looks at "
         "the clock and must answer within the interval (2 ms of slack, so that a loaded machine cannot raise an alarm).")
