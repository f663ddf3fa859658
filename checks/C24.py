"""C24: make_topog."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, topog_lib as tl
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Topog", core.pick("MC_Topog.cfg", "MC_Topog_deep.cfg"), min_states=10000, timeout=800))
    lays, r = core.gen("MC_Topog", "GEN_Topog.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(600, 9000))]
    cases = core.pmap(tl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["refused"] = sum(1 for c in cases if c["obs"]["rc"] != 0); ck.cov["parallel"] = sum(1 for c in cases if c["np"] > 1)
    ck.conform("TR_Topog", cases, rerun=reruns(tl.run_gen), chunk=80, describe=lambda c: c["repro"])
    ck.assumptions += ["depths and levels in 256ths of a metre; levels 10 m or thicker, none thinner than the first; smoothed source in whole metres and at most two passes; averages over cells bounded by meridians and parallels, without a vertical grid; folded grids of an even number of columns, at least four; of gaussian, bowl, idealized and dome topographies only that they are finite and the same on any number of processes"]

sys.exit(core.main("C24", ["make_topog", "make_topog_parallel"], body))
