"""C21: fregrid from cubed spheres."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, cubic_lib as cl
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Cubic", core.pick("MC_Cubic.cfg", "MC_Cubic_deep.cfg"), min_states=5000, timeout=800))
    lays, r = core.gen("MC_Cubic", "GEN_Cubic.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(120, 3000))]
    cases = core.pmap(cl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["parallel"] = sum(1 for c in cases if c["repro"].startswith("mpirun"))
    ck.conform("TR_Cubic", cases, rerun=reruns(cl.run_gen), chunk=40, describe=lambda c: c["repro"])
    ck.assumptions += ["gnomonic cubed spheres of 2 to 6 cells per edge with the usual twelve contacts; integer data of float or double type, the same cells missing in every record; longitude-latitude outputs with cells at most 75 degrees wide; no more processes than rows of an output tile",
                       "second order values are bounded, not recomputed: total, moments, the range of the neighbours (monotonic), the mean next to missing cells and the error on three smooth fields"]

sys.exit(core.main("C21", ["fregrid", "fregrid_parallel"], body))
