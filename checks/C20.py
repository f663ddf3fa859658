"""C20: runoff_regrid."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, runoff_lib as rl
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Runoff", core.pick("MC_Runoff.cfg", "MC_Runoff_deep.cfg"), min_states=500, timeout=800))
    lays, r = core.gen("MC_Runoff", "GEN_Runoff.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(450, 8000))]
    cases = core.pmap(rl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["refused"] = sum(1 for c in cases if c["obs"]["rc"] != 0)
    ck.cov["parallel"] = sum(1 for c in cases if c["repro"].startswith("mpirun"))
    ck.conform("TR_Runoff", cases, rerun=reruns(rl.run_gen), chunk=40, describe=lambda c: c["repro"])
    ck.assumptions += ["non-negative float or double runoff on a rectilinear grid; the same cells missing in every record (the tool takes the mask of the first); ocean grids of one longitude-latitude tile with cells at most 90 degrees wide; longitudes of the two grids less than 540 degrees apart; no more processes than the layout of the ocean grid allows"]

sys.exit(core.main("C20", ["runoff_regrid", "runoff_regrid_parallel"], body))
