"""C13: fregrid, first-order conservative remapping."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, regrid_lib as rl
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Regrid", core.pick("MC_Regrid.cfg", "MC_Regrid_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Regrid", "GEN_Regrid.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    if not core.thorough(): gens = gens[core.SEED % 4::4]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(500, 8000))]
    cases = core.pmap(rl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["parallel_runs"] = sum(1 for c in cases for q in c["obs"]["runs"] if q["np"])
    ck.cov["remap_files"] = sum(1 for c in cases if c["obs"]["remap"])
    ck.conform("TR_Regrid", cases, rerun=reruns(rl.run_gen), chunk=60, describe=lambda c: c["repro"])
    ck.assumptions += ["grids of lon-lat boxes with rational areas; integer data; compared to 1/1000 (1/100 with --target_grid)",
                       "integer fields may be rounded or truncated, but stay within the range of their sources"]

sys.exit(core.main("C13", ["fregrid", "fregrid_parallel"], body))
