"""C23: make_regional_mosaic."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, regional_lib as rl
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Regional", core.pick("MC_Regional.cfg", "MC_Regional_deep.cfg"), min_states=3000, timeout=800))
    lays, r = core.gen("MC_Regional", "GEN_Regional.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(500, 8000))]
    cases = core.pmap(rl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["refused"] = sum(1 for c in cases if c["obs"]["rc"] != 0)
    ck.conform("TR_Regional", cases, rerun=reruns(rl.run_gen), chunk=120, describe=lambda c: c["repro"])
    ck.assumptions += ["increasing axes of cell numbers (the tool compares only the first and last with the length)"]

sys.exit(core.main("C23", ["make_regional_mosaic", "fregrid"], body))
