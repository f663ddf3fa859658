"""C16: check_mask, the domains of a decomposition that can be left out."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, masks_lib as ml
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Masks", core.pick("MC_Masks.cfg", "MC_Masks_deep.cfg"), min_states=3000, timeout=800))
    lays, r = core.gen("MC_Masks", "GEN_Masks.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    if not core.thorough(): gens = gens[core.SEED % 5::5]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(500, 8000))]
    cases = core.pmap(ml.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["land"] = sum(1 for c in cases if c["kind"] == "land"); ck.cov["tables"] = sum(len(c["obs"]["dir"]) for c in cases)
    ck.conform("TR_Masks", cases, rerun=reruns(ml.run_gen), chunk=150, describe=lambda c: c["repro"])
    ck.assumptions += ["one ocean tile of at most 16 x 10 points, six land tiles of at most 6 x 6; halos no wider than the grid; open boundaries (--nobc) are not covered"]

sys.exit(core.main("C16", ["check_mask"], body))
