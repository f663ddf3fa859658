"""C22: make_quick_mosaic."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, quick_lib as ql
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Quick", core.pick("MC_Quick.cfg", "MC_Quick_deep.cfg"), min_states=2000, timeout=800))
    lays, r = core.gen("MC_Quick", "GEN_Quick.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(600, 9000))]
    cases = core.pmap(ql.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["refused"] = sum(1 for c in cases if c["obs"]["rc"] != 0); ck.cov["run_twice"] = sum(1 for c in cases if c["twice"])
    ck.conform("TR_Quick", cases, rerun=reruns(ql.run_gen), chunk=80, describe=lambda c: c["repro"])
    ck.assumptions += ["no cell has a pole strictly inside; paths without blanks and short enough for the tool's 255 characters; land fractions in 8000ths; one aXl file per land tile, or one land tile"]

sys.exit(core.main("C22", ["make_quick_mosaic"], body))
