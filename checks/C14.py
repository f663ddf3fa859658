"""C14: make_solo_mosaic, contacts between tiles."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, mosaic_lib as ml
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Mosaic", core.pick("MC_Mosaic.cfg", "MC_Mosaic_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Mosaic", "GEN_Mosaic.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(700, 12000))]
    cases = core.pmap(ml.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.conform("TR_Mosaic", cases, rerun=reruns(ml.run_gen), chunk=60, describe=lambda c: c["repro"])
    ck.assumptions += ["a pair of sides touches along one stretch whose ends are common grid points; tiles are at least two supergrid cells wide; no contacts between equal sides or W-S, E-N (as the tool documents)"]

sys.exit(core.main("C14", ["make_solo_mosaic", "make_hgrid"], body))
