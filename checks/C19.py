"""C19: make_vgrid, the levels."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, lonlat_lib as ll
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Lonlat", core.pick("MC_Vert.cfg", "MC_Vert_deep.cfg"), min_states=500, timeout=800))
    lays, r = core.gen("MC_Lonlat", "GEN_Vert.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    if not core.thorough(): gens = gens[core.SEED % 2::2]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i), "v": 1} for i in range(core.pick(300, 6000))]
    cases = core.pmap(ll.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["refused"] = sum(1 for c in cases if c["obs"]["rc"] != 0)
    ck.conform("TR_Lonlat", cases, rerun=reruns(ll.run_gen), chunk=40, describe=lambda c: c["repro"])
    ck.assumptions += ["whole-number bounds; points compared to 3e-3 of a unit; old algorithm with 1, 2, 3, 4, 6 or 12 cells per region, whole stretching factors"]

sys.exit(core.main("C19", ["make_vgrid"], body))
