"""C18: make_hgrid, one-tile grids."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, lonlat_lib as ll
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Lonlat", core.pick("MC_Lonlat.cfg", "MC_Lonlat_deep.cfg"), min_states=500, timeout=800))
    lays, r = core.gen("MC_Lonlat", "GEN_Lonlat.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    if not core.thorough(): gens = gens[core.SEED % 2::2]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(350, 6000))]
    cases = core.pmap(ll.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["refused"] = sum(1 for c in cases if c["obs"]["rc"] != 0)
    ck.conform("TR_Lonlat", cases, rerun=reruns(ll.run_gen), chunk=40, describe=lambda c: c["repro"])
    ck.assumptions += ["whole-degree bounds; axis points compared to 3e-3 degree, places to 1e-7 rad, lengths and areas to 5e-8 of the radius (squared); tripolar grids with a multiple of four columns over 360 degrees up to the pole; old algorithm with 1, 2, 3, 4, 6 or 12 cells per region; of from_file only text files"]

sys.exit(core.main("C18", ["make_hgrid"], body))
