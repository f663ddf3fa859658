"""C15: make_coupler_mosaic, the exchange grids between atmosphere, land, ocean and wave mosaics."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, coupler_lib as cl
from combine_lib import reruns

# the centroid distance of an exchange cell in its second parent (known finding): one fixed input
LON2 = {"seed": "lon2", "N": 8, "S": 2, "atm": [{"lon": [0, 1, 2, 3, 4, 5, 6, 7, 8], "lat": [-2, 0, 2]}], "lnd": [{"lon": [0, 1, 2, 3, 4, 5, 6, 7, 8], "lat": [-2, 0, 2]}],
        "ocn": [{"lon": [0, 2, 4, 6, 8], "lat": [-2, 0, 2]}], "frac": [[10] * 8], "same": True, "wav": [], "nest": 0, "np": 1, "order": 2, "plain": True}

def body(ck):
    ck.add_mc(core.mc("MC_Coupler", core.pick("MC_Coupler.cfg", "MC_Coupler_deep.cfg"), min_states=1000, timeout=800))
    ck.add_mc(core.mc("MC_Coupler", core.pick("SCH_Coupler.cfg", "SCH_Coupler_deep.cfg"), min_states=300, timeout=800))
    lays, r = core.gen("MC_Coupler", "GEN_Coupler.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    if not core.thorough(): gens = gens[core.SEED % 3::3]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(400, 5000))]
    gens += [LON2]
    cases = core.pmap(cl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["parallel_runs"] = sum(1 for c in cases if c["np"] > 1)
    ck.cov["nests"] = sum(1 for c in cases if c["nest"]); ck.cov["waves"] = sum(1 for c in cases if c["wav"])
    ck.conform("TR_Coupler", cases, rerun=reruns(cl.run_gen), chunk=40, describe=lambda c: c["repro"])
    k = core.pmap(cl.run_gen, [dict(LON2, lon2=True)])[0]; k["key"] = "C15-tile2-longitude"
    bad, r = core.validate("TR_Coupler", [k])
    for w in bad.values(): ck.report("TR_Coupler", k, w)
    ck.assumptions += ["grids of lon-lat boxes at most 90 degrees wide with rational areas, wet fractions in tenths; areas compared to 1/50 of a tenth of a unit box, centroid distances to about 1e-4 rad",
                       "great-circle clipping is not covered; the longitude part of tile2_distance is checked on one input only (known finding)"]

sys.exit(core.main("C15", ["make_coupler_mosaic", "make_coupler_mosaic_parallel"], body))
