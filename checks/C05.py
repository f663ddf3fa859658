"""C05: mppnccombine after mppncscatter gives the original file back."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, scatter_lib as sl, random
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Scatter", core.pick("MC_Scatter.cfg", "MC_Scatter_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Scatter", "GEN_Scatter.cfg")
    lays = [l for l in lays if not l["dry"]]
    random.shuffle(lays)
    n = core.pick(120, len(lays))
    gens = [{"lay": l, "seed": "b%d.%d" % (core.SEED, i), "both": True} for i, l in enumerate(lays[:n])]
    gens += [{"seed": "c%d.%d" % (core.SEED, i), "both": True} for i in range(core.pick(360, 5000))]
    cases = core.pmap(sl.run_gen, gens)
    ck.cov["round_trips"] = len(gens)
    ck.conform("TR_Scatter", cases, rerun=reruns(sl.run_gen), chunk=400, describe=lambda c: c["repro"])
    ck.assumptions += ["netCDF/HDF5 libraries read and write faithfully", "scattered axes have coordinate variables"]

sys.exit(core.main("C05", ["mppncscatter", "mppnccombine"], body))
