"""C04: mppncscatter cuts a file into exactly the pieces of the decomposition."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, scatter_lib as sl, random
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Scatter", core.pick("MC_Scatter.cfg", "MC_Scatter_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Scatter", "GEN_Scatter.cfg")
    random.shuffle(lays)
    n = core.pick(180, len(lays))
    gens = [{"lay": l, "seed": "%d.%d" % (core.SEED, i)} for i, l in enumerate(lays[:n])]
    gens += [{"seed": "r%d.%d" % (core.SEED, i)} for i in range(core.pick(320, 5000))]
    # long axes: the cut itself
    for q in range(core.pick(40, 400)):
        nx = random.randrange(10, 65); dx = random.randrange(1, min(nx, 24) + 1)
        gens.append({"lay": {"lens": [1, 1, nx, 1], "nx": dx, "ny": 1, "nxio": 0, "nyio": 0, "dry": False, "how": "units"}, "seed": "w%d.%d" % (core.SEED, q)})
    cases = core.pmap(sl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = n; ck.cov["random_files"] = len(gens) - n
    ck.cov["pieces_compared"] = sum(len(c["obs"]["pieces"]) for c in cases)
    ck.conform("TR_Scatter", cases, rerun=reruns(sl.run_gen), chunk=400, describe=lambda c: c["repro"])
    ck.assumptions += ["netCDF/HDF5 libraries read and write faithfully", "record dimension is the leading dimension", "variables of the six classic types"]

sys.exit(core.main("C04", ["mppncscatter", "mppnccombine"], body))
