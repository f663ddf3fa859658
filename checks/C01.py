"""C01: mppnccombine reassembles the decomposed file exactly."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, combine_lib as cl, random

def body(ck):
    ck.add_mc(core.mc("MC_MppCombine", core.pick("MC_MppCombine.cfg", "MC_MppCombine_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_MppCombine", "GEN_MppCombine.cfg")
    sound = [l for l in lays if all(f["present"] and f["sound"] for f in l["files"]) and len({f["nrec"] for f in l["files"]}) == 1 and not l["outexists"]
             and l["numfiles"] == len(l["files"])]
    n = core.pick(220, len(sound))
    random.shuffle(sound)
    gens = [{"lay": l, "seed": "%d.%d" % (core.SEED, i)} for i, l in enumerate(sound[:n])]
    gens += [{"lay": None, "seed": "r%d.%d" % (core.SEED, i), "maxn": core.pick(6, 8)} for i in range(core.pick(260, 4000))]
    cases = core.pmap(cl.run_gen, gens)
    ck.cov["layouts_enumerated_by_TLC"] = len(lays)
    ck.cov["replayed_from_TLC"] = n
    ck.cov["random_piece_sets"] = len(gens) - n
    ck.conform("TR_MppCombine", cases, rerun=cl.reruns(cl.run_gen), chunk=500, describe=lambda c: c["repro"])
    ck.assumptions += ["netCDF/HDF5 libraries read and write faithfully", "record dimension is the leading dimension", "pieces do not overlap", "decomposed axes are among the last four dimensions of a variable (the last three when it has more than four besides the record)"]

sys.exit(core.main("C01", ["mppnccombine"], body))
