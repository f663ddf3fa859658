import core, land_lib as ll, random
from combine_lib import reruns
TOOLS = ["combine-ncc", "scatter-ncc", "decompress-ncc", "is-compressed"]
def body_for(op):
    def body(ck):
        ck.add_mc(core.mc("MC_Land", core.pick("MC_Land.cfg", "MC_Land_deep.cfg"), min_states=1000, timeout=800))
        lays, r = core.gen("MC_Land", "GEN_Land.cfg")
        lays = [l for l in lays if l["op"] == op]
        random.shuffle(lays)
        n = core.pick(150, len(lays))
        gens = [{"op": op, "lay": l, "seed": "%d.%d" % (core.SEED, i), "both": i % 2 == 0} for i, l in enumerate(lays[:n])]
        gens += [{"op": op, "seed": "r%d.%d" % (core.SEED, i), "both": True} for i in range(core.pick(350, 5000))]
        gens += [{"op": op, "seed": "b%d.%d" % (core.SEED, i), "bad": ["missing", "broken"][i % 2]} for i in range(core.pick(20, 200))]
        cases = core.pmap(ll.run_gen, gens)
        ck.cov["replayed_from_TLC"] = len(lays[:n]); ck.cov["random_cases"] = len(gens) - len(lays[:n])
        ck.cov["refused_cases"] = sum(1 for c in cases if c["obs"]["rc"] != 0)
        ck.conform("TR_Land", cases, rerun=reruns(ll.run_gen), chunk=400, describe=lambda c: c["repro"])
        ck.assumptions += ["netCDF/HDF5 libraries read and write faithfully", "numeric values are finite or quiet NaN (the tools convert through double)",
                           "at least one record and a time coordinate when there is a record dimension", "no index value occurs twice"]
    return body
