"""C12: timavg."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, tavg_lib as tl, random
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_TimeAvg", core.pick("MC_TimeAvg.cfg", "MC_TimeAvg_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_TimeAvg", "GEN_TimeAvg.cfg")
    gens = [dict(seed="%d.%d.%d" % (core.SEED, i, j), **l) for i, l in enumerate(lays) for j in range(core.pick(1, 12))]
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(700, 8000))]
    gens += [{"seed": "m%d" % core.SEED, "nf": 200, "nr": [1, 2]}]
    cases = core.pmap(tl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = len(lays); ck.cov["random_cases"] = len(gens) - len(lays)
    ck.conform("TR_TimeAvg", cases, rerun=reruns(tl.run_gen), chunk=300, describe=lambda c: c["repro"])
    # more files than the program takes: refused, not cut short
    x = core.pmap(tl.many_files, [{"seed": "x%d" % core.SEED, "n": n} for n in (201, 250)])
    for c in x:
        if c["rc"] == 0 and c["nt"] != c["n"]: ck.report("many files", {"files": c["n"], "records": c["nt"]}, "timavg of %d files exits 0 with %d records" % (c["n"], c["nt"]))
    ck.cov["too_many_files"] = [[c["n"], c["rc"], c["nt"]] for c in x]
    ck.assumptions += ["integer data values and weights: averages compared to 2/1000", "at least one record per file and one time-varying variable to average", "calendar/period words in cell_methods are not judged"]

sys.exit(core.main("C12", ["timavg", "time_average"], body))
