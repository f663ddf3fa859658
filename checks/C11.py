"""C11: split_ncvars."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, split_lib as sl, random
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Split", core.pick("MC_Split.cfg", "MC_Split_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Split", "GEN_Split.cfg")
    gens = [dict(seed="%d.%d.%d" % (core.SEED, i, j), **l) for i, l in enumerate(lays) for j in range(core.pick(4, 40))]
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(260, 3000))]
    cases = core.pmap(sl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = len(lays); ck.cov["random_cases"] = len(gens) - len(lays)
    ck.cov["runs_appending"] = sum(1 for c in cases if len(c["files"]) > 1)
    ck.conform("TR_Split", cases, rerun=reruns(sl.run_gen), chunk=100, describe=lambda c: c["repro"])
    ck.assumptions += ["NCO (ncks, ncrcat, ncatted, ncrename, ncwa) and ncdump work", "variable and dimension names of letters, digits and underscores", "files of one run have the same structure, at least one record"]

sys.exit(core.main("C11", ["split_ncvars.pl", "list_ncvars.sh", "list_ncvars"], body))
