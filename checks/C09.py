"""C09: combine_restarts and iceberg_comb.sh."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, restart_lib as rl, random
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Restarts", core.pick("MC_Restarts.cfg", "MC_Restarts_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Restarts", "GEN_Restarts.cfg")
    random.shuffle(lays)
    n = core.pick(180, len(lays))
    gens = [dict(op=l["op"], seed="%d.%d" % (core.SEED, i), **({"sets": l["sets"], "dry": l["dry"], "remove": l["remove"]} if l["op"] == "restarts" else {"ins": l["ins"]})) for i, l in enumerate(lays[:n])]
    gens += [{"op": "restarts", "seed": "r%d.%d" % (core.SEED, i)} for i in range(core.pick(160, 1500))]
    gens += [{"op": "iceberg", "seed": "i%d.%d" % (core.SEED, i)} for i in range(core.pick(140, 1500))]
    cases = core.pmap(rl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = len(lays[:n]); ck.cov["random_cases"] = len(gens) - len(lays[:n])
    ck.cov["failing_runs"] = sum(1 for c in cases if c["obs"]["rc"] != 0)
    ck.conform("TR_Restarts", cases, rerun=reruns(rl.run_gen), chunk=400, describe=lambda c: c["repro"])
    ck.assumptions += ["ncdump, ncrcat and ncatted work", "file names without blanks or shell metacharacters other than those of regular expressions", "what the combined content is, is decided by the tool called (C01, C06)"]

sys.exit(core.main("C09", ["combine_restarts", "iceberg_comb.sh", "mppnccombine", "combine-ncc", "is-compressed"], body))
