"""C17: make_hgrid, cubed-sphere tiles and nests."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, hgrid_lib as hl
from combine_lib import reruns

def body(ck):
    ck.add_mc(core.mc("MC_Hgrid", core.pick("MC_Hgrid.cfg", "MC_Hgrid_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_Hgrid", "GEN_Hgrid.cfg")
    gens = [dict(seed="%d.%d" % (core.SEED, i), **l) for i, l in enumerate(lays)]
    if not core.thorough(): gens = gens[core.SEED % 2::2]
    nl = len(gens)
    gens += [{"seed": "s%d.%d" % (core.SEED, i)} for i in range(core.pick(200, 5000))]
    cases = core.pmap(hl.run_gen, gens)
    ck.cov["replayed_from_TLC"] = nl; ck.cov["random_cases"] = len(gens) - nl
    ck.cov["nests"] = sum(len(c["nests"]) for c in cases); ck.cov["rings"] = sum(1 for c in cases if c["ring"])
    ck.conform("TR_Hgrid", cases, rerun=reruns(hl.run_gen), chunk=30, describe=lambda c: c["repro"])
    ck.assumptions += ["supergrids of 2 to 10 cells per edge, nests of at most 24; places compared to 1e-6 rad, lengths to 2e-8 and areas to 3e-9 of the sphere; global refinement (parent_tile 0) is not covered"]

sys.exit(core.main("C17", ["make_hgrid"], body))
