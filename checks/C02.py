"""C02: the combined result does not depend on blocking, naming, listing order, or format options."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, combine_lib as cl, random

def body(ck):
    ck.add_mc(core.mc("MC_MppCombine", core.pick("MC_MppCombine.cfg", "MC_MppCombine_deep.cfg"), min_states=1000, timeout=800))
    gens = []
    for i in range(core.pick(26, 300)):
        s = "o%d.%d" % (core.SEED, i)
        for k in (0, 1, 2, 3, 4, 99, 100, 250):
            gens.append({"lay": None, "seed": s, "set": {"k": k, "mode": "set"}})
        for st in (0, 3, 41, 9999):
            for w in (4, 6):
                gens.append({"lay": None, "seed": s, "set": {"mode": random.choice(["set", "range"]), "k": random.choice([0, 1, 2])}, "seto": {"start": st, "width": w}})
        for p in range(3):
            gens.append({"lay": None, "seed": s, "set": {"mode": "list", "k": random.choice([0, 1, 2])}, "perm": p})
        for f in ("classic", "64bit", "nc4c", "nc4"):
            for o in ("", "64", "n4"):
                # the same structure whatever the format: only types every format has
                gens.append({"lay": None, "seed": s + f, "fmt": f, "set": {"k": random.choice([0, 1, 2])},
                             "seto": {"pad": random.choice([None, 0, 17, 100000]), "deflate": 0, "fmtopt": o} if f != "nc4" else {}})
    # more records than the largest block, around the limit of 100
    for i, n in enumerate([99, 100, 101, 205]):
        for k in (0, 1, 50, 100, 101, 300):
            lay = {"ny": 1, "nx": 2, "k": k, "miss": False, "force": False, "mode": "set", "remove": False, "outexists": False, "numfiles": 2,
                   "files": [{"present": True, "sound": True, "nrec": n, "lo": [0, 0, x, 0], "hi": [0, 0, x, 1]} for x in (0, 1)]}
            if core.thorough() or k in (0, 100, 300):
                gens.append({"lay": lay, "seed": "m%d" % i, "set": {"k": k}})
    # a range whose first numbers have no file
    for i in range(core.pick(12, 100)):
        gens.append({"lay": None, "seed": "g%d.%d" % (core.SEED, i), "set": {"mode": "range", "k": random.choice([0, 1, 2])}, "lead": random.randrange(1, 4)})
    cases = core.pmap(run, gens)
    # -x only estimates: nothing is created, nothing is removed
    dry = core.pmap(dryrun, [{"lay": None, "seed": "x%d.%d" % (core.SEED, i), "set": {"remove": True}} for i in range(core.pick(12, 100))])
    for g in dry:
        ck.require(g["same"], "dry run (-x) left the directory as it was", g, "changed: %s" % g["diff"])
    ck.cov["option_variants"] = len(gens); ck.cov["dry_runs"] = len(dry)
    ck.conform("TR_MppCombine", cases, rerun=cl.reruns(run), chunk=500, describe=lambda c: c["repro"])
    ck.assumptions += ["netCDF/HDF5 libraries read and write faithfully"]

def run(g, d):
    if not g.get("lead"):
        return cl.run_gen(g, d)
    c = cl.make(g)
    n = g["lead"]
    import copy
    f0 = {"present": False, "sound": True, "nrec": c["lay"]["files"][0]["nrec"]}
    # absent names in front of the set: same structure, no file
    for _ in range(n):
        c["lay"]["files"].insert(0, dict(copy.deepcopy(c["lay"]["files"][0]), present=False))
        c["files"].insert(0, c["files"][0]); c["ext"].insert(0, c["ext"][0])
    r = cl.run_case(c, d)
    r["gen"] = g
    return r

def dryrun(g, d):
    c = cl.make(g)
    cl.stage(c, d)
    b = {x: cl.sha(os.path.join(d, x)) for x in sorted(os.listdir(d))}
    cmd = cl.command(c); cmd.insert(1, "-x")
    r = core.run(cmd, d)
    a = {x: cl.sha(os.path.join(d, x)) for x in sorted(os.listdir(d))}
    return {"same": a == b and r.rc == 0, "diff": [x for x in set(a) | set(b) if a.get(x) != b.get(x)] + ["rc=%d" % r.rc], "repro": " ".join(cmd)}

sys.exit(core.main("C02", ["mppnccombine"], body))
