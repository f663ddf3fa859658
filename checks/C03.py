"""C03: mppnccombine never destroys data: no clobbering, inputs go only after a complete output, failures are reported."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, combine_lib as cl, random

def body(ck):
    ck.add_mc(core.mc("MC_MppCombine", core.pick("MC_MppCombine.cfg", "MC_MppCombine_deep.cfg"), min_states=1000, timeout=800))
    lays, r = core.gen("MC_MppCombine", "GEN_MppCombine.cfg")
    bad = [l for l in lays if not all(f["present"] and f["sound"] for f in l["files"]) or len({f["nrec"] for f in l["files"]}) > 1 or l["outexists"] or l["numfiles"] != len(l["files"])]
    bad = [l for l in bad if not (l["mode"] == "set" and l["numfiles"] == 0)]
    for l in bad:
        if l["mode"] == "list" and 0 < l["numfiles"] < len(l["files"]):
            l["mode"] = "range"
    random.shuffle(bad)
    gens = [{"lay": l, "seed": "t%d.%d" % (core.SEED, i)} for i, l in enumerate(bad[:core.pick(300, len(bad))])]
    # several records, so that trouble shows up after complete blocks
    for i in range(core.pick(60, 600)):
        gens.append({"lay": None, "seed": "e%d.%d" % (core.SEED, i), "set": {"outexists": i % 3 == 0, "remove": True, "mode": ["set", "range", "list"][i % 3 if i % 2 else 0]}})
    # files of the range that are not part of the set
    for i in range(core.pick(40, 400)):
        gens.append({"lay": None, "seed": "d%d.%d" % (core.SEED, i), "set": {"remove": True, "mode": "range"}, "extra": 1 + i % 2, "seto": {"decoy": True}})
    for i in range(core.pick(40, 400)):
        gens.append({"lay": None, "seed": "u%d.%d" % (core.SEED, i), "set": {"remove": True, "mode": "set"}, "seto": {"decoy": True}})
    cases = core.pmap(run, gens)
    ck.cov["troubled_sets"] = len(gens)
    ck.conform("TR_MppCombine", cases, rerun=cl.reruns(run), chunk=500, describe=lambda c: c["repro"])
    # faults at every modification of the output (and every removal)
    cl.shim()
    base = []
    for i in range(core.pick(10, 60)):
        g = {"lay": None, "seed": "f%d.%d" % (core.SEED, i), "maxn": 4, "fmt": ["classic", "64bit", "nc4c", "classic", "cdf5"][i % 5],
             "set": {"remove": True, "mode": ["set", "range", "list"][i % 3], "k": [1, 0, 2][i % 3]}, "mode": "none", "at": 0}
        if g["fmt"] in ("classic", "64bit"):
            g["seto"] = {"fmtopt": ["", "64"][i % 2], "deflate": 0, "start": 0}
        base.append(g)
    # data larger than the I/O buffers, so that writes fail in the middle of the work
    i = 0; nbig = 0
    while nbig < core.pick(3, 12):
        i += 1
        n = random.choice([36, 40, 44])
        lay = {"ny": n, "nx": n, "k": [1, 0, 2][nbig % 3], "miss": False, "force": False, "mode": ["set", "list", "range"][nbig % 3], "remove": True, "outexists": False, "numfiles": 2,
               "files": [{"present": True, "sound": True, "nrec": 3, "lo": [0, 0, x, 0], "hi": [0, n - 1, x + n // 2 - 1, 1]} for x in (0, n // 2)]}
        g = {"lay": lay, "seed": "B%d.%d" % (core.SEED, i), "seto": {"fmtopt": "64", "deflate": 0, "start": 0, "pad": None}, "mode": "none", "at": 0, "fmt": "64bit"}
        c = cl.make(g)
        if all(v["t"] in cl.nc.CLASSIC_TYPES for v in c["V"]):
            sizes = [v["data"].size * v["data"].dtype.itemsize for v in c["files"][0]["vars"]]
            rec = [v for v in c["V"] if "t" in v["k"] and "x" in v["k"]]
            if sum(v["data"].size for v in c["files"][0]["vars"]) < 9000 and max(sizes) > 20000 and rec:
                base.append(g); nbig += 1
    free = core.pmap(cl.run_fault, base)
    fg = []
    for g, c in zip(base, free):
        pts = list(range(1, c["npoints"] + 1))
        if len(pts) > core.pick(24, 120):
            pts = sorted(set(pts[:8] + pts[-10:] + random.sample(pts, core.pick(10, 100))))
        for k in pts:
            for m in ("full", "kill") + (("once",) if g["fmt"] != "nc4c" and g.get("seto") else ()):
                fg.append(dict(g, mode=m, at=k))
    fc = core.pmap(cl.run_fault, fg)
    ck.cov["fault_points"] = len(fg)
    ck.conform("TR_MppSafe", free + fc, rerun=cl.reruns(cl.run_fault), chunk=600, describe=lambda c: {"run": c["repro"], "events": c["events"]})
    ck.assumptions += ["write failures are reported by the system call (no lost writes)", "a kill loses nothing already written"]

def run(g, d):
    c = cl.make(g)
    if g.get("extra"):
        import copy
        for _ in range(g["extra"]):       # further files in the numbered range, not part of the set
            c["lay"]["files"].append(copy.deepcopy(c["lay"]["files"][-1])); c["files"].append(copy.deepcopy(c["files"][-1])); c["ext"].append(c["ext"][-1])
    r = cl.run_case(c, d)
    r["gen"] = g
    return r

sys.exit(core.main("C03", ["mppnccombine"], body))
