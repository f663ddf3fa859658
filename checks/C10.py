"""C10: list_ncvars and ncexists answer exactly."""
import sys, os; sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "harness"))
import core, random, nc
import numpy as np
from combine_lib import reruns
from scatter_lib import listing

NM = ["a", "b", "t1", "T1", "_T1", "T2", "DT", "q_DT", "temp_T1", "temp_T2", "average_DT", "x_NITEMS", "NITEMS", "_NITEMS", "T1_x", "p_t1", "sphum", "v_DTx", "Z", "m_NITEM", "ab", "a_b"]
def aname(rng):
    """names around the endings that are left out"""
    e = rng.choice(["_T1", "_T2", "_DT", "_NITEMS", "T1", "_t2", "_dt", "_Nitems", "_T3", "_D", "_NITEM", ""])
    return rng.choice(["", "a", "t", "temp", "average", "x_T1", "b_DT", "q_NITEMS"]) + e + rng.choice(["", "", "x", "_b", "1", "_", "_T1"]) or "n"
def mkfile(rng, d, name):
    fmt = rng.choice(["classic", "64bit", "nc4", "nc4c", "cdf5"])
    hasrec = rng.random() < 0.75
    dims = [["time", rng.choice([0, 1, 2]), True]] if hasrec else []
    dims += [[n, rng.randrange(1, 3), False] for n in ("x", "y", "z", "w")]
    rng.shuffle(dims)
    names = rng.sample(NM + ["time", "x", "y"], rng.randrange(1, 12))
    for _ in range(rng.randrange(0, 6)):
        n = aname(rng)
        if n not in names: names.insert(rng.randrange(len(names) + 1), n)
    vs, proj = [], []
    for n in names:
        rec = hasrec and rng.random() < 0.5
        k = rng.randrange(0, 5)
        ds = rng.sample(["x", "y", "z", "w"], k); 
        if n == "x" or n == "y": ds, rec = [n], False
        if n == "time":
            if not hasrec: continue
            ds, rec = [], True
        t = rng.choice(nc.CLASSIC_TYPES)
        dd = (["time"] if rec else []) + ds
        shp = [dict((a, b) for a, b, c in dims)[q] for q in dd]
        at = [[a, "v"] for a in ("units", "long_name", "axis") if rng.random() < 0.4]
        vs.append({"name": n, "type": t, "dims": dd, "atts": at, "data": np.zeros(shp, dtype=nc.TYPES[t])})
        proj.append({"n": n, "char": t == "char", "rec": rec, "rank": len(ds), "atts": [a for a, b in at]})
    ga = [[a, "v"] for a in ("title", "units", "history") if rng.random() < 0.5]
    nc.write(os.path.join(d, name), {"fmt": fmt, "dims": dims, "vars": vs, "gatts": ga})
    return {"here": True, "nc": True, "gatts": [a for a, b in ga], "vars": proj}

def run_gen(g, d):
    rng = random.Random("in/%s" % g["seed"])
    n = rng.choice([1, 1, 2, 3]) if g["op"] == "list" else 1
    names = ["f%d.nc" % k for k in range(n)]
    files = [mkfile(rng, d, m) for m in names]
    bad = rng.random()
    k = rng.randrange(n)
    if bad < 0.07:
        os.unlink(os.path.join(d, names[k])); files[k] = {"here": False, "nc": False, "gatts": [], "vars": []}
    elif bad < 0.14:
        open(os.path.join(d, names[k]), "w").write("CDX not netcdf"); files[k] = {"here": True, "nc": False, "gatts": [], "vars": []}
    q = {"g": "", "v": "", "a": ""}; o = {"s": False, "t": False, "ranks": []}
    before = listing(d)
    if g["op"] == "list":
        if "s" in g: o = {k: g[k] for k in ("s", "t", "ranks")}
        else: o = {"s": rng.random() < 0.6, "t": rng.random() < 0.6, "ranks": sorted(rng.sample(range(5), rng.randrange(0, 6)))}
        cmd = [core.tool("list_ncvars.sh")]
        fl = (["s"] if o["s"] else []) + (["t"] if o["t"] else []) + [str(x) for x in o["ranks"]]
        rng.shuffle(fl)
        cmd += (["-" + "".join(fl)] if rng.random() < 0.5 else ["-" + x for x in fl]) if fl else []
        cmd += names
        r = core.run(cmd, d)
        said = r.out.split() if r.rc == 0 else []
    else:
        vn = [x["n"] for x in files[0]["vars"]]
        if rng.random() < 0.3: q["g"] = rng.choice(["title", "units", "history", "axis", "titl"])
        elif rng.random() < 0.93:
            q["v"] = rng.choice(vn + NM) if vn else "a"
            if rng.random() < 0.6: q["a"] = rng.choice(["units", "long_name", "axis", "title"])
            if vn and rng.random() < 0.6:
                x = rng.choice([files[0]["vars"][0], files[0]["vars"][-1], rng.choice(files[0]["vars"])])
                q["v"] = x["n"] + rng.choice(["", "", "", "", "x"])
                if x["atts"] and rng.random() < 0.7: q["a"] = rng.choice(x["atts"]) + rng.choice(["", "", "", "", "s"])
        elif rng.random() < 0.5: q["a"] = "units"
        long = rng.random() < 0.3
        cmd = [core.tool("ncexists"), "--filename" if long else "-f", names[0]]
        if q["g"]: cmd += ["--global" if long else "-g", q["g"]]
        if q["v"]: cmd += ["--variable" if long else "-v", q["v"]]
        if q["a"]: cmd += ["--attribute" if long else "-a", q["a"]]
        r = core.run(cmd, d)
        said = r.out.split() if r.rc == 0 else []
    cfg = dict(op=g["op"], files=files, q=q, obs={"rc": r.rc, "said": said, "clean": listing(d) == before}, **o)
    cfg["repro"] = " ".join(os.path.basename(x) for x in cmd) + " files %s [rc=%s: %s]" % ([[(v["n"], v["rank"], v["rec"], v["char"]) for v in f["vars"]] for f in files], r.rc, r.out.split()[:20]); cfg["gen"] = g
    return cfg

def body(ck):
    ck.add_mc(core.mc("MC_Inspect", "MC_Inspect.cfg", min_states=1000, timeout=800))
    lays, r = core.gen("MC_Inspect", "GEN_Inspect.cfg")
    gens = [dict(op="list", seed="%d.%d.%d" % (core.SEED, i, j), **l) for i, l in enumerate(lays) for j in range(core.pick(6, 60))]
    gens += [{"op": "list", "seed": "l%d.%d" % (core.SEED, i)} for i in range(core.pick(250, 3000))]
    gens += [{"op": "exists", "seed": "e%d.%d" % (core.SEED, i)} for i in range(core.pick(450, 4000))]
    cases = core.pmap(run_gen, gens)
    ck.cov["option_sets_from_TLC"] = len(lays); ck.cov["cases"] = len(gens)
    ck.conform("TR_Inspect", cases, rerun=reruns(run_gen), chunk=500, describe=lambda c: c["repro"])
    ck.assumptions += ["the record dimension is a variable's first dimension", "at most four dimensions besides the record"]

sys.exit(core.main("C10", ["list_ncvars", "list_ncvars.sh", "ncexists"], body))
