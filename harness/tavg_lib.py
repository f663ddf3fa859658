"""Cases for timavg."""
import os, random, math
import numpy as np
import nc, core
from scatter_lib import listing
MISS = 99999

def scaled(a, miss, hasmiss):
    """observed values in thousandths; missing and unrepresentable ones marked"""
    out = []
    for x in np.asarray(a, dtype="f8").ravel():
        if hasmiss and x == miss: out.append(MISS * 1000)
        elif not math.isfinite(x) or abs(x) > 2e6: out.append(2000000001)
        else: out.append(int(round(float(x) * 1000)))
    return out

def run_gen(g, d):
    rng = random.Random("ta/%s" % g["seed"])
    nf = g.get("nf") or rng.choice([1, 1, 2, 3, 5])
    many = nf > 100
    fmt = rng.choice(["classic", "64bit", "nc4", "nc4c"])
    bounds = g.get("bounds") or rng.choice(["bounds", "bounds", "bounds", "climatology", "none"])
    climo = g["climo"] if "climo" in g else rng.random() < 0.25
    T = rng.choice(["time", "Time"])
    dims = {"x": rng.choice([1, 2, 3]), "y": rng.choice([1, 2]), "z": 2, "w": 2, "bnds": 2}
    unit = rng.choice(["days", "days", "hours", "seconds"])
    addb = rng.random() < 0.3; mid = g["mid"] if "mid" in g else rng.random() < 0.5
    frac = g["frac"] if "frac" in g else rng.choice([0, 0, 0, 25, 50, 75, 100])
    vs = []
    names = rng.sample(["temp", "u", "q_long_name", "ps", "a1", "snow_T1", "x_DT", "k_NITEMS", "vv", "mask", "cold"], rng.randrange(2, 6))
    for n in names:
        dd = list(rng.choice([[], ["x"], ["y", "x"], ["z", "y", "x"], ["w", "z", "y", "x"]]))
        rec = rng.random() < 0.75
        t = rng.choice(["float", "float", "double", "double", "int", "short", "byte"])
        if n.endswith(("_T1", "_DT", "_NITEMS")): rec, dd, t = True, [], "double"
        mk = rng.choice(["none", "none", "missing_value", "missing_value", "_FillValue", "both"])
        if t == "byte": mk = "none"
        mv = {"float": np.float32(-1e10), "double": -1e10, "int": np.int32(-99999), "short": np.int16(-9999), "byte": None}[t]
        at = []
        if mk in ("missing_value", "both"): at.append(["missing_value", mv])
        if mk in ("_FillValue", "both"): at.append(["_FillValue", mv])
        if rng.random() < 0.5: at.append(["units", "K"])
        cm = rng.choice(["", "", "%s: mean" % T, "area: mean", "%s: max" % T]) if rec else ""
        if cm: at.append(["cell_methods", cm])
        if rng.random() < 0.3: at.append(["time_avg_info", "average_T1,average_T2,average_DT"])
        vs.append({"n": n, "t": t, "d": dd, "rec": rec, "mk": mk != "none", "mv": mv, "at": at, "z": rng.choice([0, 0, 6]) if fmt.startswith("nc4") and dd else 0, "cm": cm})
    if not any(v["rec"] and v["t"] != "byte" and not v["n"].endswith(("_T1", "_DT", "_NITEMS")) for v in vs):
        vs.append({"n": "vv2", "t": "double", "d": ["x"], "rec": True, "mk": False, "mv": -1e10, "at": [], "z": 0, "cm": ""})
    order = ["@time", "@bnds", "@avg"] + [v["n"] for v in vs] + ["@x"]
    if rng.random() < 0.6: rng.shuffle(order)
    if bounds == "none": order.remove("@bnds")
    avg = rng.random() < 0.4
    if not avg: order.remove("@avg")
    if rng.random() < 0.5: order.remove("@x")
    ga = [["title", "t"], ["filename", "orig.nc"]] + ([["comment", "c"]] if rng.random() < 0.3 else [])
    files, names_in = [], []
    t0 = rng.randrange(0, 50)
    statics = {}
    for k in range(nf):
        nr = rng.choice([1, 2, 2, 3, 4, 5]) if "nr" not in g else g["nr"][k % len(g["nr"])]
        ts, bs = [], []
        for q in range(nr):
            w = rng.choice([2, 4, 6, 28, 30])
            bs.append([t0, t0 + w]); ts.append(rng.choice([t0 + w // 2, t0 + w]) if bounds != "none" else t0 + (q + 1) * 2)
            if bounds != "none": t0 += w + (rng.choice([10, 300]) if climo else 0)
        if bounds == "none": t0 = ts[-1]
        x, data = [], {}
        for v in vs:
            m = int(np.prod([dims[q] for q in v["d"]])) if v["d"] else 1
            lo, hi = (-100, 100) if v["t"] == "byte" else (-400, 400)
            rows = [[MISS if v["mk"] and rng.random() < 0.3 else rng.randrange(lo, hi) for _ in range(m)] for _ in range(nr if v["rec"] else 1)]
            if not v["rec"]: rows = statics.setdefault(v["n"], rows)
            x.append(rows)
            a = np.array([[float(v["mv"]) if v["mk"] and e == MISS else e for e in row] for row in rows], dtype=nc.TYPES[v["t"]])
            data[v["n"]] = a.reshape(([nr] if v["rec"] else []) + [dims[q] for q in v["d"]])
        files.append({"t": ts, "b": bs if bounds != "none" else [], "x": x})
        nv = []
        for o in order:
            if o == "@time":
                at = [["units", unit + " since 1980-01-01 00:00:00"], ["calendar", "noleap"]]
                if bounds != "none": at.append([bounds, "time_bnds"])
                nv.append({"name": T, "type": "double", "dims": [T], "atts": at, "data": np.array(ts, dtype="f8")})
            elif o == "@bnds": nv.append({"name": "time_bnds", "type": "double", "dims": [T, "bnds"], "atts": [["units", unit]], "data": np.array(bs, dtype="f8")})
            elif o == "@avg":
                for j, n in enumerate(("average_T1", "average_T2", "average_DT")):
                    nv.append({"name": n, "type": "double", "dims": [T], "atts": [], "data": np.array([b[j] if j < 2 else b[1] - b[0] for b in bs], dtype="f8")})
            elif o == "@x": nv.append({"name": "x", "type": "double", "dims": ["x"], "atts": [["axis", "X"]], "data": np.arange(dims["x"]) + 0.5})
            else:
                v = [q for q in vs if q["n"] == o][0]
                nv.append({"name": o, "type": v["t"], "dims": ([T] if v["rec"] else []) + v["d"], "atts": v["at"], "data": data[o], "zlib": v["z"], "shuffle": 1 if v["z"] else 0})
        nm = "f%02d.nc" % k
        used = set(q for w in nv for q in w["dims"])
        dl = [[T, nr, True]] + [[a, b, False] for a, b in dims.items() if a in used or rng.random() < 0.3]
        nc.write(os.path.join(d, nm), {"fmt": fmt, "dims": dl, "vars": nv, "gatts": ga}); names_in.append(nm)
    here = True
    if not many and rng.random() < 0.04: os.unlink(os.path.join(d, names_in[-1])); here = False
    cmd = [core.tool("timavg"), "-o", "out.nc"]
    if addb: cmd.append("-b")
    if mid: cmd.append("-m")
    if frac: cmd += ["-w", "%.2f" % (frac / 100)]
    if rng.random() < 0.2: cmd.append("-W")
    z = rng.choice([None, None, 0, 5]) if fmt.startswith("nc4") else None
    if z is not None: cmd += ["-z", str(z)]
    if rng.random() < 0.3: open(os.path.join(d, "out.nc"), "w").write("old")
    before = listing(d); before.pop("out.nc", None)
    r = core.run(cmd + names_in, d)
    after = listing(d); after.pop("out.nc", None)
    cfg = {"vars": [{"n": v["n"], "rec": v["rec"], "miss": v["mk"], "int": v["t"] in ("int", "short"), "size": int(np.prod([dims[q] for q in v["d"]])) if v["d"] else 1,
                     "skip": v["t"] == "byte" or v["n"].endswith(("_T1", "_DT", "_NITEMS")), "t": v["t"], "d": ([T] if v["rec"] else []) + v["d"], "a": [{"k": k, "v": av(a)} for k, a in v["at"] if k != "time_avg_info" and not (k == "cell_methods")],
                     "cm": v["cm"].replace(T, "time").split(), "z": (v["z"] if z is None else z) if (v["d"] or v["rec"]) and fmt.startswith("nc4") else 0} for v in vs],
           "files": files, "bounds": bounds, "mid": mid, "addb": addb, "frac": frac, "here": here, "T": T, "hasx": "@x" in order, "fmt": fmt,
           "obs": observe(os.path.join(d, "out.nc"), vs, T, r, after == before)}
    cfg["gen"] = g; cfg["repro"] = " ".join(os.path.basename(q) for q in cmd + names_in) + " [%s, order %s, bounds %s, rc=%s %s]" % (fmt, order, bounds, r.rc, r.err[-150:])
    return cfg

def av(v):
    return v if isinstance(v, str) else "#" + nc.att_norm(v)[1]

def observe(p, vs, T, r, clean):
    o = {"rc": r.rc, "clean": clean, "ok": False, "names": [], "vars": [], "time": [], "tb": [], "tbname": "", "tatt": {"bounds": "", "climatology": ""}, "gatts": [], "fmt": "", "nt": 0, "tcopy": False}
    if r.rc != 0: return o
    try:
        x = nc.read(p)
    except Exception:
        return o
    o["ok"] = True; o["fmt"] = x["fmt"]; o["names"] = ["time_bounds" if v["name"] == T + "_bounds" else v["name"] for v in x["vars"]]
    o["nt"] = [s for n, s, u in x["dims"] if u][0] if any(u for n, s, u in x["dims"]) else 0
    o["gatts"] = [{"k": k, "v": av(v)} for k, v in x["gatts"] if k in ("title", "filename", "comment")]
    t = nc.getvar(x, T)
    if t is not None:
        o["time"] = scaled(t["data"], 0, False)
        for k, v in t["atts"]:
            if k in o["tatt"]: o["tatt"][k] = v
        o["tcopy"] = dict((k, v) for k, v in t["atts"]).get("calendar") == "noleap"
    for n in ("time_bnds", "climatology_bounds", T + "_bounds"):
        b = nc.getvar(x, n)
        if b is not None: o["tbname"] = n.replace(T, "time"); o["tb"] = [scaled(q, 0, False) for q in np.asarray(b["data"]).reshape(-1, 2)]
    for v in vs:
        y = nc.getvar(x, v["n"])
        if y is None: o["vars"].append({"here": False}); continue
        a = np.asarray(y["data"])
        rows = a.reshape((a.shape[0], -1) if v["rec"] else (1, -1)) if a.size else a.reshape(0, 1)
        cm = [w for k, w in y["atts"] if k == "cell_methods"]
        o["vars"].append({"here": True, "t": y["type"], "d": y["dims"], "x": [scaled(q, v["mv"], v["mk"]) for q in rows], "z": y["deflate"],
                          "a": [{"k": k, "v": av(w)} for k, w in y["atts"] if k != "cell_methods"], "cm": (cm[0] if cm else "").replace(T, "time").split()})
    return o

def many_files(g, d):
    names = []
    for k in range(g["n"]):
        n = "f%03d.nc" % k; names.append(n)
        nc.write(os.path.join(d, n), {"fmt": "64bit", "dims": [["time", 1, True]], "gatts": [], "vars": [{"name": "time", "type": "double", "dims": ["time"], "atts": [["units", "days since 1980-01-01"]], "data": np.array([k * 1.0])}, {"name": "v", "type": "double", "dims": ["time"], "atts": [], "data": np.array([k * 2.0])}]})
    r = core.run([core.tool("timavg"), "-o", "out.nc"] + names, d)
    try: nt = len(nc.getvar(nc.read(os.path.join(d, "out.nc")), "v")["data"])
    except Exception: nt = -1
    return {"n": g["n"], "rc": r.rc, "nt": nt}
