"""Cases for mppncscatter (alone, and followed by mppnccombine)."""
import os, random, hashlib
import numpy as np
import nc, core
from combine_lib import rvals, sha

EAST = ["degrees_east", "degree_east", "degrees_E", "Degree_E", "degreesE", "degreeE", "DEGREES_EAST"]
NORTH = ["degrees_north", "degree_north", "degrees_N", "degree_n", "degreesN", "degreeN", "Degrees_North"]

def build(g):
    rng = random.Random("sc/%s" % g["seed"])
    fmt = g.get("fmt") or rng.choice(["classic", "64bit", "nc4", "nc4c"])
    types = nc.CLASSIC_TYPES
    L = g.get("lay")
    if L:
        nt, ny, nx, nz = L["lens"]
        o = {k: L[k] for k in ("nx", "ny", "nxio", "nyio", "dry")}
        how = L["how"]
    else:
        nt, ny, nx, nz = rng.choice([0, 1, 2, 3]), rng.randrange(1, 11), rng.randrange(1, 11), rng.randrange(1, 4)
        dx, dy = rng.randrange(1, min(nx, 5) + 1), rng.randrange(1, min(ny, 5) + 1)
        o = {"nx": dx, "ny": dy, "nxio": 0, "nyio": 0, "dry": rng.random() < 0.04}
        if rng.random() < 0.4:
            o["nxio"] = rng.choice([k for k in range(1, dx + 1) if dx % k == 0]); o["nyio"] = rng.choice([k for k in range(1, dy + 1) if dy % k == 0])
            if rng.random() < 0.1:
                o["nxio"] = rng.randrange(1, dx + 2)
        if rng.random() < 0.1 and not g.get("both"):
            o["nx"] = nx + rng.randrange(1, 3)       # more divisions than points
            o["nxio"] = o["nyio"] = 0
        how = rng.choice(["units", "axis", "list", "mixed"])
    hasrec = bool(L) or nt != 1 or rng.random() < 0.8
    D = []
    X = rng.choice(["x", "lon", "grid_xt"]); Y = rng.choice(["y", "lat", "grid_yt"])
    def axatts(kind, h):
        a = []
        if h == "units":
            a.append(["units", rng.choice(EAST if kind == "x" else NORTH)])
            if rng.random() < 0.3: a.append(["cartesian_axis", rng.choice(["Y", "Z", "N"] if kind == "x" else ["X", "Z"])])
        elif h == "axis":
            if rng.random() < 0.6: a.append(["units", rng.choice(["m", "degrees", "degree", "none", "1", "deg", "degrees_"])])
            a.append(["cartesian_axis", rng.choice(["X", "x"] if kind == "x" else ["Y", "y"])])
        else:
            if rng.random() < 0.5: a.append(["units", rng.choice(["m", "degrees_north" if kind == "x" else "degrees_east"])])
        return a
    if hasrec:
        D.append(["t", "time", nt, True, axatts("x", "units") if rng.random() < 0.1 else [["units", "days since 2000-01-01"], ["cartesian_axis", "T"]]])
    hx = how if how != "mixed" else rng.choice(["units", "axis", "list"]); hy = how if how != "mixed" else rng.choice(["units", "axis", "list"])
    D.append(["y", Y, ny, False, axatts("y", hy)]); D.append(["x", X, nx, False, axatts("x", hx)])
    D.append(["z", "pfull", nz, False, [["units", rng.choice(["hPa", "degrees", "m"])], ["cartesian_axis", "Z"]] if rng.random() < 0.6 else [["units", rng.choice(["degrees", "degree", "m", "k"])]]])
    if rng.random() < 0.35:
        D.append(["yu", Y + "_u", ny + 1, False, axatts("y", hy)]); D.append(["xu", X + "_u", nx + 1, False, axatts("x", hx)])
    if rng.random() < 0.3:
        D.append(["n", "nv", 2, False, None])
    rng.shuffle(D)
    key = {d[0]: d for d in D}
    xl = [d[1] for d in D if d[0] in ("x", "xu")] if hx == "list" else []
    yl = [d[1] for d in D if d[0] in ("y", "yu")] if hy == "list" else []
    if rng.random() < 0.2 and xl: xl.append("nosuch")
    if rng.random() < 0.2 and xl and hasrec: xl.append("time")
    coordless = hx == "list" and not g.get("both") and rng.random() < 0.15
    V = []
    for d in D:
        if d[0] == "n" or (coordless and d[0] == "x") or (d[0] == "z" and rng.random() < 0.2):
            d[4] = None; continue
        V.append({"n": d[1], "t": rng.choice(["double", "float"]), "k": [d[0]], "a": [list(x) for x in d[4]]})
    sp = [["y", "x"], ["z", "y", "x"], ["x"], ["y"], ["z"], [], ["x", "y"], ["x", "z"], ["z", "z", "y", "x"], ["y", "z", "x", "z"], ["z", "z", "y", "x", "z"], ["z", "z", "z", "y", "x"]]
    if "xu" in key: sp += [["yu", "xu"], ["y", "xu"], ["yu", "x"], ["z", "yu", "xu"]]
    if "n" in key: sp += [["x", "n"], ["y", "n"], ["n"]]
    for q in range(rng.randrange(3, 8)):
        k = rng.choice(sp)
        if hasrec and rng.random() < 0.55: k = ["t"] + k
        V.append({"n": "v%d" % q, "t": rng.choice(types), "k": k, "a": []})
    rng.shuffle(V)
    dims = [[d[1], d[2], d[3]] for d in D]
    vs = []
    for v in V:
        a = list(v["a"])
        if rng.random() < 0.5: a.append(["long_name", "the %s" % v["n"]])
        if v["n"][0] == "v" and rng.random() < 0.4 and v["t"] != "char":
            a.append(["missing_value", rvals(rng, v["t"], 1)[0]])
        if v["n"][0] == "v" and rng.random() < 0.3 and v["t"] != "char":
            a.insert(0, ["_FillValue", rvals(rng, v["t"], 1)[0]])
        if rng.random() < 0.3: a.append(["valid_range", np.array([1.5, 2.5], dtype="f4")])
        shp = [key[k][2] for k in v["k"]]
        vs.append({"name": v["n"], "type": v["t"], "dims": [key[k][1] for k in v["k"]], "atts": a,
                   "data": rvals(rng, v["t"], int(np.prod(shp)) if shp else 1).reshape(shp)})
    ga = [["title", "whole"], ["levels", np.array([1, 2, 3], dtype="i4")], ["history", "made up"]]
    rng.shuffle(ga); ga = ga[:rng.randrange(0, 4)]
    o.update(start=rng.choice([0, 0, 0, 5, 100]), width=rng.choice([4, 4, 4, 6, 2]), prefix=rng.choice([None, None, "parts"]),
             sub=rng.random() < 0.2, verbose=rng.random() < 0.1)
    if g.get("both"):
        o["width"] = rng.choice([4, 6]); o["dry"] = False
    return {"f": {"fmt": fmt, "dims": dims, "vars": vs, "gatts": ga}, "o": o, "xl": xl, "yl": yl}

def slim(d, tok):
    """projection with NumFilesInSet / domain_decomposition as numbers"""
    p = nc.proj(d, tok)
    nfs = [v for k, v in d.get("gatts", []) if k == "NumFilesInSet"]
    try:
        p["nfs"] = int(np.asarray(nfs[0]).ravel()[0]) if len(nfs) == 1 else -1
    except Exception:
        p["nfs"] = -2
    p["gatts"] = [a for a in p["gatts"] if a["k"] != "NumFilesInSet"]
    for v, w in zip(p["vars"], d["vars"]):
        dd = [a for k, a in w.get("atts", []) if k == "domain_decomposition"]
        v["a"] = [a for a in v["a"] if a["k"] != "domain_decomposition"]
        try:
            v["dd"] = [int(x) for x in np.asarray(dd[0]).ravel()] if dd else []
        except Exception:
            v["dd"] = [-1]
    return p

def run_gen(g, d):
    c = build(g); o = c["o"]; f = c["f"]
    tok = nc.Tok()
    sub = "in" if o["sub"] else "."
    os.makedirs(os.path.join(d, sub), exist_ok=True)
    src = os.path.join(sub, "whole.nc")
    nc.write(os.path.join(d, src), f)
    odir = o["prefix"] or "."
    os.makedirs(os.path.join(d, odir), exist_ok=True)
    name = lambda i: os.path.join(odir, "whole.nc.%0*d" % (o["width"], i + o["start"]))
    n = (o["nxio"] * o["nyio"]) if o["nxio"] and o["nyio"] else o["nx"] * o["ny"]
    open(os.path.join(d, odir, "keep.txt"), "w").write("keep")
    open(os.path.join(d, name(n)), "w").write("keep")
    before = listing(d)
    cmd = [core.tool("mppncscatter"), "-x", str(o["nx"]), "-y", str(o["ny"])]
    if o["nxio"]: cmd += ["-i", str(o["nxio"])]
    if o["nyio"]: cmd += ["-j", str(o["nyio"])]
    if o["dry"]: cmd.append("-n")
    if o["start"]: cmd += ["-s", str(o["start"])]
    if o["width"] != 4: cmd += ["-w", str(o["width"])]
    if o["prefix"]: cmd += ["-p", o["prefix"]]
    if o["verbose"]: cmd.append("-V")
    if c["xl"]: cmd += ["-X", ",".join(c["xl"])]
    if c["yl"]: cmd += ["-Y", ",".join(c["yl"])]
    cmd.append("./" + src if o["sub"] else src)
    r = core.run(cmd, d)
    after = listing(d)
    exp = {os.path.normpath(name(i)) for i in range(n)}
    pieces = []
    for i in range(n):
        p = os.path.join(d, name(i))
        if not os.path.exists(p):
            break
        pieces.append(load(p, tok))
    newf = {k for k in after if k not in before}
    others = all(after.get(k) == before[k] for k in before) and (newf <= exp or r.rc != 0)
    if r.rc != 0: pieces = []
    if o["dry"]: others = others and not newf
    p = slim(f, tok)
    coord = {v["name"]: v for v in f["vars"]}
    def att(nm, k):
        a = [x for q, x in coord[nm]["atts"] if q == k] if nm in coord else []
        return a[0].lower() if a and isinstance(a[0], str) else ""
    idx = {x[0]: i + 1 for i, x in enumerate(f["dims"])}
    cfg = {"dims": [{"n": a, "s": s, "u": u, "coord": a in coord, "units": att(a, "units"), "axis": att(a, "cartesian_axis")} for a, s, u in f["dims"]],
           "vars": [{"n": v["n"], "t": v["t"], "d": [idx[q] for q in v["d"]], "a": v["a"], "x": v["x"]} for v in p["vars"]],
           "gatts": p["gatts"], "fmt": f["fmt"], "xdims": c["xl"], "ydims": c["yl"], "nx": o["nx"], "ny": o["ny"], "nxio": o["nxio"], "nyio": o["nyio"],
           "dry": o["dry"], "both": bool(g.get("both")),
           "obs": {"rc": r.rc, "pieces": pieces, "others": others, "crc": 0, "back": {"ok": False}}}
    rep = " ".join(os.path.basename(x) for x in cmd) + "  [rc=%s %s]" % (r.rc, r.err.strip()[-160:])
    if g.get("both") and r.rc == 0 and not o["dry"]:
        os.unlink(os.path.join(d, name(n)))
        k = random.Random("cb/%s" % g["seed"]).choice([[], ["-k", "0"], ["-k", "2"], ["-m"]])
        cmd2 = [core.tool("mppnccombine")] + k + (["-n", str(o["start"])] if o["start"] else []) + [os.path.join(d, "back.nc")]
        cmd2 += [os.path.join(d, name(i)) for i in range(n)]
        r2 = core.run(cmd2, d)
        cfg["obs"]["crc"] = r2.rc
        cfg["obs"]["back"] = load(os.path.join(d, "back.nc"), tok)
        rep += " ; " + " ".join(os.path.basename(x) for x in cmd2[:6]) + " [rc=%s]" % r2.rc
    cfg["repro"] = rep; cfg["gen"] = g
    return cfg

def load(p, tok):
    try:
        x = slim(nc.read(p), tok); x["ok"] = True
    except Exception as e:
        x = {"ok": False}
    return x

def listing(d):
    res = {}
    for b, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            res[os.path.normpath(os.path.relpath(p, d))] = sha(p)
    return res
