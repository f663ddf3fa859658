"""Cases for combine-ncc, scatter-ncc, decompress-ncc, is-compressed."""
import os, random
import numpy as np
import nc, core
from combine_lib import rvals, sha
from scatter_lib import listing

FILL = {"byte": -127, "short": -32767, "int": -2147483647, "float": np.float32(9.9692099683868690e+36), "double": 9.9692099683868690e+36, "char": b"\0"}
NUM = ["byte", "short", "int", "float", "double"]

def vals(rng, t, n):
    a = rvals(rng, t, n)
    if t in ("float", "double"):        # the tools convert through double: infinities are refused, signalling NaNs excluded
        a = np.where(np.isinf(a), np.dtype(nc.TYPES[t]).type(-3.5), a)
        a = np.where(np.isnan(a), np.dtype(nc.TYPES[t]).type(np.nan), a).astype(nc.TYPES[t])
    return a

def build(g):
    rng = random.Random("land/%s" % g["seed"])
    op = g["op"]; L = g.get("lay")
    fmt = rng.choice(["classic", "64bit", "nc4", "nc4c"])
    if L:
        nlon, nlat, ntile = L["nlon"], L["nlat"], L["ntile"]; idxs = L["idx"]; nfile = len(idxs)
    else:
        nlon, nlat, ntile = rng.randrange(1, 7), rng.randrange(1, 6), rng.randrange(1, 4)
        nfile = 1 if op == "scatter" else rng.choice([1, 2, 2, 3, 3, 4])
        idxs = None
    ncoh = rng.randrange(1, 3)
    def spread(size):
        dens = rng.choice([0, 0.3, 0.6, 1.0])
        cells = [c for c in range(size) if rng.random() < dens]
        how = rng.choice(["block", "any", "shuffle"])
        fs = [[] for _ in range(nfile)]
        for c in cells:
            k = (c % nlon) * nfile // nlon if how == "block" else rng.randrange(nfile)
            fs[k].append(c)
        for f in fs:
            if how == "shuffle": rng.shuffle(f)
            if not f or (how == "shuffle" and rng.random() < 0.3):
                for _ in range(1 if not f else rng.randrange(1, 3)):
                    f.insert(rng.randrange(len(f) + 1), rng.choice([-1, -1, -2147483647, -5]))
        return fs
    cds = [("tile_index", ["tile", "lat", "lon"], idxs or spread(ntile * nlat * nlon))]
    if rng.random() < 0.4:
        cds.append(("cohort_index", ["cohort", "tile", "lat", "lon"], spread(ncoh * ntile * nlat * nlon)))
    if rng.random() < 0.15:
        cds.append(("river_index", ["lat", "lon"], spread(nlat * nlon)))
    hasrec = rng.random() < 0.6
    nrec = rng.randrange(1, 4)
    nz, nb = rng.randrange(1, 4), rng.randrange(1, 3)
    if op == "scatter" and rng.random() < 0.9: nb = 1
    D = [["lon", nlon, False], ["lat", nlat, False], ["tile", ntile, False], ["zfull", nz, False], ["band", nb, False]]
    D += [["cohort", ncoh, False]] if len(cds) > 1 else []
    D += [[c[0], None, False] for c in cds]
    if hasrec: D.append(["time", nrec, True])
    if op == "scatter" and rng.random() < 0.04: D = [d for d in D if d[0] != "lat"] or D
    if not any(d[0] == "lat" for d in D):
        D = [d if d[0] != "band" else ["latitude", nlat, False] for d in D]
        cds = [(a, [("latitude" if q == "lat" else q) for q in b], c) for a, b, c in cds]
    rng.shuffle(D)
    names = [d[0] for d in D]
    V = []
    for a, b, c in cds:
        V.append({"n": a, "t": "int", "d": [a], "a": [["compress", "  ".join(b) if rng.random() < 0.2 else " ".join(b)]], "idx": c})
    for nme in ("lon", "lat", "zfull", "time", "band"):
        if nme in names and (nme == "time" or rng.random() < 0.7):
            V.append({"n": nme, "t": rng.choice(["double", "float", "int"]), "d": [nme], "a": []})
    for k in range(rng.randrange(1, 6)):
        cd = rng.choice(cds)[0]
        rest = [x for x in (["time"] if hasrec and rng.random() < 0.5 else []) + (["zfull"] if rng.random() < 0.4 else []) + (["band"] if "band" in names and nb >= 1 and rng.random() < 0.3 else [])]
        ds = rest + [cd]
        if op != "scatter" and rng.random() < 0.4:
            tail = [x for x in ds if x != "time"]; rng.shuffle(tail)
            ds = [x for x in ds if x == "time"] + tail
        if op == "scatter" and rng.random() < 0.05 and len(ds) > 1:
            ds[-1], ds[-2] = ds[-2], ds[-1]
            if "time" in ds and fmt in ("classic", "64bit", "nc4c"): ds = ["time"] + [x for x in ds if x != "time"]
        V.append({"n": "c%d" % k, "t": rng.choice(NUM), "d": ds, "a": []})
    for k in range(rng.randrange(0, 3)):
        ds = [[], ["zfull"], ["time"], ["time", "zfull"], ["lat" if "lat" in names else "lon", "lon"]][rng.randrange(5 if op != "scatter" or rng.random() < 0.1 else 3)]
        if "time" in ds and not hasrec: continue
        V.append({"n": "u%d" % k, "t": rng.choice(NUM + (["char"] if op == "combine" and "time" not in ds else [])), "d": ds, "a": []})
    if op == "combine" and len(cds) > 1 and rng.random() < 0.05:
        V.append({"n": "two", "t": "float", "d": [cds[0][0], cds[1][0]], "a": []})
    rng.shuffle(V)
    for v in V:
        if "idx" in v:
            if rng.random() < 0.3: v["a"].append(["long_name", "index"])
            continue
        if rng.random() < 0.4: v["a"].append(["long_name", "the %s" % v["n"]])
        if v["t"] != "char":
            def one(): 
                x = vals(rng, v["t"], 1)[0]
                return x if x == x else np.dtype(nc.TYPES[v["t"]]).type(7)
            if rng.random() < 0.35: v["a"].insert(0, ["_FillValue", one()])
            if rng.random() < 0.35: v["a"].append(["missing_value", one()])
            if op == "decompress" and rng.random() < 0.15 and v["n"][0] == "c": v["a"].append(["ocean_fillvalue", one()])
    files = []
    for f in range(nfile):
        size = {d[0]: d[1] for d in D}
        for a, b, c in cds: size[a] = len(c[f])
        dims = [[d[0], size[d[0]], d[2]] for d in D]
        vs = []
        for v in V:
            shp = [size[x] for x in v["d"]]
            data = np.array(v["idx"][f], dtype="i4") if "idx" in v else vals(rng, v["t"], int(np.prod(shp)) if shp else 1).reshape(shp)
            at = list(v["a"])
            vs.append({"name": v["n"], "type": v["t"], "dims": v["d"], "atts": at, "data": data})
        ga = [["file", "number %d" % f], ["levels", np.array([1, f], dtype="i4")]][:rng.randrange(0, 3)]
        files.append({"fmt": fmt, "dims": dims, "vars": vs, "gatts": ga})
    o = {"op": op, "addmiss": op == "decompress" and rng.random() < 0.5}
    if op == "scatter":
        if L: o["nx"], o["ny"] = L["nx"], L["ny"]
        else:
            o["nx"] = rng.choice([k for k in range(1, nlon + 1) if nlon % k == 0]); o["ny"] = rng.choice([k for k in range(1, nlat + 1) if nlat % k == 0])
            if rng.random() < 0.08: o["nx"] = rng.randrange(1, nlon + 2)
    o["verbose"] = rng.random() < 0.1; o["exists"] = rng.random() < 0.2
    return {"files": files, "comp": {a: b for a, b, c in cds}, "o": o}

def tfile(f, comp, tok):
    """projection of a file; index values of compressed dimensions as numbers"""
    p = nc.proj(f, tok)
    dn = {d[0]: i + 1 for i, d in enumerate(f["dims"])}
    for d in p["dims"]:
        d["comp"] = comp.get(d["n"], [])
        d["idx"] = [int(x) for x in nc.getvar(f, d["n"])["data"]] if d["n"] in comp else []
    for v, w in zip(p["vars"], f["vars"]):
        a = dict((k, x) for k, x in w["atts"]); t = w["type"]
        dt = nc.TYPES[t]
        as_ = lambda x: tok.arr(t, np.array([x], dtype=dt))[0]
        v["d"] = [dn[q] for q in v["d"]]
        v["fill"] = as_(a.get("_FillValue", FILL[t]))
        v["hasmiss"] = "missing_value" in a or "_FillValue" in a
        v["missatt"] = {"k": "missing_value", "t": t, "v": nc.att_norm(np.array([FILL[t]], dtype=dt))[1]} if t != "char" else {"k": "", "t": "", "v": ""}
        v["gap"] = as_(a["ocean_fillvalue"] if "ocean_fillvalue" in a else a["missing_value"] if "missing_value" in a else a.get("_FillValue", FILL[t]))
    return p

def load(p, tok):
    try:
        d = nc.read(p)
        x = nc.proj(d, tok); x["ok"] = True
        return x
    except Exception as e:
        return {"ok": False}

def run_gen(g, d):
    c = build(g); o = c["o"]; op = o["op"]
    tok = nc.Tok()
    ins = []
    for k, f in enumerate(c["files"]):
        n = "land.res.nc" if op == "scatter" else "land.res.nc.%04d" % k
        nc.write(os.path.join(d, n), f); ins.append(n)
    if g.get("bad") == "missing": ins[random.Random(str(g)).randrange(len(ins))] = "nothere.nc"
    if g.get("bad") == "broken":
        q = ins[random.Random(str(g)).randrange(len(ins))]
        open(os.path.join(d, q), "wb").write(b"not a netcdf file at all")
    if op == "scatter":
        exp = ["land.res.nc.%04d" % k for k in range(o["nx"] * o["ny"])]
    else:
        exp = ["out.nc"]
    if o["exists"]:
        open(os.path.join(d, exp[0]), "w").write("old")
    open(os.path.join(d, "keep.txt"), "w").write("keep")
    before = {k: v for k, v in listing(d).items() if k not in exp}
    if op == "scatter":
        cmd = [core.tool("scatter-ncc"), "-i", str(o["nx"]), "-j", str(o["ny"])] + (["-D", "1"] if o["verbose"] else []) + ins
    elif op == "combine":
        cmd = [core.tool("combine-ncc")] + (["-v"] if o["verbose"] else []) + ins + exp
    else:
        cmd = [core.tool("decompress-ncc")] + (["-m"] if o["addmiss"] else []) + (["-v", "1"] if o["verbose"] else []) + ins + exp
    r = core.run(cmd, d)
    after = listing(d)
    outs = [load(os.path.join(d, n), tok) for n in exp if os.path.exists(os.path.join(d, n))] if r.rc == 0 else []
    others = {k: v for k, v in after.items() if k not in exp} == before
    rep = " ".join(os.path.basename(x) for x in cmd) + "  [rc=%s %s]" % (r.rc, (r.err + r.out).strip()[-160:])
    isc = []
    def isq(n, want):
        isc.append({"rc": core.run([core.tool("is-compressed"), n], d).rc, "want": want})
    if not g.get("bad"):
        isq(ins[0], True)
        if r.rc == 0: isq(exp[0], op != "decompress")
    else:
        isq("keep.txt", False)
    back = True
    if op == "scatter" and r.rc == 0 and g.get("both"):
        # combining the pieces gives the entries with data back, in ascending order
        r2 = core.run([core.tool("combine-ncc")] + exp + ["back.nc"], d)
        r3 = core.run([core.tool("combine-ncc")] + ins + ["ident.nc"], d)
        try:
            a = nc.proj(nc.read(os.path.join(d, "back.nc")), nc.Tok()); b = nc.proj(nc.read(os.path.join(d, "ident.nc")), nc.Tok())
            back = r2.rc == 0 and r3.rc == 0 and a == b
        except Exception:
            back = False
        rep += " ; combine-ncc of the pieces [rc=%s]" % r2.rc
    if op == "decompress" and r.rc == 0 and g.get("both") and len(ins) > 1:
        # combining first gives the same expanded file
        r2 = core.run([core.tool("combine-ncc")] + ins + ["one.nc"], d)
        r3 = core.run([core.tool("decompress-ncc")] + (["-m"] if o["addmiss"] else []) + ["one.nc", "back.nc"], d)
        try:
            back = r2.rc == 0 and r3.rc == 0 and nc.proj(nc.read(os.path.join(d, "back.nc")), nc.Tok()) == nc.proj(nc.read(os.path.join(d, "out.nc")), nc.Tok())
        except Exception:
            back = False
        rep += " ; combine-ncc then decompress-ncc"
    cfg = {"op": op, "nx": o.get("nx", 1), "ny": o.get("ny", 1), "addmiss": o["addmiss"], "fmt": c["files"][-1]["fmt"], "bad": bool(g.get("bad")),
           "files": [tfile(f, c["comp"], tok) for f in c["files"]],
           "obs": {"rc": r.rc, "outs": outs, "others": others, "isc": isc, "back": back}}
    cfg["repro"] = rep; cfg["gen"] = g
    return cfg
