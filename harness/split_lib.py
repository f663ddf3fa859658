"""Cases for split_ncvars."""
import os, random, re
import numpy as np
import nc, core
from scatter_lib import listing

VALS = {"byte": lambda r: r.randrange(-100, 100), "short": lambda r: r.randrange(-3000, 3000), "int": lambda r: r.randrange(-10**6, 10**6),
        "float": lambda r: r.uniform(-100, 100), "double": lambda r: r.uniform(-1000, 1000)}
DATA = ["temp", "t", "emp", "u", "sphum", "p", "ua_unmsk", "a", "Temp", "rain2"]

def gen_layout(rng, kind):
    """what every file of the case has in common: dims, axes, companions, variables"""
    L = {"time": rng.choice(["time", "Time", "t_rec"]), "kind": kind}
    atts_z = [["cartesian_axis", "Z"]] if rng.random() < 0.8 else [["axis", "Z"]]
    zname = rng.choice(["z", "pfull", "plev19", "levhalf", "lev", "phalf"])
    yname = rng.choice(["lat", "yh", "latitude"]); xname = rng.choice(["lon", "xh"])
    nz, ny, nx = rng.choice([2, 3]), rng.choice([1, 2, 3]), rng.choice([2, 3])
    dims = [[zname, nz], [yname, ny], [xname, nx], ["nv", 2]]
    edges = rng.random() < 0.3
    if edges: dims.append([zname + "_e", nz + 1])
    sc = rng.random() < 0.25
    if sc: dims.append(["scalar_axis", 1])
    L.update(z=zname, y=yname, x=xname, nv="nv", sc=sc)
    fix = []       # variables without record dimension, the same in every file
    def add(n, t, d, atts, data=None):
        shp = [dict(dims)[q] for q in d]
        a = np.array([VALS[t](rng) for _ in range(int(np.prod(shp)))], dtype=nc.TYPES[t]).reshape(shp) if data is None else data
        fix.append({"name": n, "type": t, "dims": d, "atts": atts, "data": a})
    def units():
        return [["units", rng.choice(["none", "None", "m", "Pa", "degrees"])]]
    bnd = {}
    for n, cart in ((zname, None), (yname, "Y"), (xname, "X")):
        if rng.random() < 0.12 and n != zname: continue       # a dimension without coordinate variable
        at = units() + ([["long_name", n + " axis"]] if rng.random() < 0.5 else [])
        at += atts_z if cart is None else ([[rng.choice(["cartesian_axis", "axis"]), cart]] if rng.random() < 0.8 else [])
        if rng.random() < 0.15 and cart: at += [["axis", cart]] if not any(k == "axis" for k, v in at) else []
        if n == zname and edges: at.append(["edges", zname + "_e"])
        elif rng.random() < 0.5:
            at.append(["bounds", n + "_bnds"]); bnd[n] = n + "_bnds"
        if n == zname and rng.random() < 0.5:
            at.append(["formula_terms", rng.choice(["ap: ap b: b ps: ps", "ap: ap_half b: b_half ps: ps", "p0: pk b: bk ps: ps"])])
        add(n, "double", [n], at)
    if edges: add(zname + "_e", "double", [zname + "_e"], units())
    for n, b in bnd.items():
        if rng.random() < 0.85:
            at = units() if rng.random() < 0.3 else []
            if n == zname and rng.random() < 0.3: at.append(["formula_terms", "ap: ap_bnds b: b_bnds ps: ps"])
            add(b, "double", [n, "nv"], at)
    if rng.random() < 0.3: add("nv", "double", ["nv"], units() + [["cartesian_axis", "N"]])
    if sc and rng.random() < 0.7: add("scalar_axis", "double", ["scalar_axis"], [["cartesian_axis", "N"]])
    allt = set(re.findall(r"\w+:\s+(\w+)", " ".join(str(v) for f in fix for k, v in f["atts"] if k == "formula_terms"))) - {"ps"}
    for t in sorted(allt | ({"pk", "bk"} if rng.random() < 0.5 else set())):
        if rng.random() < 0.9: add(t, "double", [zname], units())
    for g in ("geolat", "geolon"):
        if rng.random() < 0.2: add(g, "float", [yname, xname], units())
    coords = []
    for c in ("height2", "p500", "area_id", "xc"):
        if c == "p500" and zname.startswith("plev"): continue
        if rng.random() < 0.3:
            at = [["units", "Pa"]] if c == "p500" else units()
            if c in ("p500", "xc") and rng.random() < 0.5:
                at.append(["bounds", c + "_bnds"])
                if c == "p500": add("p500_bnds", "double", ["nv"], units())
                else: add("xc_bnds", "double", [yname, xname, "nv"], [])
            add(c, "double", [yname, xname] if c == "xc" else [], at); coords.append(c)
    L["dims"] = dims; L["fix"] = fix
    # record variables
    recs = []
    tat = [["units", "days since 1900-01-01 00:00:00"], ["cartesian_axis", "T"]]
    if rng.random() < 0.6: tat.append(["calendar_type", rng.choice(["NOLEAP", "JULIAN", "THIRTY_DAY_MONTHS"])])
    if rng.random() < 0.4: tat.append(["calendar", rng.choice(["NOLEAP", "noleap", "Julian"])])
    tb = rng.random()
    if tb < 0.4: tat.append(["bounds", L["time"] + "_bnds"]); recs.append({"name": L["time"] + "_bnds", "type": "double", "dims": [L["time"], "nv"], "atts": units()})
    elif tb < 0.5: tat.append(["climatology", "clim_bnds"]); recs.append({"name": "clim_bnds", "type": "double", "dims": [L["time"], "nv"], "atts": units()})
    recs.append({"name": L["time"], "type": "double", "dims": [L["time"]], "atts": tat})
    avg = rng.random() < 0.5
    if avg:
        for n in ("average_T1", "average_T2", "average_DT"):
            recs.append({"name": n, "type": "double", "dims": [L["time"]], "atts": [["units", "days"]]})
    if rng.random() < 0.5 or "pk" in [f["name"] for f in fix]: recs.append({"name": "ps", "type": "float", "dims": [L["time"], yname, xname], "atts": units()})
    pick = rng.sample(DATA, rng.randrange(2, 5))
    def datts(d):
        at = [["long_name", "a variable"]] if rng.random() < 0.6 else []
        at += [["units", rng.choice(["K", "none", "m s-1"])]] if rng.random() < 0.8 else []
        if rng.random() < 0.4: at.append(["missing_value", np.float32(-1e10)])
        if avg and rng.random() < 0.7: at.append(["time_avg_info", "average_T1,average_T2,average_DT"])
        if coords and rng.random() < 0.6:
            cs = rng.sample(coords, rng.randrange(1, len(coords) + 1))
            at.append(["coordinates", " ".join(cs + (["nowhere"] if rng.random() < 0.2 else []))])
        if rng.random() < 0.3: at.append(["cell_measures", rng.choice(["area: areacella", "volume: volcello area: areacello"])])
        if rng.random() < 0.4: at.append(["standard_name", "std_name"])
        return at
    forms = [[zname, yname, xname], [yname, xname], [xname], [], [zname], ["nv"]] + ([["scalar_axis", yname, xname], ["scalar_axis"]] if sc else [])
    stat = []
    for n in pick:
        d = list(rng.choice(forms))
        t = rng.choice(["float", "float", "double", "int", "short"])
        at = datts(d)
        at = [[k, (nc.TYPES and np.array(-1 if t in ("int", "short") else -1e10).astype(nc.TYPES[t])) if k == "missing_value" else v] for k, v in at]
        rec = rng.random() < (0.3 if kind == "static" else 0.8)
        if rec: recs.append({"name": n, "type": t, "dims": [L["time"]] + d, "atts": at})
        elif "scalar_axis" not in d: add(n, t, d, [a for a in at if a[0] != "time_avg_info"])
    rng.shuffle(recs); rng.shuffle(fix)
    L["recs"] = recs; L["fmt"] = rng.choice(["classic", "64bit", "64bit", "nc4c"])
    L["gatts"] = [["title", "x"]] + ([["filename", "orig.nc"]] if rng.random() < 0.7 else [])
    L["names"] = pick
    return L

def mkfile(rng, L, k, drop):
    nt = rng.choice([1, 1, 2, 3])
    dims = [[L["time"], nt, True]] + [[n, s, False] for n, s in L["dims"]]
    vs = [dict(v) for v in L["fix"] if v["name"] not in drop]
    for v in L["recs"]:
        if v["name"] in drop: continue
        shp = [nt] + [dict(L["dims"])[q] for q in v["dims"][1:]]
        w = dict(v); w["data"] = np.array([VALS[v["type"]](rng) for _ in range(int(np.prod(shp)))], dtype=nc.TYPES[v["type"]]).reshape(shp)
        if v["name"] == L["time"]: w["data"] = np.arange(nt) + 10.0 * k + 0.5
        vs.append(w)
    return {"fmt": L["fmt"], "dims": dims, "vars": vs, "gatts": L["gatts"]}

def att(v, n):
    for k, x in v["atts"]:
        if k == n: return x
    return ""

def sv(v):
    return v if isinstance(v, str) else "#" + nc.att_norm(v)[1]

def projfile(d, tok, tname, name):
    b = os.path.basename(name)
    m = re.search(r"(\.tile\d)", b); e = re.search(r"\.nc(.*)", b)
    return {"name": name, "tile": m.group(1) if m else "", "ext": e.group(1), "time": tname,
            "vars": [{"n": v["name"], "t": v["type"], "d": list(v["dims"]), "rec": tname in v["dims"], "x": tok.arr(v["type"], v["data"]), "bounds": att(v, "bounds"), "edges": att(v, "edges"),
                      "climat": att(v, "climatology"), "coords": att(v, "coordinates").split(), "avg": [q for q in att(v, "time_avg_info").split(",") if q], "cellm": [q for q in att(v, "cell_measures").split() if not q.endswith(":")],
                      "terms": re.findall(r"\w+:\s+(\w+)", att(v, "formula_terms")), "a": [{"k": k, "v": sv(x)} for k, x in v["atts"]]} for v in d["vars"]]}

def run_gen(g, d):
    rng = random.Random("split/%s" % g["seed"])
    mode = g.get("mode") or rng.choice(["files", "files", "files", "files", "static", "one"])
    L = gen_layout(rng, mode)
    n = g.get("n") or (1 if mode != "files" else rng.choice([1, 1, 2, 2, 3]))
    form = g.get("form") or rng.choice(["plain", "plain", "plain", "tile", "ext", "mixtile"])
    names = []
    for k in range(n):
        base = "%04d0101.atmos" % (1980 + k)
        names.append(base + {"plain": ".nc", "tile": ".tile3.nc", "ext": ".nc.%04d" % k, "mixtile": ".tile%d.nc" % (k % 2 + 1)}[form])
    idir = rng.random() < 0.3
    cmip, auto = g["cmip"] if "cmip" in g else rng.random() < 0.4, g["auto"] if "auto" in g else rng.random() < 0.2
    ps = rng.random() < 0.2 and mode == "files" and all(any(v["name"] == q for v in L["fix"] + L["recs"]) for q in ("ps", "pk", "bk"))
    if L["z"] in ("plev19", "levhalf") and L["fmt"] == "nc4c": L["fmt"] = "64bit"   # renaming coordinates in netCDF-4 files does not work in the library
    src = os.path.join(d, "in") if idir else d
    os.makedirs(src, exist_ok=True)
    datan = [v["name"] for v in L["recs"] if v["name"] in L["names"]] + [v["name"] for v in L["fix"] if v["name"] in L["names"]]
    drop = [[] for _ in names]
    if n > 1 and rng.random() < 0.3 and datan: drop[rng.randrange(n)] = [rng.choice(datan)]
    tok = nc.Tok(); files = []
    for k, nm in enumerate(names):
        f = mkfile(rng, L, k, drop[k])
        nc.write(os.path.join(src, nm), f)
        files.append(projfile(f, tok, L["time"], nm))
    expl = mode == "one" or rng.random() < 0.5
    lst = []
    recnames = {v["name"] for v in L["recs"]}
    if expl:
        pool = datan if n == 1 and mode != "static" else ([x for x in datan if x in recnames] if mode == "files" else [x for x in datan if x not in recnames or mode == "one"])
        if mode == "one" and not pool: mode = "files"; expl = False
        pool = pool + (["time_bnds"] if rng.random() < 0.1 else []) + (["absent"] if rng.random() < 0.2 else [])
        if not pool or not expl: expl = False
        else: lst = rng.sample(pool, rng.randrange(1, len(pool) + 1))
        if mode == "one" and not set(lst) & set(datan): lst.append(datan[0])
    cmd = [core.tool("split_ncvars.pl")]
    od = rng.choice(["out", "deep/er", "", ".", "./zz", "0d", os.path.join(d, "abs"), "./"]) if mode != "one" else ""
    if od: cmd += ["-o", od]
    if idir: cmd += ["-i", "in"]
    if cmip: cmd += ["--cmip"]
    if auto: cmd += ["-a"]
    if ps: cmd += ["-p"]
    if mode == "static": cmd += ["-s"]
    log = rng.random() < 0.2
    if log: cmd += ["-l"]
    if expl: cmd += ["-v", ",".join(lst)]
    if mode == "one": cmd += ["-f", "one.nc"]
    cmd += names
    before = listing(d)
    r = core.run(cmd, d)
    after = listing(d)
    o = os.path.relpath(os.path.join(d, od), d) if od else "."
    outs, left = [], []
    for root, _, fs in os.walk(d):
        for f in fs:
            p = os.path.relpath(os.path.join(root, f), d)
            if p in before or (idir and p.startswith("in/")): continue
            if os.path.normpath(os.path.dirname(p) or ".") == os.path.normpath(o) and ".nc" in f and not f.startswith("."):
                outs.append(load(os.path.join(d, p), f, tok))
            elif f == "README" and log: pass
            else: left.append(p)
    readme = []
    if log:
        try:
            for ln in open(os.path.join(d, o, "README")):
                m = re.match(r"^ *(\S*) = (.*) \((.*)\)$", ln); readme.append(list(m.groups()) if m else ["?", ln, ""])
        except OSError: readme = [["no README", "", ""]]
    same = all(after.get(k) == before[k] for k in before)
    cfg = {"files": files, "list": lst, "given": expl, "static": mode == "static", "one": mode == "one", "cmip": cmip, "auto": auto, "ps": ps, "log": log,
           "hasfn": any(k == "filename" for k, v in L["gatts"]), "exts": {x["f"]: sorted({w for a in x["gatts"] if a["k"] == "external_variables" for w in a["v"].split()}) for x in outs},
           "obs": {"rc": r.rc, "outs": outs, "left": left, "same": same, "readme": readme}, "gen": g}
    cfg["repro"] = "%s (files: %s) rc=%s err=%s" % (" ".join(os.path.basename(x) for x in cmd), [["%s(%s)" % (v["n"], ",".join(v["d"])) for v in f["vars"]] for f in files][:1], r.rc, r.err[-200:])
    return cfg

def load(p, f, tok):
    try:
        x = nc.read(p)
        return {"f": f, "ok": True, "gatts": [{"k": k, "v": sv(v)} for k, v in x["gatts"]],
                "vars": [{"n": v["name"], "t": v["type"], "d": list(v["dims"]), "x": tok.arr(v["type"], v["data"]), "a": [{"k": k, "v": sv(q)} for k, q in v["atts"]]} for v in x["vars"]],
                "rec": [n for n, s, u in x["dims"] if u]}
    except Exception as e:
        return {"f": f, "ok": False, "gatts": [], "vars": [], "rec": []}
