"""Cases for fregrid: first-order conservative remapping between tiles of lat-lon boxes."""
import os, random, math, json
import numpy as np, netCDF4
import nc, core, grid_lib as gl
from scatter_lib import listing
MISS = 99999
R2 = 6371000.0 ** 2

def cutp(rng, a, b, maxw, p=0.5):
    """random edges from a to b with no piece wider than maxw"""
    e = [a]
    while e[-1] < b:
        w = rng.randrange(1, max(2, min(maxw, b - e[-1]) + 1))
        if rng.random() < p and w < maxw: w = min(maxw, w + 1)
        e.append(min(b, e[-1] + w))
    return e

def tiles(rng, N, S, nt, lo=None, full=False):
    """a set of non-overlapping tiles, each with its own edges"""
    a = rng.randrange(-N // 2, N // 2 + 1) if lo is None else lo
    W = N if full or rng.random() < 0.6 else rng.randrange(max(2, N // 3), N + 1)
    k0, k1 = (-S, S) if full or rng.random() < 0.5 else sorted(rng.sample(range(-S, S + 1), 2))
    boxes = [(a, a + W, k0, k1)]
    while len(boxes) < nt:
        b = max(boxes, key=lambda q: (q[1] - q[0]) * (q[3] - q[2]))
        if b[1] - b[0] >= 2 and (b[3] - b[2] < 2 or rng.random() < 0.5):
            c = rng.randrange(b[0] + 1, b[1]); two = [(b[0], c, b[2], b[3]), (c, b[1], b[2], b[3])]
        elif b[3] - b[2] >= 2:
            c = rng.randrange(b[2] + 1, b[3]); two = [(b[0], b[1], b[2], c), (b[0], b[1], c, b[3])]
        else: break
        boxes.remove(b); boxes += two
    rng.shuffle(boxes)
    mw = max(1, N // 4)
    return [{"lon": cutp(rng, b[0], b[1], min(mw, rng.choice([1, 2, 3, 5])) if b[1] - b[0] < 9 else min(mw, rng.choice([2, 3, 4, 5]))), "lat": cutp(rng, b[2], b[3], rng.choice([1, 2, 3, 4]))} for b in boxes], a

def ncell(t): return (len(t["lon"]) - 1) * (len(t["lat"]) - 1)
def areas(t): return [(l1 - l0) * (k1 - k0) for k0, k1 in zip(t["lat"], t["lat"][1:]) for l0, l1 in zip(t["lon"], t["lon"][1:])]
def tilemeta(t, N, S, centre=None):
    ld = [gl.latdeg(k, S) for k in t["lat"]]
    return dict(t, laty=[int(round(v * 1000)) for v in ld], latc=[int(round((a + b) / 2 * 1000)) for a, b in zip(ld, ld[1:])])

def scaled(a, mv, sc):
    out = []
    for x in np.asarray(a, dtype="f8").ravel():
        if mv is not None and x == mv: out.append(MISS)
        elif not math.isfinite(x) or abs(x) > 1e6: out.append(2000000001)
        else: out.append(int(round(float(x) * sc)))
    return out

def mk(g):
    rng = random.Random("rg/%s" % g["seed"])
    N = g.get("N") or rng.choice([8, 12, 20, 24]); S = g.get("S") or rng.choice([2, 4, 6])
    if "tin" in g: N, S = 8, 2
    byname = "tin" not in g and rng.random() < 0.25
    if "tin" in g: tin, tout = g["tin"], g["tout"]
    else:
        if byname: S = rng.choice([2, 4, 6])
        tin, a = tiles(rng, N, S, rng.choice([1, 1, 1, 2, 3, 6]))
        if byname:
            W = rng.choice([N, N, N // 2]); b = rng.choice([0, 0, a]); n = rng.choice([x for x in range(1, W + 1) if W % x == 0 and W // x <= N / 4])
            h = S // 2
            lat = rng.choice([[-S, 0, S], [-S, -h, h, S], [-h, 0, h], [-h, h, S], [-S, -h, h], [0, h]] + ([[-S, S]] if S < 7 else []))
            tout = [{"lon": [b + W // n * i for i in range(n + 1)], "lat": lat}]
        elif rng.random() < 0.1: tout = tin
        else: tout, _ = tiles(rng, N, S, rng.choice([1, 1, 1, 2, 3]), lo=rng.randrange(a - N // 2, a + N // 2 + 1))
    target = rng.random() < 0.15
    nt = rng.choice([1, 2, 3]); nz = rng.choice([1, 2, 3]); nn = 2
    hasT = rng.random() < 0.8
    k0, k1 = (1, nz) if rng.random() < 0.6 else sorted(rng.choices(range(1, nz + 1), k=2))
    ksel = (k0, k1) != (1, nz) or rng.random() < 0.1
    l0, l1 = (1, nt) if rng.random() < 0.6 else sorted(rng.choices(range(1, nt + 1), k=2))
    lsel = (l0, l1) != (1, nt) or rng.random() < 0.1
    if not hasT: l0, l1, lsel, nt = 1, 1, False, 1
    names = rng.sample(["temp", "u", "precip_total", "q", "a1", "SST"], rng.randrange(1, 4))
    fields = []
    wtd = not target and rng.random() < 0.2
    anymeas = rng.random() < 0.25
    for n in names:
        T = hasT and rng.random() < 0.8; Z = rng.random() < 0.5; nd = 2 if rng.random() < 0.15 else 1
        kind = g.get("kind") or ("meas" if anymeas and rng.random() < 0.6 else rng.choice(["mean", "mean", "mean", "sum"]))
        t = rng.choice(["float", "double", "double", "int", "short"]) if kind == "mean" else "double"
        packed = t in ("short", "int", "float") and rng.random() < 0.3
        mk_ = rng.choice(["none", "none", "missing_value", "_FillValue", "both"])
        if kind == "sum" and target: kind = "mean"
        lo, hi = (0, 1) if rng.random() < 0.1 else (-9, 20)
        const = rng.random() < 0.15
        cv = rng.randrange(-9, 20)
        ns = (nt if T else 1) * nd * (nz if Z else 1)
        x = [[[MISS if mk_ != "none" and rng.random() < 0.25 else (cv if const else rng.randrange(lo, hi)) for _ in range(ncell(q))] for q in tin] for _ in range(ns)]
        mT = T and rng.random() < 0.4
        m = [[[rng.randrange(0, 10) for _ in range(ncell(q))] for q in tin] for _ in range(nt if mT else 1)] if kind == "meas" else []
        sc, of = (rng.choice([0, 2, 5]), 0 if target else rng.choice([0, 0, 7, -3])) if packed else (0, 0)
        fields.append({"n": n, "t": t, "T": T, "Z": Z, "nn": nd, "kind": kind, "x": x, "mT": mT, "m": m, "mk": mk_, "sc": sc, "of": of, "vol": kind == "meas" and rng.random() < 0.3, "cm": rng.choice(["mean", "none", "time"]) if kind != "sum" else "sum"})
    if any(f["kind"] == "meas" for f in fields) and wtd and rng.random() < 0.5: wtd = False
    wt = [[rng.choice([0, 1, 1, 2, 3]) for _ in range(ncell(q))] for q in tin] if wtd else []
    return dict(rng=rng, N=N, S=S, tin=tin, tout=tout, byname=byname, target=target, nt=nt, nz=nz, hasT=hasT, k0=k0, k1=k1, ksel=ksel, l0=l0, l1=l1, lsel=lsel, fields=fields, wt=wt)

MV = {"float": -999.0, "double": -1e20, "int": -99999, "short": -9999}

def stage(c, d):
    rng = c["rng"]
    N, S = c["N"], c["S"]
    inn = rng.choice([None, None, ["t%c" % (97 + i) for i in range(len(c["tin"]))]]) if not c["wt"] else None
    on = rng.choice([None, ["west%d" % i for i in range(len(c["tout"]))]])
    _, c["innames"] = gl.stage(d, "in", c["tin"], N, S, inn)
    if not c["byname"]: _, c["outnames"] = gl.stage(d, "out", c["tout"], N, S, on)
    else: c["outnames"] = ["tile1"]
    fmt = c["fmt"] = rng.choice(["classic", "64bit", "nc4", "nc4c"])
    ax = c["ax"] = {"X": rng.choice(["x", "grid_xt", "lon"]), "Y": rng.choice(["y", "grid_yt", "lat"]), "Z": rng.choice(["z", "pfull"]), "T": rng.choice(["time", "Time"]), "N": "hour"}
    key = rng.choice(["cartesian_axis", "axis"])
    at = c["axt"] = rng.choice(["double", "double", "float", "int"])
    bnd = c["bnd"] = {"X": rng.choice(["none", "none", "bounds", "edges"]) if at != "int" else "none", "Z": rng.choice(["none", "bounds", "edges"]), "T": rng.choice(["none", "bounds", "climatology"])}
    bnd["Y"] = bnd["X"] if rng.random() < 0.7 or at == "int" else rng.choice(["none", "bounds", "edges"])
    c["zlib"] = rng.choice([0, 0, 3, 7]) if fmt.startswith("nc4") else 0
    c["zv"] = [rng.randrange(0, 900) for _ in range(c["nz"])]; c["zb"] = [rng.randrange(0, 900) for _ in range(c["nz"] + 1)]
    c["tv"] = [rng.randrange(0, 900) for _ in range(c["nt"])]; c["tb"] = [[rng.randrange(0, 900), rng.randrange(0, 900)] for _ in range(c["nt"])]
    c["gatts"] = [["title", "a run"], ["n", "3"]]
    c["nbname"] = rng.choice(["nv", "bnds"]) if rng.random() < 0.5 else "bnds"
    order = list(range(len(c["fields"])));
    av = rng.random() < 0.5
    c["assoc"] = any(f["kind"] == "meas" for f in c["fields"]) and rng.random() < 0.3 and all(not f["mT"] for f in c["fields"])
    for n, t in enumerate(c["tin"]):
        nx, ny = len(t["lon"]) - 1, len(t["lat"]) - 1
        dims = [[ax["X"], nx, False], [ax["Y"], ny, False], [ax["Z"], c["nz"], False], [ax["N"], 2, False], [c["nbname"], 2, False], ["xe", nx + 1, False], ["ye", ny + 1, False], ["ze", c["nz"] + 1, False], [ax["T"], c["nt"], True]]
        vs = []
        def axis(k, val, typ):
            a = [[key, k], ["units", {"X": "degrees_E", "Y": "degrees_N", "Z": "mb", "T": "days since 1980-01-01", "N": "h"}[k]]]
            b = bnd.get(k, "none")
            if b != "none": a.append([b, {"X": "xe" if b == "edges" else ax["X"] + "_bnds", "Y": "ye" if b == "edges" else ax["Y"] + "_bnds", "Z": "ze" if b == "edges" else ax["Z"] + "_bnds", "T": "t_bnds"}[k]])
            vs.append({"name": ax[k], "type": typ, "dims": [ax[k]], "atts": a, "data": np.array(val)})
            if b in ("bounds", "climatology") and k in "XYZT":
                nm = a[-1][1]; m = len(val)
                dat = np.array(c["tb"]) if k == "T" else np.array([[c["zb"][i], c["zb"][i + 1]] for i in range(m)]) if k == "Z" else np.arange(2 * m).reshape(m, 2)
                vs.append({"name": nm, "type": typ, "dims": [ax[k], c["nbname"]], "atts": [["long_name", "bounds of " + k]], "data": dat})
            elif b == "edges":
                nm = a[-1][1]
                vs.append({"name": nm, "type": typ, "dims": [nm], "atts": [[key, k]], "data": np.array(c["zb"]) if k == "Z" else np.arange(len(val) + 1)})
        axis("X", list(range(1, nx + 1)), at); axis("Y", list(range(1, ny + 1)), at)
        axis("Z", c["zv"], "double"); axis("N", [6, 18], "double")
        if c["hasT"]: axis("T", c["tv"], "double")
        vs.append({"name": c["nbname"], "type": "double", "dims": [c["nbname"]], "atts": [["long_name", "vertex number"]], "data": np.array([1, 2])})
        for f in c["fields"]:
            a = []
            if f["mk"] in ("missing_value", "both"): a.append(["missing_value", np.array(MV[f["t"]], dtype=nc.TYPES[f["t"]])[()]])
            if f["mk"] in ("_FillValue", "both"): a.append(["_FillValue", np.array(MV[f["t"]], dtype=nc.TYPES[f["t"]])[()]])
            a.append(["long_name", "field " + f["n"]])
            if f["sc"]: a.append(["scale_factor", float(f["sc"])])
            if f["of"]: a.append(["add_offset", float(f["of"])])
            if f["cm"] == "sum": a.append(["cell_methods", "area: sum"])
            elif f["cm"] == "mean": a.append(["cell_methods", "area: mean"])
            elif f["cm"] == "time": a.append(["cell_methods", "time: mean"])
            if f["kind"] == "meas": a.append(["cell_measures", ("volume: " if f["vol"] else "area: ") + "area_" + f["n"]])
            if av: a.append(["time_avg_info", "average_T1,average_T2,average_DT"])
            f["atts"] = [[k, v] for k, v in a]
            dd = ([ax["T"]] if f["T"] else []) + ([ax["N"]] if f["nn"] == 2 else []) + ([ax["Z"]] if f["Z"] else []) + [ax["Y"], ax["X"]]
            f["d"] = dd
            A = np.array(areas(t), dtype="f8")
            dat = np.array([row[n] for row in f["x"]], dtype="f8")
            raw = np.where(dat == MISS, MV[f["t"]], dat * A if f["kind"] == "sum" else dat)
            shp = ([c["nt"]] if f["T"] else []) + ([2] if f["nn"] == 2 else []) + ([c["nz"]] if f["Z"] else []) + [ny, nx]
            vs.append({"name": f["n"], "type": f["t"], "dims": dd, "atts": a, "data": raw.astype(nc.TYPES[f["t"]]).reshape(shp), "zlib": c["zlib"], "shuffle": 1})
        mv = []
        for f in c["fields"]:
            if f["kind"] == "meas":
                A = np.array(areas(t), dtype="f8") * R2 * (2 * math.pi / N) / S
                dat = np.array([row[n] for row in f["m"]], dtype="f8") * A / 10
                mv.append({"name": "area_" + f["n"], "type": "double", "dims": ([ax["T"]] if f["mT"] else []) + [ax["Y"], ax["X"]], "atts": [["missing_value", -1e20]], "data": dat.reshape(([c["nt"]] if f["mT"] else []) + [ny, nx])})
        ga = list(c["gatts"])
        if c["assoc"]:
            ga.append(["associated_files", " ".join("area_%s: static_area.nc" % f["n"] for f in c["fields"] if f["kind"] == "meas")])
            sv = [v for v in vs if v["name"] in (ax["X"], ax["Y"], c["nbname"]) or v["name"].startswith((ax["X"] + "_b", ax["Y"] + "_b")) or v["name"] in ("xe", "ye")] + mv
            nc.write(os.path.join(d, "static_area%s.nc" % ("" if len(c["tin"]) == 1 else ".tile%d" % (n + 1))), {"fmt": fmt, "dims": dims[:-1], "vars": sv, "gatts": []})
        else: vs += mv
        used = set(q for v in vs for q in v["dims"])
        nc.write(os.path.join(d, "data%s.nc" % ("" if len(c["tin"]) == 1 else "." + c["innames"][n])), {"fmt": fmt, "dims": [q for q in dims if q[0] in used], "vars": vs, "gatts": ga})
        if c["wt"]:
            w = np.array(c["wt"][n], dtype="f8").reshape(ny, nx)
            nc.write(os.path.join(d, "wt.nc" if len(c["tin"]) == 1 else "wt.tile%d.nc" % (n + 1)), {"fmt": "classic", "dims": [["x", nx, False], ["y", ny, False]], "vars": [{"name": "w", "type": "double", "dims": ["y", "x"], "atts": [], "data": w}], "gatts": []})

def command(c, out, extra=()):
    a = ["--input_mosaic", "in_mosaic.nc"]
    if c["byname"]:
        t = c["tout"][0]; u = 360 // c["N"]
        a += ["--nlon", str(len(t["lon"]) - 1), "--nlat", str(len(t["lat"]) - 1), "--lonBegin", str(t["lon"][0] * u), "--lonEnd", str(t["lon"][-1] * u),
              "--latBegin", str(round(gl.latdeg(t["lat"][0], c["S"]))), "--latEnd", str(round(gl.latdeg(t["lat"][-1], c["S"])))]
    else: a += ["--output_mosaic", "out_mosaic.nc"]
    a += ["--interp_method", "conserve_order1", "--input_file", "data", "--scalar_field", ",".join(f["n"] for f in c["fields"]), "--output_file", out]
    if c["ksel"]: a += ["--KlevelBegin", str(c["k0"]), "--KlevelEnd", str(c["k1"])]
    if c["lsel"]: a += ["--LstepBegin", str(c["l0"]), "--LstepEnd", str(c["l1"])]
    if c["target"]: a += ["--target_grid"]
    if c["wt"]: a += ["--weight_file", "wt.nc" if len(c["tin"]) == 1 else "wt", "--weight_field", "w"]
    if c.get("std"): a += ["--standard_dimension"]
    if c.get("ofmt"): a += ["--format", c["ofmt"]]
    return a + list(extra)

def read(c, d, out, rc):
    """one run's output files, projected"""
    sc = 100 if c["target"] else 1000
    r = {"rc": rc, "tiles": []}
    for n in range(len(c["tout"])):
        p = os.path.join(d, out + (".nc" if len(c["tout"]) == 1 else "." + c["outnames"][n] + ".nc"))
        o = {"here": False, "fmt": "", "axes": [], "fields": [], "names": [], "gatts": [], "nt": -1}
        try:
            ds = netCDF4.Dataset(p); ds.set_auto_maskandscale(False); ds.set_auto_mask(False)
        except Exception:
            r["tiles"].append(o); continue
        try:
            o["here"] = True; o["fmt"] = nc.RFMT.get(ds.data_model, ds.data_model); o["names"] = sorted(ds.variables)
            o["gatts"] = [{"k": k, "v": str(ds.getncattr(k))} for k in ds.ncattrs() if k in ("title", "n")]
            o["nt"] = len(ds.dimensions[c["ax"]["T"]]) if c["ax"]["T"] in ds.dimensions else 0
            for k in "XYZTN":
                nm = xname(c, k)
                if nm not in ds.variables: o["axes"].append({"k": k, "here": False, "t": "", "v": [], "bn": "", "b": [], "a": []}); continue
                v = ds.variables[nm]; bn = ""
                for key in ("climatology", "bounds", "edges"):
                    if key in v.ncattrs(): bn = v.getncattr(key); break
                b = scaled(ds.variables[bn][:], None, 1000) if bn in ds.variables else []
                o["axes"].append({"k": k, "here": True, "t": nc.RTYPES.get(v.dtype, "?"), "v": scaled(v[:], None, 1000), "bn": bn, "b": b, "a": [q for q in v.ncattrs() if q in ("axis", "cartesian_axis")]})
            for f in c["fields"]:
                if f["n"] not in ds.variables: o["fields"].append({"here": False, "t": "", "d": [], "a": [], "x": [], "z": 0}); continue
                v = ds.variables[f["n"]]
                x = v[:]; x = np.asarray(x).reshape(-1, x.shape[-1] * x.shape[-2]) if x.ndim >= 2 else np.zeros((0, 1))
                mv = -1e20 if f["mk"] == "none" else MV[f["t"]]
                if f["t"] == "float": mv = float(np.float32(mv))
                fl = v.filters() or {}
                o["fields"].append({"here": True, "t": nc.RTYPES.get(v.dtype, "?"), "d": list(v.dimensions), "a": [{"k": k, "v": str(v.getncattr(k))} for k in v.ncattrs()], "x": [scaled(row, mv, sc) for row in x], "z": (fl.get("complevel") or 0) if fl.get("zlib") else 0})
        except Exception as e:
            o["here"] = False; o["fmt"] = "unreadable " + type(e).__name__
        finally: ds.close()
        r["tiles"].append(o)
    return r

def xname(c, k):
    if k in "XY" and (c["axt"] == "int" or c.get("std")): return {"X": "lon", "Y": "lat"}[k]
    return c["ax"][k]

def read_remap(c, d):
    """the saved exchange grid: [tile][<<in tile, in cell, out cell, area*1000>>]"""
    res = []
    for n in range(len(c["tout"])):
        p = os.path.join(d, "remap" + (".nc" if len(c["tout"]) == 1 else "." + c["outnames"][n] + ".nc"))
        if not os.path.exists(p): res.append({"here": False, "e": []}); continue
        try:
            with netCDF4.Dataset(p) as ds:
                ds.set_auto_mask(False)
                t1, t1c, t2c, ar = ds["tile1"][:], ds["tile1_cell"][:], ds["tile2_cell"][:], ds["xgrid_area"][:]
                e = []
                for q in range(len(t1)):
                    nxi = len(c["tin"][t1[q] - 1]["lon"]) - 1; nxo = len(c["tout"][n]["lon"]) - 1
                    e.append([int(t1[q]), int((t1c[q][1] - 1) * nxi + t1c[q][0]), int((t2c[q][1] - 1) * nxo + t2c[q][0]), int(round(ar[q] / (R2 * (2 * math.pi / c["N"]) / c["S"]) * 1000))])
                res.append({"here": True, "e": e})
        except Exception:
            res.append({"here": True, "e": [[0, 0, 0, 0]]})
    return res

def run_gen(g, d):
    c = mk(g); rng = c["rng"]
    stage(c, d)
    c["ofmt"] = rng.choice(["netcdf4", "classic", "64bit_offset", "netcdf4_classic"]) if rng.random() < 0.2 else ""
    c["std"] = c["axt"] != "int" and rng.random() < 0.15
    fr = core.tool("fregrid"); par = core.tool("fregrid_parallel")
    before = listing(d)
    runs, cmds = [], []
    def go(cmd, out, np_=0):
        cmds.append(("mpirun -n %d fregrid_parallel " % np_ if np_ else "fregrid ") + " ".join(cmd))
        r = core.mpirun(np_, [par] + cmd, d) if np_ else core.run([fr] + cmd, d)
        runs.append(read(c, d, out, r.rc if hasattr(r, "rc") else r[0]))
        runs[-1]["np"] = np_
        return runs[-1]["rc"]
    ny = min(len(t["lat"]) - 1 for t in c["tout"])
    remap = g["remap"] if "remap" in g else rng.random() < 0.3
    mode = rng.choice(["twice", "weights"]) if remap else ""
    wrc = 0
    if mode == "weights":
        cmd = [q for q in command(c, "o0", ["--remap_file", "remap.nc"])]
        i = cmd.index("--input_file"); cmd = cmd[:i] + cmd[i + 6:]
        for o in ("--KlevelBegin", "--KlevelEnd", "--LstepBegin", "--LstepEnd", "--weight_file", "--weight_field"):
            if o in cmd: j = cmd.index(o); del cmd[j:j + 2]
        npw = rng.choice([0, 0, min(2, ny), min(3, ny)])
        cmds.append(("mpirun -n %d fregrid_parallel " % npw if npw else "fregrid ") + " ".join(cmd))
        r = core.mpirun(npw, [par] + cmd, d) if npw else core.run([fr] + cmd, d)
        wrc = r.rc if hasattr(r, "rc") else r[0]
    go(command(c, "o1", ["--remap_file", "remap.nc"] if remap else []), "o1")
    if mode == "twice": go(command(c, "o2", ["--remap_file", "remap.nc"]), "o2")
    if g.get("par") or rng.random() < 0.2:
        np_ = rng.randrange(1, min(4, ny) + 1)
        go(command(c, "o3", ["--remap_file", "remap.nc"] if remap and rng.random() < 0.5 else []), "o3", np_)
    rm = read_remap(c, d) if remap else []
    outs = set()
    for out in ("o1", "o2", "o3"):
        for n in range(len(c["tout"])): outs.add(out + (".nc" if len(c["tout"]) == 1 else "." + c["outnames"][n] + ".nc"))
    for n in range(len(c["tout"])): outs.add("remap" + (".nc" if len(c["tout"]) == 1 else "." + c["outnames"][n] + ".nc"))
    after = listing(d)
    clean = all(after.get(k) == v for k, v in before.items()) and all(k in before or k in outs for k in after)
    N, S = c["N"], c["S"]
    cfg = {"N": N, "S": S, "tin": c["tin"], "tout": [tilemeta(t, N, S) for t in c["tout"]], "full": False, "over": False, "wt": c["wt"], "target": c["target"], "nz": c["nz"], "k0": c["k0"], "k1": c["k1"], "l0": c["l0"], "l1": c["l1"],
           "remap": remap, "runs": 1, "scale": 100 if c["target"] else 1000, "hasT": c["hasT"],
           "ax": {k: xname(c, k) for k in "XYZTN"}, "axt": c["axt"], "bnd": c["bnd"], "std": bool(c["std"]), "zv": c["zv"], "zb": c["zb"], "tv": c["tv"], "tb": c["tb"],
           "fmt": {"netcdf4": "nc4", "classic": "classic", "64bit_offset": "64bit", "netcdf4_classic": "nc4c"}[c["ofmt"]] if c["ofmt"] else c["fmt"], "zlib": c["zlib"] if not c["ofmt"] else -1, "byname": c["byname"],
           "fields": [{"n": f["n"], "t": f["t"], "T": f["T"], "Z": f["Z"], "nn": f["nn"], "kind": f["kind"], "x": f["x"], "mT": f["mT"], "m": f["m"], "int": f["t"] in ("int", "short"), "pk": f["sc"] != 0 or f["of"] != 0, "nomiss": f["mk"] == "none", "vol": f["vol"],
                       "d": [xname(c, "X") if q == c["ax"]["X"] else xname(c, "Y") if q == c["ax"]["Y"] else q for q in f["d"]], "a": [{"k": k, "v": str(v)} for k, v in f["atts"] if k != "time_avg_info"]} for f in c["fields"]],
           "gatts": [{"k": k, "v": v} for k, v in c["gatts"]],
           "obs": {"runs": runs, "remap": rm, "clean": clean, "wrc": wrc}, "repro": " ; ".join(cmds), "gen": g}
    return cfg
