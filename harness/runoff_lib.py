"""Cases for runoff_regrid."""
import math, os, random
import numpy as np, netCDF4
import core, grid_lib as gl
from combine_lib import sha
from coupler_lib import fits

BIG = 2000000000
def rd(v, s):
    v = float(v)
    if v and abs(v * s) < .5: return 1 if v > 0 else -1
    return int(round(v * s)) if math.isfinite(v) and abs(v * s) < BIG else BIG

def centers(lat, S):
    """cell middles whose midpoints are the given edges (all but the last one); None where there are none"""
    b = [gl.latdeg(k, S) for k in lat]; t = [(b[0] + b[1]) / 2]
    for j in range(1, len(b) - 1):
        t.append(2 * b[j] - t[-1])
        if not t[-1] > b[j] or (j < len(b) - 2 and not t[-1] < b[j + 1]): return None
    return t if 2 * t[-1] - b[-2] <= 90 else None

def mk(g):
    r = random.Random("runoff" + g["seed"]); c = {k: g[k] for k in ("N", "S", "inp", "out", "wet", "data", "valid") if k in g}
    if "inp" in c: return c, r
    N = c["N"] = r.choice([8, 8, 12, 12, 24]); S = c["S"] = r.choice([4, 5, 6, 8, 12])
    while True:
        w = r.choice([1, 2, 3]) if N < 24 else r.choice([2, 3, 4, 6]); n = r.choice([N // w] * 3 + [r.randrange(2, N // w + 1)])
        s = r.choice([0, 0, 0, -1, -3, r.randrange(-N // 2, 1)]); lon = [s + w * i for i in range(n + 1)]
        m = r.choice([2, 3, 3, 4, 5]); lo = r.choice([-S, -S, r.randrange(-S, S - m)])
        if m > S - lo: continue
        lat = [lo] + sorted(r.sample(range(lo + 1, S), m - 1)); lat.append(min(S, lat[-1] + 1))
        if r.random() < .25: k = r.randrange(1, S + 1); lat = [-k, 0, k]
        if n < 2 or centers(lat, S) is None: continue
        break
    c["inp"] = {"lon": lon, "lat": lat}
    while True:
        n = r.randrange(2, 9); s = r.choice([0, 0, r.randrange(-N // 2, 1)])
        full = r.random() < .75
        cut = [0] + sorted(r.sample(range(1, N), n - 1)) + [N]
        if not full: cut = cut[:-1]
        if len(cut) < 3 or max(b - a for a, b in zip(cut, cut[1:])) > N // 4: continue
        m = r.randrange(2, 6)
        if m > 2 * S - 1: continue
        lat = sorted(r.sample(range(-S + 1, S), m - 1)) + ([S] if r.random() < .85 else [])
        lat = ([-S] if r.random() < .4 else []) + lat
        if len(lat) < 3: continue
        break
    c["out"] = {"lon": [s + k for k in cut], "lat": lat}
    no = (len(cut) - 1) * (len(lat) - 1); p = r.choice([.15, .5, .5, .85])
    c["wet"] = [r.random() < p for _ in range(no)]
    if r.random() < .1: c["wet"] = [k == no // 2 for k in range(no)]
    elif not any(c["wet"]) and r.random() < .8: c["wet"][r.randrange(no)] = True
    nx, ny = len(c["inp"]["lon"]) - 1, len(c["inp"]["lat"]) - 1
    exact = ny == 2 and c["inp"]["lat"][0] == -c["inp"]["lat"][2] and c["inp"]["lat"][1] == 0
    nv = nx * (ny if exact else ny - 1)
    q = r.choice([0, 0, .2, .5]); c["valid"] = [r.random() >= q if a < nv else r.random() < .5 for a in range(nx * ny)]
    z = r.choice([.1, .6, .9])
    c["data"] = [[(r.randrange(0, 10) if r.random() < z else 0) if a < nv else 0 for a in range(nx * ny)] for _ in range(r.choice([1, 1, 2, 3]))]
    return c, r

def run_gen(g, d):
    c, r = mk(g); N, S, I, O = c["N"], c["S"], c["inp"], c["out"]
    inx, iny = len(I["lon"]) - 1, len(I["lat"]) - 1; nx, ny = len(O["lon"]) - 1, len(O["lat"]) - 1
    nt = len(c["data"]); c["timed"] = nt > 1 or r.random() < .5
    bad = False; q = r.random() if "inp" not in g else 1
    isub, gsub = r.choice(["", "", "in/"]), r.choice(["", "", "grid/"])
    for s in (isub, gsub): os.makedirs(os.path.join(d, s), exist_ok=True)
    # input
    lonc = [(a + b) * 180 / N for a, b in zip(I["lon"], I["lon"][1:])]
    latc = centers(I["lat"], S)
    if iny == 2 and I["lat"][0] == -I["lat"][2] and I["lat"][1] == 0: latc = [-gl.latdeg(I["lat"][2], S) / 2, gl.latdeg(I["lat"][2], S) / 2]
    miss = r.choice([-1e20, -1e20, -999., 1e20, -1.]); att = r.random() < .7 or miss != -1e20
    fmt = r.choice(["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"]); typ = r.choice(["f8", "f8", "f4"])
    if typ == "f4": miss, att = r.choice([-999., -1.]), True
    xn, yn, tn = r.choice([("lon", "lat", "time"), ("x", "y", "Time"), ("grid_x", "grid_y", "t")]); fld = r.choice(["runoff", "ROFF", "r"])
    with netCDF4.Dataset(os.path.join(d, isub, "in.nc"), "w", format=fmt) as ds:
        if c["timed"]: ds.createDimension(tn, None if r.random() < .7 else nt)
        ds.createDimension(xn, inx); ds.createDimension(yn, iny)
        if r.random() < .3: ds.createVariable("other", "f8", (yn, xn))[:] = 7.
        v = ds.createVariable(xn, "f8", (xn,)); v[:] = lonc; v.units = "degrees_east"
        v = ds.createVariable(yn, "f8", (yn,)); v[:] = latc
        times = [r.randrange(0, 9000) + .5 for _ in range(nt)]; tatt = {"units": "days since 1900-01-01", "calendar": r.choice(["julian", "noleap"]), "cartesian_axis": "T"}
        if c["timed"]:
            v = ds.createVariable(tn, "f8", (tn,)); v[:] = times; v.setncatts(tatt)
        fatt = {"units": "kg/m2/s", "long_name": "water " + "x" * r.randrange(30)}
        if att: fatt["missing_value"] = np.dtype(typ).type(miss)
        v = ds.createVariable(fld, typ, ((tn,) if c["timed"] else ()) + (yn, xn)); v.setncatts(fatt)
        a = np.array([[x if ok else miss for x, ok in zip(rec, c["valid"])] for rec in c["data"]], float).reshape(nt, iny, inx)
        v.set_auto_maskandscale(False); v[:] = (a if c["timed"] else a[0]).astype(typ)
    # output grid
    x, y = gl.supergrid([e * 360 / N for e in O["lon"]], [gl.latdeg(k, S) for k in O["lat"]])
    if .03 < q < .05: bad = True; x, y = x[:, :-1], y[:, :-1]
    gl.write_tile(os.path.join(d, gsub, "ogrid.nc"), "tile1", x, y)
    gl.write_mosaic(os.path.join(d, gsub, "omosaic.nc"), ["ogrid.nc"] * (2 if .01 < q < .03 else 1), ["tile1"] * (2 if .01 < q < .03 else 1))
    bad = bad or .01 < q < .03
    sea = r.choice([0, 0, 0, 50, -30]); tny = ny + (1 if .05 < q < .07 else 0); bad = bad or .05 < q < .07
    with netCDF4.Dataset(os.path.join(d, gsub, "topog.nc"), "w", format="NETCDF3_64BIT_OFFSET") as ds:
        if r.random() < .4: ds.createDimension("ntiles", 1)
        ds.createDimension("nx", nx); ds.createDimension("ny", tny)
        v = ds.createVariable("depth", "f8", ("ny", "nx"))
        v[:] = np.resize([sea + r.choice([.25, 4000]) if w else sea - r.choice([0, 0, 10, 100]) for w in c["wet"]], (tny, nx))
    a = ["--input_file", isub + "in.nc", "--input_fld_name", fld, "--output_mosaic", gsub + "omosaic.nc", "--output_topog", gsub + "topog.nc"]
    if sea: a += ["--sea_level", str(sea)]
    outf = "runoff.nc"
    if r.random() < .5: outf = r.choice(["out.nc", "o/p.nc", "r" * 40 + ".nc"]); os.makedirs(os.path.join(d, "o"), exist_ok=True); a += ["--output_file", outf]
    on = "runoff"
    if r.random() < .4: on = r.choice(["RUNOFF", "friver"]); a += ["--output_fld_name", on]
    if .07 < q < .09: bad = True; a[3] = "none"
    elif .09 < q < .11: bad = True; a = a[2:]
    e = O["lat"][0] > -S; ly = [gl.latdeg(k, S) for k in ([-S] if e else []) + O["lat"]]; lx = [k * 360 / N for k in O["lon"]]
    at = []
    for j in range(len(ly) - 1):
        for i in range(nx):
            p, l = math.radians((ly[j] + ly[j + 1]) / 2), math.radians((lx[i] + lx[i + 1]) / 2)
            at.append([int(round(1e4 * t)) for t in (math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p))])
    np_ = r.choice([1, 1, 2, 3, 4]) if not bad else 1
    np_ = max(n for n in range(1, np_ + 1) if fits(nx, len(ly) - 1, n))
    def listing(): return sorted(os.path.relpath(os.path.join(t, f), d) for t, _, fs in os.walk(d) for f in fs)
    before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}
    cmd = [core.tool("runoff_regrid_parallel" if np_ > 1 else "runoff_regrid")] + a
    R = core.mpirun(np_, cmd, d) if np_ > 1 else core.run(cmd, d, timeout=120)
    o = {"rc": R.rc, "read": False, "files": listing() == sorted(set(before + [outf])), "inputs": all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before),
         "shape": [0, 0, 0], "axes": False, "time": False, "atts": False, "out": []}
    if R.rc == 0:
        try:
            with netCDF4.Dataset(os.path.join(d, outf)) as ds:
                for v in ds.variables.values(): v.set_auto_maskandscale(False)
                v = ds[on]; z = v[:]
                o["shape"] = [z.shape[0] if z.ndim == 3 else 0, z.shape[-2], z.shape[-1]]
                X, Y = gl.supergrid(lx, ly[1:] if e else ly)
                o["axes"] = v.dimensions[-2:] == ("grid_y_T", "grid_x_T") and np.allclose(ds["grid_x_T"][:], X[0, 1::2], atol=1e-9) and np.allclose(ds["grid_y_T"][:], Y[1::2, 0], atol=1e-9)
                o["time"] = not c["timed"] or (v.dimensions[0] == "Time" and ds.dimensions["Time"].isunlimited() and list(ds["Time"][:]) == times and {k: str(ds["Time"].getncattr(k)) for k in ds["Time"].ncattrs()} == tatt)
                o["atts"] = {k: str(v.getncattr(k)) for k in v.ncattrs()} == {k: str(x) for k, x in fatt.items()}
                o["out"] = [[rd(x, 1000) for x in rec] for rec in z.reshape(-1, z.shape[-2] * z.shape[-1])]
                o["read"] = True
        except Exception as ex: o["err"] = str(ex)[:200]
    return {"gen": g, "repro": ("mpirun -n %d " % np_ if np_ > 1 else "") + os.path.basename(cmd[0]) + " " + " ".join(a), "N": N, "S": S, "inp": I, "out": O, "wet": c["wet"], "data": c["data"], "valid": c["valid"],
            "at": at, "timed": c["timed"], "bad": bad, "obs": o}
