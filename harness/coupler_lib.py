"""Cases for make_coupler_mosaic: exchange grids between atmosphere, land, ocean and wave mosaics."""
import os, random, math
import numpy as np, netCDF4
import core, grid_lib as gl
from regrid_lib import tiles, cutp, ncell
from combine_lib import sha
R2 = 6371000.0 ** 2
BIG = 2000000001

def cover(ts, N, S):
    return sum((t["lon"][-1] - t["lon"][0]) * (t["lat"][-1] - t["lat"][0]) for t in ts) == N * 2 * S

def small(rng, N, S, nt, full=True, lim=26):
    for _ in range(200):
        t, a = tiles(rng, N, S, nt, full=full)
        if sum(ncell(x) for x in t) <= lim: return t
    return [{"lon": [N // 4 * k for k in range(5)], "lat": [-S, 0, S]}]

def mk(g):
    rng = random.Random("cp/%s" % g["seed"])
    if "atm" in g: return dict(rng=rng, N=g["N"], S=g["S"], atm=g["atm"], lnd=g["lnd"], ocn=g["ocn"], frac=g["frac"], same=g["same"], wav=g["wav"], nest=g["nest"], nc=(3, 6, 3, 4, 2, 1), hasfrac=True)
    N = rng.choice([8, 12, 16]); S = rng.choice([2, 3, 4])
    nest = rng.random() < 0.12
    full = rng.random() < 0.8
    atm = small(rng, N, S, 1 if nest else rng.choice([1, 1, 2, 3]), full=full or nest)
    c = dict(rng=rng, N=N, S=S, nest=0)
    if nest:
        # a parent of uniform cells two units wide, a nest with cells of one unit in it
        N, S = c["N"], c["S"] = 16, 4
        lo = rng.choice([0, -4, 5]); p = {"lon": list(range(lo, lo + N + 1, 2)), "lat": list(range(-S, S + 1, 2))}
        i0, i1 = sorted(rng.sample(range(8), 2)); j0, j1 = sorted(rng.sample(range(4), 2)) if rng.random() < 0.7 else (0, 2)
        i1 = min(i1, i0 + 3); n = {"lon": list(range(lo + 2 * i0, lo + 2 * i1 + 1)), "lat": list(range(-S + 2 * j0, -S + 2 * j1 + 1))}
        atm = [p, n]; c["nest"] = 2; c["nc"] = (2 * i0 + 1, 2 * 2 * i1 // 2, 2 * j0 + 1, 2 * j1, i1 - i0, j1 - j0)
    same = not nest and rng.random() < 0.4
    lnd = atm if same else small(rng, N, S, rng.choice([1, 1, 2, 3]), full=rng.random() < 0.8)
    q = rng.random()
    if q < 0.1 and not nest: ocn = atm; c["osame"] = True
    else:
        ocn = small(rng, N, S, rng.choice([1, 1, 1, 2, 3]), full=rng.random() < 0.6)
        if len(ocn) == 1 and rng.random() < 0.5 and len(ocn[0]["lat"]) > 2: ocn[0]["lat"] = ocn[0]["lat"][1:]
    fr = rng.random() < 0.5
    frac = [[(rng.choice([0, 10, rng.randrange(11)]) if fr else rng.choice([0, 10, 10])) for _ in range(ncell(t))] for t in ocn]
    if rng.random() < 0.08: v = rng.choice([0, 10]); frac = [[v] * len(f) for f in frac]
    wav = []
    if rng.random() < 0.3:
        wav = ocn if rng.random() < 0.3 else small(rng, N, S, rng.choice([1, 2]), full=rng.random() < 0.7)
        c["wsame"] = wav is ocn
    c.update(N=N, S=S, atm=atm, lnd=lnd, ocn=ocn, frac=frac, same=same, wav=wav, hasfrac=fr)
    return c

def fits(nx, ny, n):
    """the grid files are read in an n-process layout, which must not have more parts than cells"""
    f = np.float32(math.sqrt(n * nx / ny)); i = max(1, int(math.floor(f + 0.4999)))
    while n % i: i -= 1
    return i <= nx and n // i <= ny

def st(a): return b"".join(x if x else b"" for x in np.ma.filled(a, b"").ravel().tolist()).decode("latin1").split("\0")[0]
def rd(x, sc): return int(round(float(x) * sc)) if math.isfinite(x) and abs(x * sc) < 2e9 else BIG

def run_gen(g, d):
    c = mk(g); rng = c["rng"]; N, S = c["N"], c["S"]
    u = R2 * (2 * math.pi / N) / S                      # area of a unit box
    pick = g.get("names") or rng.choice(["plain", "plain", "all"])
    if pick == "all": nm = {k: "m" for k in "aloww"}; nm["w"] = rng.choice(["m", "wave"])
    else: nm = dict(a="atmos_mosaic", l="land_mosaic", o="ocean_mosaic", w=rng.choice(["wave_mosaic", "ocean_mosaic"]))
    if c["same"]: nm["l"] = nm["a"]
    if c.get("osame"): nm["o"] = nm["a"]
    if c.get("osame") and not c["same"] and nm["l"] != nm["a"]: nm["l"] = nm["a"]
    if nm["o"] == nm["a"]: nm["l"] = nm["a"]
    if nm["w"] in (nm["a"], nm["l"]) and nm["o"] != nm["w"]: nm["w"] = "wave"
    comps = {"a": c["atm"], "l": c["lnd"], "o": c["ocn"], "w": c["wav"]}
    dirs = {}; files = {}; tn = {}
    long_ = rng.random() < 0.15
    for k, ts in comps.items():
        if not ts: tn[k] = []; continue
        if k == "l" and c["same"]: dirs[k], files[k], tn[k] = dirs["a"], files["a"], tn["a"]; continue
        if k == "o" and c.get("osame"): dirs[k], files[k], tn[k] = dirs["a"], files["a"], tn["a"]; continue
        if k == "w" and c.get("wsame"): dirs[k], files[k], tn[k], nm["w"] = dirs["o"], files["o"], tn["o"], nm["o"]; continue
        sub = rng.choice(["", "", "g%s/" % k, "in/dir_%s/" % k]) + ("a_directory_with_a_long_name_for_this_grid" * 2 + "/" if long_ else "")
        os.makedirs(os.path.join(d, sub), exist_ok=True)
        tn[k] = ["tile%d" % (i + 1) for i in range(len(ts))] if rng.random() < 0.7 else ["%s%s" % (k, x) for x in rng.sample(["x", "east", "t10", "t1", "north_1"], len(ts))]
        fs = []
        for i, t in enumerate(ts):
            x, y = gl.supergrid([e * 360 / N for e in t["lon"]], [gl.latdeg(e, S) for e in t["lat"]])
            f = "%s_grid_%d.nc" % (k, i + 1); gl.write_tile(os.path.join(d, sub, f), tn[k][i], x, y); fs.append(f)
        con = ()
        if k == "a" and c["nest"]:
            i0, i1, j0, j1, ni, nj = c["nc"]
            con = (("%s:%s::%s:%s" % (nm["a"], tn[k][0], nm["a"], tn[k][1]), "%d:%d,%d:%d::1:%d,1:%d" % (i0, i1, j0, j1, 4 * ni, 4 * nj)),)
        mf = "%s_%s.nc" % ({"a": "atm", "l": "lnd", "o": "ocn", "w": "wav"}[k], "mosaic")
        gl.write_mosaic(os.path.join(d, sub, mf), fs, tn[k], con, mosaic=nm[k]); dirs[k], files[k] = sub, mf
    # topography
    sea = rng.choice([0, 0, 0, 100, -20])
    tsub = rng.choice(["", "topo/"]); os.makedirs(os.path.join(d, tsub), exist_ok=True)
    ds = netCDF4.Dataset(os.path.join(d, tsub, "topog.nc"), "w", format=rng.choice(["NETCDF3_64BIT_OFFSET", "NETCDF4"]))
    nt = len(c["ocn"])
    if nt > 1 or rng.random() < 0.5: ds.createDimension("ntiles", nt)
    hasfrac = g.get("frac") is not None or c["hasfrac"]
    for i, (t, f) in enumerate(zip(c["ocn"], c["frac"])):
        s = "" if nt == 1 else "_tile%d" % (i + 1)
        ny, nx = len(t["lat"]) - 1, len(t["lon"]) - 1
        ds.createDimension("nx" + s, nx); ds.createDimension("ny" + s, ny)
        v = ds.createVariable("depth" + s, "f8", ("ny" + s, "nx" + s))
        if hasfrac:
            v[:] = rng.choice([0., 500.])
            w = ds.createVariable("area_frac" + s, "f8", ("ny" + s, "nx" + s)); w[:] = np.array(f).reshape(ny, nx) / 10.
        else: v[:] = np.array([(sea + rng.choice([0.5, 3000]) if x == 10 else sea - rng.choice([0, 0, 1, 200])) for x in f]).reshape(ny, nx)
    ds.close()
    order = g.get("order") or rng.choice([1, 2, 2]); thr = rng.choice([0] * 5 + [7, 31]) if not c["nest"] and not g.get("plain") else 0
    over = cover(c["atm"][:1] if c["nest"] else c["atm"], N, S)
    ab = rng.random() < 0.3
    P = lambda k: (d + "/" if ab else "") + dirs[k] + files[k]
    pa = {k: P(k) for k in dirs}
    a = ["--atmos_mosaic", pa["a"], "--ocean_mosaic", pa["o"], "--ocean_topog", (d + "/" if ab else "") + tsub + "topog.nc", "--interp_order", str(order)]
    if not c["same"] or rng.random() < 0.5: a += ["--land_mosaic", pa["l"]]
    if c["wav"]: a += ["--wave_mosaic", pa["w"]]
    if sea: a += ["--sea_level", str(sea)]
    if thr: a += ["--area_ratio_thresh", repr(thr / 100.)]
    mname = rng.choice(["", "", "grid_spec", "coupled"])
    if mname: a += ["--mosaic_name", mname]
    if rng.random() < 0.3: a += ["--check"]
    bad = False; q = 1 if g.get("plain") else rng.random()
    if q < 0.03: bad = True; a[1] = "none.nc"
    elif q < 0.05: bad = True; a += ["--mosaic_name", os.path.splitext(files["o"])[0]]
    elif q < 0.06: bad = True; a[a.index("--interp_order") + 1] = "3"
    cells = [sum(ncell(t) for t in comps[k]) for k in "alow"]
    np_ = g.get("np") or rng.choice([1, 1, 2, 3, 4])
    np_ = max(n for n in range(1, np_ + 1) if all(fits(len(t["lon"]) - 1, len(t["lat"]) - 1, n) and (k != "o" or fits(len(t["lon"]) - 1, len(t["lat"]), n)) for k in "alow" for t in comps[k]))
    def listing(): return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
    before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}
    cmd = [core.tool("make_coupler_mosaic_parallel" if np_ > 1 else "make_coupler_mosaic")] + a
    r = core.mpirun(np_, cmd, d) if np_ > 1 else core.run(cmd, d, timeout=120)
    new = [f for f in listing() if f not in before]
    mfile = (mname or "mosaic") + ".nc"
    o = {"rc": r.rc, "inputs": all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before), "dir": new, "files": [], "masks": [], "mosaic": {"here": False}}
    hu = math.pi / N / 1000                             # 1/1000 of half a longitude unit, in radian
    if r.rc == 0 and not bad:
        for f in new:
            try:
                with netCDF4.Dataset(os.path.join(d, f)) as ds:
                    for v in ds.variables.values(): v.set_auto_maskandscale(False); v.set_auto_chartostring(False)
                    if "tile1_cell" in ds.variables:
                        p, q, ar = ds["tile1_cell"][:], ds["tile2_cell"][:], ds["xgrid_area"][:]
                        rows = [[int(p[i][0]), int(p[i][1]), int(q[i][0]), int(q[i][1]), rd(ar[i], 1000 / u)] for i in range(len(ar))]
                        if "tile1_distance" in ds.variables:
                            e1, e2 = ds["tile1_distance"][:], ds["tile2_distance"][:]
                            for i, row in enumerate(rows): row += [rd(e1[i][0], 1 / hu), rd(e1[i][1], 1e5), rd(e2[i][0], 1 / hu), rd(e2[i][1], 1e5)]
                        o["files"].append({"name": f, "contact": st(ds["contact"][:]), "cells": rows})
                    elif "mask" in ds.variables:
                        m = ds["mask"][:]; pick2 = lambda *n: next((ds[x][:] for x in n if x in ds.variables), m); A = pick2("areaO", "area_lnd"); X = pick2("areaX", "l_area")
                        o["masks"].append({"name": f, "nx": m.shape[1], "ny": m.shape[0], "v": [[rd(a1, 1000), rd(b1, 1000 / u), rd(c1, 1000 / u)] for a1, b1, c1 in zip(m.ravel(), A.ravel(), X.ravel())]})
                    elif f == mfile:
                        mo = {"here": True}
                        for k in ("aXo", "aXl", "lXo", "wXo"): mo[k] = [st(x) for x in ds[k + "_file"][:]] if k + "_file" in ds.variables else []
                        for k in ("atm", "lnd", "ocn", "wav"):
                            for s in ("_mosaic", "_mosaic_dir", "_mosaic_file"): mo[k + s] = st(ds[k + s][:]) if k + s in ds.variables else ""
                        for s in ("ocn_topog_dir", "ocn_topog_file"): mo[s] = st(ds[s][:])
                        o["mosaic"] = mo
            except Exception as e: o["files"].append({"name": f + " unreadable", "contact": str(e), "cells": []})
    paths = {}
    for k, l in zip("alow", ("atm", "lnd", "ocn", "wav")):
        paths[l + "_mosaic"] = nm[k] if comps[k] else ""
        paths[l + "_mosaic_file"] = files.get(k, "")
        paths[l + "_mosaic_dir"] = (os.path.dirname(pa[k]) + "/" if os.path.dirname(pa[k]) else "./") if comps[k] else ""
    tp = a[a.index("--ocean_topog") + 1]; paths["ocn_topog_file"] = "topog.nc"; paths["ocn_topog_dir"] = os.path.dirname(tp) + "/" if os.path.dirname(tp) else "./"
    F = [int(round(1e5 * (math.asin(k / S) * k / S + math.sqrt(1 - (k / S) ** 2)))) for k in range(-S, S + 1)]
    H = [int(round(1e4 * S * 0.5 * (math.sqrt(1 - (k / S) ** 2) * k / S + math.asin(k / S)))) for k in range(-S, S + 1)]
    ocov = cover(c["ocn"], N, S) or (len(c["ocn"]) == 1 and c["ocn"][0]["lon"][-1] - c["ocn"][0]["lon"][0] == N and c["ocn"][0]["lat"][-1] == S)
    return {"gen": g, "repro": ("mpirun -n %d " % np_ if np_ > 1 else "") + os.path.basename(cmd[0]) + " " + " ".join(a).replace(d + "/", ""), "N": N, "S": S, "atm": c["atm"], "lnd": c["lnd"], "ocn": c["ocn"], "wav": c["wav"], "frac": c["frac"], "same": c["same"], "np": np_,
            "thr": thr, "F": F, "H": H, "nest": c["nest"], "full": ocov and cover(c["lnd"], N, S), "over": over, "wfull": bool(c["wav"]) and cover(c["wav"], N, S), "order": order, "lon2": bool(g.get("lon2")), "nm": nm, "tn": tn, "paths": paths, "mfile": mfile, "bad": bad, "obs": o}
