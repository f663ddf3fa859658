"""Cases for make_regional_mosaic (and fregrid on its result)."""
import os, random
import numpy as np, netCDF4
import core, grid_lib as gl, cubic_lib as cl
from combine_lib import sha
from quick_lib import text

def mk(g):
    r = random.Random("regional" + g["seed"])
    if "xs" in g: return dict({k: g[k] for k in ("W", "H", "ntiles", "tile", "xs", "ys")}, cube=False), r
    cube = r.random() < .4
    if cube: W = H = r.choice([2, 4, 6]); nt = 6
    else: W, H, nt = r.randrange(1, 9), r.randrange(1, 8), r.choice([1, 1, 2, 3, 12])
    def axis(m):
        k = r.randrange(1, m + 1); a = r.randrange(1, m - k + 2); s = list(range(a, a + k)); u = r.random()
        if u < .02: s = [v + m for v in s]
        elif u < .04 and k > 1: s[-1] += 1
        elif u < .06: s = [v - a for v in s]
        return s
    return dict(W=W, H=H, ntiles=nt, tile=r.randrange(1, nt + 1) if r.random() > .03 else nt + 1, xs=axis(W), ys=axis(H), cube=cube), r

def run_gen(g, d):
    c, r = mk(g); W, H, nt, tile = c["W"], c["H"], c["ntiles"], c["tile"]
    if c["cube"]: T = cl.cube(W, r.choice([18., 0.]))
    else:
        T = []
        for t in range(nt):
            w, x0 = min(360 // nt, 60 * W), r.choice([0, 0, -30, 100]) + t * 360 // nt
            x, y = gl.supergrid([x0 + i * w / W for i in range(W + 1)], [-90 + j * 180 / H for j in range(H + 1)])
            if r.random() < .3: y = y * .9 + .3 * np.sin(x / 7); x = x + .2 * np.cos(y / 9)
            T.append((x, y))
    sub = r.choice(["", "grid/", "a/b/"]); dat = r.choice(["", "data/"]); wd = r.choice(["", "w/"])
    for s in (sub, dat, wd): os.makedirs(os.path.join(d, s), exist_ok=True)
    up = "../" if wd else ""
    stem = r.choice(["G", "C4_grid"]); fs = ["%s.tile%d.nc" % (stem, t + 1) for t in range(nt)]
    if nt == 1 and r.random() < .5: fs = ["hgrid.nc"]
    for f, t, (x, y) in zip(fs, range(nt), T): gl.write_tile(os.path.join(d, sub, f), "tile%d" % (t + 1), x, y, fmt=r.choice(["NETCDF3_64BIT_OFFSET", "NETCDF4"]))
    gl.write_mosaic(os.path.join(d, sub, "m.nc"), fs, ["tile%d" % (t + 1) for t in range(nt)])
    rf = r.choice(["region", "rregion.atmos", "00010101.r"]) + ".tile%d.nc" % tile; bad = False
    if r.random() < .02: rf = rf.replace(".tile%d" % tile, ".til%d" % tile); bad = True
    xs, ys = c["xs"], c["ys"]; typ = r.choice(["f8", "f4"]); cut = r.random() < .02
    data = np.array([[r.randrange(-50, 50) for _ in xs] for _ in ys], float)
    def field(path, xn, yn, xv, yv, v, miss):
        with netCDF4.Dataset(path, "w", format="NETCDF3_64BIT_OFFSET") as ds:
            for n, a, ax in ((xn, xv, "X"), (yn, yv, "Y")):
                ds.createDimension(n, len(a)); q = ds.createVariable(n, typ, (n,)); q[:] = a; q.cartesian_axis = ax
            q = ds.createVariable("t", "f8", (yn, xn)); q.missing_value = -1e20; q[:] = v
    noise = [r.choice([0, 0, .004, -.004]) for _ in range(2)] if r.random() < .3 else [0, 0]
    yn = "grid_yt_sub01" if not cut else "grid_yt"; bad = bad or cut
    field(os.path.join(d, dat, rf), "grid_xt_sub01", yn, [v + noise[0] for v in xs], [v + noise[1] for v in ys], data, False)
    desc = r.choice(["", "C4 region", "regional"]); a = ["--global_mosaic", up + sub + "m.nc", "--regional_file", up + dat + rf]
    if desc: a += ["--grid_descriptor", desc]
    def listing(): return sorted(os.path.relpath(os.path.join(t, f), d) for t, _, q in os.walk(d) for f in q)
    before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}; D = os.path.join(d, wd)
    R = core.run([core.tool("make_regional_mosaic")] + a, D); o = dict(rc=R.rc, read=False, inputs=True, new=[], names=[], ntiles=0, remap=True, x=[], y=[])
    if R.rc == 0:
        o["new"] = sorted(os.path.relpath(os.path.join(d, f), D) for f in listing() if f not in before)
        try:
            with netCDF4.Dataset(os.path.join(D, "regional_mosaic.nc")) as ds:
                ds.set_auto_mask(False); ds.set_auto_chartostring(False); gf = text(ds["gridfiles"][0])
                nm = [text(ds["mosaic"][:]), gf, text(ds["gridtiles"][0]), ds["mosaic"].grid_descriptor]; o["ntiles"] = len(ds.dimensions["ntiles"])
            with netCDF4.Dataset(os.path.join(D, gf)) as ds:
                ds.set_auto_mask(False); ds.set_auto_chartostring(False); o["names"] = [text(ds["tile"][:])] + nm
                o["x"], o["y"] = [[["%.12g" % v for v in row] for row in ds[k][:].tolist()] for k in "xy"]
            if r.random() < .5 and 1 <= tile <= nt:       # remap the region, and the whole grid with everything else missing
                os.makedirs(os.path.join(d, "f")); F = os.path.join(d, "f")
                for t in range(nt):
                    v = np.full((H, W), -1e20)
                    if t + 1 == tile: v[ys[0] - 1:ys[0] - 1 + len(ys), xs[0] - 1:xs[0] - 1 + len(xs)] = data
                    field(os.path.join(F, "w.tile%d.nc" % (t + 1) if nt > 1 else "w.nc"), "grid_xt", "grid_yt", np.arange(1., W + 1), np.arange(1., H + 1), v, True)
                q = ["--scalar_field", "t", "--nlon", "12", "--nlat", "7", "--interp_method", "conserve_order1"]
                A = core.run([core.tool("fregrid"), "--input_mosaic", "../" + wd + "regional_mosaic.nc", "--input_dir", os.path.join(d, dat), "--input_file", rf, "--output_file", "r.nc"] + q, F)
                B = core.run([core.tool("fregrid"), "--input_mosaic", "../" + sub + "m.nc", "--input_file", "w", "--output_file", "g.nc"] + q, F)
                z = [netCDF4.Dataset(os.path.join(F, f)) for f in ("r.nc", "g.nc")]; u = [np.array(ds["t"][:].filled(-1e20)) for ds in z]
                o["remap"] = A.rc == 0 and B.rc == 0 and np.allclose(u[0], u[1], rtol=1e-9, atol=1e-9)
            o["read"] = True
        except Exception as ex: o["err"] = str(ex)[:300]
    o["inputs"] = all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before)
    gx, gy = ([[["%.12g" % v for v in row] for row in k.tolist()] for k in T[tile - 1]] if 1 <= tile <= nt else [[], []])
    return {"gen": g, "repro": "make_regional_mosaic " + " ".join(a) + " # cells %s,%s of %dx%d" % (xs, ys, W, H), "W": W, "H": H, "ntiles": nt, "tile": tile, "xs": xs, "ys": ys, "bad": bad, "desc": desc, "gx": gx, "gy": gy, "obs": o}
