"""Cases for check_mask."""
import os, random
import numpy as np, netCDF4
import core, grid_lib as gl
from combine_lib import sha

def blob(rng, nx, ny, p):
    """patchy wet/dry pattern"""
    m = [[False] * nx for _ in range(ny)]
    for _ in range(rng.randrange(0, max(2, int(nx * ny * p)))):
        i, j, w, h = rng.randrange(nx), rng.randrange(ny), rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 2])
        for b in range(j, min(ny, j + h)):
            for a in range(i, min(nx, i + w)): m[b][a] = True
    return [x for r in m for x in r]

def mk(g):
    rng = random.Random("mk/%s" % g["seed"])
    c = dict(rng=rng)
    if "on" in g:
        for k in ("kind", "nx", "ny", "on", "cx", "cy", "trip", "halo", "lay", "minp", "maxp"): c[k] = g[k]
        c["lay"] = list(c["lay"])
        return c
    if rng.random() < 0.3:
        n = rng.choice([1, 2, 3, 4, 5, 6]); c.update(kind="land", nx=n, ny=n, on=[blob(rng, n, n, rng.choice([0, 0.02, 0.1])) for _ in range(6)], cx=False, cy=False, trip=False, halo=1)
        c["lay"] = [rng.randrange(1, n + 1), rng.randrange(1, n + 1)]; c["minp"] = c["maxp"] = 0
        return c
    nx, ny = rng.randrange(2, 15), rng.randrange(2, 11)
    b = rng.choice(["", "x", "x", "xy", "y", "xt", "xt", "t"])
    if b == "xt" or b == "t": nx += nx % 2
    c.update(kind="ocean", nx=nx, ny=ny, on=[blob(rng, nx, ny, rng.choice([0, 0.02, 0.05, 0.1, 0.3]))], cx="x" in b, cy="y" in b, trip="t" in b, halo=rng.choice([0, 1, 1, 1, 2, 2, 3]))
    c["halo"] = min(c["halo"], nx, ny)
    if rng.random() < 0.5:
        c["lay"] = [rng.randrange(1, min(nx, 9) + 1), rng.randrange(1, min(ny, 9) + 1)]; c["minp"] = c["maxp"] = 0
        if rng.random() < 0.05: c["lay"][0] = nx + 1
    else:
        c["lay"] = [0, 0]; c["minp"] = rng.randrange(1, 12); c["maxp"] = c["minp"] + rng.randrange(0, 12)
    return c

def ints(s): return [int(x) for x in s.replace(" ", "").split(",")]

def run_gen(g, d):
    c = mk(g); rng = c["rng"]; nx, ny = c["nx"], c["ny"]
    sub = rng.choice(["", "", "in/"]); os.makedirs(os.path.join(d, sub), exist_ok=True)
    P = lambda f: os.path.join(d, sub + f)
    a = []; bad = False
    if c["kind"] == "ocean":
        v1 = not g.get("v2") and rng.random() < 0.25
        on = np.array(c["on"][0]).reshape(ny, nx)
        if v1:
            ds = netCDF4.Dataset(P("grid_spec.nc"), "w", format="NETCDF3_64BIT_OFFSET")
            ds.createDimension("gx", nx); ds.createDimension("gy", ny); ds.x_boundary_type = "cyclic" if c["cx"] else "solid_walls"
            ds.y_boundary_type = "cyclic" if c["cy"] else "fold_north_edge" if c["trip"] else "solid_walls"
            v = ds.createVariable("wet", "f8", ("gy", "gx")); v[:] = on; ds.close(); a = ["--grid_file", sub + "grid_spec.nc"]
        else:
            x, y = np.meshgrid(np.arange(2 * nx + 1.), np.arange(2 * ny + 1.)); gl.write_tile(P("g.nc"), "tile1", x, y)
            con = []
            if c["cx"]: con.append(("m:tile1::m:tile1", "%d:%d,1:%d::1:1,1:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny)))
            if c["cy"]: con.append(("m:tile1::m:tile1", "1:%d,%d:%d::1:%d,1:1" % (2 * nx, 2 * ny, 2 * ny, 2 * nx)))
            if c["trip"]: con.append(("m:tile1::m:tile1", "1:%d,%d:%d::%d:%d,%d:%d" % (nx, 2 * ny, 2 * ny, 2 * nx, nx + 1, 2 * ny, 2 * ny)))
            if rng.random() < 0.3: con.reverse()
            gl.write_mosaic(P("ocean_mosaic.nc"), ["g.nc"], ["tile1"], con)
            sea = rng.choice([0, 0, 0, 10, -10, 0.5, -0.5])
            ds = netCDF4.Dataset(P("topog.nc"), "w", format=rng.choice(["NETCDF3_64BIT_OFFSET", "NETCDF4"])); ds.createDimension("nx", nx); ds.createDimension("ny", ny)
            v = ds.createVariable("depth", "f8", ("ny", "nx"))
            v[:] = [[sea + (rng.choice([0.25, 4000]) if w else -rng.choice([0, 0.25, 300])) for w in r] for r in on]; ds.close()
            a = ["--grid_file", sub + "ocean_mosaic.nc", "--ocean_topog", sub + "topog.nc"]
            if sea: a += ["--sea_level", str(sea)]
            if rng.random() < 0.02: bad = True; a = a[:2]
        if c["halo"] != 1 or rng.random() < 0.3: a += ["--halo", str(c["halo"])]
        if c["lay"] != [0, 0]:
            a += ["--layout", "%d,%d" % tuple(c["lay"])]
            if rng.random() < 0.2: a += ["--min_pe", "2", "--max_pe", "3"]
        else: a += ["--min_pe", str(c["minp"]), "--max_pe", str(c["maxp"])]
        if rng.random() < 0.3: a += ["--model", "ocean"]
        if rng.random() < 0.1: a += ["--show_valid_only"]
        if rng.random() < 0.03: bad = True; a += ["--model", rng.choice(["land", "ice"])]
    else:
        # six tiles; several exchange files may cover one land tile
        for t in range(6):
            x, y = np.meshgrid(np.arange(2 * nx + 1.), np.arange(2 * ny + 1.)); gl.write_tile(P("l%d.nc" % (t + 1)), "tile%d" % (t + 1), x, y)
        same = rng.random() < 0.5; am, lm = ("cs_mosaic", "cs_mosaic") if same else ("atmos_mosaic", "land_mosaic")
        gl.write_mosaic(P(lm + ".nc"), ["l%d.nc" % (t + 1) for t in range(6)], ["tile%d" % (t + 1) for t in range(6)], mosaic=lm)
        files = []
        for t in range(6):
            cells = [(i + 1, j + 1) for j in range(ny) for i in range(nx) if c["on"][t][j * nx + i]]
            parts = {}
            for q in cells: parts.setdefault(t if same else rng.choice([0, 0, 3]), []).append(q)
            for p, qs in parts.items():
                f = "%s_tile%dX%s_tile%d.nc" % (am, p + 1, lm, t + 1); files.append(f)
                ds = netCDF4.Dataset(P(f), "w", format="NETCDF3_64BIT_OFFSET"); ds.createDimension("string", 255); ds.createDimension("ncells", len(qs)); ds.createDimension("two", 2)
                v = ds.createVariable("contact", "S1", ("string",)); v.set_auto_chartostring(False); v[:] = gl.chars("%s:tile%d::%s:tile%d" % (am, p + 1, lm, t + 1))
                for n in ("tile1_cell", "tile2_cell"):
                    v = ds.createVariable(n, "i4", ("ncells", "two")); v[:] = qs
                v = ds.createVariable("xgrid_area", "f8", ("ncells",)); v[:] = [rng.choice([1., 1e6, 1e10]) for _ in qs]; ds.close()
        if not files:      # at least one exchange file is needed: one dry everywhere
            return run_gen(dict(g, seed=str(g["seed"]) + "'"), d)
        rng.shuffle(files)
        ds = netCDF4.Dataset(P("coupled.nc"), "w", format="NETCDF3_64BIT_OFFSET"); ds.createDimension("string", 255); ds.createDimension("nfile_aXl", len(files))
        for n, s in (("lnd_mosaic_file", lm + ".nc"), ("lnd_mosaic", lm), ("lnd_mosaic_dir", "./")):
            v = ds.createVariable(n, "S1", ("string",)); v.set_auto_chartostring(False); v[:] = gl.chars(s)
        v = ds.createVariable("aXl_file", "S1", ("nfile_aXl", "string")); v.set_auto_chartostring(False)
        for i, f in enumerate(files): v[i] = gl.chars(f)
        ds.close()
        a = ["--grid_file", sub + "coupled.nc", "--model", "land", "--layout", "%d,%d" % tuple(c["lay"])]
        if rng.random() < 0.1: a += ["--halo", "2"]
        if rng.random() < 0.03: bad = True; a.remove("land"); a.remove("--model")
    if rng.random() < 0.02: bad = True; a[1] = "none.nc"
    lst = lambda: sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
    before = lst(); sh = {f: sha(os.path.join(d, f)) for f in before}
    r = core.run([core.tool("check_mask")] + a, d, timeout=60)
    new = [f for f in lst() if f not in before]
    o = {"rc": r.rc, "inputs": all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before), "dir": new, "files": []}
    for f in new:
        try:
            L = open(os.path.join(d, f)).read().split("\n")
            o["files"].append({"name": f, "n": int(L[0]), "lay": ints(L[1]), "list": [ints(x) for x in L[2:] if x.strip()]})
        except Exception: o["files"].append({"name": f, "n": -1, "lay": [], "list": []})
    out = {k: c[k] for k in ("kind", "nx", "ny", "on", "cx", "cy", "trip", "halo", "lay", "minp", "maxp")}
    return dict(out, gen=g, repro="check_mask " + " ".join(a), bad=bad, obs=o)
