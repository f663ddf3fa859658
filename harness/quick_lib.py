"""Cases for make_quick_mosaic."""
import os, random
import numpy as np, netCDF4
import core, grid_lib as gl, cubic_lib as cl
from combine_lib import sha

R2 = 6371000. ** 2

def text(a): return b"".join(x if x else b"\0" for x in np.ma.filled(a, b"\0").ravel().tolist()).decode("latin1").split("\0")[0]

def mk(g):
    r = random.Random("quick" + g["seed"])
    if "v" in g:
        return dict(kind=g["kind"], nx=g["nx"], ny=g["ny"], v=g["v"], level=g["level"], pieces=g["pieces"], cube=False), r
    kind = r.choice(["depth", "area", "land", "coupled"]); cube = r.random() < .3
    if cube: n = r.choice([2, 2, 4]); nx = [n] * 6; ny = [n] * 6
    else: k = r.choice([1, 1, 1, 2, 3]); nx = [r.randrange(1, 7) for _ in range(k)]; ny = [r.randrange(1, 6) for _ in range(k)]
    level = r.choice([0, 0, 0, 10, -7]); p = r.choice([.0, .2, .5, .8, 1.])
    def val():
        wet = r.random() < p
        if kind == "depth": return level + (r.choice([1, 3000]) if wet else -r.choice([0, 1, 200]))
        if kind == "area": return 8000 if wet else r.choice([0, 0, 7999, 7000, 3000])
        if kind == "land": return r.choice([0, 0, 8000, 8000, 1000, 4000, 7000, r.randrange(1, 8000), 8000 - r.choice([1, 30, 200, 500]), r.choice([1, 30, 500])])
        return 0
    v = [[val() for _ in range(a * b)] for a, b in zip(nx, ny)]; pieces = []
    if kind == "coupled":
        for t in range(len(nx)):
            for c in range(nx[t] * ny[t]):
                left = 8000 if r.random() > .005 else 10000
                while left and r.random() < .6: a = r.choice([1000, 3000, left, r.randrange(1, 8000)]); a = min(a, left); left -= a; pieces.append([t + 1, c + 1, a])
        r.shuffle(pieces)
    return dict(kind=kind, nx=nx, ny=ny, v=v, level=level, pieces=pieces, cube=cube), r

def write_x(path, ps, contact):
    with netCDF4.Dataset(path, "w", format="NETCDF3_64BIT_OFFSET") as ds:
        ds.createDimension("string", 255); ds.createDimension("ncells", len(ps)); ds.createDimension("two", 2)
        v = ds.createVariable("contact", "S1", ("string",)); v.set_auto_chartostring(False); v[:] = gl.chars(contact)
        for k, s in (("tile1_cell", 0), ("tile2_cell", 2)):
            v = ds.createVariable(k, "i4", ("ncells", "two"))
            if ps: v[:] = [p[s:s + 2] for p in ps]
        v = ds.createVariable("xgrid_area", "f8", ("ncells",))
        if ps: v[:] = [p[4] for p in ps]

def run_gen(g, d):
    c, r = mk(g); nx, ny, nt = c["nx"], c["ny"], len(c["nx"]); kind = c["kind"]
    if c["cube"]: T = cl.cube(nx[0], 18.)
    else:
        T = []; w = 360 // nt; x0 = r.choice([0, 20, -60])
        for t in range(nt):
            a = r.choice([w, w, 60]); b = sorted(r.choice([(-90, 90), (-90, 90), (-30, 60), (0, 90)]))
            while a / nx[t] > 100: a /= 2
            T.append(gl.supergrid([x0 + t * w + i * a / nx[t] for i in range(nx[t] + 1)], [b[0] + j * (b[1] - b[0]) / ny[t] for j in range(ny[t] + 1)]))
    names = ["tile%d" % (t + 1) for t in range(nt)]
    if not c["cube"] and r.random() < .3: names = ["q%s" % chr(97 + t) for t in range(nt)]
    sub = r.choice(["in/", "in/", "in/deep/"]) if kind == "coupled" else r.choice(["", "in/", "in/deep/"])
    if sub and r.random() < .1: sub = "in/" + "d" * 150 + "/"
    os.makedirs(os.path.join(d, sub), exist_ok=True); os.makedirs(os.path.join(d, "w")); P = lambda f: os.path.join(d, sub + f)
    files = ["grid.%s.nc" % s for s in names]; solo = r.choice(["solo_mosaic.nc", "M.nc"])
    for f, s, (x, y) in zip(files, names, T): gl.write_tile(P(f), s, x, y)
    gl.write_mosaic(P(solo), files, names)
    A = [cl.areas(x, y).ravel() * R2 for x, y in T]
    wd = d if sub == "" else os.path.join(d, "w"); up = "" if wd == d else "../"
    a = []; bad = False; flaw = r.random() < .06; top = ""; fmt = r.choice(["NETCDF3_64BIT_OFFSET", "NETCDF3_CLASSIC", "NETCDF4"]); ty = r.choice(["f8", "f4"])
    wrong = flaw and r.random() < .5
    if kind in ("depth", "area"):
        top = r.choice(["topog.nc", "ocean_depth_file.nc"]); a = ["--input_mosaic", up + sub + solo, "--ocean_topog", up + sub + top]
        with netCDF4.Dataset(P(top), "w", format=fmt) as ds:
            ds.createDimension("ntiles", nt + (flaw and not wrong))
            for t in range(nt):
                q = "_tile%d" % (t + 1) if nt > 1 else ""
                ds.createDimension("nx" + q, nx[t] + wrong); ds.createDimension("ny" + q, ny[t])
                V = np.zeros((ny[t], nx[t] + wrong)); V[:, :nx[t]] = np.array(c["v"][t]).reshape(ny[t], nx[t])
                if kind == "area":
                    ds.createVariable("area_frac" + q, ty, ("ny" + q, "nx" + q))[:] = V / 8000
                    if r.random() < .5: ds.createVariable("depth" + q, ty, ("ny" + q, "nx" + q))[:] = r.choice([0, 100])
                else: ds.createVariable("depth" + q, ty, ("ny" + q, "nx" + q))[:] = V
        bad = flaw
        if c["level"] or r.random() < .2: a += ["--sea_level", str(c["level"])]
    elif kind == "land":
        stem = r.choice(["lf", "land.frac"]); ext = r.choice([".nc", ".nc", ""]) if nt > 1 else ".nc"; fld = r.choice(["frac", "lfrac"])
        for t in range(nt):
            f = stem + (".tile%d" % (t + 1) if nt > 1 else "") + ".nc"
            with netCDF4.Dataset(P(f), "w", format=fmt) as ds:
                dims = ("y", "x") if not (flaw and not wrong) else ("z", "y", "x")
                for k, l in zip(dims, (ny[t] + wrong, nx[t]) if len(dims) == 2 else (1, ny[t], nx[t])): ds.createDimension(k, l)
                if wrong: ds.createVariable(fld, ty, dims)[:] = 0
                else: ds.createVariable(fld, ty, dims)[:] = np.array(c["v"][t]).reshape(ny[t], nx[t]) / 8000
        a = ["--input_mosaic", up + sub + solo, "--land_frac_file", up + sub + stem + ext]; bad = flaw
        if r.random() < .03: bad = True
        else: a += ["--land_frac_field", fld]
    else:
        nf = nt if nt > 1 else r.choice([1, 1, 2, 3]); ax = ["atm_tile%dXland_%s.nc" % (k + 1, names[k if nt > 1 else 0]) for k in range(nf)]; per = [[] for _ in range(nf)]
        full = {}
        for t, q, s in c["pieces"]: full[t, q] = full.get((t, q), 0) + s
        for t, q, s in c["pieces"]:
            ar = A[t - 1][q - 1] * s / 8000 * (1 - 3e-7 if full[t, q] == 8000 and r.random() < .5 else 1)
            per[t - 1 if nt > 1 else r.randrange(nf)].append([r.randrange(1, 9), r.randrange(1, 9), (q - 1) % nx[t - 1] + 1, (q - 1) // nx[t - 1] + 1, ar])
        for f, ps in zip(ax, per): write_x(P(f), ps, "atmos_mosaic:tile1::land_mosaic:" + names[0])
        with netCDF4.Dataset(P("grid_spec.nc"), "w", format="NETCDF3_64BIT_OFFSET") as ds:
            ds.createDimension("string", 255); ds.createDimension("nfile_aXl", nf)
            v = ds.createVariable("lnd_mosaic_file", "S1", ("string",)); v.set_auto_chartostring(False); v[:] = gl.chars(solo)
            v = ds.createVariable("aXl_file", "S1", ("nfile_aXl", "string")); v.set_auto_chartostring(False)
            for k in range(nf): v[k] = gl.chars(ax[k])
        a = ["--input_mosaic", up + sub + "grid_spec.nc"]
        if flaw: bad = True; a[1] = up + sub + solo
    name = r.choice([None, "quick", "grid_spec2"])
    if len(sub) > 99: name = "q" * 180
    if name: a += ["--mosaic_name", name]
    def listing(): return sorted(os.path.relpath(os.path.join(t, f), d) for t, _, fs in os.walk(d) for f in fs)
    def go(wd, a, name, src):
        before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}
        R = core.run([core.tool("make_quick_mosaic")] + a, wd); o = dict(rc=R.rc, read=False, files=True, inputs=True, copies=True, mosaic=[], topog=[], tiles=[])
        if R.rc == 0:
            try:
                new = [(name or "mosaic") + ".nc"]; q = lambda t: "_tile%d" % (t + 1) if nt > 1 else ""
                with netCDF4.Dataset(os.path.join(wd, new[0])) as ds:
                    ds.set_auto_mask(False); ds.set_auto_chartostring(False)
                    o["mosaic"] = [text(ds[k + s][:]) for k in ("atm", "lnd", "ocn") for s in ("_mosaic_dir", "_mosaic_file", "_mosaic")]
                    o["topog"] = [text(ds[k][:]) for k in ("ocn_topog_dir", "ocn_topog_file") if k in ds.variables]
                    fs = [[text(x) for x in ds[k][:]] for k in ("aXl_file", "aXo_file", "lXo_file")]
                for t in range(nt):
                    z = dict(file=[f[t] for f in fs], contact=[]); new += z["file"] + ["land_mask%s.nc" % q(t), "ocean_mask%s.nc" % q(t)]
                    for k, f in zip(("axl", "axo", "lxo"), z["file"]):
                        with netCDF4.Dataset(os.path.join(wd, f)) as ds:
                            ds.set_auto_mask(False); ds.set_auto_chartostring(False); z["contact"].append(text(ds["contact"][:]))
                            c1, c2, ar, d1, d2 = [np.array(ds[x][:]) for x in ("tile1_cell", "tile2_cell", "xgrid_area", "tile1_distance", "tile2_distance")]
                            z[k] = []
                            for m in range(len(ar)):
                                i, j = int(c1[m, 0]), int(c1[m, 1]); ok = 1 <= i <= nx[t] and 1 <= j <= ny[t]
                                z[k].append([i, j] + c2[m].astype(int).tolist() + [int(min(2e9, max(-2e9, round(ar[m] / A[t][(j - 1) * nx[t] + i - 1] * 1e6)))) if ok and np.isfinite(ar[m]) else -1, int(np.any(d1[m] != 0) or np.any(d2[m] != 0))])
                    for k, f in (("lmask", "land_mask"), ("omask", "ocean_mask")):
                        with netCDF4.Dataset(os.path.join(wd, f + q(t) + ".nc")) as ds:
                            m = np.array(ds["mask"][:]); z[k] = [int(round(x * 1e6)) if abs(x) < 2e3 else -1 for x in m.ravel().tolist()] if m.shape == (ny[t], nx[t]) else []
                    o["tiles"].append(z)
                cp = [solo] + files
                o["copies"] = all(sha(os.path.join(wd, f)) == sha(os.path.join(src, f)) for f in cp)
                o["files"] = set(listing()) == set(before) | {os.path.relpath(os.path.join(wd, f), d) for f in new + cp}
                o["read"] = True
            except Exception as ex: o["err"] = str(ex)[:300]
        o["inputs"] = all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before)
        return o
    o = go(wd, a, name, os.path.join(d, sub)); o2 = o; twice = o["rc"] == 0 and r.random() < .4
    if twice:
        w2 = os.path.join(d, "again"); os.makedirs(w2); o2 = go(w2, ["--input_mosaic", ("../" if wd == d else "../w/") + (name or "mosaic") + ".nc"], None, wd)
    return {"gen": g, "repro": "make_quick_mosaic " + " ".join(a) + " # %d tiles" % nt, "kind": kind, "nx": nx, "ny": ny, "v": c["v"], "level": c["level"], "pieces": c["pieces"], "bad": bad, "twice": twice,
            "names": names, "solo": solo, "topog": top, "obs": o, "obs2": o2}
