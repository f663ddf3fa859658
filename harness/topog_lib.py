"""Cases for make_topog."""
import math, os, random
import numpy as np, netCDF4
import core, grid_lib as gl
from combine_lib import sha
from coupler_lib import fits
from runoff_lib import centers

U = 256; BIG = 2000000000
KEYS = ("ni", "nj", "type", "d", "zw", "passes", "deepen", "row", "full", "flat", "cycx", "cycy", "tri", "fill", "keep", "adjust", "opens", "frac", "mt", "kmin", "few", "depth", "gap", "N", "src", "dst")

def unit(v):
    v = float(v)
    if not math.isfinite(v) or abs(v) > 5e6: return BIG
    q = v * U; k = int(round(q))
    return k

def exact(v): return bool(np.all(np.abs(v * U - np.round(v * U)) < 1e-9))

def mk(g):
    r = random.Random("topog" + g["seed"])
    if "d" in g: return {k: g[k] for k in KEYS}, r
    c = dict(ni=1, nj=1, type=r.choice(["copy"] * 6 + ["mean"] * 3 + ["basin", "channel", "other"]), d=[], zw=[], passes=0, deepen=False, row=False, full=False, flat=False, cycx=False, cycy=False, tri=False, fill=True, keep=False,
             adjust=True, opens=True, frac=8, mt=256, kmin=2, few="", depth=0, gap=[1, 2, 1, 2], N=8, src={"lon": [0, 1], "lat": [0, 1]}, dst={"lon": [0, 1], "lat": [0, 1]})
    if c["type"] in ("basin", "channel", "other"):
        c["ni"], c["nj"] = r.randrange(1, 9), r.randrange(1, 9); c["depth"] = r.choice([5000, 100, 1, 37]) * U
        if c["type"] == "other": c["ni"], c["nj"] = r.randrange(3, 9), r.randrange(3, 9); c["depth"] = r.choice([5000, 100]) * U
        if c["type"] == "channel":
            a, b = (sorted(r.randrange(1, c["nj"] + 1) for _ in range(2)) for _ in range(2)); c["gap"] = a + b
        return c, r
    c["passes"] = r.choice([0, 0, 0, 1, 1, 2]); c["deepen"] = c["passes"] > 0 and r.random() < .4; c["row"] = r.random() < .25
    if c["type"] == "mean":
        while True:
            N = c["N"] = r.choice([8, 8, 12, 24]); S = c["S"] = r.choice([4, 5, 6, 8])
            w = r.choice([1, 2, 3]) if N < 24 else r.choice([2, 3, 4, 6]); n = r.choice([N // w] * 3 + [r.randrange(2, N // w + 1)]); s = r.choice([0, 0, -1, r.randrange(-N // 2, 1)])
            lon = [s + w * i for i in range(n + 1)]; m = r.choice([2, 3, 3, 4, 5]); lo = r.choice([-S, -S, r.randrange(-S, S - m)])
            if m > S - lo or n < 2: continue
            lat = [lo] + sorted(r.sample(range(lo + 1, S), m - 1)); lat.append(min(S, lat[-1] + 1))
            if r.random() < .3: k = r.randrange(1, S + 1); lat = [-k, 0, k]
            if centers(lat, S) is None: continue
            break
        c["src"] = {"lon": lon, "lat": lat}
        while True:
            n = r.randrange(1, 9); s = r.choice([0, 0, r.randrange(-N // 2, 1)]); cut = [0] + sorted(r.sample(range(1, N), n - 1)) + [N]
            if r.random() < .4: cut = cut[:-1]
            if len(cut) < 2 or max(b - a for a, b in zip(cut, cut[1:])) > N // 4: continue
            la = sorted(r.sample(range(-S, S + 1), r.randrange(2, 7)))
            if r.random() < .15: k = r.randrange(-S, S); la = [k, k + 1]
            break
        c["dst"] = {"lon": [s + k for k in cut], "lat": la}; c["ni"], c["nj"] = len(cut) - 1, len(la) - 1
        nx, ny = len(lon) - 1, len(lat) - 1; ex = ny == 2 and lat[0] == -lat[2] and lat[1] == 0; nv = nx * (ny if ex else ny - 1); p = r.choice([.3, .7, 1.])
        c["d"] = [(r.randrange(1, 300) * U if r.random() < p else r.choice([0, -1, -40 * U])) if a < nv else r.choice([0, -1]) for a in range(nx * ny)]
        return c, r
    c["ni"], c["nj"] = r.randrange(2, 9), r.randrange(2, 8)
    z = [10]
    for _ in range(r.choice([0, 1, 2, 2, 3, 4])): z.append(z[-1] + r.choice([10, 10, 20, 20, 40, 80]))
    if r.random() < .85: c["zw"] = [v * U for v in z]
    p = r.choice([.1, .3, .3, .0, .6]); top = z[-1] + 15; q = 16 if c["passes"] == 1 else U
    if r.random() < .4: base = r.randrange(1, top)
    else: base = None
    def dep():
        if r.random() < p: return r.choice([0, 0, -1])
        if base is not None and r.random() < .7: return base * U
        k = r.random()
        if k < .25: return r.choice(z) * U
        if k < .45: return max(1, r.choice(z) * U + (r.choice([-64, 16, 16, 32, 512, 544, -256, 3 * U]) if not c["passes"] else r.choice([-2, -1, 1, 1, 2, 3]) * U))
        return r.randrange(1, top) * U + (r.choice([0, 64, 128]) if not c["passes"] else 0)
    c["d"] = [dep() for _ in range(c["ni"] * c["nj"])]
    if c["zw"]:
        for k, pr in (("full", .12), ("flat", .1), ("keep", .25)): c[k] = r.random() < pr
        c["fill"] = r.random() < .85; c["adjust"] = r.random() < .9; c["opens"] = r.random() < .6
        c["frac"] = r.choice([8, 8, 8, 10, 20, 5, 0, 40]); c["mt"] = r.choice([256, 256, 0, 2 * 2560, 1280])
        c["kmin"] = r.choice([2, 2, 2, 1, 3, 4, 0]); c["few"] = r.choice(["", "", "round", "fill", "deepen"])
        b = r.choice(["", "x", "x", "y", "xy", "t", "xt"]); c["cycx"], c["cycy"], c["tri"] = "x" in b, "y" in b, "t" in b and c["ni"] in (4, 6, 8)
    return c, r

def write_src(path, r, xc, yc, dm, miss, fld, typ, fmt, names):
    """dm: depths in metres with nan for missing"""
    with netCDF4.Dataset(path, "w", format=fmt) as ds:
        ds.createDimension(names[0], len(xc)); ds.createDimension(names[1], len(yc))
        if r.random() < .3: ds.createVariable("junk", "f4", (names[1], names[0]))[:] = 5.
        for k, a in zip(names, (xc, yc)): ds.createVariable(k, "f8", (k,))[:] = a
        v = ds.createVariable(fld, typ, (names[1], names[0])); v.set_auto_maskandscale(False); v.missing_value = np.dtype(typ).type(miss)
        v[:] = np.where(np.isnan(dm), miss, np.nan_to_num(dm)).astype(typ)

def run_gen(g, d):
    c, r = mk(g); ni, nj = c["ni"], c["nj"]; S = c.get("S", 4); N = c["N"]; typ = c["type"]; real = typ in ("copy", "mean")
    tlc = "d" in g; bad = False; q = 1 if tlc else r.random(); c["nt"] = 1
    gsub, ssub = r.choice(["", "", "grid/"]), r.choice(["", "", "src/"])
    for s in (gsub, ssub): os.makedirs(os.path.join(d, s), exist_ok=True)
    if typ == "mean": x, y = gl.supergrid([e * 360 / N for e in c["dst"]["lon"]], [gl.latdeg(k, S) for k in c["dst"]["lat"]])
    else:
        x0, w, y0, h = r.choice([(0, 360, -80, 160), (-60, 60, -30, 60), (10, 20, 55, 20)]); nn = max(1, ni)
        x, y = gl.supergrid([x0 + i * w / nn for i in range(ni + 1)], [y0 + j * h / nj for j in range(nj + 1)])
    nt = 1 if real or r.random() < .6 else r.choice([2, 3]); c["nt"] = nt
    if real and q < .02: nt, bad = 2, True
    if q > .98 and q < .99 and not tlc: bad = True; x, y = x[:, :-1], y[:, :-1]
    fs = ["g%d.nc" % t for t in range(nt)]
    for f in fs: gl.write_tile(os.path.join(d, gsub, f), f[:-3], x, y)
    con = []
    X, Y = 2 * ni, 2 * nj
    if c["cycx"]: con.append(("m:g0::m:g0", "%d:%d,1:%d::1:1,1:%d" % (X, X, Y, Y)))
    if c["cycy"]: con.append(("m:g0::m:g0", "1:%d,1:1::1:%d,%d:%d" % (X, X, Y, Y)))
    if c["tri"]: con.append(("m:g0::m:g0", "1:%d,%d:%d::%d:%d,%d:%d" % (X // 2, Y, Y, X, X // 2 + 1, Y, Y)))
    if len(con) > 1 and r.random() < .5: con.reverse()
    gl.write_mosaic(os.path.join(d, gsub, "mosaic.nc"), fs, [f[:-3] for f in fs], con)
    a = ["--mosaic", gsub + "mosaic.nc"]; same = None
    if real:
        if typ == "copy": nx, ny = ni, nj; xc, yc = np.arange(nx) + .5, np.arange(ny) * 2. - 3
        else:
            I = c["src"]; nx, ny = len(I["lon"]) - 1, len(I["lat"]) - 1; xc = [(p + s) * 180 / N for p, s in zip(I["lon"], I["lon"][1:])]; yc = centers(I["lat"], S)
            if ny == 2 and I["lat"][0] == -I["lat"][2] and I["lat"][1] == 0: yc = [-gl.latdeg(I["lat"][2], S) / 2, gl.latdeg(I["lat"][2], S) / 2]
        dm = np.array([v / U if v >= 0 else (np.nan if v == -1 else v / U) for v in c["d"]], float).reshape(ny, nx)
        whole = all(v % U == 0 or v == -1 for v in c["d"]); sc = r.choice([1, 1, 1, -1, -1, 2, .5])
        dt = r.choice(["f8", "f8", "f4"] + (["i4"] if whole and sc in (1, -1) else []))
        if sc == 2 and dt == "i4": sc = 1
        miss = r.choice([-9999, 9999, -32768]); fld = r.choice(["depth", "elev", "z"]); names = r.choice([("lon", "lat"), ("x", "y"), ("grid_x", "grid_y")])
        if fld in names: fld = "topo"
        if q > .96 and q < .98 and typ == "copy": # not the size of the grid
            bad = True; dm = np.concatenate([dm, dm[:1]]); yc = list(yc) + [yc[-1] + 2]
        write_src(os.path.join(d, ssub, "src.nc"), r, xc, yc, dm / sc, miss, fld, dt, r.choice(["NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF4_CLASSIC"]), names)
        if r.random() < .6: a += ["--topog_type", "realistic"]
        a += ["--topog_file", ssub + "src.nc", "--topog_field", fld]
        if sc != 1 or r.random() < .2: a += ["--scale_factor", str(sc)]
        if typ == "copy": a += ["--on_grid"]
        if c["passes"]:
            a += ["--filter_topog"]
            if c["passes"] != 1 or r.random() < .5: a += ["--num_filter_pass", str(c["passes"])]
            if c["deepen"]: a += ["--smooth_topo_allow_deepening"]
        if c["row"]: a += ["--fill_first_row"]
        if c["zw"]:
            nk = len(c["zw"]); ze = [0.]
            for k in range(nk): ze += [(ze[-1] + c["zw"][k] / U) / 2, c["zw"][k] / U]
            if .02 < q < .035: bad = True; ze = ze[:-1]
            with netCDF4.Dataset(os.path.join(d, "vgrid.nc"), "w", format="NETCDF3_CLASSIC") as ds:
                ds.createDimension("nzv", len(ze)); ds.createVariable("zeta", "f8", ("nzv",))[:] = ze
            a += ["--vgrid_file", "vgrid.nc"]
            for k, o in (("full", "--full_cell"), ("flat", "--flat_bottom"), ("keep", "--dont_change_landmask")):
                if c[k]: a.append(o)
            if not c["fill"]: a.append("--dont_fill_isolated_cells")
            if not c["adjust"]: a.append("--dont_adjust_topo")
            if not c["opens"]: a.append("--dont_open_very_this_cell")
            if c["frac"] != 8 or r.random() < .2: a += ["--fraction_full_cell", repr(c["frac"] / 40)]
            if c["mt"] != 256 or r.random() < .2: a += ["--min_thickness", repr(c["mt"] / 2560)]
            if c["kmin"] != 2 or r.random() < .2: a += ["--kmt_min", str(c["kmin"])]
            fw = [c["few"]] if c["few"] else []
            if .035 < q < .05 and c["adjust"]: bad = True; fw = r.sample(["round", "fill", "deepen"], r.choice([2, 2, 3]))
            a += ["--%s_shallow" % f for f in fw]
        if .05 < q < .065: bad = True; k = r.choice(["--topog_file", "--topog_field"]); i = a.index(k); a = a[:i] + a[i + 2:]
        elif .065 < q < .08: bad = True; a[a.index("--topog_field") + 1] = "nothere"
    else:
        kind = {"basin": "rectangular_basin", "channel": "box_channel"}.get(typ) or r.choice(["gaussian", "bowl", "idealized", "dome"])
        a += ["--topog_type", kind, "--bottom_depth", repr(c["depth"] / U)]
        if typ == "channel":
            gp = list(c["gap"])
            if q < .1: bad = True; r.choice([lambda: gp.__setitem__(0, gp[1] + 1), lambda: gp.__setitem__(3, 0), lambda: gp.__setitem__(2, gp[3] + 1)])()
            for k, v in zip(("jwest_south", "jwest_north", "jeast_south", "jeast_north"), gp): a += ["--" + k, str(v)]
        if .1 < q < .13 and not tlc: bad = True; a += ["--vgrid_file", "v.nc"]
        if typ == "other": a += ["--min_depth", "1", "--bowl_east", "30", "--gauss_scale", "0.5", "--dome_bottom", repr(c["depth"] / U), "--dome_embayment_depth", "0.5"]
    if .08 < q < .095: bad = True; a += ["--topog_type", "nonsense"]
    elif .095 < q < .1: bad = True; a = a[2:]
    outf = "topog.nc"
    if r.random() < .4: outf = r.choice(["o.nc", "out/t.nc", "t" * 40 + ".nc"]); os.makedirs(os.path.join(d, "out"), exist_ok=True); a += ["--output", outf]
    if r.random() < .2: a.append("--verbose")
    if r.random() < .1: a = [v if not v.endswith(("mosaic.nc", "src.nc", "vgrid.nc")) else "./" * 95 + v for v in a] # a long command line
    np_ = r.choice([1, 1, 2, 3, 4]) if not bad else 1
    if typ == "other" and not bad: np_ = r.choice([2, 3, 4])
    np_ = max(n for n in range(1, np_ + 1) if fits(ni, nj, n))
    def listing(): return sorted(os.path.relpath(os.path.join(t, f), d) for t, _, fs_ in os.walk(d) for f in fs_)
    before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}
    def go(n, args): 
        cmd = [core.tool("make_topog_parallel" if n > 1 else "make_topog")] + args
        return core.mpirun(n, cmd, d) if n > 1 else core.run(cmd, d, timeout=120)
    R = go(np_, a)
    o = {"rc": R.rc, "read": False, "files": listing() == sorted(set(before + [outf])), "inputs": all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before), "atts": False, "tiles": [], "same": False, "range": False}
    def read(f):
        res = []
        with netCDF4.Dataset(f) as ds:
            ds.set_auto_maskandscale(False)
            ks = ["depth"] if "depth" in ds.variables else ["depth_tile%d" % (t + 1) for t in range(ds.dimensions["ntiles"].size)]
            for k in ks:
                v = ds.variables[k]; l = ds.variables.get(k.replace("depth", "num_levels"))
                res.append((v[:], None if l is None else l[:], v.ncattrs(), getattr(v, "units", "")))
            return res, ds.dimensions["ntiles"].size, getattr(ds, "history", "")
    if R.rc == 0:
        try:
            t, n, hist = read(os.path.join(d, outf))
            o["tiles"] = [{"shape": list(h.shape), "h": [unit(v) for v in h.ravel()], "k": [] if l is None else [int(v) for v in l.ravel()]} for h, l, _, _ in t]
            o["atts"] = n == c["nt"] and all(z[3] == "meters" and "standard_name" in z[2] for z in t) and hist.split()[1:] == a
            if real and typ == "copy" or typ in ("basin", "channel"): o["atts"] = o["atts"] and all(exact(z[0]) for z in t)
            o["range"] = all(np.all(np.isfinite(z[0])) for z in t)
            if typ == "other":
                R2 = go(1, a + ["--output", "serial.nc"]); t2 = read(os.path.join(d, "serial.nc"))[0] if R2.rc == 0 else []
                o["same"] = len(t2) == len(t) and all(np.array_equal(p[0], s[0]) for p, s in zip(t, t2))
            o["read"] = True
        except Exception as e: o["read"] = False
    c.pop("S", None)
    return dict(c, bad=bad, np=np_, gen=g, obs=o, repro="%d: %s %s" % (np_, " ".join(a), str({k: c[k] for k in ("ni", "nj", "d", "zw", "src", "dst")})[:500]))
