"""Cases for fregrid from a cubed sphere (second order, monotonic, bilinear)."""
import math, os, random, functools
import numpy as np, netCDF4
import core, grid_lib as gl, hgrid_lib as hl
from combine_lib import sha
from lonlat_lib import polyarea

BIG = 2000000000; R2 = 6371000. ** 2; D = math.pi / 180
CON = ((1, 2, "{0}:{0},1:{0}::1:1,1:{0}"), (1, 3, "1:{0},{0}:{0}::1:1,{0}:1"), (1, 5, "1:1,1:{0}::{0}:1,{0}:{0}"), (1, 6, "1:{0},1:1::1:{0},{0}:{0}"), (2, 3, "1:{0},{0}:{0}::1:{0},1:1"),
       (2, 4, "{0}:{0},1:{0}::{0}:1,1:1"), (2, 6, "1:{0},1:1::{0}:{0},{0}:1"), (3, 4, "{0}:{0},1:{0}::1:1,1:{0}"), (3, 5, "1:{0},{0}:{0}::1:1,{0}:1"), (4, 5, "1:{0},{0}:{0}::1:{0},1:1"),
       (4, 6, "{0}:{0},1:{0}::{0}:1,1:1"), (5, 6, "{0}:{0},1:{0}::1:1,1:{0}"))

@functools.lru_cache(None)
def cube(n, shift):
    """supergrid longitudes and latitudes of the six tiles"""
    P = hl.ideal(2 * n, shift, None); m = 4 * n; r = []
    for t in range(1, 7):
        v = np.array([[P[hl.at(m, t, 2 * i, 2 * j)] for i in range(2 * n + 1)] for j in range(2 * n + 1)])
        v = np.where(np.abs(v) < 1e-14, 0., v)
        r.append((np.degrees(np.arctan2(v[..., 1], v[..., 0])) % 360, np.degrees(np.arcsin(np.clip(v[..., 2], -1, 1)))))
    return r

def areas(x, y):
    """cells (every second point), sides straight in longitude and latitude, a corner at a pole belongs to both meridians"""
    x, y = x[::2, ::2] * D, y[::2, ::2] * D; a = np.zeros((x.shape[0] - 1, x.shape[1] - 1))
    for j in range(a.shape[0]):
        for i in range(a.shape[1]):
            q = [(x[j, i], y[j, i]), (x[j, i + 1], y[j, i + 1]), (x[j + 1, i + 1], y[j + 1, i + 1]), (x[j + 1, i], y[j + 1, i])]; p = []
            for k, (l, b) in enumerate(q):
                if abs(b) > math.pi / 2 - 1e-9: p += [(q[k - 1][0], b), (q[(k + 1) % 4][0], b)]
                else: p.append((l, b))
            a[j, i] = polyarea([l for l, b in p], [b for l, b in p])
    return a

def write_cube(d, stem, n, shift):
    for t, (x, y) in enumerate(cube(n, shift)): gl.write_tile(os.path.join(d, "%s.tile%d.nc" % (stem, t + 1)), "tile%d" % (t + 1), x, y)
    gl.write_mosaic(os.path.join(d, stem + "_mosaic.nc"), ["%s.tile%d.nc" % (stem, t) for t in range(1, 7)], ["tile%d" % t for t in range(1, 7)],
                    [("%s:tile%d::%s:tile%d" % (stem, a, stem, b), s.format(2 * n)) for a, b, s in CON], mosaic=stem)

SMOOTH = {"s1": (lambda x, y: np.sin(y * D)), "s2": (lambda x, y: np.cos(y * D) * np.cos(x * D)), "s3": (lambda x, y: np.cos(y * D) * np.sin(x * D))}
def exact(k, lx, ly):
    """mean of a smooth field over longitude-latitude cells"""
    a, b = np.array(ly[:-1]) * D, np.array(ly[1:]) * D; A = np.sin(b) - np.sin(a)
    if k == "s1": return np.repeat(((np.sin(b) ** 2 - np.sin(a) ** 2) / 2 / A)[:, None], len(lx) - 1, 1)
    q = ((b - a) / 2 + (np.sin(2 * b) - np.sin(2 * a)) / 4) / A; l = np.array(lx) * D
    w = (np.sin(l[1:]) - np.sin(l[:-1])) if k == "s2" else (np.cos(l[:-1]) - np.cos(l[1:]))
    return q[:, None] * (w / (l[1:] - l[:-1]))[None]

def mk(g):
    r = random.Random("cubic" + g["seed"])
    c = dict(n=r.choice([2, 4, 4, 6]), method=r.choice(["conserve_order1", "conserve_order2", "conserve_order2", "conserve_order2_monotonic", "conserve_order2_monotonic", "bilinear"]),
             to=r.choice(["global", "global", "region", "same", "cube", "tile"]), holes=r.random() < .4, np=r.choice([1, 1, 2, 3, 4]), saved=r.random() < .4)
    c.update({k: v for k, v in g.items() if k in c})
    if c["method"] == "bilinear": c.update(to="global", np=1, saved=False)
    return c, r

def run_gen(g, d):
    c, r = mk(g); n = c["n"]; shift = r.choice([18., 18., 0., 7.]); mt = c["method"]
    write_cube(d, "C", n, shift); T = cube(n, shift)
    isub = r.choice(["", "in/"]); os.makedirs(os.path.join(d, isub), exist_ok=True)
    nt, nz = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2]); off = r.choice([0, 0, 100, -100])
    sm = r.random() < .4                          # long-wave data, else noise
    data = np.array([[off + r.randrange(-20, 21) for _ in range(6 * n * n)] for _ in range(nt * nz)])
    if sm:
        k = np.array([[r.uniform(-9, 9) for _ in range(3)] for _ in range(nt * nz)]); v = np.concatenate([hl.xyz(x[1::2, 1::2], y[1::2, 1::2]).reshape(-1, 3) for x, y in T])
        data = off + np.round(k @ v.T).astype(int)
    elif r.random() < .3: data = off + 3 * (np.arange(6 * n * n) // r.choice([n * n, n * n // 2, n]) % 5)[None] + np.zeros((nt * nz, 1), int)
    valid = [not c["holes"] or r.random() < .8 for _ in range(6 * n * n)]
    if not any(valid): valid[0] = True
    miss = r.choice([-1e20, -999., -32768.]); typ = r.choice(["f8", "f8", "f4"])
    if typ == "f4": miss = r.choice([-999., -32768.])
    dims = [("time", None)] * (nt > 1 or r.random() < .5) + [("z", nz)] * (nz > 1 or r.random() < .3) + [("grid_yt", n), ("grid_xt", n)]
    for t in range(6):
        x, y = T[t][0][1::2, 1::2], T[t][1][1::2, 1::2]
        with netCDF4.Dataset(os.path.join(d, isub, "d.tile%d.nc" % (t + 1)), "w", format="NETCDF3_64BIT_OFFSET") as ds:
            for k, l in dims: ds.createDimension(k, l)
            for k, ax in (("grid_xt", "X"), ("grid_yt", "Y"), ("z", "Z"), ("time", "T")):
                if k in ds.dimensions: v = ds.createVariable(k, "f8", (k,)); v.cartesian_axis = ax; v[:] = np.arange({"grid_xt": n, "grid_yt": n, "z": nz, "time": nt}[k]) + 1.
                if k == "time" and k in ds.dimensions: v.units = "days since 2000-01-01"; v.calendar = "julian"
            v = ds.createVariable("a", typ, [k for k, l in dims]); v.set_auto_maskandscale(False)
            if c["holes"] or r.random() < .3: v.missing_value = np.dtype(typ).type(miss)
            q = np.where(np.array(valid)[None, t * n * n:(t + 1) * n * n], data[:, t * n * n:(t + 1) * n * n].astype(float), miss)
            v[:] = q.reshape([{"time": nt, "z": nz}.get(k, n) for k, l in dims])
            for k, f in SMOOTH.items(): ds.createVariable(k, "f8", ("grid_yt", "grid_xt"))[:] = f(x, y)
    a = ["--input_mosaic", "C_mosaic.nc", "--input_file", "d", "--scalar_field", "a,s1,s2,s3", "--interp_method", mt]
    if isub: a += ["--input_dir", isub.rstrip("/")]
    elif r.random() < .3: a[3] = "d.nc"
    lx = ly = None
    if c["to"] in ("global", "region"):
        nx, ny = r.randrange(5, 17), r.randrange(3, 10); box = [0, 360, -90, 90]
        if c["to"] == "region":
            w, h = r.choice([30, 60, 120, 200]), r.choice([20, 45, 70]); x0, y0 = r.choice([0, 15, 100, 330 - w, -w // 2]), r.choice([-90, -40, 0, 90 - h]); box = [x0, x0 + w, y0, y0 + h]
            if w / nx > 60: nx = 8
            for o, v in zip(("lonBegin", "lonEnd", "latBegin", "latEnd"), box): a += ["--" + o, str(v)]
        a += ["--nlon", str(nx), "--nlat", str(ny)]
        if mt == "bilinear" and r.random() < .5: a += ["--center_y"]
        lx, ly = [box[0] + i * (box[1] - box[0]) / nx for i in range(nx + 1)], [box[2] + j * (box[3] - box[2]) / ny for j in range(ny + 1)]
        ot = [gl.supergrid(lx, ly)]
    elif c["to"] == "tile":
        N, S = 24, 8; nx = r.randrange(4, 13); cut = [0] + sorted(r.sample(range(1, N), nx - 1)) + [N]
        while max(q - p for p, q in zip(cut, cut[1:])) > 5: cut = [0] + sorted(r.sample(range(1, N), nx - 1)) + [N]; nx = min(12, nx + 1)
        s = r.randrange(-N, 1); lx = [(s + k) * 360 / N for k in cut]; ly = [gl.latdeg(k, S) for k in [-S] + sorted(r.sample(range(1 - S, S), r.randrange(1, 7))) + [S]]
        ot = [gl.supergrid(lx, ly)]; gl.write_tile(os.path.join(d, "O.nc"), "tile1", *ot[0]); gl.write_mosaic(os.path.join(d, "O_mosaic.nc"), ["O.nc"], ["tile1"]); a += ["--output_mosaic", "O_mosaic.nc"]
    elif c["to"] == "cube":
        n2, s2 = r.choice([2, 4, 6]), r.choice([18., 0., 7.]); write_cube(d, "O", n2, s2); ot = cube(n2, s2); a += ["--output_mosaic", "O_mosaic.nc"]
    else: write_cube(d, "S", n, shift); ot = T; a += ["--output_mosaic", "S_mosaic.nc"]
    shp = [((x.shape[0] - 1) // 2, (x.shape[1] - 1) // 2) for x, y in ot]
    np_ = max(k for k in range(1, c["np"] + 1) if all(k <= ny for ny, nx in shp))
    whole = c["to"] != "region" and all(valid)
    conserve = mt != "bilinear"; rm = ["--remap_file", "remap.nc"] if conserve else []
    def listing(): return sorted(os.path.relpath(os.path.join(t, f), d) for t, _, fs in os.walk(d) for f in fs)
    before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}
    def go(k, out, rem):
        cmd = [core.tool("fregrid_parallel" if k > 1 else "fregrid")] + a + ["--output_file", out] + rem
        return core.mpirun(k, cmd, d) if k > 1 else core.run(cmd, d, timeout=120)
    ts = [""] if len(ot) == 1 else [".tile%d" % t for t in range(1, 7)]
    def read(out, name):
        q = []
        for t in ts:
            with netCDF4.Dataset(os.path.join(d, out + t + ".nc")) as ds: ds.set_auto_maskandscale(False); q.append(np.array(ds[name][:], float))
        return q
    o = dict(rc=0, read=False, files=True, inputs=True, shape=False, again=True, alone=True, moment=0, total=0, rough=0, identity=0, xo=[], ain=[], out=[])
    Rn = go(np_, "o", rm); o["rc"] = Rn.rc
    if Rn.rc == 0:
        o["files"] = listing() == sorted(before + ["o%s.nc" % t for t in ts] + (["remap%s.nc" % t for t in ts] if conserve else []))
        try:
            A = read("o", "a"); S = {k: read("o", k) for k in SMOOTH}
            o["shape"] = [q.shape for q in A] == [tuple({"time": nt, "z": nz}.get(k, 0) for k, l in dims if k in ("time", "z")) + s for s in shp]
            md = miss if "missing_value" in netCDF4.Dataset(os.path.join(d, isub, "d.tile1.nc"))["a"].ncattrs() else -1e20
            F = np.concatenate([q.reshape(nt * nz, -1) for q in A], 1)
            o["out"] = [[BIG if v == np.dtype(typ).type(md) or v == md else max(-BIG, min(BIG - 1, int(round(v * 1000)))) if math.isfinite(v) else BIG - 1 for v in rec] for rec in F.tolist()]
            if conserve:
                unit = 4 * math.pi * R2 / (6 * n * n) / 1e6; base = 0; xo = [[] for _ in range(sum(p * q for p, q in shp))]; ain = np.zeros(6 * n * n); mom = np.zeros((6 * n * n, 2))
                tot = np.zeros(nt * nz)
                for t, (ny, nx) in zip(ts, shp):
                    with netCDF4.Dataset(os.path.join(d, "remap%s.nc" % t)) as ds:
                        ds.set_auto_maskandscale(False)
                        ti, c1, c2, ar = ds["tile1"][:].astype(int), ds["tile1_cell"][:].astype(int), ds["tile2_cell"][:].astype(int), ds["xgrid_area"][:]
                        ci = (ti - 1) * n * n + (c1[:, 1] - 1) * n + c1[:, 0] - 1; co = base + (c2[:, 1] - 1) * nx + c2[:, 0] - 1
                        for p, q, w in zip(ci.tolist(), co.tolist(), ar.tolist()): xo[q].append([p + 1, int(round(w / unit))])
                        np.add.at(ain, ci, ar)
                        if mt != "conserve_order1": np.add.at(mom, ci, ar[:, None] * ds["tile1_distance"][:])
                        w = np.zeros(nx * ny); np.add.at(w, co - base, ar); tot += (F[:, base:base + nx * ny] * w).sum(1) if whole else 0
                    base += nx * ny
                o["xo"] = xo; o["ain"] = np.round(ain / unit).astype(int).tolist(); full = np.where(ain > 0, ain, 1)
                if whole: o["moment"] = int(min(1e9, np.abs(mom / full[:, None]).max() * 1e9)); o["total"] = int(min(1e9, np.abs(tot - data @ ain).max() / (np.abs(data).max() + 1) / ain.sum() * 1e9 / (1 if typ == "f8" else 100)))
            if c["to"] in ("global", "region", "tile"):
                for k in SMOOTH:
                    if mt == "bilinear":
                        with netCDF4.Dataset(os.path.join(d, "o.nc")) as ds: X, Y = np.meshgrid(*[ds[k][:] for k in reversed(ds["s1"].dimensions)])
                        e = SMOOTH[k](X, Y)
                    else: e = exact(k, lx, ly)
                    o["rough"] = max(o["rough"], int(min(1e9, np.abs(S[k][0] - e).max() * 1e4 * (n if mt == "conserve_order1" else n * n))))
            if c["to"] == "same": o["identity"] = int(min(1e9, max(np.abs(S[k][t] - SMOOTH[k](T[t][0][1::2, 1::2], T[t][1][1::2, 1::2])).max() for k in SMOOTH for t in range(6)) * 1e9))
            def differ(u): return all(np.allclose(p, q, rtol=1e-6 if typ == "f4" else 1e-11, atol=1e-11) for k in ("a", "s1", "s2", "s3") for p, q in zip(read("o", k), read(u, k)))
            if c["saved"]:
                p = r.choice([1, np_]); R2n = go(p, "p", rm); o["rc"] = o["rc"] or R2n.rc; o["again"] = R2n.rc == 0 and differ("p")
            if np_ > 1:
                R3 = go(1, "q", []); o["rc"] = o["rc"] or R3.rc; o["alone"] = R3.rc == 0 and differ("q")
            o["read"] = True
        except Exception as ex: o["err"] = str(ex)[:300]
    o["inputs"] = all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before)
    unit = 4 * math.pi / (6 * n * n) / 1e6
    aout = np.concatenate([areas(x, y).ravel() for x, y in ot]) / unit; ai = np.concatenate([areas(x, y).ravel() for x, y in T]) / unit
    return {"gen": g, "repro": ("mpirun -n %d fregrid_parallel " % np_ if np_ > 1 else "fregrid ") + " ".join(a + rm) + " # C%d to %s" % (n, c["to"]), "n": n, "method": mt, "to": c["to"], "whole": whole, "valid": valid,
            "data": data.tolist(), "ain": np.round(ai).astype(int).tolist(), "aout": np.round(aout).astype(int).tolist(), "pieces": [], "no": 0, "obs": o}
