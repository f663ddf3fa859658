"""Cases for make_hgrid's one-tile grids and for make_vgrid."""
import math, os, random
import numpy as np, netCDF4
import core
from hgrid_lib import xyz, excess, RADIUS

BASE = dict(type="regular", xb=[], xn=[], xd=[], xnb=0, yb=[], yn=[], yd=[], ynb=0, center="none", join=65, gca=False, flat=30, sdx=0, sdy=0, xt=[], yt=[], stretch=1)
GT = {"regular": "regular_lonlat_grid", "tripolar": "tripolar_grid", "fplane": "f_plane_grid", "betaplane": "beta_plane_grid",
      "cartesian": "simple_cartesian_grid", "spectral": "spectral_grid", "text": "from_file"}

def old_axis(r, lo, hi, tc):
    """bounds and resolutions with whole numbers of cells"""
    while True:
        b, d = [r.randrange(lo, hi - 4)], [r.choice([1, 2, 3, 4])]
        for _ in range(r.choice([1, 1, 2, 3])):
            e = r.choice([d[-1], d[-1], 1, 2, 3, 4, 6]); n = r.choice([1, 2, 3, 6] + ([] if tc else [4, 12]))
            if (d[-1] + e) * n % 2: continue
            b.append(b[-1] + (d[-1] + e) * n // 2); d.append(e)
        if len(b) > 1 and b[-1] <= hi: return b, d

def stretch(r, c):
    if r.random() < .5: return 1
    s = r.choice([2, 3, 4]); b, d = c["xb"], c["xd"]; n = (4 * (b[-1] - b[-2]) + d[-2] + s * d[-1]) // (2 * (d[-2] + s * d[-1]))
    return s if n in (1, 2, 3, 4, 6, 12) else 1

def new_axis(r, lo, hi, even, top=None):
    k = min(r.choice([1, 1, 2, 2, 3, 4] + ([12, 30] if hi >= 2000 else [])), hi - lo)
    b = sorted(r.sample(range(lo, hi + 1), k + 1))
    if top is not None: b[-1] = top
    return b, [r.choice([2, 4, 6, 8, 12] if even else [1, 2, 3, 4, 5, 6, 9]) for _ in range(k)]

def mk(g):
    r = random.Random("lonlat" + g["seed"])
    if "type" in g: return dict(BASE, **{k: v for k, v in g.items() if k not in ("seed", "v")}), r
    c = dict(BASE); c["center"] = r.choice(["none", "t_cell", "c_cell"])
    ev = c["center"] != "none"
    if g.get("v"):
        c["type"] = "vertical"
        if r.random() < .35: c["xb"], c["xd"] = old_axis(r, 0, 400, c["center"] == "t_cell"); c["center"] = c["center"] if len(c["xb"]) == 2 or ev else "c_cell"; c["stretch"] = stretch(r, c)
        else: c["xb"], c["xn"] = new_axis(r, 0, r.choice([20, 200, 2000]), ev)
        c["xnb"] = len(c["xb"])
        return c, r
    c["type"] = r.choice(["regular", "regular", "regular", "tripolar", "tripolar", "tripolar", "fplane", "betaplane", "cartesian", "spectral", "text"]); c["gca"] = r.random() < .3
    t = c["type"]
    if t in ("regular", "fplane", "betaplane", "tripolar"):
        if r.random() < .35 and t != "tripolar":
            tc = c["center"] == "t_cell"
            c["xb"], c["xd"] = old_axis(r, -100, 200, tc); c["yb"], c["yd"] = old_axis(r, -85, 85, tc)
            if c["center"] == "none" and max(len(c["xb"]), len(c["yb"])) > 2: c["center"] = "c_cell"
        else:
            c["xb"], c["xn"] = new_axis(r, -200, r.choice([-150, 100]), ev)
            c["yb"], c["yn"] = new_axis(r, -89, 89, ev)
            if t == "tripolar":
                s = r.choice([-280, 0, -100, 20]); c["xb"], c["xn"] = [s, s + 360], [r.choice([8, 12, 16, 20, 24])]
                c["yb"], c["yn"] = new_axis(r, -80, 80, ev, 90); c["join"] = r.randrange(40, 80)
                if c["yb"][-2] > 60: c["join"] = r.randrange(max(40, c["yb"][-2] - 20), 85)
        c["xnb"], c["ynb"] = len(c["xb"]), len(c["yb"]); c["flat"] = r.randrange(-89, 90)
    elif t == "cartesian":
        c.update(xb=[r.randrange(-50, 0), r.randrange(1, 90)], yb=[r.randrange(-50, 0), r.randrange(1, 90)], xn=[r.randrange(1, 12)], yn=[r.randrange(1, 12)], sdx=r.randrange(1, 3000), sdy=r.randrange(1, 3000), center="none")
    elif t == "spectral": c.update(xn=[2 * r.randrange(1, 12)], yn=[2 * r.randrange(1, 14)], center="none")
    else:
        c.update(xn=[r.randrange(1, 9)], yn=[r.randrange(1, 9)], center="none", gca=False)
        c["xt"] = sorted(r.sample(range(-90, 90), c["xn"][0] + 1)); c["yt"] = sorted(r.sample(range(-90, 91), c["yn"][0] + 1))
    return c, r

def js(v): return ",".join(str(q) for q in v)

def command(c, r):
    t = c["type"]
    if t == "vertical":
        a = ["--nbnds", str(c["xnb"]), "--bnds", js(c["xb"])]
        if c["xn"]: a += ["--nz", js(c["xn"])]
        if c["xd"]: a += ["--dbnds", js(c["xd"])]
        if c["center"] != "none" or r.random() < .3: a += ["--center", c["center"]]
        if c["stretch"] != 1: a += ["--stretch", str(c["stretch"])]
        c["name"] = "vertical_grid"
        if r.random() < .3: c["name"] = "v" + "x" * r.randrange(60); a += ["--grid_name", c["name"]]
        return a
    a = ["--grid_type", GT[t]]
    c["name"] = "horizontal_grid"
    if r.random() < .3: c["name"] = "g%d" % r.randrange(100); a += ["--grid_name", c["name"]]
    if c["xnb"]: a += ["--nxbnds", str(c["xnb"])]
    if c["ynb"]: a += ["--nybnds", str(c["ynb"])]
    for o, k in (("--xbnds", "xb"), ("--ybnds", "yb"), ("--nlon", "xn"), ("--nlat", "yn"), ("--dlon", "xd"), ("--dlat", "yd")):
        if c[k]: a += [o, js(c[k])]
    if c["center"] != "none": a += ["--center", c["center"]]
    if t == "tripolar": a += ["--lat_join", str(c["join"])]
    if t in ("fplane", "betaplane"): a += ["--f_plane_latitude", str(c["flat"])]
    if t == "cartesian":
        if c["sdx"]: a += ["--simple_dx", str(c["sdx"])]
        if c["sdy"]: a += ["--simple_dy", str(c["sdy"])]
    if t == "text": a += ["--my_grid_file", "grid.txt"]
    if c["gca"]: a += ["--great_circle_algorithm"]
    return a

E4 = lambda v: int(round(max(-2e5, min(2e5, float(v) if np.isfinite(v) else 2e5)) * 1e4))
def worst(v, unit):
    v = np.abs(np.asarray(v, float))
    if v.size == 0: return 0
    m = float(v.max())
    return int(min(m / unit, 1e9)) if np.isfinite(m) else 10 ** 9

def polyarea(lon, lat):
    """area of the polygon whose sides have latitude linear in longitude"""
    n = len(lon); a = 0.
    for k in range(n):
        p = (k + 1) % n; d = (lon[p] - lon[k] + math.pi) % (2 * math.pi) - math.pi
        h = .5 * (lat[p] - lat[k])
        a -= d * math.sin(.5 * (lat[p] + lat[k])) * (math.sin(h) / h if abs(h) > 1e-10 else 1.)
    return a

def look(c, f):
    """the axes and how far everything else is from what they imply"""
    with netCDF4.Dataset(f) as ds:
        ds.set_auto_maskandscale(False)
        o = {"vars": sorted(ds.variables), "dims": {k: len(v) for k, v in ds.dimensions.items()}}
        if c["type"] == "vertical":
            z = ds["zeta"][:]
            return dict(vars=o["vars"], dims=[len(ds.dimensions["nzv"]) - 1, 0], xs=[E4(q) for q in z], ys=[], join=0, tile="", res={k: 0 for k in RES})
        x, y, dx, dy, ar, an = (ds[k][:].astype(float) for k in ("x", "y", "dx", "dy", "area", "angle_dx"))
        o["tile"] = netCDF4.chartostring(ds["tile"][:]).item()
    t = c["type"]; ny, nx = x.shape[0] - 1, x.shape[1] - 1; res = {k: 0 for k in RES}; join = ny
    D = math.pi / 180
    if dx.shape != (ny + 1, nx) or dy.shape != (ny, nx + 1) or ar.shape != (ny, nx) or an.shape != (ny + 1, nx + 1): res["shape"] = 1
    xs = x[0]; ys = y[:, 0]
    if t == "tripolar":
        ys = y[:, nx // 4] if nx % 4 == 0 else ys
        join = 0
        while join < ny and np.abs(y[join + 1] - ys[join + 1]).max() < 1e-7: join += 1
    X, Y = np.meshgrid(xs, ys); P = xyz(X, Y); R = RADIUS
    if t == "tripolar" and join < ny:      # the cap, from auxiliary sphere with its poles on the seam
        rp = math.tan((90 - ys[join]) * D / 2); q = X[join:] - c["xb"][0]
        lam = 2 * np.arctan(np.tan((90 - Y[join:]) * D / 2) / rp); lam = np.where(np.abs((q - 90 + 180) % 360 - 180) < 90 - 1e-9, -lam, lam)
        w = np.abs((q + 180) % 360 - 180); phi = (90 - w) * D
        v = np.stack([np.cos(phi) * np.cos(lam), np.cos(phi) * np.sin(lam), np.sin(phi)], -1)
        chi = np.arctan2(np.hypot(v[..., 1], v[..., 2]), v[..., 0])
        lat = math.pi / 2 - 2 * np.arctan(rp * np.tan(chi / 2)); lon = c["xb"][0] * D + np.arctan2(-v[..., 1], v[..., 2])
        P[join:] = xyz(lon / D, lat / D)
        met = rp / np.cos(chi / 2) ** 2 / (1 + (rp * np.tan(chi / 2)) ** 2)
    Q = xyz(x, y)
    res["place"] = worst(np.linalg.norm(P - Q, axis=-1), 1e-9)
    if t != "tripolar": res["place"] = max(res["place"], worst(x - X, 1e-9), worst(y - Y, 1e-9))
    # lengths
    if t == "cartesian": edx, edy, ear = np.full(dx.shape, c["sdx"]) / R, np.full(dy.shape, c["sdy"]) / R, np.full(ar.shape, c["sdx"] * c["sdy"]) / R ** 2
    else:
        cs = np.full(Y.shape, math.cos(c["flat"] * D)) if t in ("fplane", "betaplane") else np.cos(Y * D)
        edx = np.abs(np.diff(X, axis=1)) * D * cs[:, 1:]; edy = np.abs(np.diff(Y, axis=0)) * D
        if t == "tripolar" and join < ny:
            edx[join:] = np.abs(np.diff(phi, axis=1)) * (met[:, 1:] + met[:, :-1]) / 2
            mh = met * np.cos(phi); edy[join:] = np.abs(np.diff(lam, axis=0)) * (mh[1:] + mh[:-1]) / 2
        if t in ("fplane", "betaplane"): ear = np.diff(X, axis=1)[1:] * D * np.diff(Y, axis=0)[:, 1:] * D * math.cos(c["flat"] * D)
        elif c["gca"]:
            ear = np.zeros((ny, nx))
            for j in range(ny):
                for i in range(nx):
                    q = [Q[j, i], Q[j, i + 1], Q[j + 1, i + 1], Q[j + 1, i]]; q = [q[k] for k in range(4) if np.linalg.norm(q[k] - q[k - 1]) > 1e-9]
                    ear[j, i] = excess(np.array(q)) if len(q) > 2 else 0.
        else:
            ear = np.diff(X, axis=1)[1:] * D * np.diff(np.sin(Y * D), axis=0)[:, 1:]
            for j in range(join, ny):
                for i in range(nx):
                    k = ([j, j, j + 1, j + 1], [i, i + 1, i + 1, i])
                    ear[j, i] = ar[j, i] / R ** 2 if np.abs(y[k]).max() > 90 - 1e-6 else polyarea(x[k] * D, y[k] * D)
    if not res["shape"]:
        res["dx"] = worst(dx / R - edx, 1e-9); res["dy"] = worst(dy / R - edy, 1e-9); res["area"] = worst(ar / R ** 2 - ear, 1e-9)
        if t == "tripolar": res["cap"] = max(worst(ar[join:].sum() / R ** 2 - 2 * math.pi * (1 - math.sin(ys[join] * D)) if not c["gca"] else 0., 1e-8), worst(np.minimum(ar, 0), 1e-9))
        if t != "tripolar": res["angle"] = worst(an, 1e-9)
        else:
            ex = np.zeros(an.shape)
            d = x[:, 2:] - x[:, :-2]; ex[:, 1:-1] = np.degrees(np.arctan2(y[:, 2:] - y[:, :-2], d * np.cos(y[:, 1:-1] * D))); ex[:join] = 0
            e = np.abs((an - ex + 180) % 360 - 180)
            res["angle"] = worst(np.where(np.abs(y) > 90 - 1e-6, 0, e), 1e-7)
    if t == "tripolar" and join < ny: res["fold"] = worst(np.linalg.norm(Q[-1] - Q[-1, ::-1], axis=-1), 1e-9)
    if t == "spectral":
        n = ny // 2; s, w = np.polynomial.legendre.leggauss(n); e = np.zeros(ny + 1)
        e[1::2] = np.degrees(np.arcsin(s)); e[::2] = np.degrees(np.arcsin(np.clip(np.concatenate([[-1.], np.cumsum(w) - 1.]), -1, 1)))
        e[-1] = 90; res["gauss"] = worst(ys - e, 1e-6); ys = np.concatenate([ys[:1], np.zeros(ny - 1), ys[-1:]])
    return dict(vars=o["vars"], dims=[nx, ny], xs=[E4(q) for q in xs], ys=[E4(q) for q in ys], join=join, tile=o["tile"], res=res)

RES = ["shape", "place", "dx", "dy", "area", "cap", "angle", "fold", "gauss"]
NONE = dict(vars=[], dims=[0, 0], xs=[], ys=[], join=0, tile="", res={k: 0 for k in RES})

def run_gen(g, d):
    c, r = mk(g); tool = "make_vgrid" if c["type"] == "vertical" else "make_hgrid"
    a = command(c, r)
    if c["type"] == "text":
        with open(os.path.join(d, "grid.txt"), "w") as f: f.write("longitudes of the points\n%s\nlatitudes of the points\n%s\n" % (" ".join(map(str, c["xt"])), "\n".join(map(str, c["yt"]))))
    p = core.run([core.tool(tool)] + a, cwd=d)
    f = os.path.join(d, c["name"] + ".nc"); o = dict(NONE); o["rc"] = p.rc; o["file"] = os.path.exists(f); o["read"] = True
    if p.rc == 0:
        try: o.update(look(c, f))
        except Exception as e: o["read"] = False; o["why"] = repr(e)[:200]
    o["others"] = [q for q in sorted(os.listdir(d)) if q not in (c["name"] + ".nc", "grid.txt")]
    return dict(c, obs=o, gen=g, repro=tool + " " + " ".join(a))
