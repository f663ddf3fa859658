"""Cases for make_hgrid --grid_type gnomonic_ed (cubed sphere, stretched or not, nests, halo ring)."""
import math, os, random
import numpy as np, netCDF4
import core

RADIUS = 6371000.0
def at(m, t, a, b):
    return [(m, a, b), (m - a, m, b), (m - a, m - b, m), (0, m - b, m - a), (b, 0, m - a), (b, a, 0)][t - 1]
def unit(v): return v / np.linalg.norm(v, axis=-1, keepdims=True)
def xyz(lon, lat):
    lon, lat = np.radians(lon), np.radians(lat)
    return np.stack([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)], -1)

def ideal(n, shift, tr):
    """place (half cells) -> direction, for every point of the supergrid"""
    m = 2 * n; al = math.asin(1 / math.sqrt(3)); P = {}
    f = lambda k: math.sqrt(2) * math.tan((2. * k / m - 1) * al)
    def corner(p):      # equal angles along the edges, great circles between opposite edges
        v = np.array([f(c) for c in p]); v /= np.linalg.norm(v)
        lon, lat = math.atan2(v[1], v[0]), math.asin(max(-1, min(1, v[2])))
        if tr is None: lon -= math.pi / shift if shift > 1e-4 else 0.
        else:
            lon, lat = trans(lon, lat, *tr)
            if 1 - abs(math.sin(lat)) < 1e-7: lat = math.copysign(math.pi / 2, lat)      # points next to a pole are moved there
        return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    for t in range(1, 7):
        K = {}
        for j in range(0, n + 1, 2):
            for i in range(0, n + 1, 2): K[i, j] = corner(at(m, t, 2 * i, 2 * j))
        for j in range(n + 1):
            for i in range(n + 1):
                q = [K[a, b] for a in {i - i % 2, i + i % 2} for b in {j - j % 2, j + j % 2}]
                v = sum(q); P[at(m, t, 2 * i, 2 * j)] = v / np.linalg.norm(v)
    return P

def trans(lon, lat, s, lonp, latp, cube):
    """Schmidt transformation at the south pole, then the south pole moved to the target"""
    if cube: lon += math.pi
    sl = math.sin(lat); a, b = 1 + s * s, 1 - s * s
    lat = math.asin(max(-1., min(1., (b + a * sl) / (a + b * sl))))
    v = np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])
    # new axes: the old south pole looks at the target, the old meridian 0 at the target's south
    p, l = math.radians(latp), math.radians(lonp)
    down = np.array([math.cos(p) * math.cos(l), math.cos(p) * math.sin(l), math.sin(p)])
    north = np.array([-math.sin(p) * math.cos(l), -math.sin(p) * math.sin(l), math.cos(p)]); east = np.array([-math.sin(l), math.cos(l), 0.])
    w = -v[2] * down - v[0] * north - v[1] * east
    return math.atan2(w[1], w[0]), math.asin(max(-1., min(1., w[2])))

def excess(p):
    """area of spherical polygons with great-circle edges, corners p[..., k, :] anticlockwise"""
    n = p.shape[-2]; tot = 0
    for k in range(n):
        a, b, c = p[..., (k - 1) % n, :], p[..., k, :], p[..., (k + 1) % n, :]
        u = np.cross(b, a); w = np.cross(b, c)
        tot = tot + np.arctan2(np.linalg.norm(np.cross(u, w), axis=-1), (u * w).sum(-1))
    return tot - (n - 2) * math.pi

def arcs(p, q): return np.arctan2(np.linalg.norm(np.cross(p, q), axis=-1), (p * q).sum(-1))

def mk(g):
    rng = random.Random("mk/%s" % g["seed"]); c = dict(rng=rng)
    if "n" in g:
        c.update(n=g["n"], nests=[dict(q) for q in g["nests"]], halo=g["halo"], ring=g["ring"])
    else:
        n = rng.choice([2, 4, 4, 6, 8, 10]); c.update(n=n, nests=[], halo=0, ring=rng.random() < 0.3)
        if rng.random() < 0.5 and n >= 6:
            c["ring"] = False; c["halo"] = 1; sz = [(n, n)] * 6
            for k in range(rng.choice([1, 1, 2, 3])):
                p = rng.randrange(1, 7) if rng.random() < 0.7 or len(sz) == 6 else rng.randrange(7, len(sz) + 1)
                px, py = sz[p - 1]
                if px < 6 or py < 6: p = 1; px = py = n
                r = rng.choice([1, 2, 2, 3, 4])
                i1 = rng.randrange(3, px - 2, 2); i2 = rng.randrange(i1 + 1, px - 1, 2); j1 = rng.randrange(3, py - 2, 2); j2 = rng.randrange(j1 + 1, py - 1, 2)
                if rng.random() < 0.05: i1 += rng.choice([-2, 1])
                if rng.random() < 0.05: j2 += rng.choice([2, 1])
                q = dict(parent=p, r=r, **{"is": i1}, ie=i2, js=j1, je=j2)
                if (i2 - i1 + 1) * r > 24 or (j2 - j1 + 1) * r > 24: continue
                c["nests"].append(q); sz.append(((i2 - i1 + 1) * r, (j2 - j1 + 1) * r))
            if not c["nests"]: c["halo"] = 0
    u = rng.random()
    if c["n"] < 6: u = u if u >= 0.45 or c["n"] > 2 else 0.9      # stretched cells stay convex
    c["tr"] = None; c["shift"] = 18.
    if u < 0.25: c["tr"] = (rng.choice([1., 1.5, 2, 3, 0.7] if c["n"] > 4 else [1., 1.5]), rng.choice([0., 20, 77.5, 180, 300, 359]), rng.choice([0., 10, 40, -35.5, 90, -90, 60]), False)
    elif u < 0.45: c["tr"] = (rng.choice([1., 1.5, 2, 3] if c["n"] > 4 else [1., 1.5]), rng.choice([0., 20, 77.5, 300]), rng.choice([0., 10, 40, -35.5]), True)
    elif u < 0.6: c["shift"] = rng.choice([0., 18, 12, 36, 9])
    return c

def rd(p):
    with netCDF4.Dataset(p) as d:
        d.set_auto_mask(False)
        out = {k: np.array(v[:]) for k, v in d.variables.items()}
        out["_dims"] = {k: len(v) for k, v in d.dimensions.items()}; out["_att"] = {k: str(d.getncattr(k)) for k in d.ncattrs()}
    return out

Q = lambda a, s=1e9: [int(round(float(x) * s)) if np.isfinite(x) and abs(x) < 4 else -7 for x in np.asarray(a, "f8").ravel()]

def run_gen(g, d):
    c = mk(g); rng = c["rng"]; n = c["n"]; m = 2 * n
    a = ["--grid_type", "gnomonic_ed", "--nlon", str(n)]; bad = False
    name = rng.choice(["horizontal_grid", "C_grid", "sub"]);
    if name != "horizontal_grid": a += ["--grid_name", name]
    if c["tr"]:
        s, lo, la, cube = c["tr"]; a += ["--do_cube_transform" if cube else "--do_schmidt", "--stretch_factor", repr(s), "--target_lon", repr(lo), "--target_lat", repr(la)]
        if rng.random() < 0.03: bad = True; k = a.index(rng.choice(["--stretch_factor", "--target_lon", "--target_lat"])); del a[k:k + 2]
    elif c["shift"] != 18. or rng.random() < 0.1: a += ["--shift_fac", "%g" % c["shift"]]
    N = c["nests"]
    if N:
        a += ["--nest_grid"] if len(N) == 1 and rng.random() < 0.4 else ["--nest_grids", str(len(N))]
        cs = lambda k: ",".join(str(q[k]) for q in N)
        o = [("--parent_tile", cs("parent")), ("--refine_ratio", cs("r")), ("--istart_nest", cs("is")), ("--iend_nest", cs("ie")), ("--jstart_nest", cs("js")), ("--jend_nest", cs("je")), ("--halo", str(c["halo"]))]
        rng.shuffle(o)
        if rng.random() < 0.03: bad = True; o = [x for x in o if x[0] != rng.choice(["--refine_ratio", "--istart_nest", "--jend_nest", "--halo"])] if False else [x for x in o if x[0] != "--refine_ratio"]
        for x in o: a += list(x)
    if c["ring"]: a += ["--out_halo", "1"]
    la = not (rng.random() < 0.1)
    if not la: a += ["--no_length_angle"]
    if rng.random() < 0.1: a += ["--verbose"]
    if rng.random() < 0.02: bad = True; a[1] = "gnomonic"
    r = core.run([core.tool("make_hgrid")] + a, d, timeout=60)
    files = sorted(os.listdir(d)); nt = 6 + len(N)
    o = {"rc": r.rc, "dir": [f[len(name):] if f.startswith(name + ".") else "?" + f for f in files], "tiles": []}
    P = ideal(n, c["shift"], c["tr"]) if n % 2 == 0 else {}
    keys = list(P); dirs = np.array([P[k] for k in keys]) if keys else None
    sep = 1e-6
    X = {}
    for t in range(1, nt + 1):
        f = os.path.join(d, "%s.tile%d.nc" % (name, t)); T = {"ok": False}
        o["tiles"].append(T)
        try: D = rd(f)
        except Exception: continue
        T["ok"] = True; T["dims"] = [D["_dims"].get(k, -1) for k in ("nx", "ny", "nxp", "nyp")]
        T["name"] = b"".join(D["tile"]).split(b"\0")[0].decode("latin1"); T["nest"] = D["_att"].get("nest_grids", "")
        x, y = D["x"], D["y"]; miss = (x == -9999.) & (y == -9999.)
        v = xyz(x, y); X[t] = v
        T["la"] = all(k in D for k in ("dx", "dy", "angle_dx", "angle_dy"))
        T["range"] = bool(np.all(miss | ((x >= -1e-9) & (x <= 360 + 1e-9) & (np.abs(y) <= 90))))
        if t <= 6 and dirs is not None:
            dist = np.linalg.norm(v.reshape(-1, 1, 3) - dirs[None], axis=-1); k = dist.argmin(1); ok = dist.min(1) < sep
            T["at"] = [[] if miss.ravel()[q] else (list(keys[k[q]]) if ok[q] else [-1]) for q in range(v.size // 3)]
            T["near"] = []
        else:
            T["at"] = []
            p = c["nests"][t - 7]["parent"]
            if p in X:
                w = X[p].reshape(-1, 3); dist = np.linalg.norm(v.reshape(-1, 1, 3) - w[None], axis=-1); k = dist.argmin(1); ok = dist.min(1) < sep
                nxp = X[p].shape[1]; T["near"] = [[int(k[q] % nxp), int(k[q] // nxp)] if ok[q] else [-1, -1] for q in range(v.size // 3)]
            else: T["near"] = []
        h = 1 if c["ring"] else 0
        I = (slice(h, -h or None),) * 2; w = v[I]
        # metric: cells as great-circle polygons of radius 6371 km; in units of the sphere
        for k in ("area", "dx", "dy"):      # places without a value
            if k in D: D[k] = np.where(D[k] == -9999., np.nan, D[k])
        ar = D["area"] / RADIUS ** 2 / (4 * math.pi); ex = excess(np.stack([w[:-1, :-1], w[:-1, 1:], w[1:, 1:], w[1:, :-1]], -2)) / (4 * math.pi)
        T["area"] = Q(ar); T["cell"] = Q(ex)
        if T["la"]:
            T["dx"] = Q(D["dx"] / RADIUS, 1e8); T["dy"] = Q(D["dy"] / RADIUS, 1e8)
            T["arcx"] = Q(arcs(w[:, :-1], w[:, 1:]), 1e8); T["arcy"] = Q(arcs(w[:-1], w[1:]), 1e8)
            xi, yi = x[I], y[I]
            T["turn"] = bool(turns(D["angle_dx"][I], xi, yi, 1) and turns(D["angle_dy"][I], xi, yi, 0)) if t <= 6 else bool(np.all(D["angle_dx"] == 0) and np.all(D["angle_dy"] == 0))
        else: T.update(dx=[], dy=[], arcx=[], arcy=[], turn=True)
    out = {"n": n, "nests": N, "halo": c["halo"], "ring": c["ring"]}
    return dict(out, gen=g, bad=bad, la=la, repro="make_hgrid " + " ".join(a), obs=o)

def turns(ang, x, y, ax):
    """angle of the line through the neighbours along an axis, against east"""
    nj, ni = x.shape
    J, I = np.meshgrid(range(nj), range(ni), indexing="ij")
    if ax == 1: A = (J, np.maximum(I - 1, 0)); B = (J, np.minimum(I + 1, ni - 1))
    else: A = (np.maximum(J - 1, 0), I); B = (np.minimum(J + 1, nj - 1), I)
    dl = (x[B] - x[A] + 180) % 360 - 180; dy = y[B] - y[A]
    e = np.degrees(np.arctan2(dy, dl * np.cos(np.radians(y))))
    diff = np.abs((ang - e + 180) % 360 - 180)
    use = (np.abs(y) < 89.999) & (np.abs(y[A]) < 89.999) & (np.abs(y[B]) < 89.999) & (np.abs(dl) < 170)
    return np.all(diff[use] < 1e-3)
