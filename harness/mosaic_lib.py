"""Cases for make_solo_mosaic: tiles as matrices of points (integers, 1e-5 degrees)."""
import os, random, re, math
import numpy as np, netCDF4
import nc, core, grid_lib as gl
from combine_lib import sha
U = 100000

def blk(x0, y0, w, h, dx, dy, r):
    """matrix [j][i] of points of a block, i direction turned by r quarter turns"""
    nw, nh = w // dx, h // dy
    pts = lambda a, b: (x0 + a * dx, y0 + b * dy)
    if r == 0: return [[pts(i, j) for i in range(nw + 1)] for j in range(nh + 1)]
    if r == 1: return [[pts(nw - j, i) for i in range(nh + 1)] for j in range(nw + 1)]
    if r == 2: return [[pts(nw - i, nh - j) for i in range(nw + 1)] for j in range(nh + 1)]
    return [[pts(j, nh - i) for i in range(nh + 1)] for j in range(nw + 1)]

def split(rng, W, H, nt):
    b = [(0, 0, W, H)]
    for _ in range(30):
        if len(b) >= nt: break
        q = rng.choice(b)
        if rng.random() < 0.5 and q[2] >= 8:
            c = rng.randrange(1, q[2] // 4) * 4; two = [(q[0], q[1], c, q[3]), (q[0] + c, q[1], q[2] - c, q[3])]
        elif q[3] >= 8:
            c = rng.randrange(1, q[3] // 4) * 4; two = [(q[0], q[1], q[2], c), (q[0], q[1] + c, q[2], q[3] - c)]
        else: continue
        b.remove(q); b += two
    rng.shuffle(b); return b

def mk(g):
    rng = random.Random("mo/%s" % g["seed"])
    kind = g.get("kind") or ("tlc" if "tiles" in g else rng.choice(["blocks", "blocks", "blocks", "fold", "nest", "cube"]))
    px = py = 0; T = []
    if kind == "tlc":
        u = rng.choice([1, 5, 7.5]); X0 = rng.choice([0, -180, 30])
        T = [[[(p[0] * u + X0, p[1] * u - 30) for p in t["p"][j * t["nx"]:(j + 1) * t["nx"]]] for j in range(t["ny"])] for t in g["tiles"]]
        px, py = g["px"] * u, g["py"] * u
    elif kind == "blocks":
        W, H = rng.choice([8, 12, 16, 20]), rng.choice([4, 8, 12, 16])
        bs = split(rng, W, H, rng.choice([1, 1, 2, 3, 4, 6, 9]))
        u = rng.choice([360 / W, 360 / W, 1.0, 0.1 + 0.2, 2.5]); X0, Y0 = rng.choice([0, -180, 37.3]), rng.choice([-30, 0, 12.1])
        rot = rng.random() < 0.3; ref = rng.random() < 0.6
        for b in bs:
            r = rng.choice([0, 0, 1, 3, 2]) if rot else 0
            d = rng.choice([k for k in (1, 2, 4) if b[2] // k >= 2]) if ref else 1; e = rng.choice([k for k in (1, 2, 4) if b[3] // k >= 2]) if ref else 1
            T.append([[(X0 + p[0] * u, Y0 + p[1] * u) for p in row] for row in blk(b[0], b[1], b[2], b[3], d, e, r)])
        q = rng.random()
        if q < 0.6: px = W * u
        if q < 0.2: py = H * u
        if rng.random() < 0.2: px = rng.choice([360, W * u + 1, W * u / 2])
    elif kind == "fold":
        nx = 2 * rng.randrange(2, 9) * 2; ny = rng.choice([2, 4, 6]); x0 = rng.choice([0, -280, 60])
        M = [[(x0 + i * 360 / nx, j * 5.0) for i in range(nx + 1)] for j in range(ny + 1)]
        half = nx // 2; top = [None] * (nx + 1)
        for i in range(half + 1):
            a = (x0 + rng.choice([0, 5]) + i * 2.5, 60 + i * 0.25); top[i] = a
            top[nx - i] = (a[0] + (rng.choice([0, 360, 0, -360]) if i < half else 0), a[1])
        q = rng.random()
        if q < 0.3:
            i = rng.randrange(half); top[i] = (top[nx - i][0] + 180, top[i][1])
            if q < 0.1 and half >= 2:
                i2 = rng.choice([k for k in range(half) if k != i]); top[i2] = (top[nx - i2][0] + 180, top[i2][1])
        elif q < 0.55:
            i = rng.randrange(half); top[i] = (top[i][0] + rng.choice([0, 0.001, 1, 90]), top[i][1] + rng.choice([0.001, 0, 0.5]))
        M.append(top); T = [M]
        px = rng.choice([360, 360, 0])
        if rng.random() < 0.3: T.append([[(p[0], p[1] + 100) for p in row] for row in M[:3]])
        if rng.random() < 0.3: T.insert(0, [[(p[0] + 1000, p[1]) for p in row] for row in M[:-1]])
    elif kind == "nest":
        W, H = rng.choice([8, 12]), rng.choice([6, 8]); ox, oy = rng.choice([0, 3]), rng.choice([-20, 0, 5])
        par = [[(ox + i * 2.0, oy + j * 2.0) for i in range(W + 1)] for j in range(H + 1)]
        T = [par]
        for _ in range(rng.choice([1, 1, 2])):
            i0, i1 = sorted(rng.sample(range(W + 1), 2)); j0, j1 = sorted(rng.sample(range(H + 1), 2))
            rf = rng.choice([1, 2, 3, 4] if i1 - i0 > 1 and j1 - j0 > 1 else [2, 3, 4]); s = rng.choice([0, 0, 0, 0.5])
            T.append([[(ox + 2.0 * i0 + s + i * 2.0 / rf, oy + 2.0 * j0 + j * 2.0 / rf) for i in range((i1 - i0) * rf + 1)] for j in range((j1 - j0) * rf + 1)])
        rng.shuffle(T); px = rng.choice([0, 0, 2.0 * W])
    if kind not in ("cube",):
        if rng.random() < 0.15:
            t = rng.choice(T); j = rng.choice([0, len(t) - 1, rng.randrange(len(t))]); i = rng.choice([0, len(t[0]) - 1, rng.randrange(len(t[0]))])
            dlt = rng.choice([1e-3, 1e-12, -1e-12, 1e-4, 1e-13]); t[j][i] = (t[j][i][0] + dlt, t[j][i][1])
    return dict(rng=rng, kind=kind, T=T, px=px, py=py)

def qz(v): return int(round(v * U))

def read(p):
    o = {"here": False, "tiles": [], "tfiles": [], "mosaic": "", "loc": "", "meta": False, "contacts": []}
    if not os.path.exists(p): return o
    try:
        with netCDF4.Dataset(p) as ds:
            def st(a): return b"".join(x if x else b"" for x in np.ma.filled(a, b"").ravel().tolist()).decode("latin1").split("\0")[0]
            for v in ds.variables.values(): v.set_auto_chartostring(False)
            o["tiles"] = [st(a) for a in ds["gridtiles"][:]]; o["tfiles"] = [st(a) for a in ds["gridfiles"][:]]
            o["mosaic"] = st(ds["mosaic"][:]); o["loc"] = st(ds["gridlocation"][:])
            o["meta"] = ds["mosaic"].standard_name == "grid_mosaic_spec" and ds["mosaic"].children == "gridtiles" and ds["mosaic"].contact_regions == "contacts"
            if "contacts" in ds.variables:
                o["meta"] = o["meta"] and ds["contacts"].standard_name == "grid_contact_spec" and ds["contacts"].contact_index == "contact_index"
                for a, b in zip(ds["contacts"][:], ds["contact_index"][:]):
                    a, b = st(a), st(b)
                    m = re.fullmatch(r"%s:(.*)::%s:(.*)" % (re.escape(o["mosaic"]), re.escape(o["mosaic"])), a)
                    i = re.fullmatch(r"(\d+):(\d+),(\d+):(\d+)::(\d+):(\d+),(\d+):(\d+)", b)
                    v = [int(x) for x in i.groups()] if i else [0] * 8
                    tn = [o["tiles"].index(x) + 1 if x in o["tiles"] else 0 for x in (m.groups() if m else ("", ""))]
                    o["contacts"].append({"t1": tn[0], "t2": tn[1], "b1": v[:4], "b2": v[4:]})
            o["here"] = True
    except Exception as e:
        o["here"] = False
    return o

def run_gen(g, d):
    c = mk(g); rng = c["rng"]; sub = rng.choice(["", "", "grids"]); dd = os.path.join(d, sub) if sub else d
    os.makedirs(dd, exist_ok=True)
    long_ = rng.random() < 0.12
    pre = []
    if c["kind"] == "cube":
        n = rng.choice([8, 12]); gt = rng.choice(["gnomonic_ed", "gnomonic_ed", "conformal_cubic_grid"])
        a = [core.tool("make_hgrid"), "--grid_type", gt, "--nlon", str(n), "--grid_name", "g"]
        if gt == "conformal_cubic_grid": a += ["--nratio", "1"]
        if gt == "gnomonic_ed" and rng.random() < 0.4:
            rt = rng.choice([2, 4]); k = n // 2
            a += ["--do_schmidt", "--stretch_factor", "1", "--target_lon", "10", "--target_lat", "-20", "--halo", "1", "--nest_grids", "1", "--parent_tile", str(rng.randrange(1, 7)), "--refine_ratio", str(rt), "--istart_nest", "3", "--iend_nest", str(n - 2), "--jstart_nest", "3", "--jend_nest", str(n - 2)]
        core.run(a, dd)
        fs = sorted(f for f in os.listdir(dd) if f.startswith("g.tile"))
        T = []; names = []
        try:
            for f in fs:
                with netCDF4.Dataset(os.path.join(dd, f)) as ds:
                    x, y = np.array(ds["x"][:]), np.array(ds["y"][:]); T.append((x, y)); ds["tile"].set_auto_chartostring(False)
                    names.append(b"".join(ds["tile"][:].tolist() if not np.ma.isMaskedArray(ds["tile"][:]) else np.ma.filled(ds["tile"][:], b"").tolist()).decode().split("\0")[0])
        except Exception: T = []
        if rng.random() < 0.3 and len(T) == 6:
            o = list(range(6)); rng.shuffle(o); T = [T[i] for i in o]; fs = [fs[i] for i in o]; names = [names[i] for i in o]
        # one integer per place: values closer than the tool's tolerance are one
        def clus(k):
            v = np.sort(np.unique(np.concatenate([t[k].ravel() for t in T]))) if T else np.array([])
            idm = {}; last = None; rep = 0
            for x in v:
                if last is None or x - last > 1e-9: rep = qz(x)
                idm[x] = rep; last = x
            return idm
        cx, cy = clus(0), clus(1)
        pts = [[[(cx[a], cy[b]) for a, b in zip(ra, rb)] for ra, rb in zip(x, y)] for x, y in T]
        tfiles = fs; default = False
    else:
        default = rng.random() < 0.3
        names = ["tile%d" % (i + 1) for i in range(len(c["T"]))] if rng.random() < 0.6 else rng.sample(["west", "east", "n_pole", "t10", "t1", "ocean_tile", "x", "tile2", "tile22", "zz"], len(c["T"]))
        L = "_a_rather_long_grid_file_name" * 2 if long_ else ""
        tfiles = (["horizontal_grid.nc"] if len(names) == 1 else ["horizontal_grid.tile%d.nc" % (i + 1) for i in range(len(names))]) if default else ["gr_%s%s.nc" % (x, L) for x in names]
        pts = []
        for f, nme, M in zip(tfiles, names, c["T"]):
            x = np.array([[p[0] for p in row] for row in M], dtype="f8"); y = np.array([[p[1] for p in row] for row in M], dtype="f8")
            gl.write_tile(os.path.join(dd, f), nme, x, y)
            pts.append([[(qz(p[0]), qz(p[1])) for p in row] for row in M])
    mosaic = rng.choice(["", "ocean_mosaic", "m", "C48_mosaic"])
    loc = (sub or ".") + rng.choice(["", "/"])
    if rng.random() < 0.3: loc = dd + rng.choice(["", "/"])
    a = ["--num_tiles", str(len(tfiles)), "--dir", loc]
    if mosaic: a += ["--mosaic_name", mosaic]
    if not default: a += ["--tile_file", ",".join(tfiles)]
    if c["px"]: a += ["--periodx", repr(c["px"])]
    if c["py"]: a += ["--periody", repr(c["py"])]
    err = False
    q = rng.random()
    if q < 0.06 and not default: a[1] = str(len(tfiles) + rng.choice([1, -1])); err = True
    elif q < 0.09: os.remove(os.path.join(dd, rng.choice(tfiles))); err = True
    elif q < 0.11: del a[2:4]; err = True
    elif q < 0.13 and default and len(tfiles) > 1: a[1] = str(len(tfiles) + 1); err = True
    blocks = [a[i:i + 2] for i in range(0, len(a), 2)]; rng.shuffle(blocks); a = [x for b in blocks for x in b]
    def listing():
        return sorted(os.path.relpath(os.path.join(r, f), d) for r, _, fs in os.walk(d) for f in fs)
    before = listing(); sh = {f: sha(os.path.join(d, f)) for f in before}
    r = core.run([core.tool("make_solo_mosaic")] + a, d, timeout=60)
    name = (mosaic or "solo_mosaic") + ".nc"
    o = read(os.path.join(d, name)) if name not in before else {"here": False, "contacts": [], "tiles": [], "tfiles": [], "mosaic": "", "loc": "", "meta": False}
    o.update(rc=r.rc, files=listing(), kept=all(os.path.exists(os.path.join(d, f)) and sha(os.path.join(d, f)) == sh[f] for f in before))
    tl = [{"nx": len(M[0]), "ny": len(M), "p": [list(p) for row in M for p in row]} for M in pts]
    return {"gen": g, "repro": "make_solo_mosaic " + " ".join(a), "tiles": tl, "px": qz(c["px"]), "py": qz(c["py"]), "deg": U, "plain": False, "err": err, "pre": before, "name": name, "tnames": names, "tfiles": list(tfiles), "mosaic": mosaic or "solo_mosaic", "loc": loc if loc.endswith("/") else loc + "/", "obs": o}
