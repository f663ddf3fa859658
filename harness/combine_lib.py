"""Cases for mppnccombine: random piece sets, running the tool, projecting for TR_MppCombine."""
import os, random, hashlib, copy
import numpy as np
import nc, core

def sha(p):
    return hashlib.sha256(open(p, "rb").read()).hexdigest()

def rvals(rng, typ, n):
    """n values with arbitrary bit patterns of the type"""
    if typ == "char":
        return np.frombuffer(bytes(rng.randrange(1, 256) for _ in range(n)), dtype="S1")
    dt = np.dtype(nc.TYPES[typ])
    a = np.frombuffer(bytes(rng.getrandbits(8) for _ in range(n * dt.itemsize)), dtype=dt).copy()
    if dt.kind == "f":          # ordinary magnitudes mostly, some special bit patterns
        for i in range(n):
            c = rng.random()
            if c < 0.8:
                a[i] = rng.choice([-1, 1]) * rng.random() * 10 ** rng.randrange(-6, 7)
            elif c < 0.9:
                a[i] = rng.choice([np.nan, np.inf, -np.inf, -0.0, 0.0, 1e20, 1e-30])
    return a

def cuts(rng, n, m):
    """n cells in m consecutive non-empty intervals"""
    c = sorted(rng.sample(range(1, n), m - 1)) if m > 1 else []
    e = [0] + c + [n]
    return [(e[i], e[i + 1] - 1) for i in range(m)]

def fms_cuts(n, m):
    e = [round(n * i / m) for i in range(m + 1)]
    return [(e[i], e[i + 1] - 1) for i in range(m)]

DIMNAMES = ["time", "grid_yt", "grid_xt", "pfull", "grid_y", "grid_x", "phalf", "scalar_axis"]

def build_case(rng, lay=None, types=None, fmt=None, maxn=6):
    """-> case dict with python-side arrays: 'cfg' (spec configuration) and files to write."""
    fmt = fmt or rng.choice(["classic", "64bit", "nc4", "nc4c", "cdf5"])
    types = types or (nc.CLASSIC_TYPES if fmt not in ("nc4", "cdf5") else list(nc.TYPES))
    if lay is None:
        ny, nx = rng.randrange(1, maxn + 1), rng.randrange(1, maxn + 1)
        cy = cuts(rng, ny, rng.randrange(1, min(3, ny) + 1)); cx = cuts(rng, nx, rng.randrange(1, min(3, nx) + 1))
        ps = [(y, x) for y in cy for x in cx]
        rng.shuffle(ps)
        if len(ps) > 1 and rng.random() < 0.35:      # masked domains: parts no piece covers
            ps = ps[:rng.randrange(1, len(ps))]
        nrec = rng.choice([0, 1, 1, 2, 3, 5])
        lay = {"ny": ny, "nx": nx, "files": [{"present": True, "sound": True, "nrec": nrec, "lo": [0, y[0], x[0], 0], "hi": [0, y[1], x[1], 1]} for y, x in ps],
               "k": rng.choice([0, 1, 2, 3, 7]), "miss": rng.random() < 0.4, "force": False, "mode": "set", "remove": rng.random() < 0.3,
               "outexists": False, "numfiles": len(ps)}
    ny, nx = lay["ny"], lay["nx"]
    hasrec = not all(f["nrec"] == 1 for f in lay["files"]) or rng.random() < 0.8
    nz = rng.randrange(1, 4)
    stag = rng.random() < 0.3      # a second decomposed pair, one longer, the last piece takes the extra cell
    # dimension table: key, name, full, rec, dec
    D = [("t", rng.choice(["time", "Time", "t"]), 0, True, False)] if hasrec else []
    D += [("y", rng.choice(["grid_yt", "yt_ocean", "y"]), ny, False, True), ("x", rng.choice(["grid_xt", "xt_ocean", "x"]), nx, False, True),
          ("z", "pfull", nz, False, False)]
    if stag:
        D += [("yu", "grid_y", ny + 1, False, True), ("xu", "grid_x", nx + 1, False, True)]
    if rng.random() < 0.2:
        D = [d for d in D if d[0] not in ("y", "yu")]  if ny == 1 else D
    rng.shuffle(D)
    pos = {d[0]: i for i, d in enumerate(D)}
    base = {d[0]: rng.choice([1, 1, 1, 4]) for d in D}
    def ext(f, key):
        if key in ("y", "yu"):
            lo, hi, n = f["lo"][1], f["hi"][1], ny
        elif key in ("x", "xu"):
            lo, hi, n = f["lo"][2], f["hi"][2], nx
        elif key == "z":
            return 0, nz - 1
        else:
            return 0, f["nrec"] - 1
        if key in ("yu", "xu") and hi == n - 1:
            hi += 1
        return lo, hi
    # variables
    V = []
    for key, name, full, rec, dec in D:
        if dec or rec or rng.random() < 0.6:
            V.append({"n": name, "t": rng.choice(["double", "float"] if dec or rec else types), "k": [key], "coord": True})
    lead = ["t"] if hasrec else []
    sp = [["y", "x"], ["z", "y", "x"], ["x"], ["y"], ["z"], [], ["x", "y"]]
    if stag:
        sp += [["yu", "xu"], ["yu", "x"], ["z", "y", "xu"]]
    sp = [s for s in sp if all(q in pos for q in s)]
    for i in range(rng.randrange(2, 7)):
        s = rng.choice(sp)
        r = lead if rng.random() < 0.6 else []
        V.append({"n": "v%d" % i, "t": rng.choice(types), "k": r + s, "coord": False})
    if hasrec and rng.random() < 0.5:
        V.append({"n": "z5", "t": rng.choice(types), "k": ["t"] + ["z"] * rng.choice([2, 2, 3]) + (["y", "x"] if "y" in pos else ["x"]), "coord": False})
    elif rng.random() < 0.3:
        V.append({"n": "z4", "t": rng.choice(types), "k": ["z"] * rng.choice([2, 2, 3]) + (["y", "x"] if "y" in pos else ["x"]), "coord": False})
    if hasrec and rng.random() < 0.5:
        V.append({"n": "average_T1", "t": "double", "k": ["t"], "coord": False})
    rng.shuffle(V)
    for v in V:
        v["atts"] = []
        if rng.random() < 0.6:
            v["atts"].append(["long_name", "name of %s" % v["n"]])
        if not v["coord"] and rng.random() < 0.5:
            v["atts"].append(["missing_value", rvals(rng, v["t"], 1)[0] if v["t"] != "char" else "q"])
        if rng.random() < 0.3:
            v["atts"].append(["valid_range", np.array([1.5, 2.5], dtype="f4")])
        if v["coord"] and v["k"][0] != "t" and rng.random() < 0.8:
            v["atts"].append(["cartesian_axis", "X"])
    gatts = [["title", "a set of pieces"]]
    if rng.random() < 0.7:
        gatts.append(["filename", "some.nc"])
    if rng.random() < 0.9 or lay["mode"] == "set" or lay["numfiles"] != len(lay["files"]):
        gatts.append(["NumFilesInSet", np.int32(lay["numfiles"])])
    else:
        gatts.append(["NumFilesInSet", np.int32(lay["numfiles"])])
    if rng.random() < 0.5:
        gatts.append(["grid_tile", np.array([3, 4], dtype="i4")])
    rng.shuffle(gatts)
    files = []
    for f in lay["files"]:
        fd = {"fmt": fmt, "gatts": gatts, "dims": [], "vars": []}
        for key, name, full, rec, dec in D:
            lo, hi = ext(f, key)
            fd["dims"].append([name, hi - lo + 1, rec])
        for v in V:
            shp = [ext(f, k)[1] - ext(f, k)[0] + 1 for k in v["k"]]
            n = int(np.prod(shp)) if shp else 1
            a = list(v["atts"])
            if v["coord"] and D[pos[v["k"][0]]][4]:
                key = v["k"][0]; lo, hi = ext(f, key); b = base[key]
                full = D[pos[key]][2]
                a.append(["domain_decomposition", np.array([b, b + full - 1, b + lo, b + hi], dtype="i4")])
            if f is not lay["files"][0]:
                a = [x if x[0] != "long_name" else ["long_name", "other piece"] for x in a]
            fd["vars"].append({"name": v["n"], "type": v["t"], "dims": [D[pos[k]][1] for k in v["k"]], "atts": a,
                               "data": rvals(rng, v["t"], n).reshape(shp)})
        files.append(fd)
    fo = ""
    if fmt not in ("cdf5",) and all(v["t"] in nc.CLASSIC_TYPES for v in V):
        fo = rng.choice(["", "", "64", "n4"])
    deflate = rng.choice([0, 0, 3, 1]) if (fo == "n4" or (fo == "" and fmt in ("nc4", "nc4c"))) else 0
    start = rng.choice([0, 0, 0, 1, 7, 9998])
    width = rng.choice([4, 4, 6])
    o = {"fmtopt": fo, "deflate": deflate, "shuffle": deflate > 0 and rng.random() < 0.5, "start": start, "width": width,
         "pad": rng.choice([None, None, 0, 1000]), "verbose": rng.random() < 0.1, "suffix0": lay["mode"] == "set" and start == 0 and rng.random() < 0.2,
         "decoy": rng.random() < 0.7}
    return {"lay": lay, "D": D, "V": V, "files": files, "fmt": fmt, "base": base, "gatts": gatts, "o": o,
            "ext": [[list(ext(f, d[0])) for d in D] for f in lay["files"]]}

def names(case):
    lay, o = case["lay"], case["o"]
    n = len(case["files"])
    if lay["mode"] == "list":
        return ["piece_%02d.nc" % ((i * 7 + 3) % n if n % 7 else i) if False else "piece_%02d.nc" % i for i in range(n)]
    return ["out.nc.%0*d" % (o["width"], o["start"] + i) for i in range(n)]

def command(case):
    lay, o = case["lay"], case["o"]
    c = [core.tool("mppnccombine")]
    if o["verbose"]: c.append("-v")
    if lay["miss"]: c.append("-m")
    if lay["remove"]: c.append("-r")
    if lay["force"]: c.append("-f")
    if lay["k"] != 1: c += ["-k", str(lay["k"])]
    if o["fmtopt"]: c.append("-" + o["fmtopt"])
    if o["deflate"]:
        c += ["-d", str(o["deflate"])]
        if o["shuffle"]: c.append("-s")
    if o["pad"] is not None: c += ["-h", str(o["pad"])]
    if lay["mode"] != "list" and o["start"]: c += ["-n", str(o["start"])]
    if lay["mode"] == "range": c += ["-e", str(o["start"] + len(case["files"]) - 1)]
    c.append("out.nc.0000" if o["suffix0"] else "out.nc")
    if lay["mode"] == "list": c += names(case)
    return c

def stage(case, d):
    """write the inputs; -> names"""
    ns = names(case)
    for f, fd, n in zip(case["lay"]["files"], case["files"], ns):
        if not f["present"]:
            continue
        p = os.path.join(d, n)
        if f["sound"]:
            nc.write(p, fd)
        else:
            open(p, "wb").write(b"CDF\x01 not a netCDF file at all" * 3)
    return ns

def decoys(case, d):
    """files that are not part of the set: they must survive untouched"""
    lay, o = case["lay"], case["o"]
    ds = ["other.nc", "out.nc.txt"]
    if o["decoy"] and lay["mode"] == "set":
        ds.append("out.nc.%0*d" % (o["width"], o["start"] + lay["numfiles"]))
        if o["start"]:
            ds.append("out.nc.%0*d" % (o["width"], o["start"] - 1))
    if o["decoy"] and lay["mode"] == "range":
        ds.append("out.nc.%0*d" % (o["width"], o["start"] + len(case["files"])))
    res = []
    for x in ds:
        p = os.path.join(d, x)
        if not os.path.exists(p):
            if x.startswith("out.nc.0") and case["files"]:
                nc.write(p, case["files"][0])
            else:
                open(p, "wb").write(b"keep me " + x.encode())
            res.append(x)
    return res

def spec_cfg(case, tok):
    lay = case["lay"]; pos = {d[0]: i + 1 for i, d in enumerate(case["D"])}
    first = next((q for q, f in enumerate(lay["files"]) if f["present"] and f["sound"]), 0)
    vs = []
    for i, v in enumerate(case["V"]):
        mv = 0
        for k, a in case["files"][first]["vars"][i]["atts"]:
            if k == "missing_value":
                mv = tok.arr(v["t"], np.array([a.encode() if isinstance(a, str) else a]))[0]
        p = nc.proj({"fmt": "", "dims": [], "vars": [case["files"][first]["vars"][i]]}, tok, data=False)["vars"][0]
        vs.append({"n": v["n"], "t": v["t"], "d": [pos[k] for k in v["k"]], "coord": v["coord"], "mv": mv, "zero": tok.zero(v["t"]), "a": p["a"]})
    fs = []
    for f, fd, ex in zip(lay["files"], case["files"], case["ext"]):
        fs.append({"present": f["present"], "sound": f["sound"], "nrec": f["nrec"], "lo": [e[0] for e in ex], "hi": [e[1] for e in ex],
                   "x": [tok.arr(v["type"], v["data"]) for v in fd["vars"]]})
    return {"dims": [{"n": d[1], "full": d[2], "rec": d[3], "dec": d[4]} for d in case["D"]], "vars": vs, "files": fs,
            "gatts": nc.proj(case["files"][0], tok, data=False)["gatts"], "miss": lay["miss"], "k": lay["k"], "force": lay["force"],
            "mode": lay["mode"], "remove": lay["remove"], "outexists": lay["outexists"], "numfiles": lay["numfiles"],
            "fmtin": case["fmt"], "fmtopt": case["o"]["fmtopt"], "deflate": case["o"]["deflate"], "outname": "out.nc"}

EMPTY = {"fmt": "none", "dims": [], "gatts": [], "vars": []}

def observe(d, tok):
    """the output file as data"""
    p = os.path.join(d, "out.nc")
    try:
        o = nc.read(p)
        pr = nc.proj(o, tok)
        for v, w in zip(pr["vars"], o["vars"]):
            v["z"] = w["deflate"]
        return True, pr
    except Exception as e:
        return False, EMPTY

def run_case(case, d, env=None, keep=False):
    tok = nc.Tok()
    ns = stage(case, d)
    others = decoys(case, d)
    before = {x: sha(os.path.join(d, x)) for x in os.listdir(d)}
    osha = None
    if case["lay"]["outexists"]:
        open(os.path.join(d, "out.nc"), "wb").write(b"precious earlier result")
        osha = sha(os.path.join(d, "out.nc"))
    cfg = spec_cfg(case, tok)
    cmd = command(case)
    r = core.run(cmd, d, env=env)
    after = set(os.listdir(d))
    ex = "out.nc" in after
    ok, pr = observe(d, tok) if ex and not case["lay"]["outexists"] else (False, EMPTY)
    removed = [i + 1 for i, n in enumerate(ns) if n in before and n not in after]
    oth = all(x in after and sha(os.path.join(d, x)) == before[x] for x in others) and \
        not [x for x in after if x not in before and x != "out.nc"]
    inp = all(sha(os.path.join(d, n)) == before[n] for n in ns if n in before and n in after)
    cfg["obs"] = {"rc": r.rc, "exists": ex, "ok": ok, "out": pr, "removed": removed, "others": oth, "inputs": inp,
                  "outsame": bool(osha and ex and sha(os.path.join(d, "out.nc")) == osha)}
    cfg["repro"] = " ".join(os.path.basename(c) for c in cmd) + "   [%s, %d pieces, %s records; rc=%s %s]" % (
        case["fmt"], len(ns), case["lay"]["files"][0]["nrec"], r.rc, r.err.strip()[-200:])
    return cfg

# ------------------------------------------------------------------ generators used by the checks
def from_layout(lay, seed):
    """a TLC-enumerated configuration fleshed out with variables, types and values"""
    rng = random.Random("%s/%s" % (seed, repr(sorted(lay.items(), key=str))))
    lay = copy.deepcopy(lay)
    c = build_case(rng, lay=lay, fmt=rng.choice(["classic", "64bit", "nc4c", "nc4"]))
    if lay["mode"] == "list":
        c["o"]["start"] = 0
    return c

def make(g):
    """g: {'lay':..} or {'seed':..}; plus overrides -> python case"""
    if g.get("lay") is not None:
        c = from_layout(g["lay"], g["seed"])
    else:
        c = build_case(random.Random(g["seed"]), maxn=g.get("maxn", 6), fmt=g.get("fmt"))
    for k, v in g.get("set", {}).items():
        c["lay"][k] = v
    for k, v in g.get("seto", {}).items():
        c["o"][k] = v
    if c["lay"]["mode"] != "set" or c["o"]["start"]:
        c["o"]["suffix0"] = False
    if "perm" in g:
        p = list(range(len(c["files"]))); random.Random(g["perm"]).shuffle(p)
        c["files"] = [c["files"][i] for i in p]; c["ext"] = [c["ext"][i] for i in p]
        c["lay"]["files"] = [c["lay"]["files"][i] for i in p]
    return c

def run_gen(g, d):
    c = run_case(make(g), d)
    c["gen"] = g
    return c

_shim = [None]
def shim():
    if not _shim[0]:
        import subprocess
        so = os.path.join(core.scratch(), "fault.so")
        p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(core.VERIF, "shim", "fault.c"), "-ldl"], capture_output=True, text=True)
        if p.returncode:
            raise core.ModelError("shim: " + p.stderr)
        _shim[0] = so
    return _shim[0]

def read_events(path):
    ev = []
    if os.path.exists(path):
        for ln in open(path):
            op, n = ln.split(None, 1)
            e = {"op": op, "n": n.strip()}
            if op == "W" and ev and ev[-1]["op"] == "W":
                continue
            ev.append(e)
    return ev

def run_fault(g, d):
    """g: make() spec plus mode/at"""
    c = make(g)
    c["o"]["verbose"] = False
    log = d.rstrip("/") + ".log"
    if os.path.exists(log):
        os.unlink(log)
    r = run_case(c, d, env=core.tool_env({"LD_PRELOAD": _shim[0], "FT_LOG": log, "FT_OUT": "out.nc", "FT_MODE": g["mode"], "FT_AT": str(g["at"])}))
    r["events"] = read_events(log)
    n = sum(1 for l in open(log) if l.split()[0] in ("W", "WFAIL", "CFAIL", "CREATE", "UNLINK")) if os.path.exists(log) else 0
    if os.path.exists(log):
        os.unlink(log)
    r["npoints"] = n
    r["fnames"] = names(c)
    r["gen"] = g
    r["repro"] = "fault %s at call %s of: " % (g["mode"], g["at"]) + r["repro"]
    return r

def reruns(fn):
    def again(case):
        import tempfile
        d = tempfile.mkdtemp(prefix="re_", dir=core.scratch())
        return fn(case["gen"], d)
    return again
