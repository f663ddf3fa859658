"""Cases for combine_restarts and iceberg_comb.sh."""
import os, random, shutil
import numpy as np
import nc, core
from combine_lib import rvals, sha
from scatter_lib import listing

STEMS = ["ocean_temp.res.nc", "ocean_temp_res.nc", "a.res", "b.nc", "fv_core.res.tile1.nc", "fv_core.res.tile2.nc", "icebergs.res.nc", "soil-1.nc", "00010101.atmos_daily.nc",
         "x.nc", "x.nc.sub", "res", "cana.res.nc", "cana_res_nc.nc", "lake.res.tile6.nc", "ice+model.res.nc", "ice+modell.res.nc"]
DECOY = ["foo.txt.0000", "x.nc.00001", "y.nc.000", "resx.0000", "ncdata.0001", "z.nc.0000.bak", "whole.nc", "whole.res.nc", "notes.0003", "nc_all.0002", "myres2.0004"]

def related(rng, s):
    """a stem that shares a part of its name with s"""
    k = rng.randrange(9)
    if k == 0: return rng.choice(["b_", "x", "00010101.", "re"]) + s
    if k == 1: return s + rng.choice(["x", ".b", ".tile1", "_2"])
    if k == 2: return s.replace(".", rng.choice(["_", "x", "-"]), 1)
    if k == 3: return s + ".0001x"
    if k == 4: return s.replace("e", "+", 1)
    if k == 5: return s.upper() if s.lower() == s else s.lower()
    if k == 6: return s[1:]
    if k == 7: return s.replace(".", "..", 1)
    return rng.choice(["a.", "nc.", "res."]) + s
def isstem(s):
    import re
    return bool(re.search(r"(\bres\b|\bnc\b).*\.0000$", s + ".0000")) and not re.search(r"\.[0-9]{4}$", s) and not s.startswith((".", "-"))

def icefile(rng, i):
    n = len(i["rec"])
    rec = {"name": "mass", "type": "double", "dims": ["i"], "atts": [["units", "kg"]], "data": np.array([float(x) * 0.5 for x in i["rec"]])}
    vs = [rec, {"name": "ine", "type": "int", "dims": ["i"], "atts": [], "data": np.array([x * 3 for x in i["rec"]], dtype="i4")}]
    ga = []
    if i["major"] >= 0: ga.append(["file_format_major_version", np.int32(i["major"])])
    if i["minor"] >= 0: ga.append(["file_format_minor_version", np.int32(i["minor"])])
    if i["nfs"] >= 0: ga.append(["NumFilesInSet", np.int32(i["nfs"])])
    ga.append(["time_axis", np.int32(1)])
    rng.shuffle(ga)
    return {"fmt": i.get("fmt", "64bit"), "dims": [["i", n, True]], "vars": vs, "gatts": ga}

def put_ice(d, name, i, rng):
    if not i["here"]: return
    p = os.path.join(d, name)
    if not i["nc"]:
        open(p, "w").write("file_format_major_version = 1 ; :NumFilesInSet = 2 ;")
    else:
        nc.write(p, icefile(rng, i))

def small_land(d, names, sound, rng):
    """land pieces: one tile_index dimension"""
    cells = list(range(8)); rng.shuffle(cells)
    for k, n in enumerate(names):
        idx = sorted(cells[k::len(names)])
        vs = [{"name": "tile_index", "type": "int", "dims": ["tile_index"], "atts": [["compress", "lat lon"]], "data": np.array(idx, dtype="i4")},
              {"name": "snow", "type": "double", "dims": ["tile_index"], "atts": [], "data": np.array([rng.random() for _ in idx])}]
        dims = [["lon", 4, False], ["lat", 2, False], ["tile_index", len(idx), False]]
        if not sound:
            dims.append(["other_index", 2, False])
            vs += [{"name": "other_index", "type": "int", "dims": ["other_index"], "atts": [["compress", "lat lon"]], "data": np.array([0, 1], dtype="i4")},
                   {"name": "two", "type": "double", "dims": ["other_index", "tile_index"], "atts": [], "data": np.zeros((2, len(idx)))}]
        nc.write(os.path.join(d, n), {"fmt": "64bit", "dims": dims, "vars": vs, "gatts": []})

def small_mpp(d, names, sound, rng):
    n = len(names); nx = 3 * n
    for k, nm in enumerate(names):
        w = 3
        vs = [{"name": "x", "type": "double", "dims": ["x"], "atts": [["domain_decomposition", np.array([1, nx, 1 + k * w, (k + 1) * w], dtype="i4")]], "data": np.arange(w) + k * w + 1.0},
              {"name": "t", "type": "double", "dims": ["t"], "atts": [], "data": np.array([1.0, 2.0])[: 2 if sound or k != len(names) - 1 or n == 1 else 1]}]
        nt = len(vs[1]["data"])
        vs.append({"name": "v", "type": "float", "dims": ["t", "x"], "atts": [["missing_value", np.float32(-99)]], "data": np.array([[rng.random() for _ in range(w)] for _ in range(nt)])})
        nc.write(os.path.join(d, nm), {"fmt": "64bit", "dims": [["t", nt, True], ["x", w, False]], "vars": vs, "gatts": [["NumFilesInSet", np.int32(n)]]})

def content(p):
    """data and metadata without the history NCO writes"""
    try:
        d = nc.read(p)
    except Exception:
        return ("unreadable", sha(p))
    tok = nc.Tok(); x = nc.proj(d, tok)
    inv = {v: k for k, v in tok.t.items()}
    x["gatts"] = [a for a in x["gatts"] if a["k"] not in ("history", "NCO", "history_of_appended_files")]
    for v in x["vars"]: v["x"] = [inv[q] for q in v["x"]]
    return x

def run_gen(g, d):
    rng = random.Random("rs/%s" % g["seed"])
    if g["op"] != "restarts":
        return run_ice(g, d, rng)
    sets = g.get("sets")
    if sets is None:
        stems = rng.sample(STEMS, rng.randrange(0, 5))
        if rng.random() < 0.3: stems = list(set(stems + rng.choice([STEMS[:2], STEMS[15:17], ["x.nc", "x.nc.sub"], ["cana.res.nc", "cana_res_nc.nc"]])))
        if stems and rng.random() < 0.5:
            for _ in range(rng.randrange(1, 3)):
                q = related(rng, rng.choice(stems))
                if isstem(q) and q not in stems: stems.append(q)
        sets = [{"stem": s, "kind": rng.choice(["land", "ice", "mpp"]), "sound": rng.random() < 0.85, "outexists": rng.random() < 0.3, "n": rng.randrange(1, 4)} for s in stems]
    else:
        sets = [dict(s, n=len(s["pieces"])) for s in sets]
    sets = sorted(sets, key=lambda s: s["stem"].encode())
    w = os.path.join(d, "w"); os.makedirs(w)
    ref = os.path.join(d, "ref"); os.makedirs(ref)
    refs = {}
    for s in sets:
        n = s["n"]
        if s["kind"] == "ice" and n < 2: n = 2
        if s["kind"] == "mpp" and not s["sound"] and n < 2: n = 2
        base = rng.choice([0, 0, 0, 3])
        s["pieces"] = ["%s.%04d" % (s["stem"], base + k) for k in range(n)]
        if s["kind"] == "land": small_land(w, s["pieces"], s["sound"], rng)
        elif s["kind"] == "mpp": small_mpp(w, s["pieces"], s["sound"], rng)
        else:
            for k, p in enumerate(s["pieces"]):
                put_ice(w, p, {"here": True, "nc": True, "major": 0, "minor": 1, "nfs": n if s["sound"] else n + 1, "rec": [rng.randrange(1, 99) for _ in range(rng.randrange(0, 4))]}, rng)
    M = rng.choice([None, None, "-m", "-64 -h 20000"]); Cc = rng.choice([None, None, "-v"])
    for s in sets:
        if not s["sound"]: continue
        ins = [os.path.join(w, p) for p in s["pieces"]]; o = os.path.join(ref, s["stem"])
        if s["kind"] == "land": r = core.run([core.tool("combine-ncc")] + ins + [o], ref)
        elif s["kind"] == "ice": r = core.run([core.tool("iceberg_comb.sh")] + ins + [o], ref)
        else: r = core.run([core.tool("mppnccombine")] + (M.split() if M else "-h 16384 -m".split()) + [s["stem"]] + ins, ref)
        refs[s["stem"]] = content(o) if os.path.exists(o) else None
    for s in sets:
        if s["outexists"]: open(os.path.join(w, s["stem"]), "w").write("previous " + s["stem"])
    for q in rng.sample(DECOY, rng.randrange(0, 6)):
        if not os.path.exists(os.path.join(w, q)): open(os.path.join(w, q), "w").write("decoy " + q)
    if rng.random() < 0.3:
        os.makedirs(os.path.join(w, "sub")); open(os.path.join(w, "sub", "in.res.nc.0000"), "w").write("deeper")
    before = listing(w)
    cmd = [core.tool("combine_restarts")]
    dry = g.get("dry", False) if "sets" in g else rng.random() < 0.15
    rem = g.get("remove", False) if "sets" in g else rng.random() < 0.4
    if dry: cmd.append("-n")
    if rem: cmd.append("-r")
    if M: cmd += ["-M", M]
    if Cc: cmd += ["-C", Cc]
    if rng.random() < 0.2: cmd += ["-v", "-v"]
    r = core.run(cmd, w)
    after = listing(w)
    files = []
    for n, h in sorted(after.items()):
        c = "other"
        if n in before and before[n] == h: c = "same"
        elif n in refs and refs[n] is not None and content(os.path.join(w, n)) == refs[n]: c = "comb"
        files.append({"n": n, "c": c})
    cfg = {"op": "restarts", "dry": dry, "remove": rem, "ins": [], "outexists": False, "names": sorted(before),
           "sets": [{k: s[k] for k in ("stem", "pieces", "kind", "sound", "outexists")} for s in sets],
           "obs": {"rc": r.rc, "files": files, "said": all(any(s["stem"] in l.split() for l in r.out.splitlines()) for s in sets) if dry else True, "made": False, "rec": [], "nfs": False, "rest": True}}
    cfg["repro"] = " ".join(os.path.basename(x) for x in cmd) + " in %s [rc=%s %s]" % (sorted(before), r.rc, r.err.strip()[-150:]); cfg["gen"] = g
    return cfg

def run_ice(g, d, rng):
    ins = g.get("ins")
    if ins is None:
        n = rng.choice([1, 2, 2, 2, 3, 3, 4, 7])
        good = rng.random() < 0.6
        mj = rng.choice([(0, 1), (0, 1), (0, 2), (1, 0), (3, 4)])
        ins = []
        for k in range(n):
            i = {"here": True, "nc": True, "major": mj[0], "minor": mj[1], "nfs": n, "rec": [rng.randrange(1, 1000) for _ in range(rng.choice([0, 0, 1, 2, 5, 12]))], "fmt": "64bit"}
            ins.append(i)
        if not good:
            i = rng.choice(ins); w = rng.choice(["here", "nc", "major", "minor", "nfs", "nfs2"])
            if w in ("here", "nc"): i[w] = False
            elif w == "major": i["major"] = -1
            elif w == "minor": i["major"] = 0; i["minor"] = rng.choice([-1, 0])
            elif w == "nfs": i["nfs"] = rng.choice([-1, 0, n + 1, n + 10, 10 * n])
            else:
                for i in ins: i["nfs"] = n + 1
        if rng.random() < 0.15:
            for i in ins: i["rec"] = []
    outex = g.get("outexists", rng.random() < 0.1 and "ins" not in g)
    names = ["icebergs.res.nc.%04d" % k for k in range(len(ins))]
    for n, i in zip(names, ins): put_ice(d, n, i, rng)
    if outex: open(os.path.join(d, "icebergs.res.nc"), "w").write("previous")
    open(os.path.join(d, "keep"), "w").write("keep")
    before = listing(d)
    if g["op"] == "check":
        cmd = [core.tool("iceberg_comb.sh"), "-c", names[0]]
    else:
        cmd = [core.tool("iceberg_comb.sh")] + (["-v"] if rng.random() < 0.2 else []) + names + ["icebergs.res.nc"]
    r = core.run(cmd, d)
    after = listing(d)
    files = [{"n": n, "c": "same" if before.get(n) == h else "other"} for n, h in sorted(after.items()) if n != "icebergs.res.nc" or n in before]
    made, rec, nfs, rest = False, [], False, True
    p = os.path.join(d, "icebergs.res.nc")
    if "icebergs.res.nc" not in before and os.path.exists(p):
        made = True
        try:
            x = nc.read(p)
            rec = [int(round(float(q) * 2)) for q in nc.getvar(x, "mass")["data"]]
            nfs = any(k == "NumFilesInSet" for k, v in x["gatts"])
            first = nc.read(os.path.join(d, names[0]))
            rest = [int(q) for q in nc.getvar(x, "ine")["data"]] == [3 * q for q in rec] and [[a, b] for a, s, b in x["dims"]] == [[a, b] for a, s, b in first["dims"]] and \
                   [(v["name"], v["type"], v["dims"], v["atts"]) for v in x["vars"]] == [(v["name"], v["type"], v["dims"], v["atts"]) for v in first["vars"]] and \
                   sorted((k, str(v)) for k, v in x["gatts"] if k not in ("history", "NCO")) == sorted((k, str(v)) for k, v in first["gatts"] if k not in ("NumFilesInSet",))
        except Exception:
            rest = False
    cfg = {"op": g["op"], "dry": False, "remove": False, "ins": [{k: i[k] for k in ("here", "nc", "major", "minor", "nfs", "rec")} for i in ins], "outexists": bool(outex), "sets": [],
           "names": sorted(before), "obs": {"rc": r.rc, "files": files, "said": True, "made": made, "rec": rec, "nfs": nfs, "rest": rest}}
    cfg["repro"] = " ".join(os.path.basename(x) for x in cmd) + " inputs %s [rc=%s %s]" % (cfg["ins"], r.rc, r.err.strip()[-150:]); cfg["gen"] = g
    return cfg
