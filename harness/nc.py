"""netCDF files as plain data: writing inputs, reading outputs back, projecting to integers."""
import numpy as np, netCDF4, os
FMT = {"classic": "NETCDF3_CLASSIC", "64bit": "NETCDF3_64BIT_OFFSET", "cdf5": "NETCDF3_64BIT_DATA",
       "nc4": "NETCDF4", "nc4c": "NETCDF4_CLASSIC"}
RFMT = {v: k for k, v in FMT.items()}
RFMT["NETCDF3_64BIT"] = "64bit"
TYPES = {"byte": "i1", "char": "S1", "short": "i2", "int": "i4", "float": "f4", "double": "f8",
         "ubyte": "u1", "ushort": "u2", "uint": "u4", "int64": "i8", "uint64": "u8"}
RTYPES = {np.dtype(v): k for k, v in TYPES.items()}
CLASSIC_TYPES = ["byte", "char", "short", "int", "float", "double"]

class Tok:
    """values <-> small integers; equal bits <-> equal token"""
    def __init__(self):
        self.t = {}
    def one(self, typ, b):
        k = (typ, b)
        if k not in self.t:
            self.t[k] = len(self.t) + 1
        return self.t[k]
    def arr(self, typ, a):
        a = np.ascontiguousarray(a, dtype=TYPES[typ])
        n = a.dtype.itemsize
        b = a.tobytes()
        return [self.one(typ, b[i:i + n]) for i in range(0, len(b), n)]
    def zero(self, typ):
        return self.arr(typ, np.zeros(1, dtype=TYPES[typ]))[0]

def att_norm(v):
    """attribute -> (type, payload bytes/str)"""
    if isinstance(v, str):
        return ("char", v)
    if isinstance(v, (list, tuple)) and v and isinstance(v[0], str):
        return ("string", "\0".join(v))
    a = np.atleast_1d(np.asarray(v))
    return (RTYPES.get(a.dtype, str(a.dtype)), a.tobytes().hex() + "/%d" % a.size)

def write(path, d):
    """d: {fmt, dims:[[name,size,unlim]], vars:[{name,type,dims,atts:[[k,v]],data}], gatts:[[k,v]]}"""
    ds = netCDF4.Dataset(path, "w", format=FMT[d["fmt"]], clobber=True)
    try:
        ds.set_fill_off()
        for n, s, u in d["dims"]:
            ds.createDimension(n, None if u else s)
        for k, v in d.get("gatts", []):
            ds.setncattr(k, v)
        vs = []
        for v in d["vars"]:
            kw = {}
            if d["fmt"].startswith("nc4") and v.get("zlib"):
                kw = {"zlib": True, "complevel": v["zlib"], "shuffle": bool(v.get("shuffle"))}
            fv = dict(v.get("atts", [])).get("_FillValue", None)
            x = ds.createVariable(v["name"], TYPES[v["type"]], tuple(v["dims"]), fill_value=fv, **kw)
            x.set_auto_maskandscale(False)
            if v["type"] == "char":
                x.set_auto_chartostring(False)
            for k, a in v.get("atts", []):
                if k != "_FillValue":
                    x.setncattr(k, a)
            vs.append(x)
        for x, v in zip(vs, d["vars"]):
            a = np.asarray(v["data"], dtype=TYPES[v["type"]])
            if a.ndim == 0:
                x[...] = a
            elif a.size:
                x[tuple(slice(0, n) for n in a.shape)] = a
    finally:
        ds.close()

def read(path):
    ds = netCDF4.Dataset(path, "r")
    try:
        d = {"fmt": RFMT[ds.data_model], "dims": [], "vars": [], "gatts": []}
        for n, x in ds.dimensions.items():
            d["dims"].append([n, len(x), bool(x.isunlimited())])
        for k in ds.ncattrs():
            d["gatts"].append([k, ds.getncattr(k)])
        for n, x in ds.variables.items():
            x.set_auto_maskandscale(False)
            if x.dtype == np.dtype("S1"):
                x.set_auto_chartostring(False)
            v = {"name": n, "type": RTYPES[np.dtype(x.dtype)], "dims": list(x.dimensions),
                 "atts": [[k, x.getncattr(k)] for k in x.ncattrs()], "data": np.array(x[...])}
            f = x.filters() if d["fmt"].startswith("nc4") else None
            v["deflate"] = (f.get("complevel", 0) if f and f.get("zlib") else 0)
            v["shuffle"] = 1 if (f and f.get("shuffle")) else 0
            d["vars"].append(v)
        return d
    finally:
        ds.close()

def proj(d, tok, data=True):
    """structure for TLA+: names/strings kept, numbers tokenised"""
    o = {"fmt": d["fmt"], "dims": [{"n": n, "s": int(s), "u": bool(u)} for n, s, u in d["dims"]],
         "gatts": [{"k": k, "t": att_norm(v)[0], "v": att_norm(v)[1]} for k, v in d.get("gatts", [])], "vars": []}
    for v in d["vars"]:
        x = {"n": v["name"], "t": v["type"], "d": list(v["dims"]),
             "a": [{"k": k, "t": att_norm(a)[0], "v": att_norm(a)[1]} for k, a in v.get("atts", [])]}
        if data:
            x["x"] = tok.arr(v["type"], v["data"])
        o["vars"].append(x)
    return o

def getvar(d, name):
    for v in d["vars"]:
        if v["name"] == name:
            return v
    return None
