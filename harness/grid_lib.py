"""Lat-lon supergrid tiles and mosaics as the tools read them, on grids whose cell areas are
integers: longitudes in units of 360/N degrees, latitudes where sin(lat) = k/S."""
import math, os
import numpy as np, netCDF4

def latdeg(k, S): return math.degrees(math.asin(k / S))

def supergrid(lon, lat):
    """edge lists in degrees -> supergrid x, y (edges at even points, midpoints between)"""
    def fine(e):
        r = []
        for a, b in zip(e, e[1:]): r += [a, (a + b) / 2]
        return r + [e[-1]]
    return np.meshgrid(fine(lon), fine(lat))

def chars(s, n=255):
    a = np.zeros(n, dtype="S1")
    for i, c in enumerate(s): a[i] = c.encode()
    return a

def write_tile(path, name, x, y, fmt="NETCDF3_64BIT_OFFSET", extra=None):
    d = netCDF4.Dataset(path, "w", format=fmt)
    ny, nx = x.shape[0] - 1, x.shape[1] - 1
    d.createDimension("string", 255); d.createDimension("nx", nx); d.createDimension("ny", ny)
    d.createDimension("nxp", nx + 1); d.createDimension("nyp", ny + 1)
    t = d.createVariable("tile", "S1", ("string",)); t.set_auto_chartostring(False); t[:] = chars(name)
    for n, a, dd in [("x", x, ("nyp", "nxp")), ("y", y, ("nyp", "nxp"))] + (extra or []):
        v = d.createVariable(n, "f8", dd); v[:] = a
    d.close()

def write_mosaic(path, gridfiles, gridtiles, contacts=(), mosaic="m"):
    d = netCDF4.Dataset(path, "w", format="NETCDF3_64BIT_OFFSET")
    d.createDimension("string", 255); d.createDimension("ntiles", len(gridfiles))
    if contacts: d.createDimension("ncontact", len(contacts))
    def s1(n, val):
        v = d.createVariable(n, "S1", ("string",)); v.set_auto_chartostring(False); v[:] = chars(val); return v
    def s2(n, vals, dim):
        v = d.createVariable(n, "S1", (dim, "string")); v.set_auto_chartostring(False)
        for i, x in enumerate(vals): v[i] = chars(x)
        return v
    v = s1("mosaic", mosaic); v.standard_name = "grid_mosaic_spec"; v.children = "gridtiles"; v.contact_regions = "contacts"; v.grid_descriptor = ""
    s1("gridlocation", "./"); s2("gridfiles", gridfiles, "ntiles"); s2("gridtiles", gridtiles, "ntiles")
    if contacts:
        v = s2("contacts", [c[0] for c in contacts], "ncontact"); v.standard_name = "grid_contact_spec"; v.contact_type = "boundary"; v.alignment = "true"
        v.contact_index = "contact_index"; v.orientation = "orient"
        v = s2("contact_index", [c[1] for c in contacts], "ncontact"); v.standard_name = "starting_ending_point_index_of_contact"
    d.close()

def stage(d, stem, tiles, N, S, names=None):
    """tiles: [{lon:[units], lat:[k]}] -> <stem>_mosaic.nc and its tile files"""
    names = names or ["tile%d" % (i + 1) for i in range(len(tiles))]
    fs = []
    for i, t in enumerate(tiles):
        x, y = supergrid([e * 360 / N for e in t["lon"]], [latdeg(k, S) for k in t["lat"]])
        f = "%s_%s.nc" % (stem, names[i]); write_tile(os.path.join(d, f), names[i], x, y); fs.append(f)
    p = os.path.join(d, stem + "_mosaic.nc"); write_mosaic(p, fs, names)
    return p, names
