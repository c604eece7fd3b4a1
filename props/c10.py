"""C10 climatology lookups."""
import datetime
import os
import shutil
import tempfile

import numpy as np
from netCDF4 import Dataset

import Climatology
import Extended_IMMA as ex
import qc
from core import Stream
from grid import default_cell, mds_cell, doy, exists, coord

RULE = ("Fields whose every cell has its own value (1, 73 and 365 steps; 0.05 to 5 degrees; plain and masked) looked up at random, edge, centre, pole and dateline positions in both longitude conventions on every day of the year and on days that do not exist; "
        "NetCDF files written in every supported orientation, packing and rank, with one variable or two, and read back (again after being rewritten); random histories of lookups in one climatology and of library additions; oracle: exact cell containment and the values written.")
FIELDS = {}
TMP = None


def coded(n, ny, nx):
    return np.arange(n * ny * nx, dtype=np.float64).reshape(n, ny, nx) + 0.5


def hole(t, y, x):
    return (t * 7 + y * 3 + x * 5) % 6 == 0


def prepare():
    global TMP
    TMP = tempfile.mkdtemp(prefix="c10-")
    for n, res in ((1, 1), (73, 1), (365, 1), (1, 0.5), (73, 2), (365, 5), (1, 0.25)):
        a = coded(n, int(180 / res), int(360 / res))
        FIELDS[n, res, 0] = a
        t, y, x = np.ogrid[:a.shape[0], :a.shape[1], :a.shape[2]]
        FIELDS[n, res, 1] = np.ma.array(a, mask=hole(t, y, x))
    f = np.arange(3600 * 7200, dtype=np.float64).reshape(1, 3600, 7200) + 0.5
    FIELDS["ostia"] = f
    # single precision, with a hole in every seventh column: values stay exact below 2**24
    g = (np.arange(3600 * 7200) % 1000003).reshape(1, 3600, 7200).astype(np.float32)
    FIELDS["ostia-single"] = g
    FIELDS["ostia-holes"] = np.ma.array(f, mask=np.broadcast_to(np.arange(7200) % 7 == 0, f.shape))
    for n, res in ((1, 1), (73, 2)):
        FIELDS[n, res, 2] = coded(n, int(180 / res), int(360 / res)).astype(np.float32)
    FIELDS["hires-day"] = np.broadcast_to(np.arange(365.0).reshape(365, 1, 1, 1), (365, 1, 720, 1440))
    yx = np.arange(720.0 * 1440).reshape(1, 1, 720, 1440)
    yx[0, 0, :, ::9] = -999
    FIELDS["hires-cell"] = np.broadcast_to(yx, (365, 1, 720, 1440))


def cleanup():
    shutil.rmtree(TMP, ignore_errors=True)


def date(r):
    if r.random() < 0.12:
        return r.choice([(0, 5), (13, 5), (2, 30), (4, 31), (6, 0), (12, 32), (-1, 4), (1, -3), (None, 3), (11, 31)])
    if r.random() < 0.2:
        return r.choice([(1, 1), (2, 28), (2, 29), (3, 1), (3, 2), (12, 31), (12, 27), (1, 5), (1, 6)])
    mo = r.randint(1, 12)
    return (mo, r.randint(1, [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]))


def gen(r, i):
    n, res = r.choice([(1, 1), (73, 1), (365, 1), (1, 0.5), (73, 2), (365, 5), (1, 0.25)])
    return (n, res, r.randint(0, 2 if (n, res) in ((1, 1), (73, 2)) else 1), coord(r, -90, 90, res), coord(r, -180, r.choice([180, 180, 360]), res)) + date(r)


def value(n, res, masked, cell, mo, dy):
    t = {1: 0, 73: doy(mo, dy) // 5, 365: doy(mo, dy)}[n]
    y, x = cell
    if masked == 1 and hole(t, y, x):
        return None
    return (t * int(180 / res) + y) * int(360 / res) + x + 0.5


class Rec:
    def __init__(self, data):
        self.data = data


def noval(fn, *a):
    try:
        return fn(*a)
    except AssertionError:
        return None


def check(c, m):
    n, res, masked, lat, lon, mo, dy = c
    ctx = lambda: repr(c)
    f = FIELDS[n, res, masked]
    cl = Climatology.Climatology(f)
    cells = default_cell(lat, lon, res), mds_cell(lat, lon, res)
    if exists(mo, dy):
        w, wm = [value(n, res, masked, k, mo, dy) for k in cells]
    else:
        w = wm = None
        m.event("date-does-not-exist")
    if w is None:
        m.event("no-value")
    m.eq(cl.get_value(lat, lon, mo, dy), w, "get_value", ctx)
    m.eq(cl.get_value_mds_style(lat, lon, mo, dy), wm, "get_value_mds_style", ctx)
    if exists(mo, dy):
        m.eq(cl.get_tindex(mo, dy), {1: 0, 73: doy(mo, dy) // 5, 365: doy(mo, dy)}[n], "time-index", ctx)
    if res == 1 and mo is not None:
        if n != 365:
            m.eq(noval(qc.get_sst, lat, lon, mo, dy, f), w, "get_sst", ctx)
        else:
            m.eq(noval(qc.get_sst_daily, lat, lon, mo, dy, f), wm, "get_sst_daily", ctx)
        if n == 1 and exists(mo, dy):
            m.eq(qc.get_sst_single_field(lat, lon, f), w, "get_sst_single_field", ctx)
        if n != 365 and mo > 0:
            rep = ex.MarineReport(Rec(dict(ID="A", YR=2004, MO=mo, DY=dy, HR=1.0, LAT=lat, LON=lon)))
            got = qc.get_clim(rep, f)
            m.eq(got, w, "get_clim", ctx)
    # the high-resolution field is decided by one field that shows the day and one that shows the cell
    got = [noval(qc.get_hires_sst, lat, lon, mo, dy, FIELDS[k]) if mo is not None else None for k in ("hires-day", "hires-cell")]
    y, x = default_cell(lat, lon, 0.25)
    want = [doy(mo, dy), None if x % 9 == 0 else y * 1440.0 + x] if exists(mo, dy) else [None, None]
    m.eq(got, want, "get_hires_sst", ctx)
    if mo is not None and mo > 0:
        rep = ex.MarineReport(Rec(dict(ID="A", YR=2004, MO=mo, DY=dy, HR=1.0, LAT=lat, LON=lon)))
        m.eq([qc.get_hires_clim(rep, FIELDS[k]) for k in ("hires-day", "hires-cell")], want, "get_hires_clim", ctx)
    m.event("steps-%d" % n)
    if masked == 2:
        m.event("single-precision")


def gen_series(r, i):
    """many lookups in one climatology: days in order and out of order, a day the year lacks in between, the same place again"""
    n, res = r.choice([(1, 1), (73, 1), (73, 1), (365, 1), (365, 1), (365, 5)])
    places = [(coord(r, -90, 90, res), coord(r, -180, 180, res)) for k in range(r.choice([1, 2, 4]))]
    when = date(r)
    out = []
    for k in range(r.randint(4, 20)):
        x = r.random()
        if x < 0.5 and exists(*when):
            when = step(when, r.choice([0, 1, 1, -1, 5, -5]))
        elif x < 0.8:
            when = date(r)
        else:
            when = r.choice([(2, 28), (2, 29), (3, 1), (12, 31), (1, 1)])
        if None in when:
            when = (1, 1)
        out.append((r.choice(["get_value", "get_value", "get_value_mds_style", "get_tindex"]),) + r.choice(places) + when)
    return (n, res, r.randint(0, 1), out)


def step(when, by):
    t = datetime.date(2004, *when) + datetime.timedelta(by)
    return (t.month, t.day)


def check_series(c, m):
    n, res, masked, todo = c
    cl = Climatology.Climatology(FIELDS[n, res, masked])
    for k, (how, lat, lon, mo, dy) in enumerate(todo):
        t = {1: 0, 73: doy(mo, dy) // 5, 365: doy(mo, dy)}[n] if exists(mo, dy) else None
        if how == "get_tindex":
            if t is not None:
                m.eq(cl.get_tindex(mo, dy), t, "series-time-index", lambda: "lookup %d of %r" % (k, c))
            continue
        cell = default_cell(lat, lon, res) if how == "get_value" else mds_cell(lat, lon, res)
        m.eq(getattr(cl, how)(lat, lon, mo, dy), None if t is None else value(n, res, masked, cell, mo, dy), "series-" + how, lambda: "lookup %d of %r" % (k, c))
        m.event("series-steps")


def gen_bad(r, i):
    big = r.choice([90.0001, 91.0, 135.0, 250.0, 1e6])
    east = r.choice([360.0001, 361.0, 500.0, 720.0, 1e7])
    west = -r.choice([180.0001, 181.0, 200.0, 359.0, 540.0, 1e7])
    lat, lon = r.choice([(big, 10.0), (-big, 10.0), (big, -170.0), (r.uniform(-90, 90), east), (r.uniform(-90, 90), west), (-big, east), (None, 4.0), (4.0, None), (None, None)])
    n, res = r.choice([(1, 1), (73, 1), (365, 5)])
    return (n, res, r.randint(0, 1), lat, lon) + date(r)


def check_bad(c, m):
    n, res, masked, lat, lon, mo, dy = c
    cl = Climatology.Climatology(FIELDS[n, res, masked])
    if lat is not None and lon is not None:
        m.eq(cl.get_value_mds_style(lat, lon, mo, dy), None, "impossible-position", lambda: repr(c))
        m.eq(Climatology.Climatology(FIELDS["ostia"]).get_value_ostia(lat, lon), None, "impossible-position-ostia", lambda: repr(c))
    m.event("impossible-position")


def gen_ostia(r, i):
    lat = r.choice([90.0, -90.0, 0.0, round(r.uniform(-90, 90), 2), r.uniform(-90, 90)])
    lon = r.choice([180.0, -180.0, 0.0, round(r.uniform(-180, 180), 2), r.uniform(-180, 180), r.uniform(180, 360)])
    return (lat, lon)


def check_ostia(c, m):
    lat, lon = c
    if any(0 < abs(v * 20 - round(v * 20)) < 1e-6 or (v * 20 == round(v * 20) and abs(v) not in (0, 90, 180)) for v in (lat, lon)):
        m.event("on-an-inexact-edge")
        return
    y, x = mds_cell(lat, lon, F20)
    m.eq(Climatology.Climatology(FIELDS["ostia"]).get_value_ostia(lat, lon), y * 7200 + x + 0.5, "get_value_ostia", lambda: repr(c))
    m.eq(float(Climatology.Climatology(FIELDS["ostia-single"]).get_value_ostia(lat, lon)), float((y * 7200 + x) % 1000003), "get_value_ostia-single", lambda: repr(c))
    m.eq(Climatology.Climatology(FIELDS["ostia-holes"]).get_value_ostia(lat, lon), None if x % 7 == 0 else y * 7200 + x + 0.5, "get_value_ostia-masked", lambda: repr(c))


from fractions import Fraction
F20 = Fraction(1, 20)


def gen_file(r, i):
    n = r.choice([1, 1, 1, 1, 73, 365])
    zero = r.random() < 0.5
    res = r.choice([5, 2, 1, 0.5]) if n == 1 else r.choice([5, 10, 1]) if zero else r.choice([5, 10])
    if zero and n == 365 and r.random() < 0.7:
        n = 73
    return dict(n=n, res=res, zero=zero, south=r.random() < 0.5, rank=r.choice([3, 3, 4]), masked=r.random() < 0.6,
                dtype=r.choice(["f4", "f8", "packed"]), lat=r.choice(["lat", "lats", "latitude", "latitudes"]),
                lon=r.choice(["lon", "lons", "long", "longs", "longitude", "longitudes"]), var=r.choice(["sst", "nmat", "analysed_sst"]),
                swap=(n == 1 and res == 1 and r.random() < 0.3), two=r.choice([0, 0, 1, 2]), seed=r.randint(0, 10 ** 9))


def check_file(c, m):
    import random
    r = random.Random(c["seed"])
    n, res = c["n"], c["res"]
    ny, nx = int(180 / res), int(360 / res)
    base = np.arange(n * ny * nx) % 29989
    truth = (base * 0.5 if c["dtype"] != "packed" else base.astype(float)).reshape(n, ny, nx)
    t, y, x = np.ogrid[:n, :ny, :nx]
    mask = np.broadcast_to(hole(t, y, x), truth.shape) if c["masked"] else np.zeros(truth.shape, bool)
    lats = 90 - res / 2.0 - res * np.arange(ny)
    lons = -180 + res / 2.0 + res * np.arange(nx)
    a, k = truth, mask
    if c["south"]:
        a, k, lats = a[:, ::-1, :], k[:, ::-1, :], lats[::-1]
    if c["zero"]:
        a, k, lons = np.roll(a, nx // 2, 2), np.roll(k, nx // 2, 2), (np.roll(lons, nx // 2) + 360) % 360
    swap = c["swap"] and c["rank"] == 3
    if swap:
        a, k = a.transpose(0, 2, 1), k.transpose(0, 2, 1)
    path = os.path.join(TMP, "f%d-%d.nc" % (os.getpid(), c["seed"]))
    d = Dataset(path, "w")
    try:
        d.createDimension("time", n)
        d.createDimension("y", ny)
        d.createDimension("x", nx)
        d.createDimension("z", 1)
        d.createVariable(c["lat"], "f8", ("y",))[:] = lats
        d.createVariable(c["lon"], "f8", ("x",))[:] = lons
        dims = ("time", "z", "y", "x") if c["rank"] == 4 else ("time", "x", "y") if swap else ("time", "y", "x")
        if c["rank"] == 4:
            a, k = a[:, None], k[:, None]
        if c["dtype"] == "packed":
            v = d.createVariable(c["var"], "i2", dims, fill_value=-32768)
            v.scale_factor = 0.5
            v[:] = np.ma.array(a * 0.5, mask=k)
        else:
            v = d.createVariable(c["var"], c["dtype"], dims, fill_value=-1e10)
            v[:] = np.ma.array(a, mask=k)
        if c["two"]:        # a second variable beside it, the same values the other way round
            v = d.createVariable(c["var"] + "_sd", "f8", dims, fill_value=-1e10)
            v[:] = np.ma.array(14994.0 - (a if c["dtype"] != "packed" else a * 0.5), mask=k)
        d.close()
        readings = [(c["var"], False)] + ([(c["var"] + "_sd", True), (c["var"], False)] if c["two"] else [])
        if c["two"] == 2:
            readings.reverse()
            readings[0] = readings[1]
        fields = [(Climatology.Climatology.from_filename(path, name), other) for name, other in readings]
        if c["two"]:        # the same file, written anew
            with Dataset(path, "a") as d:
                v = d.variables[c["var"]]
                v[:] = np.ma.array(14994.0 - (a if c["dtype"] != "packed" else a * 0.5), mask=k)
            fields.append((Climatology.Climatology.from_filename(path, c["var"]), True))
    finally:
        os.unlink(path)
    for j in range(40):
        lat, lon = coord(r, -90, 90, res), coord(r, -180, 180, res)
        mo, dy = date(r)
        while not exists(mo, dy):
            mo, dy = date(r)
        tt = {1: 0, 73: doy(mo, dy) // 5, 365: doy(mo, dy)}[n]
        for name, cell in (("get_value", default_cell(lat, lon, res)), ("get_value_mds_style", mds_cell(lat, lon, res))):
            w = None if mask[tt][cell] else float(((tt * ny + cell[0]) * nx + cell[1]) % 29989) * 0.5
            for q, (cl, other) in enumerate(fields):
                m.eq(getattr(cl, name)(lat, lon, mo, dy), w if w is None or not other else 14994.0 - w, "from-file-" + name, lambda: repr((c, q, lat, lon, mo, dy)))
    m.event("south-first" if c["south"] else "north-first")
    m.event("from-0" if c["zero"] else "from-180W")
    m.event("rank-%d" % c["rank"])
    if c["two"]:
        m.event("files-with-two-variables")
    if swap:
        m.event("longitude-axis-first")


def gen_lib(r, i):
    return [(r.choice(["add", "add", "get"]), r.choice(["SST", "AT", "DPT", "SLP"]), r.choice(["mean", "stdev", "ice"]), r.randint(0, 99)) for k in range(r.randint(3, 25))]


def check_lib(c, m):
    lib, other, ref = ex.ClimatologyLibrary(), ex.ClimatologyLibrary(), {}
    for op, v, s, x in c:
        if op == "add":
            lib.add_field(v, s, ("field", x))
            ref[v, s] = ("field", x)
        for key in [(a, b) for a in ("SST", "AT", "DPT", "SLP") for b in ("mean", "stdev", "ice")]:
            try:
                got = lib.get_field(*key)
            except AssertionError:
                got = None
            m.eq(got, ref.get(key), "library", lambda: repr(c))
        try:
            leak = other.get_field(v, s)
        except AssertionError:
            leak = None
        m.eq(leak, None, "library-leak", lambda: repr(c))


def check_none(c, m):
    cl = Climatology.Climatology.from_filename(None, "sst")
    for lat, lon in c:
        m.eq(cl.get_value(lat, lon, 3, 4), None, "no-file", "")
        m.eq(cl.get_value_ostia(lat, lon), None, "no-file-ostia", "")


STREAMS = [
    Stream("lookups", gen, check, 36000, 500000, need=20000),
    Stream("series", gen_series, check_series, 6000, 80000, need=20000),
    Stream("ostia", gen_ostia, check_ostia, 12000, 100000, need=1000),
    Stream("impossible-positions", gen_bad, check_bad, 4500, 30000, need=1000),
    Stream("files", gen_file, check_file, 720, 8000, need=2000),
    Stream("library", gen_lib, check_lib, 1500, 10000, need=1000),
    Stream("no-file", [[(0.0, 0.0), (89.9, 12.0), (-50.0, -179.0)]], check_none, None, None),
]
