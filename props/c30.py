"""C30 the monthly QC programs."""
import contextlib
import csv
import datetime
import gzip
import io
import json
import os
import random
import shutil
import sys
import tempfile

import numpy as np
from netCDF4 import Dataset

import Climatology
import Extended_IMMA as ex
import c09
import c14
import c29
import geo
import marine_qc
import marine_qc_hires
import marine_qc_track_only
from core import Stream, size
from grid import default_cell, mds_cell, doy, exists

RULE = ("Archives of up to five monthly files (some missing, some empty) of records of ships, drifters and loose platforms whose tracks and neighbourhoods cross month and year ends, with excluded and missing identifiers, malformed, blank and misfiled lines, records lacking an attachment others have, impossible dates, hours "
        "and positions, in any order, random climatologies, parameters and background fields, run through the real main of the three programs with and without tracking for one to three months; every row, value, flag, file and directory written is compared with the "
        "harness's own selection, climatology lookup and grouping of the reports, with reports fed to the single checks in time order.")
ASSUMPTIONS = ["Flags are those of the single checks (decided by C09, C18, C19 and C21 to C24) on the reports the harness selects, groups and filters itself.",
               "OSTIA NetCDF files are replaced by stand-ins of the same shape; gzip files are read as Latin-1 text."]

PROGRAMS = {"full": marine_qc, "hires": marine_qc_hires, "track": marine_qc_track_only}
TOP = None
CLIM = {}
MEANS = [("SST", 20), ("AT", 18), ("SLP2", 1010), ("SHU", 10), ("CRH", 80), ("CWB", 15), ("DPD", 3), ("DPT", 14), ("AT2", 17), ("SLP", 1012)]
STDEV = ["DPT", "AT2", "SLP"]
BUDDY = ["Old_SST_stdev_climatology", "SST_buddy_one_box_to_buddy_avg", "SST_buddy_one_ob_to_box_avg", "SST_buddy_avg_sampling"]
SEASON = {12: "DJF", 1: "DJF", 2: "DJF", 3: "MAM", 4: "MAM", 5: "MAM", 6: "JJA", 7: "JJA", 8: "JJA", 9: "SON", 10: "SON", 11: "SON"}


def field(name, n, var, seed, lo, hi, gaps=0.04):
    rng = np.random.default_rng(seed)
    a = np.round(rng.uniform(lo, hi, (n, 36, 72)), 3)
    hole = rng.random(a.shape) < gaps
    path = os.path.join(TOP, name + ".nc")
    d = Dataset(path, "w")
    for dim, k in (("time", n), ("lat", 36), ("lon", 72)):
        d.createDimension(dim, k)
    d.createVariable("lat", "f8", ("lat",))[:] = 87.5 - 5.0 * np.arange(36)
    d.createVariable("lon", "f8", ("lon",))[:] = -177.5 + 5.0 * np.arange(72)
    d.createVariable(var, "f8", ("time", "lat", "lon"), fill_value=-1e10)[:] = np.ma.array(a, mask=hole)
    d.close()
    CLIM[name] = (path, var, n, a, hole)


def look(name, lat, lon, mo, dy, mds):
    """the harness's own climatology lookup"""
    path, var, n, a, hole = CLIM[name]
    if not exists(mo, dy):
        return None
    y, x = (mds_cell if mds else default_cell)(lat, lon, 5)
    t = doy(mo, dy) // 5 if n == 73 else 0
    return None if hole[t, y, x] else float(a[t, y, x])


class Ostia:
    """a background field of the archive's shape, one value per 0.05 degree cell"""
    shape = (1, 3600, 7200)

    def __init__(self, day, ice):
        self.day, self.ice = day, ice

    def __getitem__(self, key):
        t, y, x = key
        v = pixel(self.day, self.ice, int(y), int(x))
        return np.ma.masked if v is None else np.float64(v)


def pixel(day, ice, y, x):
    if day is None or (y * 31 + x * 17 + day) % 11 == 0:
        return None
    if ice:
        return None if (y + x + day) % 3 else ((y * 7 + x * 3 + day) % 100) / 100.0
    return 271.35 + ((y * 13 + x * 29 + day * 7) % 3000) / 100.0


REAL = Climatology.Climatology.from_filename


def from_filename(infile, var):
    if infile is None:
        return Climatology.Climatology(Ostia(None, False))
    with open(infile, "rb") as f:
        if f.read(6) == b"OSTIA ":
            day = int(f.read())
            return Climatology.Climatology(Ostia(day, dict(analysed_sst=False, sea_ice_fraction=True)[var]))
    return REAL(infile, var)


GZ = gzip.open


class Zip:
    """the gzip module as the programs know it: lines of text"""

    @staticmethod
    def open(filename, mode="r", *rest):
        return io.TextIOWrapper(GZ(filename, "rb"), encoding="latin-1", newline="\n")

    GzipFile = open


def prepare():
    global TOP
    TOP = tempfile.mkdtemp(prefix="c30-")
    for k, (v, c) in enumerate(MEANS):
        field(v + "-mean", [73, 1][k % 4 == 3], "mean_" + v.lower(), 100 + k, c - 3, c + 3)
    for k, v in enumerate(STDEV):
        field(v + "-stdev", [73, 1, 73][k], "sd", 200 + k, 0.5, 3)
    for k, v in enumerate(BUDDY):
        field(v, [73, 1, 1, 73][k], "sst", 300 + k, 0.3, 1.5)
    field("hires", 73, "temperature", 400, 16, 24)
    for k, v in enumerate(("DJF", "MAM", "JJA", "SON")):
        field(v, 1, "bg_var", 500 + k, 0, 1)
    Climatology.Climatology.from_filename = staticmethod(from_filename)
    for mod in PROGRAMS.values():
        mod.gzip = Zip


def cleanup():
    shutil.rmtree(TOP, ignore_errors=True)


def shift(ym, k):
    q = ym[0] * 12 + ym[1] - 1 + k
    return q // 12, q % 12 + 1


def hundredth(r, x):
    """hundredths of a degree, off the edges of all the grids"""
    n = int(round(x * 100))
    return n + 1 if n % 5 == 0 else n


def gen_params(r):
    p = c09.gen_params(r)
    p["SST"]["maximum_anomaly"] = p["AT"]["maximum_anomaly"] = r.choice([8.0, 10.0])
    p["SST"]["hard_limits"], p["AT"]["hard_limits"] = [-5.0, 65.0], [-80.0, 65.0]
    p["track_check"] = dict(max_direction_change=r.choice([60.0, 30.0]), max_speed_change=r.choice([10.0, 5.0]), max_absolute_speed=r.choice([40.0, 30.0]), max_midpoint_discrepancy=r.choice([150.0, 50.0]))
    p["IQUAM_track_check"] = dict(buoy_speed_limit=15.0, ship_speed_limit=r.choice([60.0, 30.0]), delta_d=1.11, delta_t=0.01, number_of_neighbours=r.choice([5, 2]))
    p["IQUAM_spike_check"] = dict(max_gradient_space=r.choice([0.5, 0.05]), max_gradient_time=r.choice([1.0, 0.1]), ship_delta_t=r.choice([2.0, 1.0]), buoy_delta_t=1.0, number_of_neighbours=r.choice([5, 2]))
    p["saturated_runs"] = dict(min_time_threshold=r.choice([48.0, 6.0]), shortest_run=r.choice([4, 2]))
    p["multiple_rounded_values"] = dict(min_count=r.choice([20, 3]), threshold=r.choice([0.5, 0.2]))
    p["find_repeated_values"] = dict(min_count=r.choice([20, 4]), threshold=r.choice([0.7, 0.25]))

    def mds():
        return dict(limits=[[1, 1, 2], [2, 2, r.choice([2, 4])], [3, 3, 4]], number_of_obs_thresholds=[[0, 5, 15, 100], [0], [0]], multipliers=[[r.choice([4.0, 2.0]), 3.5, 3.0, 2.5], [r.choice([4.0, 1.0])], [r.choice([4.0, 1.5])]])
    p["mds_buddy_check"], p["slp_buddy_check"] = mds(), mds()
    p["bayesian_buddy_check"] = dict(prior_probability_of_gross_error=r.choice([0.05, 0.2]), quantization_interval=0.1, measurement_error=r.choice([1.0, 0.3]), limits=[2, 2, r.choice([2, 4])], noise_scaling=r.choice([3.0, 1.0]))
    return p


def gen(r, i):
    prog = ["full", "hires", "track"][i % 3] if r.random() < 0.7 else "full"
    tracking = r.random() < (0.5 if prog != "track" else 0.85)
    years = [1850, 1855, 1905, 1960, 1968, 1985, 1999, 2004, 2013] if not tracking else [1984, 1985, 1985, 1990, 2004, 2013, 2004]
    first = (r.choice(years), r.choice([1, 12, 2, 3, r.randint(1, 12)]))
    nm = r.choice([1, 1, 2, 3])
    months = [shift(first, k) for k in range(-1, nm + 1)]
    lat0, lon0 = r.choice([(0.2, 179.7), (45.3, -30.2), (-40.4, 0.1), (r.uniform(-60, 60), r.uniform(-180, 180))])
    start = datetime.datetime(months[0][0], months[0][1], r.randint(18, 28))
    ids = r.sample(["SHIP1    ", "SHIP     ", "ABCD     ", "WXYZ     ", "2300123  ", "51521    ", "51522    ", "A/B      ", "D*1      ", " LEAD    ", "00007    ", "a b c    "], r.choice([2, 3, 5]))
    bad = [x for x in ids + ["NOBODY   ", "123456789"] if r.random() < 0.2]
    recs = []
    span = nm * 31 + 12
    for n, ident in enumerate(ids):
        pt = r.choice([5, 5, 7, 7, 6, None])
        if tracking and n == 0:
            pt = 7
        dck = r.choice([701, 732, 780, 720, 193, 926, None])
        t = r.uniform(0, 5 * 24)
        crs, sp = r.uniform(0, 360), r.choice([0.0, 5.0, 15.0])
        la, lo = lat0 + r.uniform(-1, 1), lon0 + r.uniform(-1, 1)
        off = dict(SST=r.choice([0, 0, 3, -2]), AT=0)
        sat = r.random() < 0.3
        for k in range(size(r, [2, 12, 25], 400, 0.02)):
            t += r.choice([1, 6, 6, 12, 24, 24 * r.randint(1, 4), 24 * r.randint(1, max(2, span // 20))]) * r.choice([1, 1, 0.5])
            if t / 24 > span:
                break
            la, lo = geo.dest(la, lo, crs, sp * r.choice([1, 6]))
            x, y = (la, lo) if r.random() < 0.85 else geo.dest(la, lo, r.uniform(0, 360), r.choice([40, 400, 3000]))
            d = geo.stamp(start, round(t, 2))
            v = dict(YR=d["YR"], MO=d["MO"], DY=d["DY"], HR=int(round(d["HR"] * 100)), LAT=hundredth(r, max(-89, min(89, x))), LON=hundredth(r, (y + 180) % 360 - 180), ID=ident, DCK=dck, PT=pt)
            if v["LON"] < 0 and n % 3 == 2:
                v["LON"] += 36000
            for name, c, s in (("SST", 20, 3), ("AT", 18, 3), ("DPT", 14, 2), ("SLP", 1012, 5)):
                if r.random() < 0.92:
                    v[name] = int(round(10 * (c + off.get(name, 0) + r.gauss(0, s)))) if r.random() < 0.95 else int(10 * (c + r.choice([-25, 25, 9])))
            if sat and "AT" in v:
                v["DPT"] = v["AT"]
            if r.random() < 0.3:
                v["SST"] = 10 * int(20 + off["SST"])
            v["W"], v["D"] = r.randint(0, 300), r.choice([None, 90, 361, 362])
            v["DS"], v["VS"] = r.choice([(None, None), (int(crs // 45) % 8, 2), (r.randint(0, 9), r.randint(0, 9))])
            x = r.random()
            if r.random() < 0.15:        # a record without the attachment that has these
                v["DCK"] = v["PT"] = v["SID"] = None
                v["bare"] = True
            if x < 0.02:
                v["HR"] = r.choice([None, 2500, None])
            elif x < 0.04:
                v["DY"] = r.choice([None, 0, 31, 30])
            elif x < 0.05:
                v["LAT"] = r.choice([9123, -9999, 0])
            elif x < 0.06:
                v["LON"] = r.choice([18000, -18000, 0, 40001])
            elif x < 0.07:
                v["ID"] = None
            elif x < 0.075:
                v["LAT"] = v["LON"] = 0
            recs.append(v)
    same = tracking and r.random() < 0.6
    if same:
        for a, b in zip(months, months[1:]):
            x, y = ([v for v in recs if (v["YR"], v["MO"]) == q and v["DY"] in range(1, 29)] for q in (a, b))
            if x and y:
                r.choice(y)["DY"] = r.choice(x)["DY"]
    files = {}
    for k, v in enumerate(recs):
        v["UID"] = "%06X" % (k + 4096 * (i % 256))
        full = dict({f[0]: None for a in (0, 1, 98) for f in c14.SPEC[a]}, **v)
        if not v.get("ATTC"):
            full["ATTC"] = 2
        text = c14.compose([(a, full) for a in ((0, 98) if v.get("bare") else (0, 1, 98))], r.choice([0, 1]) if True else 0, r.random() < 0.7)
        ym = (v["YR"], v["MO"])
        files.setdefault(ym, []).append((text, k))
        if r.random() < 0.04:        # the same record in the wrong file
            files.setdefault(r.choice([q for q in months if q != ym]), []).append((text, k))
    for ym in months:
        if r.random() < 0.12:
            files.pop(ym, None)
            continue
        ls = files.setdefault(ym, [])
        for k in range(r.choice([0, 0, 1, 3])):
            good = r.choice(ls)[0] if ls else "%4d%2d" % ym
            mess = r.choice(["", "   ", "letters", "lat", "attachment", "nopos", "nolat", "nolon", "nomonth", "noyear", "latin", "short", "bare"])
            if mess == "letters":
                good = "2O04" + good[4:]
            elif mess == "lat":
                good = good[:12] + "1x.4" + good[16:]
            elif mess == "attachment":
                good = good.rstrip() + "5510abcdef"
            elif mess == "nopos":
                good = good[:12] + " " * 11 + good[23:]
            elif mess == "nolat":
                good = good[:12] + " " * 5 + good[17:]
            elif mess == "nolon":
                good = good[:17] + " " * 6 + good[23:]
            elif mess == "nomonth":
                good = good[:4] + "  " + good[6:]
            elif mess == "noyear":
                good = "    " + good[4:]
            elif mess == "latin":
                good = "\xe9\xff" + good[2:]
            elif mess == "short":
                good = "%4d" % ym[0]
            elif mess == "bare":
                good = "%4d%2d" % ym
            else:
                good = mess
            ls.insert(r.randint(0, len(ls)), (good, None))
    tied = len({(v["ID"], v["YR"], v["MO"], v["DY"], v["HR"]) for v in recs}) < len(recs)
    if not tied and r.random() < 0.7:
        for ls in files.values():
            r.shuffle(ls)
    if same and not tied:
        # one month ends on the day of the month on which the next one begins
        for a, b in zip(months, months[1:]):
            day = lambda q: recs[q[1]]["DY"] if q[1] is not None else None
            both = {day(q) for q in files.get(a, [])} & {day(q) for q in files.get(b, [])} - {None}
            if both:
                dy = r.choice(sorted(both))
                x = next(q for q in files[a] if day(q) == dy)
                files[a].append(files[a].pop(files[a].index(x)))
                x = [q for q in files[b] if day(q) == dy][-1]
                files[b].insert(0, files[b].pop(files[b].index(x)))
    bgdays = [d for d in range(-1, 1 + 32 * len(months)) if r.random() < 0.8]
    keep = [k for k in range(len(recs))]
    return (prog, tracking, first, nm, {"%d-%d" % k: v for k, v in files.items()}, recs, bad, gen_params(r), bgdays, r.choice(["r1", "R3.0.1"]), r.choice(["plain", "dirs", "second"]))


def decoded(v):
    """what the layout says the record holds"""
    out = {}
    for a in (0, 1, 98):
        for name, w, scale, kind in c14.SPEC[a]:
            x = v.get(name)
            if x is not None:
                out[name] = x if kind != "i" or scale in (None, 1.0) else x * scale
    return {k: x for k, x in out.items() if k in ex.VARLIST or k in ("ID", "UID")}


class World:
    """the archive of a case on disc"""

    def __init__(self, case):
        self.case = case
        prog, tracking, first, nm, files, recs, bad, params, bgdays, run, layout = case
        self.top = tempfile.mkdtemp(prefix="case-", dir=TOP)
        ic = os.path.join(self.top, "icoads")
        if layout == "plain":
            dirs, names = [ic], ["IMMA1_YYYY-MMMM.gz"]
        elif layout == "dirs":
            dirs, names = [ic + "/YYYY/MMMM"], ["r.YYYYMMMM.gz"]
        else:
            dirs, names = [ic + "/none", ic + "/b_YYYY"], ["IMMA1_YYYY-MMMM.gz", "x_MMMM"]
        for key, lines in files.items():
            y, mo = [int(x) for x in key.split("-")]
            p = os.path.join(dirs[-1], names[-1]).replace("YYYY", str(y)).replace("MMMM", "%02d" % mo)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with GZ(p, "wb", 1) as f:
                f.write("".join(t + "\n" for t, k in lines).encode("latin-1"))
        bg = os.path.join(self.top, "bg")
        os.makedirs(bg)
        start = datetime.date(*shift(first, -1), 1)
        self.bg = {}
        for k in bgdays:
            d = start + datetime.timedelta(k)
            with open(os.path.join(bg, d.strftime("%Y%m%d") + "-sst.nc"), "w") as f:
                f.write("OSTIA %d" % d.toordinal())
            self.bg[d] = d.toordinal()
        os.makedirs(os.path.join(self.top, "scratch"))
        self.out = os.path.join(self.top, "out")
        os.makedirs(self.out)
        self.params = json.loads(json.dumps(params))
        self.params.update(runid=run, icoads_dir=dirs, icoads_filenames=names, background_dir=[bg], background_filenames=["YYYYMMMMDDDD-sst.nc"],
                           climatologies=[[v, "mean", CLIM[v + "-mean"][0], CLIM[v + "-mean"][1]] for v, c in MEANS] + [[v, "stdev", CLIM[v + "-stdev"][0], CLIM[v + "-stdev"][1]] for v in STDEV],
                           hires_climatologies=[["SST", "mean", CLIM["hires"][0], "temperature"]])
        with open(os.path.join(self.top, "parameters.json"), "w") as f:
            json.dump(self.params, f)
        with open(os.path.join(self.top, "bad.txt"), "w") as f:
            f.write("".join(x.rstrip() + "\n" for x in bad))
        with open(os.path.join(self.top, "config.txt"), "w") as f:
            f.write("[Directories]\nICOADS_dir = %s\nout_dir = %s\n[Files]\nIDs_to_exclude = %s\nparameter_file = %s\n[Icoads]\nicoads_version = 3.0.0\n[Climatologies]\n" % (
                ic, self.out, os.path.join(self.top, "bad.txt"), os.path.join(self.top, "parameters.json")))
            for v in BUDDY:
                f.write("%s = %s\n" % (v, CLIM[v][0]))
            for s in ("DJF", "MAM", "JJA", "SON"):
                f.write("%s_ostia_background = %s\n" % (s, CLIM[s][0]))

    def run(self):
        prog, tracking, first, nm = self.case[:4]
        last = shift(first, nm - 1)
        keep, env = sys.argv, os.environ.get("SCRATCH")
        os.environ["SCRATCH"] = os.path.join(self.top, "scratch")
        sys.argv = ["prog", "-config", os.path.join(self.top, "config.txt"), "-year1", str(first[0]), "-month1", str(first[1]), "-year2", str(last[0]), "-month2", str(last[1])] + (["-tracking"] if tracking else [])
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                PROGRAMS[prog].main(sys.argv[1:])
        finally:
            sys.argv = keep
            if env is None:
                os.environ.pop("SCRATCH", None)
            else:
                os.environ["SCRATCH"] = env

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)


class Report:
    def __init__(self, w, v, month):
        prog, tracking = w.case[:2]
        d = decoded(v)
        self.d, self.month = d, (v["YR"], v["MO"])
        self.current = self.month == month
        p = self.p = geo.mk(d)
        lat, lon, mo, dy = d["LAT"], d["LON"] - 360 if d["LON"] > 180 else d["LON"], d["MO"], d.get("DY")
        self.clim, self.ext = {}, {}
        ok = self.ok = -90 <= lat <= 90 and -180 <= d["LON"] <= 360
        if prog == "hires":
            names = [("SST", "hires", False)]
        elif prog == "track":
            names = [("SST", "SST-mean", True)]
        else:
            names = [("SST", "SST-mean", True), ("AT", "AT-mean", True)] + [(v, v + "-mean", False) for v in ("SLP2", "SHU", "CRH", "CWB", "DPD", "DPT", "AT2", "SLP")]
            if d.get("AT") is not None:
                p.setvar("AT2", d["AT"])
        for v_, f, mds in names:
            c = look(f, lat, lon, mo, dy, mds) if ok else None
            s = look(v_ + "-stdev", lat, lon, mo, dy, False) if ok and prog == "full" and v_ in STDEV else None
            self.clim[v_] = c
            p.add_climate_variable(v_, c, s)
        if tracking and prog != "hires" and v["YR"] >= 1985 and dy is not None and ok:
            day = None
            try:
                day = w.bg.get(datetime.date(d["YR"], mo, dy) - datetime.timedelta(1))
            except ValueError:
                pass
            y, x = mds_cell(lat, lon, "1/20")
            o, ice = pixel(day, False, y, x), pixel(day, True, y, x)
            self.ext = dict(OSTIA=None if o is None else o - 273.15, ICE=ice if day is not None else None, BGVAR=look(SEASON[mo], lat, lon, mo, dy, True))
        if prog == "hires":
            p.perform_base_sst_qc(w.params)
        else:
            if prog == "full":
                p.calculate_humidity_variables(["SHU", "VAP", "CRH", "CWB", "DPD"])
            p.perform_base_qc(w.params)
        if d.get("HR") is None and d.get("DCK") == 701 and d["YR"] < 1860:
            d["HR"] = 0.0

    def val(self, name):
        if name.endswith("_anom"):
            v, c = self.d.get(name[:-5]), self.clim.get(name[:-5])
            return None if v is None or c is None else v - c
        if name in ("OSTIA", "ICE", "BGVAR"):
            return self.ext.get(name)
        return self.d.get(name)


def select(w, month):
    """the reports a run of this month works with, in time order"""
    prog, tracking, first, nm, files, recs, bad = w.case[:7]
    got = []
    for k in (-1, 0, 1):
        ym = shift(month, k)
        for text, n in files.get("%d-%d" % ym, []):
            if n is None or (recs[n]["YR"], recs[n]["MO"]) != ym:
                continue
            ident = recs[n]["ID"]
            if ident is not None and ident in [("%-9s" % x.rstrip()) for x in bad]:
                continue
            got.append(Report(w, recs[n], month))
    return sorted(got, key=lambda q: (q.p.getvar("ID") or "", q.p.dt or datetime.datetime(1, 1, 1)))


def sound(q):
    return all(q.p.get_qc("POS", f) == 0 for f in ("date", "time", "pos", "blklst"))


def platforms(reps):
    out = {}
    for q in reps:
        out.setdefault(q.p.getvar("ID"), []).append(q)
    return out


def voyage(qs):
    v = ex.Voyage()
    for q in qs:
        v.add_report(q.p)
    return v


SSTF = [("POS", "is780", 0), ("SST", "noval", 0), ("SST", "freez", 0), ("SST", "clim", 0), ("SST", "nonorm", 0)]
FILTERS = {"SST": SSTF, "AT": [("POS", "isship", 1), ("AT", "mat_blacklist", 0), ("POS", "day", 0), ("AT", "noval", 0), ("AT", "clim", 0), ("AT", "nonorm", 0)],
           "DPT": [("DPT", "hum_blacklist", 0), ("DPT", "noval", 0), ("DPT", "clim", 0), ("DPT", "nonorm", 0)], "SLP": [("SLP", "noval", 0), ("SLP", "clim", 0), ("SLP", "nonorm", 0)]}


def buddies(w, reps, var):
    """buddy check of one variable on the reports that may take part"""
    good, rest = ex.Deck(), []
    for q in reps:
        if sound(q) and q.p.get_qc("POS", "trk") == 0 and all(q.p.get_qc(a, f) == x for a, f, x in FILTERS[var]):
            good.append(q.p)
        else:
            rest.append(q.p)
    P = w.params
    sd = [REAL(CLIM[n][0], "sst") for n in BUDDY]
    if var in ("SST", "AT"):
        good.bayesian_buddy_check(var, sd[1], sd[2], sd[3], P)
        good.mds_buddy_check(var, sd[0], P["mds_buddy_check"])
    else:
        good.mds_buddy_check(var, REAL(CLIM[var + "-stdev"][0], "sd"), P["mds_buddy_check" if var == "DPT" else "slp_buddy_check"])
    for p in rest:
        p.set_qc(var, "bud", 0)
        if var in ("SST", "AT"):
            p.set_qc(var, "bbud", 0)


def judge(w, month):
    """the reports of a month with the flags the QC of it and its neighbours prescribes"""
    prog = w.case[0]
    reps = select(w, month)
    P = w.params
    for ident, qs in platforms([q for q in reps if sound(q)]).items():
        v = voyage(qs)
        v.sort()
        v.track_check(P["track_check"])
        if prog != "hires":
            v.iquam_track_check(P["IQUAM_track_check"])
            v.spike_check(P["IQUAM_spike_check"])
            v.find_saturated_runs(P["saturated_runs"])
            v.find_multiple_rounded_values(P["multiple_rounded_values"])
        for var in (["SST", "AT", "AT2", "DPT", "SLP"] if prog == "full" else ["SST"]):
            v.find_repeated_values(P["find_repeated_values"], intype=var)
    for var in (["SST", "AT", "DPT", "SLP"] if prog == "full" else ["SST"]):
        buddies(w, reps, var)
    return reps


def by_uid(rows, m, label, ctx):
    out = {}
    for row in rows:
        m.ok(row[0] not in out, label + "-row-twice", lambda: "%r %s" % (row, ctx()))
        out[row[0]] = row
    return out


def check_values(m, path, cols, want, ctx):
    head, rows = c29.table(path, m, ctx)
    m.eq(head, ["UID", "DATE", "PENTAD"] + cols, "variables-header", ctx)
    rows = by_uid(rows, m, "variables", ctx)
    m.eq(sorted(rows), sorted(q.d["UID"] for q in want), "variables-rows", ctx)
    for q in want:
        row = rows[q.d["UID"]]
        m.eq(len(row), len(head), "variables-columns", ctx)
        c29.cell(m, row[1], c29.want_date(q.d), "date", ctx)
        c29.cell(m, row[2], c29.want_pentad(q.d), "pentad", ctx)
        for c, t in zip(cols, row[3:]):
            if not q.ok and (c.endswith("_anom") or c in ("OSTIA", "ICE", "BGVAR")):
                continue        # impossible positions have no prescribed climatology
            c29.cell(m, t, q.val(c), "value-" + c, lambda: "%r of %r %s" % (t, q.d, ctx()))
        m.event("rows")


def check_flags(m, path, area, flags, want, ctx):
    head, rows = c29.table(path, m, ctx)
    m.eq(head, ["UID"] + flags, "qc-header", ctx)
    rows = by_uid(rows, m, "qc", ctx)
    m.eq(sorted(rows), sorted(q.d["UID"] for q in want), "qc-rows", ctx)
    for q in want:
        row = rows[q.d["UID"]]
        m.eq(len(row), len(head), "qc-columns", ctx)
        for f, t in zip(flags, row[1:]):
            if not q.ok and area != "POS":
                continue
            m.eq(t, str(q.p.get_qc(area, f)), "flag-%s-%s" % (area, f), lambda: "report %r %s" % (q.d, ctx()))
            if t not in ("0", "9"):
                m.event("raised-%s-%s" % (area, f))


def check(case, m):
    prog, tracking, first, nm, files, recs, bad, params, bgdays, run, layout = case
    ctx = lambda: "%s tracking=%s %r+%d" % (prog, tracking, first, nm)
    w = World(case)
    try:
        w.run()
        if len(recs) % 5 == 0:      # the same months once more, over the output of the first run
            w.run()
            m.event("run-again")
        got = sorted(os.path.relpath(os.path.join(a, f), w.out) for a, b, fs in os.walk(w.out) for f in fs)
        want_files, n_rows = [], 0
        for k in range(nm):
            y, mo = shift(first, k)
            reps = judge(w, (y, mo))
            here = [q for q in reps if q.current]
            d = "%d/%02d/" % (y, mo)
            m.ok(os.path.isdir(os.path.join(w.out, d)), "no-directory", ctx)
            ym = "%d%02d" % (y, mo)
            c2 = lambda: "%s month %s" % (ctx(), ym)
            tables = []
            if reps and prog == "full":
                tables.append((ym + "_" + run, c29.COLS["deck"], c29.FULL, here))
            elif reps and prog == "hires":
                tables.append((ym + "_hires_" + run, None, {"SST": c29.FULL["SST"]}, here))
            if tracking:
                drift = platforms([q for q in here if q.p.get_qc("POS", "isdrifter") == 1])
                drift.pop(None, None)
                for ident, qs in drift.items():
                    m.event("drifters")
                    if prog == "hires":
                        tables.append((ym + "_" + c29.safe(ident) + "_hires_" + run, None, {"SST": c29.FULL["SST"]}, qs))
                    else:
                        tables.append((ym + "_" + c29.safe(ident) + "_" + run, c29.COLS["voyage"], c29.VOY, qs))
                want_files.append(d + "ID_file.txt")
                if os.path.isfile(os.path.join(w.out, d + "ID_file.txt")):
                    with open(os.path.join(w.out, d + "ID_file.txt")) as f:
                        ls = f.read().split("\n")
                    m.eq(ls[-1], "", "id-file", c2)
                    m.eq(sorted(ls[:-1]), sorted(x + "," + c29.safe(x) for x in drift), "id-file", c2)
            for tag, cols, flags, qs in tables:
                names = ["Variables_%s.csv" % tag] if cols else []
                names += ["%s_qc_%s.csv" % (a, tag) for a in flags]
                want_files += [d + x for x in names]
                for x in names:
                    m.ok(d + x in got, "missing-file", lambda: d + x + " " + c2())
                if cols:
                    check_values(m, os.path.join(w.out, d + names[0]), cols, qs, c2)
                for a in flags:
                    check_flags(m, os.path.join(w.out, d + "%s_qc_%s.csv" % (a, tag)), a, flags[a], qs, c2)
                n_rows += len(qs)
            m.event("months")
            m.event("months-without-reports", int(not here))
            for k2 in (-1, 0, 1):
                if "%d-%d" % shift((y, mo), k2) not in files:
                    m.event("missing-month-file")
        m.eq(got, sorted(want_files), "files", ctx)
        for ls in files.values():
            m.event("malformed-lines", sum(1 for t, n in ls if n is None))
        m.event("program-%s%s" % (prog, "-tracking" if tracking else ""))
    finally:
        w.close()


STREAMS = [Stream("archives", gen, check, 240, 2000, need=8000)]
