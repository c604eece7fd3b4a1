"""C15 a report stores and returns exactly its own values, anomalies and flags."""
import datetime

import Extended_IMMA as ex
from core import Stream

RULE = ("Three reports (two built from one record) put through random histories of up to 60 updates of variables, extra values, climatologies and flags, valid and rejected; after every update everything readable from all three is compared with a dictionary model.")
INTS = ["YR", "MO", "DY", "DS", "VS", "DCK", "PT", "SID"]
FLOATS = ["HR", "LAT", "LON", "SLP", "AT", "AT2", "SST", "DPT", "SHU", "VAP", "CRH", "CWB", "DPD", "W", "WI", "D", "DI", "WW"]
TYPES = ["POS"] + INTS + FLOATS + ["DAT"]
FLAGS = ["pos", "date", "clim", "bud", "rep", "fewsome"]
DS = [0, 45, 90, 135, 180, 225, 270, 315, 360, None]


class Rec:
    def __init__(self, data):
        self.data = data


def val(r, name):
    if r.random() < 0.15:
        return None
    lim = dict(YR=(1850, 2020), MO=(0, 13), DY=(0, 32), DS=(0, 9), VS=(0, 9), DCK=(0, 999), PT=(0, 21), SID=(0, 200))
    if name in lim:
        return r.randint(*lim[name])
    if name == "HR":
        return r.choice([0, 0.0, 23.99, 24.0, -1.0, round(r.uniform(0, 24), 2), r.randint(0, 23), 6.5])
    if name == "LAT":
        return round(r.uniform(-90, 90), 2)
    if name == "LON":
        return r.choice([180.0, -180.0, 360.0, 181, round(r.uniform(-180, 360), 2)])
    return r.choice([0, 0.0, -0.5, round(r.uniform(-30, 1050), 1), r.randint(-5, 30)])


def gen_rec(r):
    d = {}
    if r.random() < 0.9:
        d["ID"] = r.choice(["SHIP     ", "AB", None])
    if r.random() < 0.9:
        d["UID"] = "U%d" % r.randint(0, 99)
    for n in INTS + FLOATS:
        if r.random() < (0.9 if n in ("YR", "MO", "DY", "HR", "LAT", "LON") else 0.5):
            d[n] = val(r, n)
    if r.random() < 0.5:
        d["SIM"] = "BUC"            # known to records, unknown to reports
        d["C1"] = None
    return d


def gen(r, i):
    ops = []
    for k in range(r.randint(5, 60)):
        who = r.randint(0, 2)
        op = r.choice(["var", "var", "var", "ext", "flag", "flag", "badflag", "clim", "clim", "reset", "id", "vargone"])
        if op == "var":
            n = r.choice(INTS + FLOATS + ["YR", "MO", "DY", "HR", "SST", "AT", "DPT"])
            ops.append((op, who, n, val(r, n)))
        elif op == "vargone":
            ops.append((op, who, r.choice(["XYZ", "SIM", "sst"]), 1.0))
        elif op == "id":
            ops.append((op, who, r.choice(["ID", "UID"]), r.choice(["Q", None, "ZZ9PZA   "])))
        elif op == "ext":
            ops.append((op, who, r.choice(["OSTIA", "ICE", "dsi", "vsi", "DAT", "sst"]), r.choice([None, 0.0, 1.5, "text", 3])))
        elif op == "flag":
            ops.append((op, who, r.choice(TYPES), r.choice(FLAGS), r.randint(0, 9)))
        elif op == "badflag":
            ops.append((op, who, r.choice(TYPES + ["XX"]), r.choice(FLAGS), r.choice([10, -1, 11, 99, None, 0.5])))
        elif op == "clim":
            ops.append((op, who, r.choice(["SST", "AT", "AT2", "DPT", "SLP", "SLP2", "OSTIA"]), r.choice([None, 0.0, 12.5, 3, -1.8]), r.choice([None, 1.0, 0.25, 2])))
        else:
            ops.append((op, who))
    return (gen_rec(r), gen_rec(r), ops)


class Model:
    def __init__(self, d):
        self.v = {n: d.get(n) for n in INTS + FLOATS}
        self.id, self.uid = d.get("ID"), d.get("UID")
        self.clim, self.flags, self.ext = {}, {}, {}
        self.reset()

    def reset(self):
        ds, vs, yr = self.v["DS"], self.v["VS"], self.v["YR"]
        self.ext = dict(dsi=None if ds is None else DS[ds], vsi=None)
        if vs is not None:
            self.ext["vsi"] = 0.0 if vs == 0 else vs * 5.0 - 2 if yr is not None and yr >= 1968 else vs * 3.0 - 1

    def time(self):
        y, mo, d, h = [self.v[k] for k in ("YR", "MO", "DY", "HR")]
        if None in (y, mo, d, h) or not 0 <= h < 24:
            return None
        try:
            return datetime.datetime(y, mo, d) + datetime.timedelta(hours=float(h))
        except ValueError:
            return None

    def get(self, n):
        if n == "ID":
            return self.id
        if n == "UID":
            return self.uid
        if n in self.v:
            return self.v[n]
        return self.ext.get(n)


def compare(m, rep, mod, ctx):
    for n in INTS + FLOATS + ["ID", "UID", "OSTIA", "ICE", "dsi", "vsi", "DAT", "nothing", "SIM"]:
        m.eq(rep.getvar(n), mod.get(n), "getvar", lambda: n + " " + ctx())
    for n in INTS:
        m.ok(rep.getvar(n) is None or type(rep.getvar(n)) is int, "not-integer", lambda: n + ctx())
    for n in ("OSTIA", "ICE", "dsi", "vsi", "DAT", "sst", "never"):
        try:
            got = ("has", rep.getext(n))
        except AssertionError:
            got = None
        m.eq(got, ("has", mod.ext[n]) if n in mod.ext else None, "getext", lambda: n + " " + ctx())
    m.eq(rep.lat(), mod.v["LAT"], "lat", ctx)
    lon = mod.v["LON"]
    if lon is not None:
        m.near(rep.lon(), lon - 360 if lon > 180 else lon, 1e-9, "lon", ctx)
    t = mod.time()
    if t is None:
        m.eq(rep.dt, None, "time-of-impossible-date", ctx)
        m.event("no-time")
    else:
        m.ok(rep.dt is not None and -1 <= (t - rep.dt).total_seconds() < 61 and rep.dt.hour == t.hour and rep.dt.date() == t.date(), "time",
             lambda: "%s is not %s %s" % (rep.dt, t, ctx()))
        m.event("time")
    for ty in TYPES + ["XX"]:
        for f in FLAGS:
            m.eq(rep.get_qc(ty, f), mod.flags.get((ty, f), 9), "flag", lambda: ty + f + " " + ctx())
    for n in ("SST", "AT", "AT2", "DPT", "SLP", "SLP2", "OSTIA", "W"):
        c, s = mod.clim.get(n, (None, None))
        m.eq([rep.getnorm(n), rep.getnorm(n, "clim"), rep.getnorm(n, "stdev")], [c, c, s], "climatology", lambda: n + ctx())
        v = mod.get(n) if not isinstance(mod.get(n), str) else None
        if isinstance(mod.get(n), str):
            continue
        a = None if v is None or c is None else v - c
        m.near(rep.getanom(n), a, 1e-9, "anomaly", lambda: n + ctx())
        m.near(rep.get_normalised_anom(n), None if a is None or s is None else a / s, 1e-9, "normalised-anomaly", lambda: n + ctx())
    d, a = mod.v["DPT"], mod.v["AT"]
    m.eq(bool(rep.saturated()), d is not None and a is not None and d == a, "saturated", ctx)


def check(c, m):
    d1, d2, ops = c
    recs = Rec(dict(d1)), Rec(dict(d2))
    cls = ex.MarineReportQC if len(ops) % 2 else ex.MarineReport
    reps = [cls(recs[0]), cls(recs[0]), cls(recs[1])]
    mods = [Model(d1), Model(d1), Model(d2)]
    full = lambda: repr(c)
    for rep, mod in zip(reps, mods):
        compare(m, rep, mod, full)
    for k, o in enumerate(ops):
        rep, mod = reps[o[1]], mods[o[1]]
        ctx = lambda: "after step %d %r of %r" % (k, o, c)
        if o[0] == "var":
            rep.setvar(o[2], o[3])
            mod.v[o[2]] = o[3]
        elif o[0] == "id":
            rep.setvar(o[2], o[3])
            if o[2] == "ID":
                mod.id = o[3]
            else:
                mod.uid = o[3]
        elif o[0] == "vargone":
            try:
                rep.setvar(o[2], o[3])
                bad = True
            except ValueError:
                bad = False
            m.ok(not bad, "unknown-variable-accepted", ctx)
        elif o[0] == "ext":
            rep.setext(o[2], o[3])
            mod.ext[o[2]] = o[3]
        elif o[0] == "flag":
            rep.set_qc(o[2], o[3], o[4])
            mod.flags[o[2], o[3]] = o[4]
        elif o[0] == "badflag":
            try:
                rep.set_qc(o[2], o[3], o[4])
                bad = True
            except AssertionError:
                bad = False
            m.ok(not bad, "bad-flag-accepted", ctx)
        elif o[0] == "clim":
            rep.add_climate_variable(o[2], o[3], o[4])
            mod.clim[o[2]] = (o[3], o[4])
        elif o[0] == "reset":
            rep.reset_ext()
            mod.reset()
        m.event("op-" + o[0])
        compare(m, reps[o[1]], mods[o[1]], ctx)
        if k % 7 == 6:
            for rep, mod in zip(reps, mods):
                compare(m, rep, mod, ctx)
    for rep, mod in zip(reps, mods):
        compare(m, rep, mod, full)
    m.ok(recs[0].data == d1 and recs[1].data == d2, "record-altered", full)


def gen_clim(r, i):
    return [(r.choice([None, 1.5, -2, 0]), r.choice([None, 0.5, 3])), [(r.choice(["clim", "stdev"]), r.choice([1, 2.5, -0.125])) for k in range(r.randint(1, 6))]]


def check_clim(c, m):
    (a, s), ops = c
    v, w = ex.ClimVariable(a, s), ex.ClimVariable(7.0)
    mod = dict(clim=a, stdev=s)
    for k, x in [(None, None)] + list(ops):
        if k:
            v.setclim(x, k)
            mod[k] = x
        m.eq([v.getclim(), v.getclim("clim"), v.getclim("stdev")], [mod["clim"], mod["clim"], mod["stdev"]], "clim-variable", lambda: repr(c))
    m.eq([w.getclim(), w.getclim("stdev")], [7.0, None], "clim-variable-leak", lambda: repr(c))


STREAMS = [
    Stream("histories", gen, check, 2500, 20000, need=50000),
    Stream("climate-variables", gen_clim, check_clim, 2000, 4000, need=400),
]
