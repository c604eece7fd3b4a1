"""C09 base QC of a report."""
import copy

import Extended_IMMA as ex
import basemodel as bm
import qc
from c08 import HUM_OK
from core import Stream

RULE = ("Reports with every variable present or missing, valid and corrupt positions, dates and hours, any deck, platform and identifier, any climatology and spread (or none) and any parameter set, values on a dyadic lattice around the limits; "
        "each base QC routine, and the single checks by themselves in any order and each under its own parameters, applied once to three times, and again after values and climatology of the report were changed; oracle: flag-by-flag reference model, exact flag set, and unchanged data.")


class Rec:
    def __init__(self, data):
        self.data = data


def dy(r, lo, hi):
    return r.randint(int(lo * 8), int(hi * 8)) / 8.0


def gen_params(r):
    def lim(lo, hi):
        return [dy(r, lo - 3, lo + 3), dy(r, hi - 3, hi + 3)]
    std = lambda: [r.choice([0.5, 1.0]), r.choice([2.0, 4.0])]
    p = dict(base=dict(time_since_sun_above_horizon=r.choice([1.0, 1.0, 0.0, 2.0])),
             SST=dict(freezing_point=r.choice([-1.75, -1.8, -2.0]), freeze_check_n_sigma=r.choice([2.0, 0.0]), maximum_anomaly=r.choice([8.0, 5.0, 0.5]),
                      hard_limits=lim(-3, 40)),
             AT=dict(maximum_anomaly=r.choice([10.0, 4.0]), hard_limits=lim(-40, 45), minmax_standard_deviation=std(), maximum_standardised_anomaly=r.choice([5.5, 3.0, 2.0])),
             DPT=dict(hard_limits=lim(-45, 40), minmax_standard_deviation=std(), maximum_standardised_anomaly=r.choice([5.5, 3.0, 2.0])),
             SLP=dict(maximum_anomaly=50.0, maximum_standardised_anomaly=r.choice([3.0, 2.0]), lowbar=r.choice([10.0, 2.0, 0.0])),
             W=dict(hard_limits=lim(0, 50), variable_limit=r.choice([3.0, 5.0])), SHU=dict(hard_limits=lim(0, 30)), RH=dict(hard_limits=lim(0, 120)))
    p["CRH"] = copy.deepcopy(p["RH"])
    p["DAT"] = copy.deepcopy(p["AT"])
    return p


def gen(r, i):
    y = r.choice([1849, 1850, 1858, 1859, 1860, 1885, 1892, 1893, 1960, 1970, 2005, 2024, 2025, r.randint(1850, 2020), r.randint(1850, 2020)])
    mo = r.choice([r.randint(1, 12)] * 12 + [0, 13])
    d = dict(ID=r.choice(["SHIP     ", "ABCD     ", "SUPERIGORINA", "53521    "]), UID="U%d" % i, YR=y, MO=mo, DCK=r.choice([701, 701, 732, 874, 780, 708, 193, 700]),
             PT=r.choice([5, 5, 5, 6, 7, 13, 0, 12, r.randint(0, 20)]),
             LAT=r.choice([dy(r, -90, 90)] * 6 + [95.0, 0.0]), LON=r.choice([dy(r, -180, 360)] * 6 + [0.0, 400.0, -185.0]),
             DY=r.choice([r.randint(1, 31)] * 8 + [0, 40]), HR=r.choice([dy(r, 0, 23)] * 6 + [25.0]))
    if d["DCK"] == 193 and r.random() < 0.7:
        d["LAT"], d["LON"] = dy(r, -12, 56), dy(r, -82, 107)
    for k in ("DY", "HR", "DCK", "PT", "ID"):
        if r.random() < (0.15 if k != "HR" else 0.3):
            del d[k]
    for k, lo, hi in (("SST", -4, 42), ("AT", -42, 46), ("DPT", -46, 42), ("SLP", 900, 1060), ("W", 0, 55), ("SHU", -2, 33), ("CRH", -2, 123), ("VAP", 0, 40),
                      ("CWB", -20, 30), ("DPD", 0, 10)):
        if r.random() < 0.85:
            d[k] = dy(r, lo, hi) if r.random() < 0.5 else dy(r, lo + (hi - lo) * 0.3, lo + (hi - lo) * 0.6)
    if r.random() < 0.5:
        d["D"] = r.choice([0, 90, 360, 361, 361, 362, 362])
        if r.random() < 0.6:
            d["W"] = r.choice([0.0, 0.125, 3.0, 3.125, 5.0, 5.125])
    if "AT" in d and r.random() < 0.9:
        d["AT2"] = d["AT"]
        if r.random() < 0.1:
            d["AT2"] += 0.5
    if "DPT" in d and "AT" in d and r.random() < 0.5:
        d["DPT"] = d["AT"] + r.choice([0.0, 0.125, -0.125, -2.0])
    params = gen_params(r)
    clim = {}
    for k in ("SST", "AT", "AT2", "DPT", "SLP"):
        if r.random() < 0.9:
            v = d.get(k, 10.0)
            s = r.choice([0.25, 0.5, 1.0, 2.0, 4.0, 8.0, None])
            lim = r.choice([params.get(k, params["AT"]).get("maximum_anomaly", 8.0), 5.5 * (s or 1), 3.0 * (s or 1), 2.0 * (s or 1), 10.0, 2.0])
            c = v + r.choice([-1, 1]) * (lim + r.choice([0.0, 0.125, -0.125, -1.0, 1.0]))
            clim[k] = [None if r.random() < 0.08 else c, s]
    mode = r.choice(["base", "base", "base", "base", "wind", "slp", "sst", "dat", "old", "alone"])
    if mode == "old" and (bm.bad_time(d.get("HR")) or not -180 <= d["LON"] <= 360):
        mode = "base"            # the old routine takes complete times only and wraps longitudes first
    dat = None if r.random() < 0.2 else dy(r, -45, 50)
    if mode == "alone":
        dat = [(n, params if r.random() < 0.5 else gen_params(r)) for n in r.sample(sorted(ALONE), r.choice([1, 2, 3, 5, len(ALONE)]))]
    return (d, clim, params, mode, r.choice([1, 2, 3]), dat, gen_later(r, i, mode) if r.random() < 0.3 else None)


# the checks that can be called by themselves: method, the parameters it takes, and its reference
ALONE = {
    "do_base_sst_qc": ("SST", lambda d, cl, p: bm.sst(d, cl, p)),
    "do_base_mat_qc": ("AT", lambda d, cl, p: bm.air(d, cl, p, "AT")),
    "do_kate_mat_qc": ("AT", lambda d, cl, p: bm.second_air(d, cl, p)),
    "do_base_slp_qc": ("SLP", lambda d, cl, p: bm.slp(d, cl, p)),
    "do_base_wind_qc": ("W", lambda d, cl, p: bm.windy(d, p)),
    "do_base_dpt_qc": ("DPT", lambda d, cl, p: bm.dew(d, cl, p)),
    "is_buoy": (None, lambda d, cl, p: {k: v for k, v in bm.classes(d).items() if k != "POSisship"}),
    "is_ship": (None, lambda d, cl, p: {"POSisship": bm.classes(d)["POSisship"]}),
    "is_deck_780": (None, lambda d, cl, p: {"POSis780": int(d.get("DCK") == 780)}),
    "wind_blacklist": (None, lambda d, cl, p: {"Wwind_blacklist": int(d.get("DCK") in (708, 780))}),
    "humidity_blacklist": (None, lambda d, cl, p: {"DPThum_blacklist": int(d.get("PT") not in HUM_OK)}),
    "mat_blacklist": (None, lambda d, cl, p: {"ATmat_blacklist": bm.mat_blacklist(d)}),
    "do_position_check": (None, lambda d, cl, p: {"POSpos": bm.bad_pos(d["LAT"], d["LON"])}),
    "do_date_check": (None, lambda d, cl, p: {"POSdate": bm.bad_date(d["YR"], d["MO"], d.get("DY"))}),
    "do_time_check": (None, lambda d, cl, p: {"POStime": bm.bad_time(d.get("HR"))}),
}


def gen_later(r, i, mode):
    """values to be set and climatology to be replaced"""
    while True:
        d, clim = gen(r, i)[:2]
        if not (mode == "old" and (bm.bad_time(d.get("HR")) or not -180 <= d["LON"] <= 360)):
            break
    keys = [k for k in ("YR", "MO", "DY", "HR", "LAT", "LON", "DCK", "PT", "ID", "SST", "AT", "DPT", "SLP", "W", "D", "SHU", "CRH") if (k, mode) != ("HR", "old")]
    return {k: d.get(k) for k in r.sample(keys, r.choice([1, 1, 2, 5, len(keys)]))}, {k: clim[k] for k in clim if r.random() < 0.3}


def check(c, m):
    d, clim, params, mode, times, dat, later = copy.deepcopy(c)
    rep = ex.MarineReportQC(Rec(dict(d)))
    for k, (v, s) in clim.items():
        rep.add_climate_variable(k, v, s)
    if mode == "dat":
        rep.setext("DAT", dat)
        rep.add_climate_variable("DAT", *clim.get("AT", [None, None]))
    e = judge(rep, d, clim, params, mode, times, dat, m, c, "")
    if later:
        # the report is corrected and judged again: the flags are those of its values now
        d = dict(e)
        for k, v in later[0].items():
            rep.setvar(k, v)
            d[k] = v
        d = {k: v for k, v in d.items() if v is not None}
        for k, v in later[1].items():
            rep.add_climate_variable(k, *v)
            clim[k] = v
        if mode == "dat" and "AT" in later[1]:
            rep.add_climate_variable("DAT", *clim["AT"])
        judge(rep, d, clim, params, mode, 1, dat, m, c, "-corrected")


def judge(rep, d, clim, params, mode, times, dat, m, c, label):
    cl = lambda k, st=0: clim.get(k, [None, None])[st]
    e = bm.fixed(d) if mode not in ("old", "alone") else d
    if mode == "old":
        run, want = lambda p: qc.base_qc_report(rep), bm.old(d, cl)
    elif mode == "alone":
        want = {}
        for n, p in dat:
            want.update(ALONE[n][1](d, cl, p[ALONE[n][0]] if ALONE[n][0] else None))

        def run(params):
            for n, p in dat:
                getattr(rep, n)(*([p[ALONE[n][0]]] if ALONE[n][0] else []))
    elif mode == "base":
        run, want = rep.perform_base_qc, bm.base(d, cl, params)
    else:
        want = bm.classes(d)
        want.update(bm.position(e, params, mode != "wind"))
        if mode == "wind":
            run = rep.perform_base_wind_qc
            want["Wwind_blacklist"] = int(d.get("DCK") in (708, 780))
            want.update(bm.windy(d, params["W"]))
        elif mode == "slp":
            run = rep.perform_base_slp_qc
            want["POSis780"] = int(d.get("DCK") == 780)
            want.update(bm.slp(d, cl, params["SLP"]))
        elif mode == "sst":
            run = rep.perform_base_sst_qc
            want["POSis780"] = int(d.get("DCK") == 780)
            want.update(bm.sst(d, cl, params["SST"]))
        else:
            run = rep.perform_base_dat_qc
            want["ATmat_blacklist"] = bm.mat_blacklist(d)
            dd = dict(d)
            if dat is not None:
                dd["DAT"] = dat
            want.update(bm.air(dd, lambda k: cl("AT"), params["DAT"], "DAT"))
    ref = copy.deepcopy(params)
    ctx = lambda: repr(c)
    for k in range(times):
        run(params)
        m.eq(sorted(rep.qc), sorted(want), "flag-set-" + mode + label, ctx)
        for name, w in want.items():
            got = rep.qc[name]
            m.ok(got in (0, 1), "flag-not-0-1", lambda: name + " " + ctx())
            if w is None:
                m.event("open-verdict")
            else:
                m.eq(got, w, mode + "-" + name + label, lambda: "application %d %s" % (k + 1, ctx()))
                m.event("%s=%d" % (name, w))
        first = dict(rep.qc) if k == 0 else first
        m.eq(dict(rep.qc) == first, True, "second-application-differs", ctx)
        for v in ex.VARLIST + ["ID", "UID"]:
            m.eq(rep.getvar(v), e.get(v), "data-altered", lambda: v + " " + ctx())
        for name in clim:
            m.eq([rep.getnorm(name), rep.getnorm(name, "stdev")], clim[name], "climatology-altered", ctx)
        m.ok(params == ref, "parameters-altered", ctx)
        if mode != "alone" and not want["POSdate"] and not want.get("POStime"):
            t = rep.dt
            m.ok(t is not None and (t.year, t.month, t.day, t.hour) == (e["YR"], e["MO"], e["DY"], int(e["HR"])), "report-time", ctx)
    m.event("reports-" + mode + label)
    return e


BOXES = [(-80, 40, 0, 55), (-10, 35, 30, 45), (15, -10, 45, 40), (15, -10, 95, 15), (95, -10, 105, 5)]


def gen_boxes(r, i):
    """Edges, corners and years of the areas excluded from night marine air temperature, and sea temperatures at freezing."""
    w, s, e, n = r.choice(BOXES)
    side = lambda lo, hi: r.choice([lo, hi, (lo + hi) / 2.0, lo + 0.1, hi - 0.1, lo - 0.1, hi + 0.1, float(r.randint(lo - 3, hi + 3))])
    d = dict(ID="ABCD     ", UID="U%d" % i, YR=r.choice([1879, 1880, 1881, 1886, 1891, 1892, 1893, 1893, 1894]), MO=r.randint(1, 12), DY=r.randint(1, 28), HR=12.0,
             DCK=r.choice([193] * 8 + [192, 780]), PT=r.choice([5, 5, 2, 11, 13, None]), LAT=float(side(s, n)), LON=float(side(w, e)),
             SST=r.choice([-1.8, -1.81, -1.79, -1.8, -1.75, 10.0]), AT=10.0)
    if d["LON"] < 0 and r.random() < 0.3:
        d["LON"] += 360.0
    return (d, {}, gen_params(r), r.choice(["old", "old", "old", "base"]), 1, None, None)


STREAMS = [Stream("reports", gen, check, 36000, 400000, need=20000), Stream("areas", gen_boxes, check, 45000, 300000, need=50000)]
