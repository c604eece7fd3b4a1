"""C35 drifter checks refuse what they cannot judge."""
import copy
import os

import numpy as np

import BackgroundField as bf
import Climatology
import Extended_IMMA as ex
import c25
import c26
import c27
import c28
import geo
import qc
import spherical_geometry as sg
import sstdrift as sd
import trackqc as tqc
from core import Stream

RULE = ("Drifter records of 12 to 40 usable reports into which one fault is put at a random place (a missing position or time, an impossible latitude, month, day or hour, reports out of time order, missing time differences, missing, impossible or "
        "negative background, ice or variance), or values exactly at the ends of their valid ranges, or nonsense parameters; given to each of the six drifter checks directly and through the voyage. A monitor sees that a faulty record is refused "
        "with an AssertionError before any flag of any report is touched, and that a record at the ends of the ranges is not refused.")

TRACK = ["LAT=None", "LON=None", "order", "no-time-diff", "time-diff=None"]
MATCH = ["LAT=None", "LON=None", "DY=None", "HR=None", "MO=None", "LAT=90.01", "LAT=-90.01", "LAT=91", "MO=13", "MO=0", "DY=32", "DY=0", "HR=24.5", "HR=-0.5", "order", "no-time-diff",
         "no-OSTIA", "no-ICE", "no-BGVAR", "ICE=-0.01", "ICE=1.01", "OSTIA=-5.01", "OSTIA=45.01", "BGVAR=None", "BGVAR=-0.01"]
EDGE = ["none", "ICE=0.0", "ICE=1.0", "ICE=None", "OSTIA=-5.0", "OSTIA=45.0", "OSTIA=None", "BGVAR=0.0", "BGVAR=10.0"]
CHECKS = ["aground", "new_aground", "speed", "new_speed", "tail", "bias"]


def gen(r, i):
    which = CHECKS[i % 6]
    n = r.randint(12, 40)
    ok = r.random() < 0.25
    if which in ("tail", "bias"):
        fault = r.choice(EDGE if ok else MATCH + (["BGVAR=10.01"] if which == "tail" else []))
    else:
        fault = "none" if ok else r.choice(TRACK)
    k = r.choice([0, 1, n - 1, r.randint(0, n - 1)])
    if fault in ("order", "no-time-diff", "time-diff=None") and k == 0:
        k = r.randint(1, n - 1)
    return (which, n, fault, k, r.choice(["api", "voyage"]), r.choice([0, 1, 9]), r.choice([1, 6, 24]))


def flags(which):
    return dict(aground=["POSdrf_agr"], new_aground=["POSdrf_agr"], speed=["POSdrf_spd"], new_speed=["POSdrf_spd"],
                tail=["SSTdrf_tail1", "SSTdrf_tail2"], bias=["SSTdrf_bias", "SSTdrf_noise", "SSTdrf_short"])[which]


def call(which, how, v):
    if which == "aground":
        return tqc.aground_check(v.reps, 3, 1, 2) if how == "api" else v.buoy_aground_check(dict(smooth_win=3, min_win_period=1, max_win_period=2), False)
    if which == "new_aground":
        return tqc.new_aground_check(v.reps, 3, 1) if how == "api" else v.new_buoy_aground_check(dict(smooth_win=3, min_win_period=1), False)
    if which == "speed":
        return tqc.speed_check(v.reps, 2.5, 0.5, 1.0) if how == "api" else v.buoy_speed_check(dict(speed_limit=2.5, min_win_period=0.5, max_win_period=1.0), False)
    if which == "new_speed":
        return tqc.new_speed_check(v.reps, c26.IQ, 3.0, 0.375) if how == "api" else v.new_buoy_speed_check(c26.IQ, dict(speed_limit=3.0, min_win_period=0.375), False)
    if which == "tail":
        return tqc.sst_tail_check(v.reps, *[c27.DEFAULT[k] for k in c27.ORDER]) if how == "api" else v.buoy_tail_check(dict(c27.DEFAULT, drift_inter=0.29), False)
    return tqc.sst_biased_noisy_check(v.reps, *[c28.DEFAULT[k] for k in c28.ORDER]) if how == "api" else v.buoy_bias_noise_check(dict(c28.DEFAULT), False)


def check(case, m):
    which, n, fault, k, how, old, step = case
    c = dict(base=(2003, 12, 10), t=[float(step) * j for j in range(n)], lat=[80.0] * n, lon=[round(10 + 0.02 * j, 2) for j in range(n)],
             sst=[1.0] * n, ext=[(1.0, 0.0, 0.1)] * n)
    v = sd.voyage(c)
    v.sort()
    p = v.reps[k]
    if fault == "order":
        v.reps[k - 1], v.reps[k] = v.reps[k], v.reps[k - 1]
        v.reps[k].setext("time_diff", -float(step))      # as any motion data computed in this order would say
    elif fault == "no-time-diff":
        p.ext.pop("time_diff")
    elif fault == "time-diff=None":
        p.setext("time_diff", None)
    elif fault.startswith("no-"):
        p.ext.pop(fault[3:])
    elif fault != "none":
        name, val = fault.split("=")
        val = None if val == "None" else float(val)
        if name in ("MO", "DY") and val is not None:
            val = int(val)
        (p.setext if name in ("OSTIA", "ICE", "BGVAR") else p.setvar)(name, val)
    for q in v.reps:
        for f in flags(which):
            q.set_qc(f[:3], f[3:], old)
    before = [dict(q.qc) for q in v.reps]
    ctx = lambda: repr(case)
    try:
        call(which, how, v)
    except (AssertionError, ValueError):
        m.ok(fault not in EDGE, "valid-record-refused", ctx)
        m.ok([q.qc for q in v.reps] == before, "flags-of-refused-record", ctx)
        m.event("refused %s %s" % (which, fault))
        return
    m.ok(fault in EDGE, "unusable-record-judged", ctx)
    m.ok(all(q.qc[f] in (0, 1) for q in v.reps for f in flags(which)), "flags", ctx)
    m.event("judged %s %s" % (which, fault))



# --- documented domains of the routines everything else is built on: name -> (valid arguments, {argument: values outside its domain}, {argument: values at the ends of it})
NAN = "nan"
TABLE = {
    "pentad_to_month_day": ([10], {0: [0, -1, 74, 100]}, {0: [1, 73]}),
    "which_pentad": ([6, 15], {0: [0, 13, -1], 1: [0, 32, -3]}, {0: [1, 12], 1: [1, 30]}),
    "day_in_year": ([6, 15], {0: [0, 13, -2], 1: [0, 31, 32, -1]}, {0: [1, 12], 1: [1, 30]}),
    "dayinyear": ([2001, 2, 15], {1: [0, 13], 2: [0, 29, 30]}, {2: [1, 28]}),
    "jul_day": ([2001, 2, 15], {1: [0, 13, -1], 2: [0, 32, -1]}, {1: [1, 12], 2: [1]}),
    "time_difference": ([2001, 2, 15, 3.0, 2001, 2, 16, 5.0], {3: [24.0, -0.5, 25], 7: [24.0, -0.5, 30.0], 1: [0, 13], 5: [0, 13], 2: [0, 32], 6: [0, 32]}, {3: [0.0, 23.99], 7: [0.0, 23.99]}),
    "year_month_gen": ([1990, 3, 1991, 2], {0: [1992], 1: [0, 13], 2: [1989], 3: [0, 13]}, {1: [1, 12], 3: [1, 12], 2: [1995]}),
    "yindex_to_lat": ([10], {0: [-1, 180, 400]}, {0: [0, 179]}),
    "xindex_to_lon": ([10], {0: [-1, 360, 400]}, {0: [0, 359]}),
    "yindex_to_lat_res": ([10, 5], {0: [-1, 36, 179]}, {0: [0, 35]}),
    "xindex_to_lon_res": ([10, 5], {0: [-1, 72, 179]}, {0: [0, 71]}),
    "bilinear_interp": ([0.0, 1.0, 0.0, 1.0, 0.5, 0.5, 1.0, 2.0, 3.0, 4.0], {1: [0.0, -1.0], 3: [0.0, -1.0], 4: [-0.5, 1.5], 5: [-0.5, 1.5], 6: [None], 7: [None], 8: [None], 9: [None]}, {4: [0.0, 1.0], 5: [0.0, 1.0]}),
    "get_four_surrounding_points": ([10.2, 30.7], {0: [90.5, -90.5], 1: [180.5, -180.5, 300.0]}, {0: [90.0, -90.0, 89.7], 1: [180.0, -180.0]}),
    "climatology_plus_stdev_with_lowbar": ([1.0, 2.0, 1.0, 3.0, 0.5], {3: [0.0, -1.0]}, {3: [0.001], 0: [None], 1: [None], 2: [None]}),
    "climatology_plus_stdev_check": ([1.0, 2.0, 1.0, [0.5, 2.0], 3.0], {3: [[2.0, 0.5], [1.0, 1.0]], 4: [0.0, -2.0]}, {4: [0.001], 0: [None], 1: [None], 2: [None]}),
    "hard_limit": ([1.0, [-5.0, 40.0]], {1: [[40.0, -5.0], [3.0, 3.0]]}, {0: [None]}),
    "sst_freeze_check": ([1.0, 0.0, -1.8, 2.0], {1: [None], 2: [None]}, {0: [None]}),
    "position_check": ([10.0, 20.0], {0: [None, NAN], 1: [None, NAN]}, {0: [91.0, -91.0], 1: [400.0]}),
    "date_check": ([1990, 5, 3], {0: [None], 1: [None]}, {2: [None, 40], 1: [13, 0], 0: [1700]}),
    "p_gross": ([0.05, 0.1, 8.0, -8.0, 1.0, 0.0, 1.5], {0: [-0.01, 1.01], 1: [0.0, -0.1], 2: [-8.0, -9.0], 3: [8.0], 4: [8.5, -8.5], 6: [0.0, -1.0]}, {0: [0.0, 1.0], 4: [8.0, -8.0]}),
    "p_data_given_good": ([1.0, 0.1, 8.0, -8.0, 0.0, 1.5], {0: [8.5, -8.5], 1: [0.0, -0.1], 2: [-8.0, -9.0], 5: [0.0, -1.0]}, {0: [8.0, -8.0]}),
    "p_data_given_gross": ([0.1, 8.0, -8.0], {0: [0.0, -0.1], 1: [-8.0, -9.0]}, {}),
    "sunangle": ([1990, 100, 12, 30, 10, 0, 0, 45.0, 10.0], {1: [0, 367], 2: [24, -1], 3: [60, -1], 4: [60, -1], 7: [90.5, -90.5]}, {1: [1, 366], 2: [0, 23], 3: [0, 59], 4: [0, 59], 7: [90.0, -90.0]}),
    "day_test": ([1990, 5, 3, 12.0, 45.0, 10.0], {1: [0, 13], 2: [0, 32], 3: [-0.5, 24.5], 4: [90.5, -90.5]}, {3: [0.0, 23.9], 4: [90.0, -90.0]}),
    "track_day_test": ([1990, 5, 3, 12.0, 45.0, 10.0, -2.5], {0: [None], 1: [None, 0, 13], 2: [None, 0, 32], 3: [None, -0.5, 24.5], 4: [None, 90.5, -90.5], 5: [None]}, {3: [0.0, 23.9], 4: [90.0, -90.0]}),
    "angular_distance": ([1.0, 2.0, 3.0, 4.0], {0: [None, NAN], 1: [None, NAN], 2: [None, NAN], 3: [None, NAN]}, {0: [90.0, -90.0]}),
    "sphere_distance": ([1.0, 2.0, 3.0, 4.0], {0: [None, NAN], 1: [None, NAN], 2: [None, NAN], 3: [None, NAN]}, {0: [90.0, -90.0]}),
    "intermediate_point": ([1.0, 2.0, 3.0, 4.0, 0.5], {4: [1.01, 2.0]}, {4: [0.0, 1.0]}),
    "threshold_multiplier": ([5, [0, 5, 15], [4.0, 3.5, 3.0]], {1: [[0, 5], [1, 5, 15], [0, 15, 5], [0, 5, 5], [-1, 0, 5], [5, 0, 15]], 2: [[4.0, 3.5], [4.0, 0.0, 3.0], [4.0, 3.5, -3.0]]}, {0: [0, 1, 15, 1000]}),
    "field_shape": ([73], {0: [2, 12, 72, 74, 366]}, {0: [1, 73, 365]}),
    "get_statistic": (["mean"], {0: ["stdev", "", "Mean"]}, {}),
    "get_field": (["SST", "mean"], {0: ["AT", "sst", ""], 1: ["stdev", ""]}, {}),
    "getnorm": (["clim"], {0: ["mean", "", "std"]}, {0: ["stdev"]}),
    "set_qc": (["SST", "noval", 1], {0: ["XYZ", "sst", ""], 2: [-1, 10, 0.5, None, "1"]}, {0: ["POS", "AT", "DPT"], 2: [0, 9]}),
    "getext": (["OSTIA"], {0: ["ICE", "", "ostia"]}, {}),
    "humidity": ([["SHU", "VAP"]], {0: [["SHU", "XYZ"], ["SST"]]}, {0: [["SHU", "VAP", "CRH", "CWB", "DPD"]]}),
    "find_multiple_rounded_values": ([0.5, 3, "DPT"], {0: [-0.1, 1.1], 2: ["W", "XYZ"]}, {0: [0.0, 1.0], 2: ["SST", "AT", "AT2"]}),
    "find_repeated_values": ([0.5, 3, "SST"], {0: [-0.1, 1.1], 2: ["W", "XYZ"]}, {0: [0.0, 1.0], 2: ["AT", "DPT", "SLP", "AT2"]}),
    "predict_next_point": ([2, 1.0], {0: [0], 1: [-0.5, -24.0]}, {0: [1, 3], 1: [0.0, 100.0]}),
    "icoads_filename_from_stub": ([["a", "b"], ["x", "y"]], {0: [["a"], ["a", "b", "c"]], 1: [["x"], []]}, {}),
    "get_background_filename": ([["a", "b"], ["x", "y"]], {0: [["a"], ["a", "b", "c"]], 1: [["x"], []]}, {}),
    "icoads_filename": (["3.0"], {0: ["2", "3", "", "2.4"]}, {0: ["2.5"]}),
    "mds_buddy_check": (["SST"], {0: ["W", "XYZ", "CRH"]}, {0: ["AT", "DPT", "SLP"]}),
    "bayesian_buddy_check": (["SST"], {0: ["W", "XYZ", "SLP"]}, {0: ["AT"]}),
    "super_ob": ([3, 5, 10.0, 20.0], {0: [0, 13], 1: [0, 32], 2: [-93.0]}, {2: [90.0, -90.0], 3: [-180.0, 180.0]}),
}


def report(**more):
    d = dict(ID="SHIP", YR=2003, MO=5, DY=6, HR=7.0, LAT=10.0, LON=20.0, PT=5, SST=12.0, AT=11.0, DPT=9.0, SLP=1010.0)
    d.update(more)
    p = geo.mk(d)
    for k in ("SST", "AT", "SLP", "DPT"):
        p.add_climate_variable(k, d[k] + 0.5, 1.0)
    return p


def library():
    lib = ex.ClimatologyLibrary()
    lib.add_field("SST", "mean", "field")
    return lib


def ways(n):
    v = ex.Voyage()
    for k in range(n):
        v.add_report(report(HR=7.0 + k, LAT=10.0 + 0.1 * k, SST=12.0 + k, AT2=3.0))
    return v


def statistic(name):
    c = ex.MultivariableClimatology()
    c.add_statistic("mean", "field")
    return c.get_statistic(name)


def ext(name):
    p = report()
    p.setext("OSTIA", 1.0)
    return p.getext(name)


def buddy(fn):
    def run(intype):
        d = ex.Deck()
        d.append(report())
        f = [Climatology.Climatology(np.ones((73, 180, 360))) for k in range(3)]
        if fn == "mds":
            par = dict(limits=[[1, 1, 2], [2, 2, 2], [1, 1, 4], [2, 2, 4]], number_of_obs_thresholds=[[0, 5], [0], [0, 5], [0]], multipliers=[[4.0, 3.0], [4.0], [4.0, 3.0], [4.0]])
            return d.mds_buddy_check(intype, f[0], par)
        par = dict(bayesian_buddy_check=dict(prior_probability_of_gross_error=0.05, quantization_interval=0.1, measurement_error=1.0, limits=[2, 2, 4], noise_scaling=3.0))
        par.update((w, dict(maximum_anomaly=8.0)) for w in ex.VARLIST + ["XYZ"])
        return d.bayesian_buddy_check(intype, f[0], f[1], f[2], par)
    return run


def superob(month, day, lat, lon):
    g = ex.Np_Super_Ob()
    g.add_rep(lat, lon, 2003, month, day, 1.0)


CALL = {
    "yindex_to_lat_res": lambda *a: qc.yindex_to_lat(*a), "xindex_to_lon_res": lambda *a: qc.xindex_to_lon(*a), "year_month_gen": lambda *a: list(qc.year_month_gen(*a)),
    "track_day_test": lambda *a: tqc.track_day_test(*a), "threshold_multiplier": lambda *a: ex.get_threshold_multiplier(*a),
    "field_shape": lambda n: Climatology.Climatology(np.zeros((n, 36, 72))), "get_statistic": statistic, "get_field": lambda *a: library().get_field(*a),
    "getnorm": lambda w: ex.ClimVariable(1.0, 2.0).getclim(w), "set_qc": lambda *a: report().set_qc(*a), "getext": ext,
    "humidity": lambda names: report().calculate_humidity_variables(names),
    "find_multiple_rounded_values": lambda t, n, w: ways(4).find_multiple_rounded_values(dict(threshold=t, min_count=n), w),
    "find_repeated_values": lambda t, n, w: ways(4).find_repeated_values(dict(threshold=t, min_count=n), w),
    "predict_next_point": lambda n, t: ways(n).predict_next_point(t),
    "icoads_filename_from_stub": lambda a, b: bf.icoads_filename_from_stub(["/nonexistent/" + x for x in a], b, 2003, 5),
    "get_background_filename": lambda a, b: bf.get_background_filename(["/nonexistent/" + x for x in a], b, 2003, 5, 6),
    "icoads_filename": lambda v: bf.icoads_filename("/d", 2003, 5, v),
    "mds_buddy_check": buddy("mds"), "bayesian_buddy_check": buddy("bayes"), "super_ob": superob,
}


os.environ.setdefault("SCRATCH", "/nonexistent")


def lookup(name):
    if name in CALL:
        return CALL[name]
    for mod in (qc, sg):
        if hasattr(mod, name):
            return getattr(mod, name)
    raise KeyError(name)


ARGS = []
for _n, (_v, _bad, _edge) in sorted(TABLE.items()):
    ARGS.append((_n, None, None, True))
    for _k, _xs in _bad.items():
        ARGS += [(_n, _k, _x, False) for _x in _xs]
    for _k, _xs in _edge.items():
        ARGS += [(_n, _k, _x, True) for _x in _xs]


def check_arg(case, m):
    name, k, x, good = case
    args = copy.deepcopy(TABLE[name][0])
    if k is not None:
        args[k] = float("nan") if x == NAN else copy.deepcopy(x)
    try:
        got = lookup(name)(*args)
    except Exception as e:
        m.ok(not good, "valid-arguments-refused", lambda: "%r: %r" % (case, e))
        m.event("refused")
        return
    m.ok(good, "arguments-outside-domain-accepted", lambda: "%s%r gave %r" % (name, tuple(args), got))
    m.event("accepted")


def check_skip(case, m):
    """records that are empty or not of a drifter are left alone"""
    which, n, pt, old = case
    c = dict(base=(2003, 12, 10), t=[6.0 * j for j in range(n)], lat=[80.0] * n, lon=[10.0] * n, sst=[1.0] * n, ext=[(9.0, 0.0, 0.1)] * n, pt=pt)
    v = sd.voyage(c)
    for q in v.reps:
        for f in flags(which):
            q.set_qc(f[:3], f[3:], old)
    before = [dict(q.qc) for q in v.reps]
    call(which, "voyage", v)
    m.ok([q.qc for q in v.reps] == before, "flags-of-skipped-record", lambda: repr(case))
    m.event("skipped")


SKIP = [(w, n, pt, old) for w in CHECKS for n in (0, 1, 30) for pt in (5, 6, 13, None) for old in (0, 1, 9)]
PARAMS = ([("C25",) + (a,) for a in c25.BADARGS] + [("C26",) + (a,) for a in c26.BADARGS] + [("C27",) + (a,) for a in c27.BADARGS] + [("C28",) + (a,) for a in c28.BADARGS])


def check_params(case, m):
    dict(C25=c25, C26=c26, C27=c27, C28=c28)[case[0]].check_args(case[1], m)


STREAMS = [Stream("faults", gen, check, 16000, 100000, need=4000), Stream("arguments", ARGS, check_arg, None, None, need=len(ARGS)),
           Stream("skipped", SKIP, check_skip, None, None, need=len(SKIP)), Stream("parameters", PARAMS, check_params, None, None, need=len(PARAMS))]
