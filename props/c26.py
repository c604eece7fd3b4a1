"""C26 drifter speed checks."""
import copy
import random

import c22
import drift
import geo
import trackqc as tqc
from core import Stream, size
from trackmodel import generic, gt

RULE = ("Drifter records of 0 to 60 reports: slow drift, bursts at ship speeds of random length at the start, middle and end, single displaced reports, crisscrossing, simultaneous reports, gaps, any longitude convention, for default and random "
        "limits, windows and iQuam parameters; flags compared with a reference that enumerates windows; a monitor checks that a record with no fast pair of reports at all is never flagged and that each flagged report lies in a window "
        "whose ends imply a fast speed.")

IQ = dict(buoy_speed_limit=15.0, ship_speed_limit=60.0, delta_d=1.11, delta_t=0.01, number_of_neighbours=5)


DEFAULT = dict(speed_limit=2.5, min_win_period=0.8, max_win_period=1.0)
DEFAULT_NEW = dict(speed_limit=3.0, min_win_period=0.375, max_win_period=0.375)


def gen(r, i):
    n = size(r, [0, 1, 2, 3, 5, 10, 20, 40, 60], 300)
    lat, lon = r.choice([(0.0, 0.0), (30.0, 179.95), (-60.0, -179.99), (85.0, 10.0), (round(r.uniform(-60, 60), 2), round(r.uniform(-180, 180), 2))])
    step = r.choice([0.75, 1.5, 3, 3, 6, 12])
    t = drift.times(r, n, step)
    slow = r.choice([0.0, 0.5, 2.0, 4.0])
    fast = r.choice([9.0, 11.0, 15.0, 25.0, 50.0])
    bursts = [(a, a + r.choice([1, 2, 4, 8, 20])) for a in [r.randint(-2, max(0, n)) for k in range(r.choice([0, 1, 1, 2]))]]
    crs = r.uniform(0, 360)
    lats, lons = [], []
    la, lo = lat, lon
    for k in range(n):
        h = t[k] - t[k - 1] if k else 0
        if r.random() < 0.15:
            crs = r.choice([crs + 180, r.uniform(0, 360)])
        v = fast if any(a <= k < b for a, b in bursts) else slow
        if h:
            la, lo = geo.dest(la, lo, crs, v * h * r.uniform(0.9, 1.1))
        x, y = la, lo
        if r.random() < r.choice([0, 0.02, 0.1]):
            x, y = geo.dest(la, lo, r.uniform(0, 360), r.choice([20, 100, 500, 3000]))
        lats.append(round(max(-89.9, min(89.9, x)), 2))
        lons.append(drift.conv(round((y + 180) % 360 - 180, 2), "0-360" if i % 5 == 0 else ""))
    par = r.choice([(2.5, 0.8, 1.0), (3.0, 0.375, 0.375), (2.5, 0.75, 1.0), (round(r.uniform(0, 10), 1), r.choice([0.0, 0.03125, 0.125, 0.25, 1.0]), r.choice([0.0, 0.25, 1.0, 2.0])), (0.0, 0.25, 1.0)])
    par = dict(speed_limit=par[0], min_win_period=par[1], max_win_period=max(par[1:]))
    iq = dict(IQ) if r.random() < 0.6 else c22.gen_params(r)
    return (dict(base=(r.choice([1990, 2003, 2004]), r.choice([2, 6, 12]), r.randint(1, 28)), t=t, lat=lats, lon=lons, id=r.choice(["2300123  "] * 8 + ["00007    ", "SHIP     "])), par, iq, r.choice(["api", "voyage"]), r.randint(0, 10 ** 6))


def lens(c, par, skip=None):
    """1, 0 or None (too close to call) for each report; and the fast windows"""
    n, t = len(c["t"]), c["t"]
    lo, hi = par["min_win_period"] * 24.0, par["max_win_period"] * 24.0
    yes, maybe, wins = set(), set(), []
    for k in range(n):
        if skip is None:
            e = max(j for j in range(n) if t[j] <= t[k] + hi)
            if t[e] - t[k] < lo:
                continue
        else:
            if skip[k]:
                continue
            e = [j for j in range(n) if t[j] >= t[k] + lo and not skip[j]]
            if not e:
                continue
            e = e[0]
        d, h = geo.dist(c["lat"][k], c["lon"][k], c["lat"][e], c["lon"][e]), t[e] - t[k]
        if h == 0:
            q = None if 0 < d < 1e-6 else d > 0
        else:
            q = gt(d / h / 3.6, par["speed_limit"], 1e-6, 1e-7 if d else 0)
        if d == 0 and par["speed_limit"] >= 0:
            q = False
        (maybe if q is None else yes if q else set()).update(range(k, e + 1))
        if q is not False:
            wins.append((k, e))
    return [1 if k in yes else None if k in maybe else 0 for k in range(n)], wins


def run(c, par, iq, how, newer, seed, m):
    recs = drift.mk(c)
    v = drift.voyage(recs)
    for p in v.reps:
        p.set_qc("POS", "drf_spd", seed % 2)
        p.set_qc("POS", "iquam_track", seed // 2 % 2)
    names = ["speed_limit", "min_win_period"] + ([] if newer else ["max_win_period"])
    if how == "api":
        if v.reps:
            v.sort()
        if newer:
            tqc.new_speed_check(v.reps, dict(iq), *([par[k] for k in names] if par != DEFAULT_NEW or seed % 2 else []))
        else:
            tqc.speed_check(v.reps, *([par[k] for k in names] if par != DEFAULT or seed % 2 else []))
    elif newer:
        v.new_buoy_speed_check(dict(iq), {k: par[k] for k in names})
    else:
        v.buoy_speed_check({k: par[k] for k in names})
    m.eq([(p.getvar("LAT"), p.getvar("LON"), p.getvar("PT"), p.get_qc("POS", "iquam_track")) for p in v.reps], [(d["LAT"], d["LON"], 7, seed // 2 % 2) for d in recs], "reports-changed", lambda: repr(c))
    return [p.get_qc("POS", "drf_spd") for p in v.reps]


def check(case, m):
    c, par, iq, how, seed = case
    ctx = lambda: repr(case)
    recs = drift.mk(c)
    n = len(recs)
    for newer in (False, True):
        got = run(c, par, iq, how, newer, seed, m)
        m.ok(all(g in (0, 1) for g in got), "flag-value", lambda: "%r %s" % (got, ctx()))
        if n <= 1:
            m.eq(got, [0] * n, "short-record", ctx)
            m.event("too-short")
            continue
        skip = None
        if newer:
            ship = [dict(d, PT=5) for d in recs]
            if generic(c["id"], recs[0]["YR"]):
                skip = [0] * n
            else:
                viol = c22.pairs(ship, iq)
                if viol is None:
                    m.event("iquam-undecided")
                    continue
                rej = c22.greedy(viol)
                skip = [int(k in rej) for k in range(n)]
                m.event("iquam-rejected", sum(skip))
        want, wins = lens(c, par, skip)
        for k in range(n):
            if want[k] is None:
                m.event("undecided")
            else:
                m.eq(got[k], want[k], "new-speed-flag" if newer else "speed-flag", lambda: "report %d, flags %r of %r" % (k, got, case))
                m.event(("new-" if newer else "") + ("flagged" if want[k] else "not-flagged"))
            if got[k]:
                m.ok(any(a <= k <= b for a, b in wins), "flag-without-fast-window", lambda: "report %d of %r" % (k, case))
        if not wins:
            m.eq(sum(got), 0, "obedient-record-flagged", ctx)
            m.event("never-fast")


def check_args(case, m):
    fn, args = case
    v = drift.voyage(drift.mk(dict(base=(2003, 1, 1), t=[float(k) for k in range(0, 300, 6)], lat=[0.0] * 50, lon=[0.0] * 50)))
    v.sort()
    try:
        getattr(tqc, fn)(v.reps, *args)
    except AssertionError:
        m.ok(True, "refused")
        m.event("refused")
        return
    m.ok(False, "nonsense-parameters-accepted", repr(case))


BADARGS = [("speed_check", a) for a in [(-1.0, 0.5, 1.0), (2.5, -0.5, 1.0), (2.5, 1.0, 0.5), (2.5, 1.0, -1.0)]] + [("new_speed_check", (IQ, -1.0, 0.5)), ("new_speed_check", (IQ, 3.0, -0.5))]
def check_entry(case, m):
    c, par, iq, how, seed = case
    new = {k: par[k] for k in ("speed_limit", "min_win_period")}
    mkv = lambda c: drift.voyage(drift.mk(c))
    drift.entry_rules(c, mkv, lambda v, **kw: v.buoy_speed_check(par, **kw), [("POS", "drf_spd")], seed, m, lambda: repr(case))
    drift.entry_rules(c, mkv, lambda v, **kw: v.new_buoy_speed_check(dict(iq), new, **kw), [("POS", "drf_spd")], seed, m, lambda: "new " + repr(case))


STREAMS = [Stream("entry", gen, check_entry, 600, 6000, need=1500), Stream("records", gen, check, 3000, 30000, need=8000), Stream("nonsense-parameters", BADARGS, check_args, None, None, need=6)]
