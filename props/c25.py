"""C25 drifter aground checks."""
import random

import drift
import geo
import trackqc as tqc
from core import Stream, size
from trackmodel import gt

RULE = ("Drifter records of 0 to 150 reports that drift, beach, beach and refloat, circle back to where they end, jitter by 0.01 degree and jump, near the dateline, the Greenwich meridian, the equator and the poles, regular and irregular in "
        "time with gaps and simultaneous reports, for default and random window parameters; flags compared with a reference (direct smoothing, windows and displacements); monitors check the suffix shape and that longitude convention, "
        "rotation about the pole, mirroring and moving the record in time change nothing.")


def gen(r, i):
    win = r.choice([1, 1, 3, 3, 5, 11, 41])
    n = size(r, [0, 1, 2, win - 1, win, win + 1, win + 2, 12, 20, 40, 60, 90, 150], 800)
    lat = r.choice([0.0, 0.0, 30.0, 60.0, -75.0, 88.0, round(r.uniform(-60, 60), 2)])
    lon = r.choice([0.0, 0.01, 180.0, 179.98, -179.99, 90.0, round(r.uniform(-180, 180), 2)])
    t = drift.times(r, n)
    kind = r.choice(["moving", "still", "beach", "beach", "refloat", "two", "jitter", "circle", "slow", "dateline"])
    cut = sorted(r.choice([0, n, r.randint(0, n)]) for k in range(3))
    v = r.choice([0.1, 0.3, 1.0, 5.0])             # km per hour
    crs = r.uniform(0, 360)
    la, lo = lat, lon
    lats, lons = [], []
    for k in range(n):
        h = t[k] - t[k - 1] if k else 0
        moving = dict(moving=True, still=False, beach=k < cut[1], refloat=not cut[0] <= k < cut[2], two=k < cut[0] or cut[1] <= k < cut[2], jitter=False, circle=True, slow=True, dateline=False)[kind]
        if moving and h:
            if r.random() < 0.2 or kind == "circle":
                crs += r.uniform(0, 60)
            la, lo = geo.dest(la, lo, crs, (r.choice([0.002, 0.005, 0.01]) if kind == "slow" else v) * h)
            la = max(-89.9, min(89.9, la))
        j = 0.01 * r.choice([0, 0, 1, -1, 2]) if kind in ("jitter", "beach", "refloat") and r.random() < 0.3 else 0
        jl = 0.01 * r.choice([0, 1, -1]) if j else 0
        if kind == "dateline":
            la, lo, j, jl = lat, 180.0, 0, r.choice([0.01, 0, 0, -0.01])
        if r.random() < 0.01 and kind != "dateline":
            j = r.choice([1.0, -1.0])
        lats.append(round(la + j if abs(la + j) < 90 else la, 2))
        lons.append(round((lo + jl + 180) % 360 - 180, 2))
    if r.random() < 0.15:
        par = dict(smooth_win=41, min_win_period=8, max_win_period=10)
    elif r.random() < 0.6:
        par = dict(smooth_win=win, min_win_period=r.choice([1, 2, 8]), max_win_period=10)
    else:
        par = dict(smooth_win=r.choice([1, 3, 41]), min_win_period=r.choice([1, 2, 3]), max_win_period=r.choice([3, 4, 8, 30]))
    return (dict(base=(r.choice([1990, 2003, 2004]), r.choice([2, 6, 12]), r.randint(1, 28)), t=t, lat=lats, lon=lons), par, r.choice(["api", "voyage", "shuffled"]),
            r.choice([0.01, 90.0, 123.45, 179.99, -0.5]), r.randint(0, 10 ** 6))


def lens(c, par, newer):
    """flags, or None if too close to call; and the index at which the beaching starts"""
    n, w = len(c["t"]), par["smooth_win"]
    if n <= w:
        return [0] * n, None
    lon = list(c["lon"])
    for k in range(1, n):
        while lon[k] - lon[k - 1] >= 180:
            lon[k] -= 360
        while lon[k] - lon[k - 1] < -180:
            lon[k] += 360
    mid = lambda x, k: sorted(x[k:k + w])[w // 2]
    ns = n - w + 1
    s = [(c["t"][k + w // 2], mid(c["lat"], k), mid(lon, k)) for k in range(ns)]
    lo, hi = par["min_win_period"] * 24.0, par["max_win_period"] * 24.0
    start = None
    for k in range(ns):
        if s[-1][0] - s[k][0] < lo:
            break
        if newer:
            e = ns - 1
        else:
            e = max(j for j in range(ns) if s[j][0] <= s[k][0] + hi)
            if s[e][0] - s[k][0] < lo:
                continue
        q = gt(geo.dist(s[k][1], s[k][2], s[e][1], s[e][2]), drift.TOL, 1e-6, 1e-6)
        if q is None:
            return None, None
        if q:
            start = None
        elif start is None:
            start = k
    if start is None:
        return [0] * n, None
    first = start + w // 2 if start else 0
    return [int(k >= first) for k in range(n)], first


def run(c, par, how, newer, seed, m):
    recs = drift.mk(c)
    idx = list(range(len(recs)))
    if how == "shuffled" and len(set(c["t"])) == len(c["t"]):
        random.Random(seed).shuffle(idx)
    v = drift.voyage([recs[k] for k in idx])
    for k, p in enumerate(v.reps):
        p.set_qc("POS", "drf_agr", seed % 3 if seed % 3 < 2 else 9)
    names = ["smooth_win", "min_win_period"] + ([] if newer else ["max_win_period"])
    if how == "api":
        if v.reps:
            v.sort()
        args = [par[k] for k in names]
        if args == [41, 8, 10][:len(args)] and seed % 2:
            args = []       # the documented defaults
        (tqc.new_aground_check if newer else tqc.aground_check)(v.reps, *args)
    else:
        (v.new_buoy_aground_check if newer else v.buoy_aground_check)({k: par[k] for k in names})
    m.eq([(geo.hours({f: p.getvar(f) for f in ("YR", "MO", "DY", "HR")}), p.getvar("LAT"), p.getvar("LON")) for p in v.reps], [(geo.hours(d), d["LAT"], d["LON"]) for d in recs], "reports-changed", lambda: repr(c))
    return [p.get_qc("POS", "drf_agr") for p in v.reps]


def check(case, m):
    c, par, how, rot, seed = case
    if par["max_win_period"] < par["min_win_period"]:
        par = dict(par, max_win_period=par["min_win_period"])
    ctx = lambda: repr(case)
    for newer in (False, True):
        got = run(c, par, how, newer, seed, m)
        m.ok(all(g in (0, 1) for g in got) and got == sorted(got), "not-a-suffix", lambda: "%r %s" % (got, ctx()))
        want, first = lens(c, par, newer)
        if want is None:
            m.event("undecided")
            continue
        m.eq(got, want, "new-aground-flags" if newer else "aground-flags", ctx)
        if not got:
            m.event("empty")
            continue
        m.event(("new-" if newer else "") + ("too-short" if len(got) <= par["smooth_win"] else "never-aground" if first is None else "all-aground" if first == 0 else "aground-tail"))
        # the same drift elsewhere, written another way or at another time
        other = [("lon360", dict(c, lon=[drift.conv(x, "0-360") for x in c["lon"]])),
                 ("rotated", dict(c, lon=[round((x + rot + 180) % 360 - 180, 2) for x in c["lon"]])),
                 ("mirrored", dict(c, lat=[-x for x in c["lat"]])),
                 ("later", dict(c, base=(c["base"][0] + 1, 3, 1)))]
        name, d = other[seed % len(other)]
        w2, f2 = lens(d, par, newer)
        if w2 is not None:
            m.eq(run(d, par, how, newer, seed, m), got, "changed-when-" + name, ctx)
            m.event(name)


def check_args(case, m):
    """parameters that mean nothing are refused"""
    fn, args = case
    v = drift.voyage(drift.mk(dict(base=(2003, 1, 1), t=[float(k) for k in range(0, 300, 6)], lat=[0.0] * 50, lon=[0.0] * 50)))
    v.sort()
    try:
        getattr(tqc, fn)(v.reps, *args)
    except AssertionError:
        m.ok(True, "refused")
        m.event("refused")
        return
    m.ok(False, "nonsense-parameters-accepted", repr(case))


BADARGS = [("aground_check", a) for a in [(0, 1, 2), (2, 1, 2), (3, 0, 2), (3, 2, 1), (3, 1, 0), (-1, 1, 2), (3, -1, 2)]] + [("new_aground_check", a) for a in [(0, 1), (2, 1), (3, 0), (-3, 1)]]
def check_entry(case, m):
    c, par, how, rot, seed = case
    if par["max_win_period"] < par["min_win_period"]:
        par = dict(par, max_win_period=par["min_win_period"])
    new = {k: par[k] for k in ("smooth_win", "min_win_period")}
    mkv = lambda c: drift.voyage(drift.mk(c))
    drift.entry_rules(c, mkv, lambda v, **kw: v.buoy_aground_check(par, **kw), [("POS", "drf_agr")], seed, m, lambda: repr(case))
    drift.entry_rules(c, mkv, lambda v, **kw: v.new_buoy_aground_check(new, **kw), [("POS", "drf_agr")], seed, m, lambda: "new " + repr(case))


STREAMS = [Stream("entry", gen, check_entry, 600, 6000, need=1500), Stream("records", gen, check, 2000, 20000, need=2000), Stream("nonsense-parameters", BADARGS, check_args, None, None, need=11)]
