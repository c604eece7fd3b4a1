"""C24 repeated, rounded and saturated values."""
import datetime

import Extended_IMMA as ex
import geo
from core import Stream, size

RULE = ("Voyages of 0 to 60 reports with few distinct values, missing values, whole numbers, negative values, values that differ in the last digit, saturated runs at the start, middle and end broken by dry or missing values, gaps and simultaneous reports; "
        "thresholds chosen at, just below and just above the actual fractions, counts and durations; oracle: direct counts.")


def times(r, n):
    base = datetime.datetime(r.choice([1999, 2003, 2004]), r.choice([2, 12, 6]), r.randint(20, 28))
    step = r.choice([1, 1, 3, 6, 0.5])
    t, out = 0.0, []
    for k in range(n):
        t += step if r.random() < 0.9 else r.choice([0, 12, 30, 100])
        out.append(geo.stamp(base, t))
    return out


def gen_rep(r, i):
    n = size(r, [0, 1, 2, 5, 10, 20, 21, 40, 60], 1500)
    fine = r.choice([1, 1, 2, 4])
    var = r.choice(["SST", "AT", "AT2", "DPT", "SLP"])
    pool = [round(r.uniform(-2, 30), fine) + 0.0 for k in range(r.choice([1, 2, 3, 30]))] + r.choice([[], [0.0], [15.0], [15.0, 15.1, -15.0, 1.0]])
    if r.random() < 0.3:
        pool.append(round(pool[0] + r.choice([-1, 1]) * 10.0 ** -r.choice([1, 2, 3, 5, 9]), 10))      # almost the same value
    if r.random() < 0.1:
        pool.append(round(round(pool[0]) + r.choice([-1, 1]) * 10.0 ** -r.choice([2, 3, 5, 9]), 10))  # almost a whole number
    vals = [None if r.random() < 0.15 else r.choice(pool) for k in range(n)]
    if r.random() < 0.5 and n:
        x = r.choice(pool)
        vals = [x if r.random() < r.choice([0.3, 0.7]) else v for v in vals]
    have = [v for v in vals if v is not None]
    cnt = len(have)
    best = max([have.count(v) for v in have] or [0])
    whole = sum(1 for v in have if v == int(v))
    num = r.choice([best, best, whole, r.randint(0, 10)])
    thr = r.choice([0.7, 0.5, 0.0, 1.0] + ([num / cnt, min(1.0, (num + r.choice([-1, 1]) * 0.01) / cnt)] * 2 if cnt and num <= cnt and num else []))
    thr = max(0.0, thr)
    return (var, vals, dict(threshold=thr, min_count=r.choice([0, 5, 20, cnt, max(0, cnt - 1), cnt + 1])), r.randint(0, 10 ** 6))


def above(k, n, thr):
    """k / n > thr, None on a tie that depends on how the fraction is rounded"""
    a, b = k / n > thr, k > thr * n
    return int(a) if a == b else None


def build(recs):
    v = ex.Voyage()
    for d in recs:
        v.add_report(geo.mk(d))
    return v


def check_rep(c, m):
    var, vals, par, seed = c
    import random
    r = random.Random(seed)
    ts = times(r, len(vals))
    recs = []
    for k, (t, x) in enumerate(zip(ts, vals)):
        d = dict(t, ID="SHIP1    ", LAT=0.0, LON=round(k * 0.01, 2))
        if x is not None:
            d[var] = int(x) if x == int(x) and r.random() < 0.3 else x
        recs.append(d)
    have = [x for x in vals if x is not None]
    n = len(have)
    ctx = lambda: repr(c)
    v = build(recs)
    for p in v.reps:
        p.set_qc(var, "rep", r.choice([0, 1, 9]))           # left from before
        p.set_qc(var, "round", r.choice([0, 1, 9]))
    v.find_repeated_values(dict(par), intype=var)
    for k, x in enumerate(vals):
        want = above(have.count(x), n, par["threshold"]) if x is not None and n > par["min_count"] else 0
        if want is None:
            m.event("tie-in-rounding")
            continue
        m.eq(v.get_qc(k, var, "rep"), want, "repeated", lambda: "report %d of %r" % (k, c))
        m.event("repeated" if want else "missing" if x is None else "not-repeated")
        if x is not None and have.count(x) / n == par["threshold"]:
            m.event("exactly-threshold")
    if n == par["min_count"]:
        m.event("exactly-min-count")
    if var != "SLP":
        whole = sum(1 for x in have if x == int(x))
        if var == "DPT" and r.random() < 0.5:
            v.find_multiple_rounded_values(dict(par))
        else:
            v.find_multiple_rounded_values(dict(par), intype=var)
        many = above(whole, n, par["threshold"]) if n > par["min_count"] and n else 0
        for k, x in enumerate(vals if many is not None else []):
            want = int(bool(many and x is not None and x == int(x)))
            m.eq(v.get_qc(k, var, "round"), want, "rounded", lambda: "report %d of %r" % (k, c))
            m.event("rounded" if want else "not-rounded")
        if n and whole / n == par["threshold"]:
            m.event("rounded-exactly-threshold")


def gen_sat(r, i):
    n = size(r, [0, 1, 4, 8, 15, 30, 60], 1000)
    par = r.choice([dict(min_time_threshold=48.0, shortest_run=20), dict(min_time_threshold=24.0, shortest_run=4), dict(min_time_threshold=r.choice([0.0, 2.0, 6.0, 24.0]), shortest_run=r.choice([0, 1, 2, 3, 4, 8]))])
    vals, k = [], 0
    while len(vals) < n:
        kind = r.choice(["sat", "sat", "dry", "noat", "nodpt", "none"])
        run = r.choice([1, 2, 3, 4, 5, 9, 21, 22, 30]) if kind == "sat" else r.choice([1, 1, 2, 5])
        for j in range(run):
            a = round(r.uniform(-5, 30), 1)
            vals.append(dict(sat=(a, a), dry=(a, round(a - r.choice([0.1, 5, -0.1]), 1)), noat=(None, a), nodpt=(a, None), none=(None, None))[kind])
    return (vals[:n], par, times(r, n))


def check_sat(c, m):
    vals, par, ts = c
    recs = []
    for k, ((a, d), t) in enumerate(zip(vals, ts)):
        e = dict(t, ID="SHIP1    ", LAT=10.0, LON=0.0)
        if a is not None:
            e["AT"] = a
        if d is not None:
            e["DPT"] = d
        recs.append(e)
    v = build(recs)
    for k, p in enumerate(v.reps):
        p.set_qc("DPT", "repsat", k % 2)
    v.find_saturated_runs(dict(par))
    want = [0] * len(vals)
    k = 0
    while k < len(vals):
        j = k
        while j < len(vals) and vals[j][0] is not None and vals[j][0] == vals[j][1]:
            j += 1
        if j > k:
            hrs = geo.hours(ts[j - 1]) - geo.hours(ts[k])
            m.event("runs")
            if abs(hrs - par["min_time_threshold"]) < 1e-6:
                m.event("runs-of-exactly-the-duration")
            if j - k == par["shortest_run"]:
                m.event("runs-of-exactly-the-length")
            if j - k > par["shortest_run"]:
                # elapsed times carry rounding errors of about 1e-8 hours, except for whole days
                f = None if hrs % 24 and abs(hrs - par["min_time_threshold"]) < 1e-6 else hrs >= par["min_time_threshold"]
                for q in range(k, j):
                    want[q] = f if f is None else int(f)
                m.event("saturated-runs" if f else "short-lived-runs")
        k = max(j, k + 1)
    for k, w in enumerate(want):
        g = v.get_qc(k, "DPT", "repsat")
        if w is None:
            m.ok(g in (0, 1), "flag-value", lambda: repr(c))
        else:
            m.eq(g, w, "saturated", lambda: "report %d of %r" % (k, c))
            m.event("flagged" if w else "not-flagged")


STREAMS = [
    Stream("values", gen_rep, check_rep, 7500, 100000, need=20000),
    Stream("saturated", gen_sat, check_sat, 4500, 60000, need=10000),
]
