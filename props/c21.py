"""C21 MDS track check."""
import datetime
import random

import Extended_IMMA as ex
import geo
import track_check as tc
import trackmodel as tm
from core import Stream, size

RULE = ("Time-ordered voyages of 0 to 40 reports: plausible ships with reported courses and speeds, displaced reports, reversed and impossible hops, missing or contradictory reported motion, gaps, simultaneous and coincident reports, dateline and high latitudes, "
        "generic identifiers, buoys, deck 720, before and after 1968 and 1891, default and random limits; each flag compared with a three-valued reference (undecided near a limit), for the voyage check and the five-pass check, and every ingredient separately.")


def gen_voyage(r, n, ids=None):
    yr = r.choice([1885, 1890, 1891, 1935, 1967, 1968, 1999, 2004])
    base = datetime.datetime(yr, r.choice([1, 2, 6, 12]), r.randint(1, 25))
    speed = r.choice([0, 5, 8, 12, 12, 18, 25, 35]) * geo.KM_PER_NM
    step = r.choice([1, 3, 6, 6, 12])
    lat, lon = r.choice([(0.0, 0.0), (r.uniform(-60, 60), r.uniform(-180, 180)), (r.uniform(-20, 20), 179.5), (r.uniform(70, 85), r.uniform(-180, 180)), (-65.0, -179.0)])
    crs = r.choice([0, 45, 90, 135, 180, 225, 270, 315]) + r.choice([0, 0, 10, 30, -20])
    lon360 = r.random() < 0.15
    miss = r.choice([0, 0, 0.1, 0.5, 1])
    bad = r.choice([0, 0.05, 0.15, 0.4])
    t = 0.0
    if ids is None and r.random() < 0.06:
        # over a new year in which an identifier becomes or stops being generic
        yr, ids = r.choice([(1920, ["2        ", "00002    "]), (1941, ["2        ", "00002    "]), (1929, ["3        "]), (1937, ["3        "]), (1933, ["7        ", "00007    "]), (1954, ["7        ", "00007    "]), (1890, None), (1890, None)])
        base = datetime.datetime(yr, 12, 30, r.randint(0, 23))
    head = dict(ID=r.choice(ids or ["SHIP1    "] * 12 + ["SHIP     ", "2        ", "00007    ", None]))
    if yr == 1890 or r.random() < 0.15:
        head["DCK"] = r.choice([720, 720, 732])
    if r.random() < 0.2:
        head["PT"] = r.choice([5, 5, 6, 7])
    out = []
    for k in range(n):
        h = step if r.random() < 0.8 else r.choice([0, 0.01, 0.5, 24, 200, round(r.uniform(0, 12), 2)])
        if k:
            t += h
            lat, lon = geo.dest(lat, lon, crs, speed * h * r.choice([1, 1, 1, 0.8, 1.2]))
        if r.random() < 0.1:
            crs = r.choice([0, 45, 90, 135, 180, 225, 270, 315]) + r.uniform(-22, 22)
        la, lo = lat, lon
        if r.random() < bad:
            la, lo = geo.dest(lat, lon, r.choice([crs, crs + 180, r.uniform(0, 360)]), r.choice([50, 200, 277, 300, 600, 2000, 9000]) * r.uniform(0.9, 1.3))
        la, lo = round(max(-89.0, min(89.0, la)), 2), round(lo, 2)
        if lon360 and lo < 0:
            lo = round(lo + 360, 2)
        d = geo.stamp(base, t)
        d.update(head, LAT=la, LON=lo)
        if r.random() >= miss:
            d["DS"] = int(round(crs / 45.0)) % 8 if r.random() < 0.8 else r.randint(0, 9)
        if r.random() >= miss:
            kn = speed / geo.KM_PER_NM
            v = [v for v in range(10) if abs((0 if v == 0 else 5 * v - 2 if d["YR"] >= 1968 else 3 * v - 1) - kn) < 3]
            d["VS"] = r.choice(v) if v and r.random() < 0.8 else r.randint(0, 9)
        out.append(d)
        if r.random() < 0.05:
            out.append(dict(d))
    return out[:n]


def gen_params(r):
    if r.random() < 0.5:
        return dict(tm.DEFAULT)
    return dict(max_direction_change=r.choice([30.0, 60.0, 90.0, 120.0]), max_speed_change=r.choice([3.0, 10.0, 20.0]), max_absolute_speed=r.choice([20.0, 40.0, 60.0]),
                max_midpoint_discrepancy=r.choice([20.0, 80.0, 150.0, 300.0]))


def gen(r, i):
    return (gen_voyage(r, size(r, [0, 1, 2, 3, 3, 4, 6, 12, 25, 40], 600)), gen_params(r))


def build(c):
    v = ex.Voyage()
    for d in c:
        v.add_report(geo.mk(d))
    return v


def exempt(c, buoys):
    """what a voyage that is not judged gets: ('pass', few) or None"""
    f = c[0]
    if tm.generic(f["ID"], f["YR"]) or (buoys and f.get("PT") in (6, 7)):
        return 0
    if len(c) < 3:
        return 0 if f.get("DCK") == 720 and f["YR"] < 1891 else 1
    return None


def check(c, m):
    reps, par = c
    v = build(reps)
    v.track_check(dict(par))
    if not reps:
        return
    ctx = lambda: repr(c)
    trk = [p.get_qc("POS", "trk") for p in v.reps]
    few = [p.get_qc("POS", "few") for p in v.reps]
    e = exempt(reps, True)
    if e is not None:
        m.eq(trk, [0] * len(reps), "exempt-flagged", ctx)
        m.eq(few, [e] * len(reps), "few", ctx)
        m.event("too-short" if e else "exempt", len(reps))
        return
    m.eq(few, [0] * len(reps), "few", ctx)
    want = tm.verdicts(reps, par)
    if want is None:
        m.event("modal-speed-undecided")
        m.ok(all(x in (0, 1) for x in trk), "flag-value", ctx)
        return
    for k, (g, w) in enumerate(zip(trk, want)):
        if w is None:
            m.ok(g in (0, 1), "flag-value", ctx)
            m.event("undecided")
        else:
            m.eq(g, int(w), "track-flag", lambda: "report %d of %r" % (k, c))
            m.event("failed" if w else "passed")


def check_full(c, m):
    reps, par = c
    v = build(reps)
    out = tc.mds_full_track_check(v)
    if not reps:
        return
    ctx = lambda: repr(c)
    m.ok(out is v and len(v) == len(reps), "voyage-returned", ctx)
    got = [p.get_qc("POS", "bad_track") for p in v.reps]
    v1 = build(reps)
    for p in v1.reps:
        p.set_qc("POS", "bad_track", 9)
        p.set_qc("POS", "fewsome_check", 9)
    one = tc.mds_track_check(v1)
    m.eq(len(one), len(reps), "single-pass-length", ctx)
    e = exempt(reps, False)
    if e != 1:
        m.eq([p.get_qc("POS", "bad_track") for p in v1.reps], one, "single-pass-flags", ctx)
    if not tm.generic(reps[0]["ID"], reps[0]["YR"]):
        m.eq([p.get_qc("POS", "fewsome_check") for p in v1.reps], [1 if e == 1 else 0] * len(reps), "single-pass-few", ctx)
    if e is not None:
        m.eq(one, [0] * len(reps), "exempt-flagged-in-single-pass", ctx)
        m.eq(got, [0] * len(reps), "exempt-flagged", ctx)
        m.event("exempt")
        return
    flag = [False] * len(reps)
    passes = 0
    for passes in range(5):
        keep = [k for k in range(len(reps)) if not flag[k]]
        sub = [reps[k] for k in keep]
        if len(sub) < 3:
            break
        w = tm.verdicts(sub, tm.DEFAULT)
        if w is None or None in w:
            m.event("undecided")
            return
        for k, x in zip(keep, w):
            flag[k] = x
        if not any(w):
            break
    m.eq(got, [int(x) for x in flag], "full-track-flags", ctx)
    m.event("passes-%d" % (passes + 1))
    m.event("failed", sum(flag))
    # one pass alone
    w = tm.verdicts(reps, tm.DEFAULT)
    m.eq(one, [int(x) for x in w], "single-pass", ctx)


def check_parts(c, m):
    reps, par = c
    reps = [d for d in reps if abs(d["LAT"]) < 88]
    if len(reps) < 1:
        return
    v = build(reps)
    n = len(reps)
    ctx = lambda: repr(c)
    hops = [(None,) * 4] + [tm.hop(reps[i - 1], reps[i]) for i in range(1, n)]
    for name, fns, want in (("forward", (v.distr1, lambda: tc.distr1(v)), tm.forward(reps, hops)),
                            ("reverse", (v.distr2, lambda: tc.distr2(v)), tm.reverse(reps, hops)),
                            ("midpoint", (v.midpt, lambda: tc.midpt(v)), tm.midpoints(reps, hops))):
        if name == "midpoint" and n < 2:
            continue
        for f in fns:
            got = f()
            m.eq(len(got), n, name + "-length", ctx)
            for i, (g, w) in enumerate(zip(got, want)):
                if name == "midpoint" and 0 < i < n - 1 and w is None:
                    continue
                m.near(g, w, 0.05 + 1e-6 * (w or 0), name + "-distance", lambda: "report %d of %r" % (i, c))
                m.event(name + ("-missing" if w is None else ""))
    sp = [h[0] for h in hops]
    want = tm.modal(sp)
    if want != "edge":
        got = tc.modesp(v.get_speed())
        m.near(got, want, 1e-3, "modal-speed", ctx)
        if got is not None:
            m.event("modal-%.1f" % (got / geo.KM_PER_NM))
        m.near(tc.set_speed_limits(got)[0], tm.amax(want), 1e-3, "speed-limit", ctx)
    # extrapolation of the last two reports
    h = round(0.25 * n, 2)
    la, lo = v.predict_next_point(h)
    if n == 1 or hops[-1][3] == 0:
        wl = (reps[-1]["LAT"], reps[-1]["LON"])
        m.event("predict-stays")
    else:
        a = reps[-2]
        wl = geo.dest(a["LAT"], a["LON"], hops[-1][2], hops[-1][0] * (hops[-1][3] + h))
        m.event("predict")
    if n == 1 or not 10000 < hops[-1][1]:
        m.near(geo.dist(la, lo, *wl), 0, 0.05 + 1e-5 * (hops[-1][0] or 0) * h + (0.01 * h / hops[-1][3] if n > 1 and hops[-1][3] else 0), "predicted-position", ctx)


KN = 1.852


def gen_small(r, i):
    return (r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, None]), r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, None]), r.choice([0.0, 360.0, float(r.randrange(0, 361, 15)), float(r.randrange(361)), round(r.uniform(0, 360), 1)]), r.choice([30.0, 60.0, 60.0, 100.0]),
            r.choice([None, 0.0, 2.0, 13.0, round(r.uniform(0, 45), 1)]), r.choice([None, 0.0, 8.0, round(r.uniform(0, 45), 1)]), r.choice([0.0, round(r.uniform(0, 100), 2)]), r.choice([3.0, 10.0]),
            r.choice([0.0, 6.0, round(r.uniform(0, 30), 2)]), round(r.uniform(0, 900), 1), round(r.uniform(0, 900), 1),
            r.choice([None, round(r.uniform(0, 80), 1), 8.5 * KN, 8.6 * KN]), [round(r.uniform(0, r.choice([10, 30, 80])), 1) for k in range(r.randint(0, 12))])


def check_small(c, m):
    a, b, crs, mdc, va, vb, spd, msc, hrs, fd, rd, mode, speeds = c
    ctx = lambda: repr(c)
    da, db = [None if k is None else 45 * k for k in (a, b)]
    w = False if None in (da, db) else tm.lor(tm.gt(geo.dang(da, crs), mdc, 0, 1e-6), tm.gt(geo.dang(db, crs), mdc, 0, 1e-6))
    if w is not None:
        m.eq(tc.direction_continuity(da, db, crs, mdc), 10.0 if w else 0.0, "direction", ctx)
        m.event("direction-%d" % w)
    if None not in (da, db) and crs == int(crs) and max(geo.dang(da, crs), geo.dang(db, crs)) == mdc:
        m.eq(tc.direction_continuity(da, db, crs, mdc), 0.0, "direction-at-the-limit", ctx)
        m.event("direction-at-the-limit")
    w = False if None in (da, db) else tm.lor(tm.gt(geo.dang(da, crs), 60.0, 0, 1e-6), tm.gt(geo.dang(db, crs), 60.0, 0, 1e-6))
    if w is not None:
        m.eq(tc.direction_continuity(da, db, crs), 10.0 if w else 0.0, "direction-default", ctx)
    m.eq(tc.direction_continuity(da, db, None), 0.0, "direction-unknown", ctx)
    w = False if None in (va, vb) else tm.land(tm.gt(abs(va * KN - spd), msc * KN), tm.gt(abs(vb * KN - spd), msc * KN))
    if w is not None:
        m.eq(tc.speed_continuity(va, vb, spd, msc), 10.0 if w else 0.0, "speed", ctx)
        m.event("speed-%d" % w)
    w = False if None in (va, vb) else tm.land(tm.gt(abs(va * KN - spd), 10 * KN), tm.gt(abs(vb * KN - spd), 10 * KN))
    if w is not None:
        m.eq(tc.speed_continuity(va, vb, spd), 10.0 if w else 0.0, "speed-default", ctx)
    m.eq(tc.speed_continuity(va, vb, None, msc), 0.0, "speed-unknown", ctx)
    w = False
    if va and vb and hrs > 0:
        lim = hrs * (va + vb) / 2 * KN
        w = tm.land(tm.gt(fd, lim), tm.gt(rd, lim))
    if w is not None and None not in (va, vb):
        m.eq(tc.check_distance_from_estimate(va, vb, hrs, fd, rd), 10.0 if w else 0.0, "distance-from-estimate", ctx)
        m.event("distance-%d" % w)
    x, xx, n = tc.set_speed_limits(mode)
    if mode is None or mode < 8.51 * KN:
        want = (15 * KN, 20 * KN, 0.0)
    else:
        want = (1.25 * mode, 30 * KN, 0.75 * mode)
    for g, w in zip((x, xx, n), want):
        m.near(g, w, 1e-3, "speed-limits", ctx)
    w = tm.modal(speeds)
    if w != "edge":
        m.near(tc.modesp(list(speeds)), w, 1e-3, "modal-speed", ctx)
    la, lo = tc.increment_position(10.0, 179.0, spd, crs, hrs)
    wl = geo.dest(10.0, 179.0, crs, spd * hrs / 2)
    m.near(geo.dist(10.0 + la, 179.0 + lo, *wl), 0, 1e-3, "increment", ctx)
    m.eq(tc.increment_position(10.0, 179.0, spd, crs, None), [None, None], "increment-unknown", ctx)


STREAMS = [
    Stream("voyages", gen, check, 4800, 50000, need=6000),
    Stream("five-pass", gen, check_full, 2000, 20000, need=300),
    Stream("ingredients", gen, check_parts, 1600, 15000, need=5000),
    Stream("rules", gen_small, check_small, 12000, 60000, need=20000),
]
