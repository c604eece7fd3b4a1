"""Reference model of the MDS track check, in three-valued logic: None means too close to a limit to call."""
import math

import geo
from c08 import GENERIC, GENERIC_PERIOD

NM = 1.852
DEFAULT = dict(max_direction_change=60.0, max_speed_change=10.0, max_absolute_speed=40.0, max_midpoint_discrepancy=150.0)


def generic(ident, year):
    return ident in GENERIC or (ident in GENERIC_PERIOD and GENERIC_PERIOD[ident][0] <= year <= GENERIC_PERIOD[ident][1])


def gt(x, lim, rel=1e-5, ab=1e-3):
    """x > lim; a missing value exceeds nothing"""
    if x is None:
        return False
    if abs(x - lim) <= rel * abs(lim) + ab:
        return None
    return x > lim


def land(*a):
    return False if False in a else None if None in a else True


def lor(*a):
    return True if True in a else None if None in a else False


def dsi(d):
    k = d.get("DS")
    return None if k is None else [0, 45, 90, 135, 180, 225, 270, 315, 360, None][k]


def vsi(d):
    k = d.get("VS")
    if k is None:
        return None
    return 0.0 if k == 0 else 5.0 * k - 2 if d["YR"] >= 1968 else 3.0 * k - 1


def hop(a, b):
    """speed, distance, course (None unknown), hours"""
    dk = geo.dist(a["LAT"], a["LON"], b["LAT"], b["LON"])
    hr = geo.hours(b) - geo.hours(a)
    if abs(hr) < 1e-6:
        hr = 0.0
    if a["LAT"] == b["LAT"] and a["LON"] == b["LON"]:
        crs = 0.0
    else:
        crs = geo.course(a["LAT"], a["LON"], b["LAT"], b["LON"])
    return (dk / hr if hr else dk), dk, crs, hr


def modal(speeds):
    """modal speed in km/h of the speeds after the first; 'edge' if a speed is too close to a bin edge"""
    if len(speeds) < 2:
        return None
    n = [0] * 12
    for s in speeds[1:]:
        q = s / NM / 3
        if q < 12.5 and q > 1e-3 and abs(q - round(q)) < 2e-5:
            return "edge"
        n[min(11, max(0, int(math.floor(q))))] += 1
    k = n.index(max(n))
    return max(8.5, 3 * k + 1.5) * NM


def amax(mode):
    if mode is None or mode <= 8.51 * NM:
        return 15.0 * NM
    return mode * 1.25


def advance(d, back, hr):
    """half-interval displacement in latitude and longitude at the reported course and speed"""
    la, lo = geo.dest(d["LAT"], d["LON"], dsi(d) - (180 if back else 0), vsi(d) * NM * hr / 2)
    return la - d["LAT"], lo - d["LON"]


def estimated(a, b, hr, back):
    """distance of b from where a would get to (back: of a from where b came from)"""
    if None in (dsi(a), dsi(b), vsi(a), vsi(b), hr):
        return None
    u, v = advance(a, back, hr), advance(b, back, hr)
    s, e = (b, a) if back else (a, b)
    return geo.dist(s["LAT"] + u[0] + v[0], s["LON"] + u[1] + v[1], e["LAT"], e["LON"])


def forward(reps, hops):
    return [None] + [estimated(reps[i - 1], reps[i], hops[i][3], False) for i in range(1, len(reps))]


def reverse(reps, hops):
    return [estimated(reps[i], reps[i + 1], hops[i + 1][3], True) for i in range(len(reps) - 1)] + [None]


def midpoints(reps, hops):
    out = [None]
    for i in range(1, len(reps) - 1):
        t0, t1 = hops[i][3], hops[i + 1][3]
        f = t0 / (t0 + t1) if t0 + t1 else 0.0
        a, b = reps[i - 1], reps[i + 1]
        w = geo.ang(a["LAT"], a["LON"], b["LAT"], b["LON"])
        if w < 1e-9:
            la, lo = a["LAT"], a["LON"]
        else:
            u, v = geo.vec(a["LAT"], a["LON"]), geo.vec(b["LAT"], b["LON"])
            x = [math.sin((1 - f) * w) / math.sin(w) * p + math.sin(f * w) / math.sin(w) * q for p, q in zip(u, v)]
            la, lo = math.degrees(math.atan2(x[2], math.hypot(x[0], x[1]))), math.degrees(math.atan2(x[1], x[0]))
        out.append(None if w > 3.1 else geo.dist(la, lo, reps[i]["LAT"], reps[i]["LON"]))
    return out + [None] if len(reps) > 1 else [None]


def verdicts(reps, par):
    """list of True/False/None per report for one pass over at least three time-ordered reports, or None"""
    n = len(reps)
    hops = [(None,) * 4] + [hop(reps[i - 1], reps[i]) for i in range(1, n)]
    alt = [None] + [hop(reps[i - 1], reps[i + 1])[0] for i in range(1, n - 1)] + [None]
    speed = [h[0] for h in hops]
    mode = modal(speed)
    if mode == "edge":
        return None
    lim = amax(mode)
    fwd, rev, mid = forward(reps, hops), reverse(reps, hops), midpoints(reps, hops)
    out = [False]
    for i in range(1, n - 1):
        a = lor(land(gt(speed[i], lim), gt(alt[i - 1], lim)), land(gt(speed[i + 1], lim), gt(alt[i + 1], lim)), land(gt(speed[i], lim), gt(speed[i + 1], lim)))
        p, q = reps[i - 1], reps[i]
        b1 = False
        if vsi(p) and vsi(q) and vsi(p) > 0 and vsi(q) > 0 and hops[i][3] > 0:
            allowed = hops[i][3] * (vsi(p) + vsi(q)) / 2 * NM
            b1 = land(gt(fwd[i], allowed), gt(rev[i], allowed))
        b2 = False
        if dsi(p) is not None and dsi(q) is not None:
            dk, crs = hops[i][1], hops[i][2]
            if (p["LAT"], p["LON"]) != (q["LAT"], q["LON"]) and (dk < 0.05 or dk > 20000):
                b2 = None
            else:
                b2 = lor(*[gt(geo.dang(k, crs), par["max_direction_change"], 0, 0.05) for k in (dsi(p), dsi(q))])
        b3 = False
        if vsi(p) is not None and vsi(q) is not None:
            b3 = land(*[gt(abs(k * NM - speed[i]), par["max_speed_change"] * NM) for k in (vsi(p), vsi(q))])
        b4 = gt(speed[i], par["max_absolute_speed"] * NM)
        mp = gt(mid[i], par["max_midpoint_discrepancy"] * NM)
        if mid[i] is None:
            mp = None
        out.append(land(mp, a, lor(b1, b2, b3, b4)))
    return out + [False]
