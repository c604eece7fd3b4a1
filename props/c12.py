"""C12 humidity conversions."""
import math

import CalcHums as ch
import Extended_IMMA as ex
from core import Stream
from related import related

RULE = ("Dew points -60..45C, temperatures -60..50C (half within 3C of freezing), pressures 800..1080hPa, saturated and slightly supersaturated air, missing inputs, rounded, default and unrounded; reports with and without dew point, temperature and climatological pressure; "
        "oracle: Buck (1981) and Jensen et al. (1990) formulae with the documented constants, inverses, monotonicity along chains of dew points.")


def water(td, p):
    return 6.1121 * (1.0007 + 3.46e-6 * p) * math.exp((18.729 - td / 227.3) * td / (257.87 + td))


def ice(td, p):
    return 6.1115 * (1.0003 + 4.18e-6 * p) * math.exp((23.036 - td / 333.7) * td / (279.82 + td))


def wet(e, td, t, p):
    a = 0.000066 * p
    b = 409.8 * e / (td + 237.3) ** 2
    return (a * t + b * td) / (a + b)


def pressure(td, t, p):
    """(vapour pressure, pseudo wet bulb)"""
    e = water(td, p)
    w = wet(e, td, t, p)
    return (ice(td, p) if w <= 0 else e), w


def spec(e, p):
    return 1000 * 0.622 * e / (p - 0.378 * e)


def tie(v):
    return abs((abs(v) * 10) % 1 - 0.5) < 1e-6


def bisect(f, lo, hi):
    for k in range(70):
        mid = (lo + hi) / 2
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def near_switch(r):
    """air whose pseudo wet bulb lies a chosen tiny distance from freezing"""
    p = r.choice([1013.0, r.uniform(800, 1080)])
    d = r.choice([-1, 1]) * 10 ** r.uniform(-4.5, -1)
    t = d + r.choice([r.uniform(0, 3), r.uniform(0, 9), 10 ** r.uniform(-3, 0)])
    td = bisect(lambda x: wet(water(x, p), x, t, p) - d, t - 25, t)
    return td, t, p


def gen(r, i):
    if r.random() < 0.25:
        return near_switch(r) + (r.uniform(0.05, 3),)
    t = r.choice([r.uniform(-60, 50), r.uniform(-3, 3), r.uniform(-3, 3), float(r.randint(-40, 40)), round(r.uniform(-10, 30), 1), 0.0])
    td = t - r.choice([0.0, 0.0, r.uniform(0, 3), r.uniform(0, 20), round(r.uniform(0, 10), 1), -r.uniform(0, 0.5), float(r.randint(0, 9))])
    td = max(td, -60.0)
    if r.random() < 0.1:
        td = r.choice([0.0, -0.1, 0.1])
    p = r.choice([1013.0, 1013, 1000.0, r.uniform(800, 1080)])
    return (None if r.random() < 0.05 else td, None if r.random() < 0.05 else t, None if r.random() < 0.05 else p, r.uniform(0.05, 3))


def check(c, m):
    td, t, p, step = c
    ctx = lambda: repr(c)
    if None in (td, t, p):
        for fn in (ch.vap, ch.sh, ch.rh, ch.wb):
            for a in ((), (True,), (False,)):
                m.eq(fn(td, t, p, *a), None, "missing-" + fn.__name__, ctx)
        m.event("missing-input")
    if td is None or t is None:
        m.eq(ch.dpd(td, t), None, "missing-dpd", ctx)
        m.eq(ch.dpd(td, t, False), None, "missing-dpd", ctx)
        return
    want = {"dpd": t - td}
    if p is not None:
        e, w = pressure(td, t, p)
        es, ws = pressure(t, t, p)
        if abs(w) < 1e-9 and w != 0 or abs(ws) < 1e-9 and ws != 0:
            m.event("at-the-ice-switch")
            return
        m.event("ice" if w <= 0 else "water")
        want.update(vap=e, sh=spec(e, p), rh=100 * e / es, wb=wet(e, td, t, p))
    got = {}
    for k, v in want.items():
        fn = getattr(ch, k)
        a = (td, t) if k == "dpd" else (td, t, p)
        got[k] = fn(*a, roundit=False)
        m.near(got[k], v, 1e-9 * max(1, abs(v)), k, ctx)
        if not tie(v):
            r1 = math.floor(abs(v) * 10 + 0.5) / 10 * (1 if v >= 0 else -1)
            m.near(fn(*a), r1, 1e-9, k + "-default-rounding", ctx)
            m.near(fn(*a, roundit=True), r1, 1e-9, k + "-rounded", ctx)
    if p is None:
        return
    # conversions and their inverses
    m.near(ch.sh_from_vap(e, p, False), spec(e, p), 1e-9 * spec(e, p), "sh_from_vap", ctx)
    back = ch.vap_from_sh(got["sh"], p, False)
    m.near(back, e, 1e-9 * e, "vap-sh-vap", ctx)
    if not tie(e):
        m.near(ch.vap_from_sh(got["sh"], p), math.floor(e * 10 + 0.5) / 10, 1e-9, "vap_from_sh-rounded", ctx)
    if not tie(spec(e, p)):
        m.near(ch.sh_from_vap(e, p), math.floor(spec(e, p) * 10 + 0.5) / 10, 1e-9, "sh_from_vap-rounded", ctx)
    # dew point from vapour pressure: over water first, over ice if the wet bulb that gives is at or below freezing
    est = bisect(lambda x: math.log(water(x, p) / e), -90.0, 60.0)
    we = wet(e, est, t, p)
    if abs(we) > 1e-7:
        ref = bisect(lambda x: math.log(ice(x, p) / e), -90.0, 60.0) if we <= 0 else est
        m.near(ch.td_from_vap(e, p, t, False), ref, 1e-6, "td_from_vap", ctx)
        if abs((abs(ref) * 10) % 1 - 0.5) > 1e-4:
            m.near(ch.td_from_vap(e, p, t), math.floor(abs(ref) * 10 + 0.5) / 10 * (1 if ref >= 0 else -1), 1e-9, "td_from_vap-default-rounding", ctx)
    if abs(w) < 0.1:
        m.event("near-the-ice-switch")
    # with very dry air (wet bulb over 11 degrees above the dew point) the documented wet-bulb estimate is not monotonic and the
    # ice/water choice cannot be inverted
    if td <= t and abs(w) > 0.02 and w - td < 11:
        m.near(ch.td_from_vap(e, p, t, False), td, 1e-6, "td-vap-td", ctx)
        if not tie(td) and abs((abs(td) * 10) % 1 - 0.5) > 1e-4:
            m.near(ch.td_from_vap(e, p, t), math.floor(abs(td) * 10 + 0.5) / 10 * (1 if td >= 0 else -1), 1e-9, "td_from_vap-rounded", ctx)
    if td == t:
        m.near(got["rh"], 100.0, 1e-9, "saturation", ctx)
        m.near(got["wb"], t, 1e-9, "saturated-wet-bulb", ctx)
        m.event("saturated")
    up = td + step
    if up <= t and (w - td < 11 or (w <= 0) == (pressure(up, t, p)[1] <= 0)):
        for k in ("vap", "sh", "rh"):
            m.ok(getattr(ch, k)(up, t, p, False) > got[k], "not-rising-" + k, ctx)
        m.event("chains")


class Rec:
    def __init__(self, data):
        self.data = data


def gen_rep(r, i):
    td, t, p, _ = gen(r, i)
    if r.random() < 0.1 and t is not None:
        td = t + r.uniform(3, 12)       # relative humidity beyond 150 percent
    return (td, t, p, r.choice([None, 990.0, 1020.0]))


def check_rep(c, m):
    td, t, p, obs = c
    ctx = lambda: repr(c)
    d = dict(ID="A", YR=2000, MO=1, DY=1, HR=1.0, LAT=0.0, LON=0.0, SHU=99.0, VAP=99.0, CRH=99.0, CWB=99.0, DPD=99.0)
    for k, v in (("DPT", td), ("AT", t), ("SLP", obs)):
        if v is not None:
            d[k] = v
    rep = ex.MarineReport(Rec(d))
    rep.add_climate_variable("SLP", p)
    rep.calculate_humidity_variables(["SHU", "VAP", "CRH", "CWB", "DPD"])
    got = [rep.getvar(k) for k in ("VAP", "SHU", "CRH", "CWB", "DPD")]
    m.eq([rep.getvar(k) for k in ("DPT", "AT", "SLP")], [td, t, obs], "inputs-changed", ctx)
    if None in (td, t, p):
        m.eq(got, [None] * 5, "missing", ctx)
        m.event("missing")
        return
    e, w = pressure(td, t, p)
    es, ws = pressure(t, t, p)
    vals = [e, spec(e, p), 100 * e / es, wet(e, td, t, p), t - td]
    if abs(w) < 1e-9 or abs(ws) < 1e-9 or any(tie(v) for v in vals) or abs(vals[2] - 150) < 0.1:
        return
    if vals[2] > 150:
        m.eq(got, [None] * 5, "silly-values-kept", ctx)
        m.event("silly")
        return
    for g, v in zip(got, vals):
        m.near(g, math.floor(abs(v) * 10 + 0.5) / 10 * (1 if v >= 0 else -1), 1e-9, "report-humidity", ctx)
    m.event("calculated")


STREAMS = [
    Stream("conversions", gen, check, 120000, 800000, need=20000),
    Stream("reports", gen_rep, check_rep, 36000, 200000, need=5000),
    Stream("related", *related(gen, check, nudge=False, valid=lambda c: None in c or -60 <= c[0] <= c[1] + 0.5), 15000, 100000, need=500),
]
