"""C11 interpolated climatology."""
import itertools
import math
from fractions import Fraction as F

import numpy as np

import Climatology
import Extended_IMMA as ex
import qc
from core import Stream
from grid import doy, exists

RULE = ("All 16 gap patterns of four corners with random positions inside and on the edges; whole fields (1 and 73 steps) with random sparse values, constant fields and fields linear in latitude and longitude, probed at cell centres, centre lines, edges, corners, poles, dateline and at random; "
        "oracle: exact rational bilinear interpolation of the four surrounding cell centres with the documented fill rule; on centre lines either neighbour may be used for filling.")


def mean(*v):
    v = [x for x in v if x is not None]
    return sum(v) / len(v) if v else None


def first(*v):
    for x in v:
        if x is not None:
            return x
    return None


def fill(q11, q12, q21, q22):
    return (first(q11, mean(q12, q21), q22), first(q12, mean(q11, q22), q21), first(q21, mean(q11, q22), q12), first(q22, mean(q12, q21), q11))


def gen_corner(r, i):
    pat = i % 16
    q = [None if pat >> k & 1 else r.choice([r.randint(-80, 80) / 4.0, r.uniform(-5, 35)]) for k in range(4)]
    x1, y1 = r.randint(-360, 360) / 2.0, r.randint(-180, 180) / 2.0
    w, h = r.choice([1.0, 1.0, 0.25, 2.0]), r.choice([1.0, 1.0, 0.5])
    fx, fy = [r.choice([0.0, 1.0, 0.5, r.randint(0, 64) / 64.0]) for k in "xy"]
    return (x1, x1 + w, y1, y1 + h, x1 + fx * w, y1 + fy * h) + tuple(q)


def check_corner(c, m):
    x1, x2, y1, y2, x, y = c[:6]
    q = c[6:]
    got = qc.fill_missing_vals(*q)
    want = fill(*q)
    ctx = lambda: repr(c)
    for g, w in zip(got, want):
        m.near(g, w, 1e-9, "fill", ctx)
    for g, o in zip(got, q):
        if o is not None:
            m.eq(g, o, "fill-changed-a-present-value", ctx)
    m.event("missing-corners-%d" % sum(v is None for v in q))
    if want[0] is None:
        return
    fx, fy = F(x - x1) / F(x2 - x1), F(y - y1) / F(y2 - y1)
    a, b, cc, d = [F(v) for v in want]           # 11 12 21 22
    w = a * (1 - fx) * (1 - fy) + cc * fx * (1 - fy) + b * (1 - fx) * fy + d * fx * fy
    v = qc.bilinear_interp(x1, x2, y1, y2, x, y, *want)
    m.near(v, float(w), 1e-9, "bilinear", ctx)
    m.ok(min(want) - 1e-9 <= v <= max(want) + 1e-9, "bounded", ctx)


def pos(r):
    k = r.random()

    def one(lim):
        return r.choice([r.randint(-lim, lim - 1) + 0.5, float(r.randint(-lim, lim)), r.uniform(-lim, lim), r.randint(-lim * 64, lim * 64) / 64.0,
                         r.choice([-1, 1]) * (lim - r.choice([0.0, 0.25, 0.5, 0.75, 0.01]))])
    return one(90), one(180)


def gen_field(r, i):
    kind = r.choice(["sparse", "sparse", "sparse", "plain", "constant", "linear-lat", "linear-lon"])
    lat, lon = pos(r)
    return (kind, r.choice([1, 73]), r.choice([0.1, 0.4, 0.7, 0.9]), r.randint(0, 10 ** 6), [[lat, lon]] + [list(pos(r)) for k in range(7)],
            [r.choice([(1, 1), (12, 31), (2, 29), (r.randint(1, 12), r.randint(1, 28)), (r.randint(1, 12), r.randint(1, 28)), (4, 31), (13, 1)]) for k in range(2)])


_cache = {}


def field(kind, n, holes, seed):
    if kind != "sparse":
        holes = 0
    key = (kind, n, holes, seed % 2)
    if key not in _cache:
        g = np.random.RandomState(seed % 2)
        f = g.randint(-40, 120, size=(n, 180, 360)) / 4.0
        if kind == "constant":
            f[:] = 7.25
        if kind == "linear-lat":
            f[:] = (0.25 * (89.5 - np.arange(180)))[None, :, None]
        if kind == "linear-lon":
            f[:] = (0.125 * (-179.5 + np.arange(360)))[None, None, :]
        mask = None
        if kind == "sparse":
            mask = g.uniform(size=f.shape) < holes
            f = np.ma.array(f, mask=mask)
        _cache[key] = (f, mask)
    return _cache[key]


def prepare():
    for kind in ("sparse", "plain", "constant", "linear-lat", "linear-lon"):
        for n in (1, 73):
            for holes in (0.1, 0.4, 0.7, 0.9) if kind == "sparse" else (0,):
                for seed in (0, 1):
                    field(kind, n, holes, seed)


def bounds(v):
    """pairs of surrounding half-integer centres (two choices on a centre line)"""
    k = math.floor(v - 0.5) + 0.5
    return [(k, k + 1)] + ([(k - 1, k)] if k == v else [])


def touching(v):
    """cells (by lower edge) containing v, both on an edge"""
    k = math.floor(v)
    return [k] + ([k - 1] if k == v else [])


class Rec:
    def __init__(self, data):
        self.data = data


def check_field(c, m):
    kind, n, holes, seed, places, dates = c
    f, mask = field(kind, n, holes, seed)
    cl = Climatology.Climatology(f)
    for mo, dy in dates:
        for lat, lon in places:
            ctx = lambda: repr((kind, n, holes, seed, [[lat, lon]], [(mo, dy)]))
            dist = [abs(v - round(v)) for v in (lat, lon)]
            if any(0 < d < 0.002 for d in dist):
                m.event("near-edge-skipped")
                continue
            ok = exists(mo, dy)
            got = [cl.get_interpolated_value(lat, lon, mo, dy)]
            rep = ex.MarineReport(Rec(dict(ID="A", YR=2004, MO=mo, DY=dy, HR=1.0, LAT=lat, LON=lon)))
            got.append(qc.get_clim_interpolated(rep, f))
            if not ok:
                m.eq(got, [None, None], "date-does-not-exist", ctx)
                m.event("date-does-not-exist")
                continue
            t = 0 if n == 1 else doy(mo, dy) // 5

            def cell(la, lo):       # value of the cell with this lower edge, None if missing
                y = min(max(89 - la, 0), 179)
                x = (lo + 180) % 360
                if mask is not None and mask[t, y, x]:
                    return None
                return float(f[t, y, x])
            near = [cell(a, b) for a in touching(lat) for b in touching(lon) if -90 <= a <= 89]
            if all(v is None for v in near):
                m.eq(got, [None, None], "no-data-nearby", ctx)
                m.event("no-data-nearby")
                continue
            want = set()
            used = set()
            for y1, y2 in bounds(lat):
                for x1, x2 in bounds(lon):
                    lo = [int(x1 - 0.5), int(x2 - 0.5)]
                    la = [int(max(y1, -89.5) - 0.5), int(min(y2, 89.5) - 0.5)]
                    q = [cell(la[0], lo[0]), cell(la[1], lo[0]), cell(la[0], lo[1]), cell(la[1], lo[1])]
                    used.update(v for v in q if v is not None)
                    m.event("missing-corners-%d" % sum(v is None for v in q))
                    a, b, cc, d = fill(*q)
                    fx, fy = lon - x1, lat - y1
                    want.add(a * (1 - fx) * (1 - fy) + cc * fx * (1 - fy) + b * (1 - fx) * fy + d * fx * fy)
            for g, who in zip(got, ("field", "report")):
                m.ok(g is not None and min(abs(g - w) for w in want) < 1e-6, "interpolated-" + who, lambda: "%s got %r expected one of %r" % (ctx(), g, sorted(want)))
                m.ok(min(used) - 1e-6 <= g <= max(used) + 1e-6, "bounded", ctx)
                if lat % 1 == 0.5 and lon % 1 == 0.5:
                    m.near(g, near[0], 1e-9, "cell-centre", ctx)
                    m.event("cell-centre")
                if kind == "constant":
                    m.near(g, 7.25, 1e-6, "constant", ctx)
                if kind == "linear-lat" and abs(lat) <= 89.5:
                    m.near(g, 0.25 * lat, 1e-6, "linear-latitude", ctx)
                if kind == "linear-lon" and abs(lon) <= 179.5:
                    m.near(g, 0.125 * lon, 1e-6, "linear-longitude", ctx)
            if abs(lat) > 89.5:
                m.event("polar")
            if abs(lon) > 179.5:
                m.event("dateline")


STREAMS = [
    Stream("corners", gen_corner, check_corner, 48000, 500000, need=16000),
    Stream("fields", gen_field, check_field, 9000, 120000, need=10000),
]
