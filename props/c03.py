"""C03 grid indexing: exact rational cell containment with the documented edge rules."""
import math
from fractions import Fraction as F

import qc
from core import Stream
from related import related

RULE = ("Positions on cell edges, cell centres, just off edges, poles, dateline, Greenwich and at random, at resolutions 1, 0.5, 0.25, 2, 5 (default grid also 0.05); "
        "oracle: exact rational cell containment plus the documented edge rule.")
RES = [1, 1, 1, 1.0, 0.5, 0.25, 0.25, 2, 5, 0.05]


def gen(rng, i):
    res = rng.choice(RES)

    def coord(lo, hi):
        r = rng.random()
        if r < 0.3:
            k = rng.randint(int(lo / res), int(hi / res))
            v = k * res
        elif r < 0.45:
            v = rng.choice([lo, hi, 0.0, lo + res, hi - res, -res, res, lo + res / 2.])
        elif r < 0.6:
            v = rng.randint(int(lo / res), int(hi / res)) * res + rng.choice([-1, 1]) * rng.choice([0.001, 0.01, 1e-6])
        elif r < 0.7:
            v = round(rng.uniform(lo, hi), 1)
        elif r < 0.8:
            v = (rng.randint(int(lo / res), int(hi / res)) + 0.5) * res
        else:
            v = rng.uniform(lo, hi)
        return min(max(v, lo), hi)
    lat = coord(-90.0, 90.0)
    lon = coord(-180.0, rng.choice([180.0, 360.0]))
    if rng.random() < 0.2 and res == 1:
        lat, lon = int(lat), int(lon)
    return (res, lat, lon)


def rules(value, res, up_edge):
    """index of the cell [k*res, (k+1)*res) containing value; on an exact edge, the upper cell if up_edge else the lower.
    Returns None when the value is so near an edge that rounding decides."""
    if res == 0.05:
        q = value * 20
        exact = False
    else:
        q = F(value) / F(res)
        exact = True
    k = math.floor(q)
    near = min(q - k, k + 1 - q)
    if exact and q == k:
        return int(k) if up_edge else int(k) - 1
    if near < 1e-7:
        return None
    return int(k)


def wrap180(lon):
    return lon - 360 if lon >= 180 else lon


def check(case, m):
    res, lat, lon = case
    ny, nx = int(F(180) / F(res) if res != 0.05 else 3600), int(F(360) / F(res) if res != 0.05 else 7200)
    y = qc.lat_to_yindex(lat, res)
    x = qc.lon_to_xindex(lon, res)
    m.ok(y == int(y) and 0 <= y < ny, "lat-index-range", lambda: "%r -> %r" % (case, y))
    m.ok(x == int(x) and 0 <= x < nx, "lon-index-range", lambda: "%r -> %r" % (case, x))
    # default grid: row 0 at the north, edges go south, -90 stays in the last row
    k = rules(90 - F(lat), res, True) if res != 0.05 else rules(90 - lat, res, True)
    if k is not None:
        m.eq(y, min(k, ny - 1), "lat-index", "%r" % (case,))
    l = F(lon) if res != 0.05 else lon
    k = rules((wrap180(l) + 180), res, True)
    if k is not None:
        m.eq(x, k % nx, "lon-index", "%r" % (case,))
    # the cell centre is within half a cell of the position, and maps back
    if res != 0.05:
        clat, clon = qc.yindex_to_lat(y, res), qc.xindex_to_lon(x, res)
        m.ok(abs(clat - lat) <= res / 2.0 + 1e-6, "lat-centre", lambda: "%r cell centre %r" % (case, clat))
        dl = abs((clon - lon + 180.0) % 360.0 - 180.0)
        m.ok(dl <= res / 2.0 + 1e-6, "lon-centre", lambda: "%r cell centre %r" % (case, clon))
        m.eq(qc.lat_to_yindex(clat, res), y, "lat-centre-back", "%r" % (case,))
        m.eq(qc.lon_to_xindex(clon, res), x, "lon-centre-back", "%r" % (case,))
        m.eq(qc.mds_lat_to_yindex(clat, res), y, "mds-lat-centre-back", "%r" % (case,))
        m.eq(qc.mds_lon_to_xindex(clon, res), x, "mds-lon-centre-back", "%r" % (case,))
    if lon < 0:
        x2 = qc.lon_to_xindex(lon + 360, res)
        if rules(l + 180, res, True) is not None and rules(F(lon + 360), 1 if res == 0.05 else res, True) is not None:
            m.eq(x2, x, "lon-convention", "%r" % (case,))
    # MDS grid
    my, mx = qc.mds_lat_to_yindex(lat, res), qc.mds_lon_to_xindex(lon, res)
    m.ok(my == int(my) and 0 <= my < ny, "mds-lat-range", lambda: "%r -> %r" % (case, my))
    m.ok(mx == int(mx) and 0 <= mx < nx, "mds-lon-range", lambda: "%r -> %r" % (case, mx))
    lf = F(lat) if res != 0.05 else lat
    # north: edges go north (lower row index); south and equator: edges go south; +-90 stay inside
    k = rules(90 - lf, res, not lat > 0)
    if k is not None:
        m.eq(my, min(max(k, 0), ny - 1), "mds-lat-index", "%r" % (case,))
    ll = l if lon <= 180 else l - 360
    k = rules(ll + 180, res, ll > 0)
    if k is not None:
        m.eq(mx, min(max(k, 0), nx - 1), "mds-lon-index", "%r" % (case,))
    m.event("positions")
    if lat in (-90, 90) or lon in (-180, 180, 360, 0) or lat == 0:
        m.event("special-positions")


def check_cells(res, m):
    """Every cell of a grid: index -> centre -> index, centres strictly ordered, half a cell off the edges."""
    ny, nx = int(180 / res), int(360 / res)
    for j in range(ny):
        c = qc.yindex_to_lat(j, res)
        m.near(c, 90 - (j + 0.5) * res, 1e-9, "row-centre", "row %d res %g" % (j, res))
        m.eq(qc.lat_to_yindex(c, res), j, "row-back", "row %d res %g" % (j, res))
    for i in range(nx):
        c = qc.xindex_to_lon(i, res)
        m.near(c, -180 + (i + 0.5) * res, 1e-9, "column-centre", "column %d res %g" % (i, res))
        m.eq(qc.lon_to_xindex(c, res), i, "column-back", "column %d res %g" % (i, res))
    if res == 1:
        for j in range(ny):
            m.near(qc.yindex_to_lat(j), 89.5 - j, 1e-9, "row-centre-default", "row %d" % j)
        for i in range(nx):
            m.near(qc.xindex_to_lon(i), -179.5 + i, 1e-9, "column-centre-default", "column %d" % i)
        for lat2 in range(-180, 181):
            lat = lat2 / 2.0
            m.eq(qc.lat_to_yindex(lat), min(math.floor(90 - lat), 179), "lat-default-res", "lat %g" % lat)
            want = math.floor(90 - lat) if not (lat > 0 and lat == int(lat)) else int(90 - lat) - 1
            m.eq(qc.mds_lat_to_yindex(lat), min(max(want, 0), 179), "mds-lat-default-res", "lat %g" % lat)
        for lon2 in range(-360, 720):
            lon = lon2 / 2.0
            m.eq(qc.lon_to_xindex(lon), math.floor(lon + 180) % 360, "lon-default-res", "lon %g" % lon)
            l = lon if lon <= 180 else lon - 360
            want = math.floor(l + 180) if not (l <= 0 and l == int(l)) else int(l + 180) - 1
            m.eq(qc.mds_lon_to_xindex(lon), min(max(want, 0), 359), "mds-lon-default-res", "lon %g" % lon)


STREAMS = [
    Stream("positions", gen, check, 360000, 2500000, need=10000),
    Stream("cells", [1, 1.0, 0.5, 0.25, 2, 2.0, 5, 5.0], check_cells, None, None, need=1000),
    Stream("related", *related(gen, check, kind=0, fix=(0,), valid=lambda c: -90 <= c[1] <= 90 and -180 <= c[2] <= 360), 20000, 150000, need=500),
]
