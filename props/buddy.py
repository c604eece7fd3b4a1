"""Reference super-observations, neighbourhoods and buddy limits on sparse dictionaries."""
import math

from grid import doy, mds_cell


def cell(lat, lon, mo, dy):
    """(column from 180W, row from north, pentad from 0)"""
    y, x = mds_cell(lat, lon, 1)
    return x, y, doy(mo, dy) // 5


def superobs(obs):
    """obs: (cell, anomaly) -> {cell: (mean, count)}"""
    g = {}
    for c, a in obs:
        g.setdefault(c, []).append(a)
    return {c: (math.fsum(v) / len(v), len(v)) for c, v in g.items()}


def neighbours(grid, radius, c):
    x, y, p = c
    xs = int(radius[0] / math.cos(math.radians(89.5 - y)))
    out = []
    for (i, j, k), v in sorted(grid.items()):
        if (i, j, k) == c:
            continue
        dx, dp = abs(i - x), abs(k - p)
        if min(dx, 360 - dx) <= xs and abs(j - y) <= radius[1] and min(dp, 73 - dp) <= radius[2]:
            out.append(((i, j, k), v))
    return out


def mds_limits(grid, c, stdev, limits, thresholds, multipliers):
    """(mean, allowed difference)"""
    if stdev is None or stdev < 0:
        stdev = 1.0
    for lim, th, mu in zip(limits, thresholds, multipliers):
        nb = neighbours(grid, lim, c)
        if nb:
            tot = sum(n for _, (a, n) in nb)
            k = max(i for i in range(len(th)) if tot > th[i])
            return math.fsum(a for _, (a, n) in nb) / len(nb), mu[k] * stdev, tot
    return 0.0, 500.0, 0


def bayes_limits(grid, c, sd, radius, sigma_m, scale):
    s1, s2, s3 = [1.0 if s is None or s < 0 else s for s in sd]
    nb = neighbours(grid, radius, c)
    if not nb:
        return 0.0, 500.0, 0
    n = len(nb)
    var = sum((sigma_m ** 2 + scale * s2 ** 2) / k for _, (a, k) in nb) / n ** 2 + s3 ** 2 / n
    return math.fsum(a for _, (a, k) in nb) / n, math.sqrt(sigma_m ** 2 + s1 ** 2 + scale * s2 ** 2 + var), n


DAYS = [(m, d) for m in range(1, 13) for d in range(1, [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1] + 1)]


def gen_place(r, centre, spread, tspread):
    """a position and date near the centre (lat, lon, day of leap year 0..365), often on grid edges"""
    lat = centre[0] + r.uniform(-spread, spread)
    lon = centre[1] + r.uniform(-spread, spread) / max(0.02, math.cos(math.radians(min(89, abs(centre[0])))))
    k = r.random()
    if k < 0.15:
        lat = float(round(lat))
    elif k < 0.5:
        lat = round(lat, 1)
    if k < 0.1 or 0.9 < k:
        lon = float(round(lon))
    elif k < 0.6:
        lon = round(lon, 1)
    lat = min(90.0, max(-90.0, lat))
    lon = (lon + 180) % 360 - 180
    if lon == -180 and r.random() < 0.5:
        lon = 180.0
    if lon < 0 and r.random() < 0.1:
        lon += 360
    d = (centre[2] + r.randint(-tspread, tspread)) % 366
    return lat, lon, DAYS[d][0], DAYS[d][1]


def gen_centre(r):
    lat = r.choice([0, 0.5, r.uniform(-60, 60), r.uniform(-75, 75), r.uniform(60, 80), -60.5, 45.5] + ([89, -89.5, 86] if r.random() < 0.3 else []))
    return lat, r.choice([180, -179.5, 0, r.uniform(-180, 180), r.uniform(-180, 180)]), r.choice([0, 3, 364, 59, r.randint(0, 365), r.randint(0, 365)])


# standard-deviation fields shared by the checks: key -> (real climatology, reference lookup)
FIELDS = {}


def make_fields(keys):
    import numpy as np
    import Climatology
    for key in keys:
        n, res, dtype, seed = key
        rng = np.random.default_rng(seed)
        a = rng.choice([0.25, 0.5, 0.8, 1.0, 1.5, 2.5], size=(n, 180 // res, 360 // res)).astype(dtype)
        a += rng.random(a.shape).astype(dtype) * 0.125
        hole = rng.random(a.shape) < 0.06
        neg = rng.random(a.shape) < 0.04
        a[neg] = rng.choice([-1.0, -0.25, -0.001, -7.5, -99.0], size=int(neg.sum()))
        low = rng.random(a.shape) < 0.03
        a[low] = rng.choice([0.0, 0.0, 0.03, 0.001], size=int(low.sum()))
        b = np.ma.array(a, mask=hole) if seed % 2 else a

        def look(c, b=b, a=a, hole=hole, n=n, res=res, masked=seed % 2):
            i = (c[2] if n == 73 else 0), c[1] // res, c[0] // res
            return None if masked and hole[i] else float(a[i])
        FIELDS[key] = (Climatology.Climatology(b), look)


KEYS = [(1, 1, "float64", 1), (1, 1, "float32", 2), (73, 5, "float64", 3), (73, 5, "float32", 4), (73, 2, "float64", 5), (1, 5, "float64", 7)]


def gen_apart(r, lim):
    """a lone report, and a known number of reports some pentads and boxes away"""
    lat, lon, d = gen_centre(r)
    lat = max(-80, min(80, lat))
    lat, lon = math.floor(lat) + 0.5, math.floor(lon) + 0.5
    out = [(lat, lon, 2000) + DAYS[d] + (round(r.uniform(-2, 2), 1), True)]
    for k in range(r.choice([1, 1, 2])):
        w = r.choice([0, 1, 1, 2])
        la, lo = lat + r.choice([-w, 0, w]), lon + r.choice([-w, 0, w, w])
        e = (d + r.choice([-1, 1]) * r.choice([0, 5, 10, 12, 15, 15, 17, 20, 20, 22, 25])) % 366
        for j in range(r.choice([1, 2, 5, 6, 14, 15, 16, 17, 99, 100, 101, 130])):
            out.append((la, (lo + 180) % 360 - 180, 2000) + DAYS[e] + (max(-lim, min(lim, round(r.gauss(0, 1.0), 1))), True))
    return out


def gen_deck(r, n, lim):
    """reports: (lat, lon, year, mo, dy, anomaly or None, selected)"""
    if r.random() < 0.12:
        return gen_apart(r, lim)
    c = gen_centre(r)
    c2 = gen_centre(r) if r.random() < 0.3 else c
    spread, ts = r.choice([0.7, 1.5, 3, 6]), r.choice([0, 3, 8, 25])
    off = r.choice([0, 0, 2.0, -3.0])
    out = []
    k = 0
    while k < n:
        p = gen_place(r, c if r.random() < 0.8 else c2, spread, ts)
        for j in range(r.choice([1, 1, 1, 1, 4, 15])):
            a = round(r.gauss(off, r.choice([0.5, 2.0])), r.choice([1, 2]))
            if r.random() < 0.1:
                a = round(r.uniform(-lim, lim), 1)
            a = max(-lim, min(lim, a))
            sel = r.random() < 0.92
            if not sel and r.random() < 0.5:
                a = r.choice([None, lim + 5.0])
            # the day may differ within the same box
            out.append((p[0], p[1], r.choice([1999, 2000, 2000]), p[2], p[3], a, sel))
            k += 1
    r.shuffle(out)
    return out[:n]
