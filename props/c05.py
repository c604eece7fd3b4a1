"""C05 day/night: judged with an independent solar ephemeris."""
import datetime
import math

import qc
import trackqc
from core import Stream
from related import related
from ephem import sun_elevation, sun_position, is_day, tolerance, when

RULE = ("Dates 1850-2024 (weighted to year ends, leap days and months ends), hours incl. just after midnight, all latitudes and longitudes in both conventions, look-back 0-3 h and "
        "drifter thresholds -10..60; half of the cases are placed close to sunrise or sunset, many within a few hundredths of a degree of elevation; oracle: Astronomical Almanac ephemeris, cases within 0.03 degrees (0.45 before 1902) skipped.")


def gen(rng, i):
    y = rng.choice([1850, 1899, 1900, 1901, 1904, 1950, 1979, 1980, 1981, 1999, 2000, 2001, 2023, 2024]) if rng.random() < 0.3 else rng.randint(1850, 2024)
    r = rng.random()
    if r < 0.25:
        mo, dy = rng.choice([(1, 1), (1, 2), (12, 31), (12, 30), (2, 28), (3, 1), (6, 21), (12, 21), (3, 20), (9, 22)])
    else:
        d = datetime.date(y, 1, 1) + datetime.timedelta(days=rng.randint(0, 364))
        mo, dy = d.month, d.day
    hr = rng.choice([0.0, 0, 0.5, 0.99, 1.0, 23.99, 23, 12, 18.25]) if rng.random() < 0.4 else round(rng.uniform(0, 23.99), 2)
    lat = rng.choice([0.0, 90.0, -90.0, 66.5, -66.5, 0]) if rng.random() < 0.15 else round(rng.uniform(-90, 90), 1)
    lon = rng.choice([0.0, 180.0, -180.0, 0, 359.9]) if rng.random() < 0.15 else round(rng.uniform(-180, 360), 1)
    back = rng.choice([1.0, 1.0, 1.0, 1, 0.0, 0.5, 2.0, 3.0])
    if rng.random() < 0.08:
        # the hours around midnight of the end of February and of the year
        y = rng.choice([1904, 1905, 1980, 1981, 1999, 2000, 2001, 2004, 2005, 2013, 2024])
        mo, dy = rng.choice([(1, 1), (1, 1), (3, 1), (12, 31)])
        hr = round(rng.uniform(0, 1.2), 2)
    limit = rng.choice([-2.5, -2.5, 0.0, 30.0, rng.uniform(-10, 60)])
    if rng.random() < 0.5:
        # move in longitude to near the threshold
        target = (0.0, limit)[rng.randint(0, 1)]
        t = when(y, mo, dy, hr, back if target == 0.0 else 0.0)
        f = lambda l: abs(sun_elevation(t, lat, l)[0] - target)
        best = min((-180 + k * 5 for k in range(72)), key=f)
        best = min((round(best + k * 0.5, 1) for k in range(-6, 7)), key=f)
        lon = best + rng.choice([-2, -1, -0.5, 0.5, 1, 2])
        if rng.random() < 0.4:
            near = [l for l in (best + k * 0.03 for k in range(-20, 21)) if tolerance(y) < f(l) < tolerance(y) + 0.08]
            lon = round(rng.choice(near), 4) if near else lon
        lon = max(-180.0, min(360.0, lon))
    return (y, mo, dy, hr, lat, lon, back, limit)


def check(case, m):
    y, mo, dy, hr, lat, lon, back, limit = case
    ctx = lambda: repr(case)
    alt = lon + 360 if lon < 0 else (lon - 360 if lon > 180 else None)
    w = is_day(y, mo, dy, hr, lat, lon, back)
    if w is None:
        m.event("too-close-to-call")
    else:
        got = qc.day_test(y, mo, dy, hr, lat, lon, back)
        m.eq(got, w, "day-night", ctx)
        m.event("day" if w else "night")
        if back == 1:
            m.eq(qc.day_test(y, mo, dy, hr, lat, lon), w, "day-night-default", ctx)
        if alt is not None:
            m.eq(qc.day_test(y, mo, dy, hr, lat, alt, back), w, "day-night-longitude-convention", ctx)
        if when(y, mo, dy, hr, back).day != dy:
            m.event("previous-day")
    w = is_day(y, mo, dy, hr, lat, lon, 0.0, limit)
    if w is not None:
        m.eq(bool(trackqc.track_day_test(y, mo, dy, hr, lat, lon, limit)), bool(w), "drifter-day-night", ctx)
        if alt is not None:
            m.eq(bool(trackqc.track_day_test(y, mo, dy, hr, lat, alt, limit)), bool(w), "drifter-day-night-longitude-convention", ctx)
    w = is_day(y, mo, dy, hr, lat, lon, 0.0, -2.5)
    if w is not None:
        m.eq(bool(trackqc.track_day_test(y, mo, dy, hr, lat, lon)), bool(w), "drifter-day-night-default", ctx)


def real(c):
    try:
        datetime.date(*c[:3])
    except ValueError:
        return False
    return 0 <= c[3] < 24 and -90 <= c[4] <= 90 and -180 <= c[5] <= 360 and 0 <= c[6] <= 3


def gen_sun(rng, i):
    c = gen(rng, i)[:6]
    return c + (rng.choice([0, 0, rng.randint(-12, 12), 21.38]), rng.choice([0, 0, 1]), rng.randint(0, 59))


def turn(a, b):
    return abs((a - b + 180.0) % 360.0 - 180.0)


def check_sun(case, m):
    y, mo, dy, hr, lat, lon, zone, dst, sec = case
    ctx = lambda: repr(case)
    h = int(hr)
    mi = int((hr - h) * 60)
    t = datetime.datetime(y, mo, dy, h, mi, sec) + datetime.timedelta(hours=zone - dst)
    az, e, ra, ha, lst, dec = sun_position(t, lat, lon)
    r = qc.sunangle(y, datetime.date(y, mo, dy).timetuple().tm_yday, h, mi, sec, zone, dst, lat, lon)
    tol = tolerance(min(t.year, y))
    m.near(r[1], e, tol, "elevation", ctx)
    m.near(r[5], dec, tol, "declination", ctx)
    wide = tol * 2 if tol < 0.1 else 1.2     # the scheme counts 1900 as a leap year: the sun of the day before
    m.near(turn(r[2], ra), 0.0, wide, "right-ascension", lambda: "%r: %r, expected %r" % (case, r[2], ra))
    m.near(turn(r[3], ha), 0.0, tol * 2, "hour-angle", lambda: "%r: %r, expected %r" % (case, r[3], ha))
    m.near(turn(r[4], lst), 0.0, wide, "sidereal-time", lambda: "%r: %r, expected %r" % (case, r[4], lst))
    c = math.cos(math.radians(e))
    if c > 0.02 and abs(lat) < 89.99:      # an azimuth is undefined with the sun overhead, and a convention at the poles
        m.near(turn(r[0], az) * c, 0.0, tol * 2, "azimuth", lambda: "%r: %r, expected %r" % (case, r[0], az))
        m.event("azimuth-%s%s" % ("N" if lat > 0 else ("S" if lat < 0 else "equator"), "-sun-up" if e > 0 else ""))


STREAMS = [
    Stream("day-night", gen, check, 144000, 600000, need=10000),
    Stream("sun", gen_sun, check_sun, 60000, 300000, need=5000),
    Stream("related", *related(gen, check, valid=real, fix=(7,)), 4000, 40000, need=500),
]
