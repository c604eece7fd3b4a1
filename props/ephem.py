"""Low-precision solar ephemeris of the Astronomical Almanac (0.01 degrees), independent of qc.sunangle."""
import datetime
import math


def sun_position(dt, lat, lon):
    """(azimuth, elevation, right ascension, hour angle, local sidereal time, declination) in degrees at UTC datetime dt."""
    frac = (dt.hour + dt.minute / 60.0 + dt.second / 3600.0 + dt.microsecond / 3.6e9) / 24.0
    n = dt.toordinal() + 1721424.5 - 2451545.0 + frac
    L = math.radians((280.460 + 0.9856474 * n) % 360)
    g = math.radians((357.528 + 0.9856003 * n) % 360)
    lam = L + math.radians(1.915 * math.sin(g) + 0.020 * math.sin(2 * g))
    eps = math.radians(23.439 - 0.0000004 * n)
    ra = math.atan2(math.cos(eps) * math.sin(lam), math.cos(lam))
    dec = math.asin(math.sin(eps) * math.sin(lam))
    gmst = (18.697374558 + 24.06570982441908 * n) % 24
    lst = math.radians(gmst * 15 + lon)
    ha = lst - ra
    ph = math.radians(lat)
    s = math.sin(ph) * math.sin(dec) + math.cos(ph) * math.cos(dec) * math.cos(ha)
    az = math.atan2(-math.cos(dec) * math.sin(ha), math.sin(dec) * math.cos(ph) - math.cos(dec) * math.cos(ha) * math.sin(ph))
    deg = lambda x: math.degrees(x) % 360.0
    return deg(az), math.degrees(math.asin(max(-1.0, min(1.0, s)))), deg(ra), deg(ha), deg(lst), math.degrees(dec)


def sun_elevation(dt, lat, lon):
    """(elevation, declination) in degrees at UTC datetime dt."""
    p = sun_position(dt, lat, lon)
    return p[1], p[5]


def tolerance(year):
    """Agreement claimed for the project's scheme: hundredths of a degree, except that it treats 1900 as a leap year."""
    return 0.03 if year > 1901 else 0.45


def when(y, mo, dy, hr, back=0.0):
    return datetime.datetime(y, mo, dy) + datetime.timedelta(seconds=round((hr - back) * 3600.0, 3))


def is_day(y, mo, dy, hr, lat, lon, back=1.0, limit=0.0):
    """1, 0 or None when too close to call."""
    t = when(y, mo, dy, hr, back)
    e, _ = sun_elevation(t, lat, lon)
    if abs(e - limit) <= tolerance(t.year):
        return None
    return 1 if e > limit else 0
