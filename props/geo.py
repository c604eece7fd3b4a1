"""Independent sphere and time arithmetic, and report builders, for the report, voyage and deck checks."""
import datetime
import math

import Extended_IMMA as ex

R = 6371.0088          # km; the documented mean radius
KM_PER_NM = 1.852


class Rec:
    def __init__(self, data):
        self.data = data


def rep(cls=None, **d):
    return (cls or ex.MarineReportQC)(Rec(d))


def mk(d, cls=None):
    return (cls or ex.MarineReportQC)(Rec(dict(d)))


def vec(lat, lon):
    a, b = math.radians(lat), math.radians(lon)
    return math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)


def ang(lat1, lon1, lat2, lon2):
    u, v = vec(lat1, lon1), vec(lat2, lon2)
    c = (u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0])
    return math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(u, v)))


def dist(lat1, lon1, lat2, lon2):
    return ang(lat1, lon1, lat2, lon2) * R


def course(lat1, lon1, lat2, lon2):
    """Initial course from point 1 to point 2, degrees 0..360."""
    a, b, dl = math.radians(lat1), math.radians(lat2), math.radians(lon2 - lon1)
    return math.degrees(math.atan2(math.sin(dl) * math.cos(b), math.cos(a) * math.sin(b) - math.sin(a) * math.cos(b) * math.cos(dl))) % 360


def dang(a, b):
    return abs((a - b + 180) % 360 - 180)


def hours(d):
    """Exact-enough hours since 1800 of a report dictionary."""
    return (datetime.date(d["YR"], d["MO"], d["DY"]).toordinal() - 657072) * 24 + d["HR"]


def dest(lat, lon, crs, d):
    """Position reached from lat, lon on course crs after d km."""
    a, o, c, x = math.radians(lat), math.radians(lon), math.radians(crs), d / R
    s = math.sin(a) * math.cos(x) + math.cos(a) * math.sin(x) * math.cos(c)
    s = max(-1.0, min(1.0, s))
    la = math.asin(s)
    lo = o + math.atan2(math.sin(c) * math.sin(x) * math.cos(a), math.cos(x) - math.sin(a) * s)
    return math.degrees(la), (math.degrees(lo) + 180) % 360 - 180


def stamp(h0, h):
    """YR, MO, DY, HR of h hours after the datetime h0 (h a multiple of 0.01 survives to 1e-9)."""
    day, rem = divmod(round(h, 6), 24)
    dt = h0 + datetime.timedelta(days=int(day))
    return dict(YR=dt.year, MO=dt.month, DY=dt.day, HR=round(rem, 6))
