"""Exact cell of a position (rational arithmetic); row 0 is north, column 0 starts at 180W."""
import math
from fractions import Fraction as F


def default_cell(lat, lon, res):
    """edges go south and east"""
    res = F(res)
    n = int(180 / res)
    y = min(max(math.floor((90 - F(lat)) / res), 0), n - 1)
    x = math.floor(((F(lon) + 180) % 360) / res)
    return y, x


def mds_cell(lat, lon, res):
    """edges go away from the equator and Greenwich; 0 goes south and west"""
    res = F(res)
    la, lo = F(lat), F(lon)
    if lo > 180:
        lo -= 360
    h = int(90 / res)
    if la > 0:
        y = max(h - 1 - math.floor(la / res), 0)
    else:
        y = min(h + math.floor(-la / res), 2 * h - 1)
    h = int(180 / res)
    if lo > 0:
        x = min(h + math.floor(lo / res), 2 * h - 1)
    else:
        x = max(h - 1 - math.floor(-lo / res), 0)
    return y, x


def doy(mo, dy):
    """0..364, 29 February with 1 March"""
    import datetime
    if (mo, dy) == (2, 29):
        mo, dy = 3, 1
    return datetime.date(2001, mo, dy).timetuple().tm_yday - 1


def exists(mo, dy):
    return mo is not None and dy is not None and 1 <= mo <= 12 and 1 <= dy <= [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][mo - 1]


def near_edge(v, res, eps=1e-6):
    q = v / res
    return abs(q - round(q)) < eps


def coord(r, lo, hi, res):
    k = r.random()
    if k < 0.25:
        v = r.randint(math.ceil(lo / res), math.floor(hi / res)) * res
    elif k < 0.4:
        v = r.choice([lo, hi, 0.0, lo + res, hi - res, -res, res])
    elif k < 0.55:
        v = (r.randint(math.ceil(lo / res), math.floor(hi / res)) + 0.5) * res
    elif k < 0.7:
        v = r.randint(math.ceil(lo / res), math.floor(hi / res)) * res + r.choice([-1, 1]) * 2.0 ** -10
    else:
        v = r.uniform(lo, hi)
    return float(min(max(v, lo), hi))
