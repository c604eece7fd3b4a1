"""C02 Julian day and elapsed hours: judged against datetime ordinals and exact rational hours."""
import datetime
from fractions import Fraction

import qc
from core import Stream
from related import related

RULE = "Whole years of consecutive days; random pairs and triples of date-times, near and far, around month, year and leap-day boundaries."


def check_year(y, m):
    d = datetime.date(y, 1, 1)
    prev = None
    while d.year == y:
        j = qc.jul_day(d.year, d.month, d.day)
        m.eq(j, d.toordinal() + 1721425, "julian-day", lambda: str(d))
        if prev is not None:
            m.eq(j - prev, 1, "julian-day-step", lambda: str(d))
        prev = j
        if d == datetime.date.max:
            break
        d += datetime.timedelta(days=1)


HOURS = [0, 0.0, 23.99, 12, 6, 18.5, 23, 0.01, 1]


def rdate(rng):
    r = rng.random()
    if r < 0.3:
        y = rng.choice([1750, 1799, 1800, 1850, 1899, 1900, 1904, 1999, 2000, 2001, 2004, 2023, 2024, 2100])
        mo, dy = rng.choice([(1, 1), (12, 31), (2, 28), (3, 1), (2, 1), (1, 31), (4, 30), (10, 1), (9, 30)])
        if rng.random() < 0.3 and (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)):
            mo, dy = 2, 29
        return datetime.date(y, mo, dy)
    return datetime.date(rng.randint(1750, 2100), 1, 1) + datetime.timedelta(days=rng.randint(0, 364))


def gen(rng, i):
    d = rdate(rng)
    out = []
    for k in range(3):
        h = rng.choice(HOURS) if rng.random() < 0.4 else round(rng.uniform(0, 23.99), 2)
        out.append((d.year, d.month, d.day, h))
        step = rng.choice([0, 0, 1, -1, 2, 28, 31, -31, 365, 366, rng.randint(-40000, 40000), rng.randint(-10, 10)])
        try:
            d = d + datetime.timedelta(days=step)
        except OverflowError:
            pass
        if not 1750 <= d.year <= 2100:
            d = rdate(rng)
    rng.shuffle(out)
    return tuple(out)


def hours(a, b):
    da = datetime.date(*a[:3]).toordinal()
    db = datetime.date(*b[:3]).toordinal()
    return (db - da) * 24 + float(Fraction(b[3]) - Fraction(a[3]))


def check(case, m):
    a, b, c = case
    tol = 5e-7      # Julian days in double precision resolve about 1e-8 h
    dab = qc.time_difference(*(a + b))
    m.near(dab, hours(a, b), tol * 24, "elapsed", "%r to %r" % (a, b))
    m.near(qc.time_difference(*(b + a)), -hours(a, b), tol * 24, "elapsed-swapped", "%r to %r" % (b, a))
    m.near(qc.time_difference(*(a + a)), 0.0, 0.0, "elapsed-same", "%r" % (a,))
    m.near(dab + qc.time_difference(*(b + c)), hours(a, c), tol * 72, "elapsed-chain", "%r" % (case,))
    if dab is not None and abs(hours(a, b)) > 1e-3:
        m.ok((dab > 0) == (hours(a, b) > 0), "elapsed-sign", "%r" % (case,))
    for x, y in ((a[:3] + (None,), b), (a, b[:3] + (None,)), (a[:3] + (None,), b[:3] + (None,))):
        m.eq(qc.time_difference(*(x + y)), None, "missing-hour", "%r %r" % (x, y))
    if a[:2] != b[:2]:
        m.event("crosses-month")
    if a[0] != b[0]:
        m.event("crosses-year")


STREAMS = [
    Stream("julian-days", list(range(1, 10000)), check_year, 800, None, need=10000),
    Stream("elapsed", gen, check, 240000, 1500000, need=10000),
    Stream("related", *related(gen, check, nudge=False), 20000, 150000, need=500),
]
