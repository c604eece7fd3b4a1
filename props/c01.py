"""C01 calendar, pentads, month sequences: judged against datetime and a 73 x 5-day table built here."""
import datetime
import itertools
import random

import qc
from core import Stream

RULE = ("Cases are whole years (every day of the year and impossible days), the 73 pentads, months -30..40, month ranges, and histories of calls over whole years in calendar, reverse and random order in one process; "
        "oracle: proleptic Gregorian calendar of datetime.")
ONE = datetime.timedelta(days=1)


def noleap(mo, dy):
    """1..365, 29 Feb counted as 1 Mar."""
    if (mo, dy) == (2, 29):
        mo, dy = 3, 1
    return datetime.date(2001, mo, dy).timetuple().tm_yday


def refuse(m, fn, args, label):
    """An impossible date must not be given a number."""
    try:
        r = fn(*args)
    except Exception:
        r = None
    if isinstance(r, tuple):
        r = None if all(x is None for x in r) else r
    m.ok(r is None, label, lambda: "%r -> %r for a date that does not exist" % (args, r))


def check_year(y, m):
    isleap = (datetime.date(y, 3, 1) - datetime.date(y, 2, 1)).days == 29
    want = [31, 29 if isleap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    m.eq(list(qc.get_month_lengths(y)), want, "month-lengths", "year %d" % y)
    # a caller that edits its list must not change the next answer
    ml = qc.get_month_lengths(y)
    m.eq(sum(ml), 366 if isleap else 365, "month-lengths-sum")
    d = datetime.date(y, 1, 1)
    n = 0
    while d.year == y:
        n += 1
        m.eq(qc.dayinyear(y, d.month, d.day), n, "dayinyear", lambda: str(d))
        prev = d - ONE if d > datetime.date.min else None
        if prev:
            m.eq(tuple(qc.yesterday(y, d.month, d.day)), (prev.year, prev.month, prev.day), "yesterday", lambda: str(d))
        if d == datetime.date.max:
            break
        d = d + ONE
    m.event("days", n)
    for mo in range(1, 13):
        for dy in (0, -1, want[mo - 1] + 1, 32, 99):
            refuse(m, qc.dayinyear, (y, mo, dy), "dayinyear-impossible")
            refuse(m, qc.yesterday, (y, mo, dy), "yesterday-impossible")
    for mo in (0, -1, 13, 25):
        refuse(m, qc.dayinyear, (y, mo, 10), "dayinyear-impossible")
        refuse(m, qc.yesterday, (y, mo, 10), "yesterday-impossible")
    for mo in range(1, 13):
        m.eq(tuple(qc.last_month_was(y, mo)), (y, mo - 1) if mo > 1 else (y - 1, 12), "last-month")
        m.eq(tuple(qc.next_month_is(y, mo)), (y, mo + 1) if mo < 12 else (y + 1, 1), "next-month")
        for y2, m2 in ((y, mo), (y + 1, mo), (y, mo % 12 + 1), (y - 1, mo)):
            m.eq(qc.month_match(y, mo, y2, m2), 1 if (y, mo) == (y2, m2) else 0, "month-match", "%d-%d %d-%d" % (y, mo, y2, m2))


def check_clim_day(case, m):
    mo, dy = case
    ml = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    if 1 <= mo <= 12 and 1 <= dy <= ml[mo - 1]:
        n = noleap(mo, dy)
        m.eq(qc.day_in_year(mo, dy), n, "day-in-year", "%d-%d" % case)
        p = (n - 1) // 5 + 1
        m.eq(qc.which_pentad(mo, dy), p, "which-pentad", "%d-%d" % case)
        a, b = qc.pentad_to_month_day(p)
        m.ok(0 <= n - noleap(a, b) <= 4, "pentad-contains-day", "%r in pentad %d starting %r" % (case, p, (a, b)))
    else:
        refuse(m, qc.day_in_year, case, "day-in-year-impossible")
        refuse(m, qc.which_pentad, case, "which-pentad-impossible")


def check_pentad(p, m):
    if 1 <= p <= 73:
        first = datetime.date(2001, 1, 1) + datetime.timedelta(days=5 * (p - 1))
        m.eq(tuple(qc.pentad_to_month_day(p)), (first.month, first.day), "pentad-first-day", "pentad %d" % p)
        m.eq(qc.which_pentad(*qc.pentad_to_month_day(p)), p, "pentad-inverse", "pentad %d" % p)
        for k in range(5):
            d = first + datetime.timedelta(days=k)
            m.eq(qc.which_pentad(d.month, d.day), p, "pentad-five-days", str(d))
    else:
        refuse(m, qc.pentad_to_month_day, (p,), "pentad-out-of-range")


SEASON = dict([(12, 'DJF'), (1, 'DJF'), (2, 'DJF'), (3, 'MAM'), (4, 'MAM'), (5, 'MAM'), (6, 'JJA'), (7, 'JJA'),
               (8, 'JJA'), (9, 'SON'), (10, 'SON'), (11, 'SON')])


def check_season(mo, m):
    m.eq(qc.season(mo), SEASON.get(mo), "season", "month %d" % mo)


def gen_range(rng, i):
    y1, m1 = rng.randint(1750, 2030), rng.randint(1, 12)
    k = rng.choice([0, 1, 2, 11, 12, 13, rng.randint(0, 40), rng.randint(0, 600), -1, -rng.randint(1, 30)])
    t = y1 * 12 + m1 - 1 + k
    return (y1, m1, t // 12, t % 12 + 1)


def check_range(case, m):
    y1, m1, y2, m2 = case
    a, b = y1 * 12 + m1 - 1, y2 * 12 + m2 - 1
    want = [(t // 12, t % 12 + 1) for t in range(a, b + 1)]
    try:
        got = [tuple(x) for x in itertools.islice(qc.year_month_gen(*case), len(want) + 5)]
    except Exception:
        m.ok(b < a, "month-range-refused", "%r was refused" % (case,))
        return
    m.event("months", len(want))
    m.eq(got, want, "month-range", "%r" % (case,))


def gen_history(rng, i):
    """calls of all the routines in one process, in any order: nothing may be remembered wrongly"""
    return (rng.randint(0, 10 ** 9), sorted(rng.sample(range(1850, 2025), rng.choice([1, 2, 4]))), rng.choice(["calendar", "reverse", "shuffled"]))


def check_history(case, m):
    seed, years, how = case
    calls = []
    for y in years:
        d = datetime.date(y, 1, 1)
        while d.year == y:
            n, p = noleap(d.month, d.day), d - ONE
            calls.append(("day_in_year", (d.month, d.day), n))
            calls.append(("which_pentad", (d.month, d.day), (n - 1) // 5 + 1))
            calls.append(("dayinyear", (y, d.month, d.day), d.timetuple().tm_yday))
            calls.append(("yesterday", (y, d.month, d.day), (p.year, p.month, p.day)))
            d = d + ONE
        for mo in range(1, 13):
            calls.append(("last_month_was", (y, mo), (y, mo - 1) if mo > 1 else (y - 1, 12)))
            calls.append(("next_month_is", (y, mo), (y, mo + 1) if mo < 12 else (y + 1, 1)))
            calls.append(("season", (mo,), SEASON[mo]))
    for p in range(1, 74):
        d = datetime.date(2001, 1, 1) + datetime.timedelta(days=5 * (p - 1))
        calls.append(("pentad_to_month_day", (p,), (d.month, d.day)))
    if how == "reverse":
        calls.reverse()
    elif how == "shuffled":
        random.Random(seed).shuffle(calls)
    for name, args, want in calls:
        got = getattr(qc, name)(*args)
        m.eq(tuple(got) if isinstance(got, tuple) else got, want, "history-" + name, lambda: "%r in %r" % (args, case))
    m.event("history-calls", len(calls))


STREAMS = [
    Stream("histories", gen_history, check_history, 150, 3000, need=100000),
    Stream("years", [1, 2, 3, 4, 100, 400, 1582] + list(range(1596, 2405)), check_year, None, None, need=1000),
    Stream("climatological-days", [(a, b) for a in range(-1, 15) for b in range(-1, 34)], check_clim_day, None, None, need=300),
    Stream("pentads", list(range(-3, 80)), check_pentad, None, None, need=73),
    Stream("seasons", list(range(-30, 41)), check_season, None, None, need=50),
    Stream("month-ranges", gen_range, check_range, 15000, 60000, need=1000),
]
