"""C07 position, date and time checks."""
import Extended_IMMA as ex
import qc
from core import Stream
from related import related

RULE = ("Positions on a lattice around the limits and random; every combination of a list of valid, boundary and corrupt years, months and days (exhaustive over 1850-2024 days in the thorough tier); hours at and around the limits and missing; "
        "reports built from such fields and put through the report-level checks; oracle: calendar rules written out here.")

ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


class Rec:
    def __init__(self, data):
        self.data = data


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def bad_date(y, mo, d):
    if y < 1850 or y > 2024 or mo < 1 or mo > 12 or d is None:
        return 1
    n = 29 if (mo == 2 and leap(y)) else ML[mo - 1]
    return int(d < 1 or d > n)


def bad_time(h):
    return int(h is None or h < 0 or h >= 24)


def bad_pos(la, lo):
    return int(not (-90 <= la <= 90 and -180 <= lo <= 360))


def pick_lat(r):
    return r.choice([90.0, -90.0, 90.0 + 2.0 ** -30, -90.0 - 2.0 ** -30, 90.01, -90.01, 91, 0.0, r.uniform(-90, 90), r.uniform(-400, 400), 99.9, 1e6, float(r.randint(-95, 95))])


def pick_lon(r):
    return r.choice([-180.0, 360.0, 180.0, -180.0 - 2.0 ** -30, 360.0 + 2.0 ** -30, 360.01, -180.01, 0.0, r.uniform(-180, 360), r.uniform(-800, 800), 999.99,
                     float(r.randint(-190, 370)), 180.01, 359.99])


def pick_year(r):
    return r.choice([1849, 1850, 2024, 2025, 1900, 2000, 1904, 1999, r.randint(1850, 2024), r.randint(1850, 2024), r.randint(1600, 2300), 1, 9999])


def pick_month(r):
    return r.choice([0, 1, 2, 2, 12, 13, -1, r.randint(1, 12), r.randint(1, 12), r.randint(1, 12), 99])


def pick_day(r, y, mo):
    n = 31 if not 1 <= mo <= 12 else 29 if (mo == 2 and leap(y)) else ML[mo - 1]
    return r.choice([None, 0, 1, n, n, n + 1, -1, 28, 29, 30, 31, 32, r.randint(1, 31), 99])


def pick_hour(r):
    return r.choice([None, 0, 0.0, 23.99, 24, 24.0, 23, -0.01, -1, 24.01, 12, 99, r.uniform(0, 24), r.uniform(-30, 50), float(r.randint(0, 24)), 24.0 - 2.0 ** -40])


def gen_fields(r, i):
    y, mo = pick_year(r), pick_month(r)
    return (pick_lat(r), pick_lon(r), y, mo, pick_day(r, y, mo), pick_hour(r))


def check_fields(c, m):
    la, lo, y, mo, d, h = c
    m.eq(qc.position_check(la, lo), bad_pos(la, lo), "position", lambda: repr(c))
    m.eq(qc.date_check(y, mo, d), bad_date(y, mo, d), "date", lambda: repr(c))
    m.eq(qc.time_check(h), bad_time(h), "time", lambda: repr(c))
    m.event("position-bad" if bad_pos(la, lo) else "position-good")
    m.event("date-bad" if bad_date(y, mo, d) else "date-good")
    m.event("time-bad" if bad_time(h) else "time-good")


YEARS = list(range(1845, 2030))


def check_year(y, m):
    """Every month -1..14 and day -1..33 of the year."""
    for mo in range(-1, 15):
        for d in [None] + list(range(-1, 34)):
            m.eq(qc.date_check(y, mo, d), bad_date(y, mo, d), "date", lambda: repr((y, mo, d)))
    m.event("years-completed")


def check_report(c, m):
    """The same verdicts on a report built from the fields, before and after edits, and the run goes on."""
    la, lo, y, mo, d, h = c
    data = dict(ID="AB", UID="U", LAT=la, LON=lo, YR=y, MO=mo, DY=d, HR=h, DCK=700, PT=5, SST=12.5)
    rep = ex.MarineReportQC(Rec(data))
    rep.do_position_check()
    rep.do_date_check()
    rep.do_time_check()
    want = (bad_pos(la, lo), bad_date(y, mo, d), bad_time(h))
    got = tuple(rep.get_qc("POS", k) for k in ("pos", "date", "time"))
    m.eq(got, want, "report-flags", lambda: repr(c))
    rep.do_day_check(1.0)
    if any(want):
        m.eq(rep.get_qc("POS", "day"), 1, "day-of-bad-report", lambda: repr(c))
    else:
        m.ok(rep.get_qc("POS", "day") in (0, 1), "day-range", lambda: repr(c))
    # repaired and broken again
    rep.setvar("MO", 7)
    rep.setvar("DY", 15)
    rep.setvar("YR", 1965)
    rep.setvar("HR", 11.5)
    rep.setvar("LAT", 10.0)
    rep.setvar("LON", 350.0)
    rep.do_position_check()
    rep.do_date_check()
    rep.do_time_check()
    m.eq(tuple(rep.get_qc("POS", k) for k in ("pos", "date", "time")), (0, 0, 0), "repaired-report", lambda: repr(c))
    rep.setvar("HR", h)
    rep.setvar("YR", y)
    rep.setvar("MO", mo)
    rep.setvar("DY", d)
    rep.do_date_check()
    rep.do_time_check()
    m.eq(tuple(rep.get_qc("POS", k) for k in ("date", "time")), want[1:], "rebroken-report", lambda: repr(c))
    m.event("reports-bad" if any(want) else "reports-good")


STREAMS = [
    Stream("fields", gen_fields, check_fields, 240000, 1500000, need=20000),
    Stream("calendar", YEARS, check_year, None, None, need=80000),
    Stream("reports", gen_fields, check_report, 48000, 300000, need=8000),
    Stream("related", *related(gen_fields, check_fields, nudge=False), 20000, 150000, need=500),
]
