"""C08 blacklists and platform classes."""
import Extended_IMMA as ex
import qc
from core import Stream
from related import related

RULE = ("Reports drawn mostly from the decks, years, regions, platform types and identifiers of the documented lists, with positions at corners, on edges, just off and around the globe, in both longitude conventions; "
        "every (year, region) pair is visited at its corners, edges and centre; oracle: the lists written out here.")

# Rayner et al. 2006 / Kennedy et al. 2011: west, south, east, north
REGION = dict(enumerate([
    (-175, 40, -170, 55), (-165, 40, -160, 60), (-145, 40, -140, 50), (-140, 30, -135, 40), (-140, 50, -130, 55), (-70, 35, -60, 40),
    (-50, 45, -40, 50), (5, 70, 10, 80), (0, -10, 10, 0), (-30, -25, -25, -20), (-60, -50, -55, -45), (75, -20, 80, -15), (50, -30, 60, -20),
    (30, -40, 40, -30), (20, 60, 25, 65), (0, -40, 10, -30), (-135, 30, -130, 40)], 1))
YEARS = {1958: "1 2 3 4 5 6 14 15", 1959: "1 2 3 4 5 6 14 15", 1960: "1 2 3 5 6 9 14 15", 1961: "1 2 3 5 6 14 15 16",
         1962: "1 2 3 5 12 13 14 15 16", 1963: "1 2 3 5 6 12 13 14 15 16", 1964: "1 2 3 5 6 12 13 14 16", 1965: "1 2 6 10 12 13 14 15 16",
         1966: "1 2 6 9 14 15 16", 1967: "1 2 5 6 9 14 15", 1968: "1 2 3 5 6 9 14 15", 1969: "1 2 3 4 5 6 7 8 9 10 13 14 15 16",
         1970: "1 2 3 4 5 6 8 9 14 15", 1971: "1 2 3 4 5 6 7 8 9 13 14 16", 1972: "4 7 8 9 10 11 13 16 17", 1973: "4 7 8 10 11 13 16 17",
         1974: "4 7 8 10 11 16 17"}
YEARS = {y: [int(x) for x in s.split()] for y, s in YEARS.items()}
BUOYS = ["%d    " % n for n in [53521, 53522, 53566, 53567, 53568, 53571, 53578, 53580, 53582, 53591, 53592, 53593, 53594, 53595, 53596, 53599,
                                53600, 53601, 53602, 53603, 53604, 53605, 53606, 53607, 53608, 53609, 53901, 53902]]
GENERIC = [None, '1        ', '58       ', 'RIGG     ', '     RIGG', 'SHIP     ', 'ship     ', '     SHIP', 'PLAT     ', '     PLAT', '         ',
           '0120     ', '0204     ', '0205     ', '0206     ', '0207     ', '0208     ', '0209     ', 'MASKST   ', 'MASKSTID ', 'MASK     ',
           'XXXX     ', '/////    ']
GENERIC_PERIOD = {'2        ': (1921, 1941), '00002    ': (1921, 1941), '3        ': (1930, 1937), '7        ': (1934, 1954), '00007    ': (1934, 1954)}
MAT_AREAS = [(-80, 40, 0, 55), (-10, 35, 30, 45), (15, -10, 45, 40), (15, -10, 95, 15), (95, -10, 105, 5)]
SHIP = {0, 1, 2, 3, 4, 5, 10, 11, 12, 17}
HUM_OK = {0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 15}


class Rec:
    def __init__(self, data):
        self.data = data


def west_east(lon):
    return lon - 360 if lon > 180 else lon


def inside(box, lat, lon):
    return box[0] <= west_east(lon) <= box[2] and box[1] <= lat <= box[3]


def blacklisted(ident, deck, year, month, lat, lon, pt):
    if lat == 0 and west_east(lon) == 0:
        return 1
    if pt == 13 or ident == "SUPERIGORINA" or deck == 874:
        return 1
    if deck == 732 and any(inside(REGION[k], lat, lon) for k in YEARS.get(year, [])):
        return 1
    if (year, month) in ((2005, 11), (2005, 12), (2006, 1)) and ident in BUOYS:
        return 1
    return 0


def near_box(r, box):
    w, s, e, n = box
    lon = r.choice([w, e, (w + e) / 2.0, w - 0.01, e + 0.01, w + 0.01, e - 0.01, r.uniform(w - 2, e + 2)])
    lat = r.choice([s, n, (s + n) / 2.0, s - 0.01, n + 0.01, s + 0.01, n - 0.01, r.uniform(s - 2, n + 2)])
    return float(lat), float(lon)


def conv(r, lon):
    return lon + 360.0 if lon < 0 and r.random() < 0.5 else lon


def gen(r, i):
    deck = r.choice([732, 732, 732, 732, 874, 873, 700, 193, 780, 1, 233, None, r.randint(1, 999)])
    year = r.choice(sorted(YEARS) * 2 + [1957, 1975, 2005, 2005, 2006, 2006, 1890, r.randint(1850, 2020)])
    month = r.choice([11, 12, 1, 2, 10, r.randint(1, 12)])
    ident = r.choice(["ABCD     ", "SHIP     ", "SUPERIGORINA", "SUPERIGORIN", None, "53521", "53523    "] + [r.choice(BUOYS)] * 6)
    pt = r.choice([13, 5, 5, 5, 7, None, 12, 14, r.randint(0, 20)])
    if deck == 732 and r.random() < 0.8:
        year = r.choice(sorted(YEARS))
        lat, lon = near_box(r, REGION[r.randint(1, 17)])
    else:
        lat, lon = r.choice([(0.0, 0.0), (0.0, 360.0), (-0.0, -0.0), (0.0, 0.1), (0.1, 0.0), (0.0, 180.0),
                             (r.uniform(-90, 90), r.uniform(-180, 180)), (r.uniform(-90, 90), r.uniform(-180, 180)), near_box(r, REGION[r.randint(1, 17)])])
    return (ident, deck, year, month, lat, conv(r, lon), pt)


def check(c, m):
    ident, deck, year, month, lat, lon, pt = c
    want = blacklisted(*c)
    m.eq(qc.blacklist(*c), want, "blacklist", lambda: repr(c))
    if pt is None or pt != 13:
        m.eq(qc.blacklist(*c[:6]), want, "blacklist-no-platform-given", lambda: repr(c))
    if lon < 0:
        m.eq(qc.blacklist(ident, deck, year, month, lat, lon + 360.0, pt),
             blacklisted(ident, deck, year, month, lat, lon + 360.0, pt), "blacklist-360", lambda: repr(c))
    rep = ex.MarineReportQC(Rec(dict(ID=ident, UID="U", LAT=lat, LON=lon, YR=year, MO=month, DY=4, HR=3.0, DCK=deck, PT=pt)))
    rep.do_blacklist()
    m.eq(rep.get_qc("POS", "blklst"), want, "report-blacklist", lambda: repr(c))
    m.event("blacklisted" if want else "not-blacklisted")


PAIRS = [(y, k) for y in range(1956, 1977) for k in range(1, 18)]


def check_pair(c, m):
    """One year, one region: 36 positions on, inside and outside its box, for deck 732 and for another deck."""
    year, k = c
    w, s, e, n = REGION[k]
    for lon in (w, e, (w + e) / 2.0, w - 0.001, e + 0.001, w + 0.001):
        for lat in (s, n, (s + n) / 2.0, s - 0.001, n + 0.001, n - 0.001):
            for l2 in (lon, lon + 360.0 if lon < 0 else lon):
                for deck in (732, 733):
                    a = ("ABCD     ", deck, year, 6, float(lat), float(l2), 5)
                    want = blacklisted(*a)
                    m.eq(qc.blacklist(*a), want, "region", lambda: repr(a))
                    m.event("region-hit" if want else "region-miss")


def gen_mat(r, i):
    deck = r.choice([193, 193, 193, 193, 780, 780, 708, 192, 194, 700, None])
    year = r.choice([1879, 1880, 1881, 1886, 1891, 1892, 1893, 1894, r.randint(1875, 1900), r.randint(1875, 1900)])
    pt = r.choice([None] + list(range(0, 22)) + [5, 5, 5, 5, 5])
    lat, lon = near_box(r, r.choice(MAT_AREAS)) if r.random() < 0.85 else (r.uniform(-90, 90), r.uniform(-180, 180))
    return (deck, year, pt, lat, conv(r, lon))


def check_mat(c, m):
    deck, year, pt, lat, lon = c
    rep = ex.MarineReportQC(Rec(dict(ID="X", LAT=lat, LON=lon, YR=year, MO=5, DY=4, HR=3.0, DCK=deck, PT=pt)))
    rep.is_buoy(), rep.is_ship(), rep.is_deck_780(), rep.mat_blacklist(), rep.wind_blacklist(), rep.humidity_blacklist()
    area = any(inside(b, lat, lon) for b in MAT_AREAS)

    def mat(last):
        return int((pt == 5 and deck == 780) or (deck == 193 and 1880 <= year <= last and area))
    want = [("POS", "isbuoy", int(pt in (6, 7))), ("POS", "isdrifter", int(pt == 7)), ("POS", "isship", int(pt in SHIP)),
            ("POS", "is780", int(deck == 780)), ("AT", "mat_blacklist", mat(1892)), ("W", "wind_blacklist", int(deck in (708, 780))),
            ("DPT", "hum_blacklist", int(pt not in HUM_OK))]
    for a, b, w in want:
        m.eq(rep.get_qc(a, b), w, b, lambda: repr(c))
        m.event("%s-%d" % (b, w))
    m.eq(len(rep.qc), len(want), "flags-set", lambda: sorted(rep.qc))


def gen_generic(r, i):
    ident = r.choice(GENERIC + list(GENERIC_PERIOD) * 4 + ["SHIP", "ABCD     ", "0203     ", "00003    ", "2", "3", "PLATS    ", ""])
    return (ident, r.choice([1920, 1921, 1929, 1930, 1933, 1934, 1937, 1938, 1941, 1942, 1954, 1955, r.randint(1850, 2020)]))


def check_generic(c, m):
    ident, year = c
    want = ident in GENERIC or (ident in GENERIC_PERIOD and GENERIC_PERIOD[ident][0] <= year <= GENERIC_PERIOD[ident][1])
    m.eq(bool(qc.id_is_generic(ident, year)), want, "generic-id", lambda: repr(c))
    m.event("generic" if want else "not-generic")


STREAMS = [
    Stream("random", gen, check, 150000, 1200000, need=20000),
    Stream("year-region", PAIRS, check_pair, None, None, need=30000),
    Stream("classes", gen_mat, check_mat, 75000, 600000, need=20000),
    Stream("generic-ids", gen_generic, check_generic, 20000, 40000, need=2000),
    Stream("related", *related(gen, check, nudge=False), 20000, 150000, need=500),
]
