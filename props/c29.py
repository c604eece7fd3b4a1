"""C29 output files."""
import csv
import datetime
import os
import random
import shutil
import tempfile

import Extended_IMMA as ex
import geo
from core import Stream, size

RULE = ("Decks and voyages of 0 to 40 reports of up to three adjacent months in any order, with missing values, missing identifiers and UIDs, identifiers with slashes, asterisks, commas, quotes and blanks, impossible days, anomalies, background "
        "values and random flags, written by every writer for months with and without reports; the directory listing and every cell of every file are read back with a CSV reader and compared with the reports; random variable lists "
        "for the block printers; fixed-width reports re-read by column.")

IDS = ["SHIP1    ", "2300123  ", "A/B      ", "D*BU     ", "AB,CD    ", 'Q"T      ', 'R""S     ', "a b c    ", "         ", "..       ", "*/*/     ", "'X'      "]
NUM = ["HR", "LAT", "LON", "AT", "SST", "DPT", "SLP", "W", "D"]
EXT = ["OSTIA", "ICE", "BGVAR"]
FULL = dict(POS=['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track'],
            SST=['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep', 'spike', 'hardlimit'],
            AT=['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep', 'hardlimit'],
            DPT=['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round', 'hardlimit'],
            SLP=['bud', 'clim', 'nonorm', 'noval', 'rep'], W=['noval', 'hardlimit', 'consistency', 'wind_blacklist'])
MIN = dict(POS=['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy'], SST=['bud', 'clim', 'nonorm', 'freez', 'noval', 'nbud', 'bbud', 'rep'],
           AT=['bud', 'clim', 'nonorm', 'freez', 'noval', 'mat_blacklist', 'bbud', 'rep'],
           DPT=['bud', 'clim', 'nonorm', 'freez', 'noval', 'hum_blacklist', 'bbud', 'rep', 'ssat', 'repsat', 'round'])
VOY = dict(POS=FULL["POS"] + ["isdrifter"], SST=FULL["SST"])
TRK = dict(POS=['day', 'isship', 'trk', 'date', 'time', 'pos', 'blklst', 'isbuoy', 'iquam_track', 'isdrifter'], SST=FULL["SST"])
HEAD = ["ID", "YR", "MO", "DY", "HR", "LAT", "LON", "AT", "AT_anom", "SST", "SST_anom", "DPT", "DPT_anom"]
COLS = dict(deck=HEAD + ["SLP", "SLP_anom", "OSTIA", "W", "D"], deckmin=HEAD, voyage=HEAD + ["SLP", "SLP_anom", "OSTIA", "ICE", "BGVAR"])


def safe(s):
    return "".join("_" if ch in "/*" else ch for ch in s)


def gen_rep(r, k, ym, ident):
    y, mo = ym
    d = dict(YR=y, MO=mo, LAT=round(r.uniform(-90, 90), 2), LON=round(r.choice([r.uniform(-180, 180), r.uniform(0, 360)]), 2), UID="%06X" % (k * 7919 + r.randint(0, 999)))
    if r.random() < 0.95:
        d["DY"] = r.choice([1, 28, 29, 30, 31, r.randint(1, 28)])
    if r.random() < 0.95:
        d["HR"] = round(r.uniform(0, 23.99), 2)
    if ident is not None:
        d["ID"] = ident
    if r.random() < 0.03:
        del d["UID"]
    for v, lo, hi, dec in [("AT", -50, 50, 1), ("SST", -5, 40, 1), ("DPT", -50, 40, 1), ("SLP", 870, 1074, 1), ("W", 0, 99, 1), ("D", 1, 362, 0)]:
        if r.random() < 0.8:
            d[v] = r.choice([0.0, round(r.uniform(lo, hi), dec), round(r.uniform(lo, hi), 6)])
    clim = {v: (None if r.random() < 0.2 else round(r.uniform(-5, 35), 3)) for v in ("AT", "SST", "DPT", "SLP") if r.random() < 0.8}
    for v in clim:
        if clim[v] is not None and r.random() < 0.1 and v in d:
            clim[v] = d[v]                  # an anomaly of exactly zero
    ext = {v: (None if r.random() < 0.3 else round(r.uniform(-2, 30), 4)) for v in EXT if r.random() < 0.8}
    return (d, clim, ext, r.randint(0, 10 ** 9))


def gen(r, i):
    kind = r.choice(["deck", "deck", "deckmin", "voyage", "voyage", "tracking", "voyqc"])
    y, mo = r.choice([1850, 1985, 2004, 2014]), r.randint(1, 12)
    near = [(y, mo), (y - (mo == 1), (mo - 2) % 12 + 1), (y + (mo == 12), mo % 12 + 1), (y - 1, mo)]
    n = size(r, [0, 1, 2, 5, 15, 40], 2500)
    one = r.choice(IDS)
    reps = [gen_rep(r, k, r.choice(near[:r.choice([1, 3, 4])]), one if kind not in ("deck", "deckmin") else r.choice(IDS + [None])) for k in range(n)]
    if kind == "tracking" or r.random() < 0.3:
        reps.sort(key=lambda q: (q[0]["YR"], q[0]["MO"]))
    return (kind, r.choice(near[:3]), reps, r.choice(["standard", "run_1", "R3.0.0"]), r.random() < 0.2, r.random() < 0.3)


def flag(seed, area, name):
    """the value given to a flag of a report: mostly set, sometimes left unset (9)"""
    x = random.Random("%d %s %s" % (seed, area, name)).randint(0, 13)
    return x if x <= 9 else None


ALL = sorted(set((a, f) for t in (FULL, MIN, VOY, TRK) for a in t for f in t[a]) | {("POS", "drf_agr"), ("POS", "drf_spd")} | {("SST", f) for f in ("drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short")})


def mk(q):
    d, clim, ext, seed = q
    p = geo.mk(d)
    for v, c in clim.items():
        p.add_climate_variable(v, c)
    for v, e in ext.items():
        p.setext(v, e)
    for a, f in ALL:
        x = flag(seed, a, f)
        if x is not None:
            p.set_qc(a, f, x)
    return p


def want_date(d):
    try:
        return datetime.date(d["YR"], d["MO"], d["DY"]).isoformat()
    except Exception:
        return "0000-00-00"


def want_pentad(d):
    try:
        t = datetime.date(2004, d["MO"], d["DY"])
    except Exception:
        return 0
    if (t.month, t.day) == (2, 29):
        return 12
    return (datetime.date(2003, t.month, t.day).timetuple().tm_yday - 1) // 5 + 1


def cell(m, text, want, label, ctx):
    if want is None:
        m.ok(text == "\\N", label, lambda: "%r where a missing marker belongs: %s" % (text, ctx()))
    elif isinstance(want, str):
        m.ok(text == want, label, lambda: "%r instead of %r: %s" % (text, want, ctx()))
    else:
        try:
            x = float(text)
        except ValueError:
            x = float("nan")
        m.ok(abs(x - want) <= 1e-9 * max(1.0, abs(want)), label, lambda: "%r instead of %r: %s" % (text, want, ctx()))


def val(q, name):
    d, clim, ext, seed = q
    if name.endswith("_anom"):
        v = name[:-5]
        return None if d.get(v) is None or clim.get(v) is None else d[v] - clim[v]
    if name in EXT:
        return ext.get(name)
    return d.get(name)


def table(path, m, ctx):
    with open(path, newline="") as f:
        text = f.read()
    m.ok(text.endswith("\n"), "unfinished-line", ctx)
    rows = list(csv.reader(text.split("\n")[:-1]))
    return rows[0], rows[1:]


def check_vars(m, path, cols, sel, ctx):
    head, rows = table(path, m, ctx)
    m.eq(head, ["UID", "DATE", "PENTAD"] + cols, "variables-header", ctx)
    m.eq(len(rows), len(sel), "variables-rows", ctx)
    for row, q in zip(rows, sel):
        m.eq(len(row), len(head), "variables-columns", lambda: "%r: %s" % (row, ctx()))
        cell(m, row[0], q[0].get("UID"), "uid", ctx)
        cell(m, row[1], want_date(q[0]), "date", ctx)
        cell(m, row[2], want_pentad(q[0]), "pentad", ctx)
        for c, t in zip(cols, row[3:]):
            cell(m, t, val(q, c), "value-" + c, lambda: "%r %s" % (row, ctx()))
            m.event("cells")
            if t == "\\N":
                m.event("missing-cells")


def check_qc(m, path, area, flags, sel, ctx):
    head, rows = table(path, m, ctx)
    m.eq(head, ["UID"] + flags, "qc-header", ctx)
    m.eq(len(rows), len(sel), "qc-rows", ctx)
    for row, q in zip(rows, sel):
        cell(m, row[0], q[0].get("UID"), "uid", ctx)
        m.eq(row[1:], [str(9 if flag(q[3], area, f) is None else flag(q[3], area, f)) for f in flags], "flags-" + area, ctx)
        m.event("flags", len(flags))


def check(case, m):
    kind, (y, mo), reps, run, test, again = case
    ctx = lambda: repr(case)
    top = tempfile.mkdtemp(prefix="c29-")
    try:
        def load(some):
            c = ex.Deck() if kind in ("deck", "deckmin") else ex.Voyage()
            for q in some:
                p = mk(q)
                if isinstance(c, ex.Deck):
                    c.append(p)
                else:
                    c.reps.append(p)
            return c

        def write(c):
            if kind == "deck":
                c.write_output(run, top, y, mo, test=test)
            elif kind == "deckmin":
                c.write_min_output(run, top, y, mo, test=test)
            elif kind == "voyage":
                c.write_output(run, top, y, mo)
            elif kind == "voyqc":
                c.write_qc(run, top, y, mo, {"SST": ["bud", "rep"], "POS": ["trk"]})
            else:
                c.write_tracking_output(run, top, y, mo)

        if again:       # the output of an earlier run with other reports is there
            write(load((reps[::-1] + reps)[:len(reps) + 3]))
            m.event("written-again")
        write(load(reps))
        ym = "%d%02d" % (y, mo)
        sel = [q for q in reps if (q[0]["YR"], q[0]["MO"]) == (y, mo)]
        pre = ""
        if kind in ("deck", "deckmin"):
            pre, flags = ("Test_" if test else ""), FULL if kind == "deck" else MIN
        elif kind == "voyage":
            flags = VOY
        elif kind == "voyqc":
            flags = {"SST": ["bud", "rep"], "POS": ["trk"]}
        got = sorted(os.path.relpath(os.path.join(a, f), top) for a, b, fs in os.walk(top) for f in fs)
        if not reps:
            m.eq(got, [], "files-without-reports", ctx)
            m.event("nothing-to-write")
            return
        tag = run if kind in ("deck", "deckmin") else safe(reps[0][0]["ID"]) + "_" + run
        want = []
        if kind == "tracking":
            want = ["Tracking_%s_%s.csv" % (ym, tag)]
        else:
            if kind != "voyqc":
                want.append(pre + "Variables_%s_%s.csv" % (ym, tag))
            want += [pre + "%s_qc_%s_%s.csv" % (a, ym, tag) for a in flags]
        m.eq(got, sorted(want), "files", ctx)
        m.event("files", len(got))
        m.event(kind)
        if not sel:
            m.event("month-without-reports")
        if kind == "tracking":
            head, rows = table(os.path.join(top, want[0]), m, ctx)
            vcols, ecols = ["ID", "LON", "LAT", "YR", "MO", "DY", "HR"], ["SST", "OSTIA", "BGVAR", "ICE"]
            areas = [("POS", TRK["POS"]), ("SST", TRK["SST"]), ("POS", ["drf_agr", "drf_spd"]), ("SST", ["drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short"])]
            m.eq(head, ["UID", "DATE", "PENTAD"] + vcols + [f for a, fs in areas for f in fs] + ecols, "tracking-header", ctx)
            m.eq(len(rows), len(reps), "tracking-rows", ctx)
            for row, q in zip(rows, reps):
                m.eq(len(row), len(head), "tracking-columns", lambda: "%r %s" % (row, ctx()))
                cell(m, row[0], q[0].get("UID"), "uid", ctx)
                cell(m, row[1], want_date(q[0]), "date", ctx)
                cell(m, row[2], want_pentad(q[0]), "pentad", ctx)
                for cname, t in zip(vcols, row[3:]):
                    cell(m, t, val(q, cname), "value-" + cname, ctx)
                fl = [str(9 if flag(q[3], a, f) is None else flag(q[3], a, f)) for a, fs in areas for f in fs]
                m.eq(row[3 + len(vcols):-len(ecols)], fl, "tracking-flags", ctx)
                for cname, t in zip(ecols, row[-len(ecols):]):
                    cell(m, t, val(q, cname), "value-" + cname, ctx)
                m.event("tracking-rows")
            return
        if kind != "voyqc":
            check_vars(m, os.path.join(top, pre + "Variables_%s_%s.csv" % (ym, tag)), COLS[kind], sel, ctx)
        for a in flags:
            check_qc(m, os.path.join(top, pre + "%s_qc_%s_%s.csv" % (a, ym, tag)), a, flags[a], sel, ctx)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def gen_block(r, i):
    q = gen_rep(r, i, (r.choice([1850, 2004]), r.randint(1, 12)), r.choice(IDS + [None]))
    cols = ["ID", "YR", "MO", "DY", "HR", "LAT", "LON", "AT", "SST", "DPT", "SLP", "W", "D", "OSTIA", "ICE", "UID", "NOSUCH", "AT_anom", "SST_anom", "DPT_anom", "SLP_anom", "W_anom"]
    return (q, [r.choice(cols) for k in range(r.randint(1, 12))], r.choice(["POS", "SST", "AT", "DPT"]), [r.choice(["bud", "clim", "trk", "noval", "rep", "new"]) for k in range(r.randint(1, 8))], r.random() < 0.5)


def check_block(case, m):
    """the block printers with any list of variables and flags"""
    q, cols, area, flags, uid = case
    ctx = lambda: repr(case)
    p = mk(q)
    names = [c.split("_") for c in cols]
    head = p.print_variable_block(names, header=True, printuid=uid)
    row = p.print_variable_block(names, header=False, printuid=uid)
    for t in (head, row):
        m.ok(t.endswith("\n") and t.count("\n") == 1, "one-line", lambda: repr(t))
    head, row = [next(csv.reader([t[:-1]])) for t in (head, row)]
    m.eq(head, (["UID", "DATE", "PENTAD"] if uid else []) + cols, "block-header", ctx)
    m.eq(len(row), len(head), "block-columns", lambda: "%r %s" % (row, ctx()))
    for c, t in zip(cols, row[3 if uid else 0:]):
        cell(m, t, val(q, c), "block-" + c, ctx)
        m.event("block-cells")
    head, row = [next(csv.reader([p.print_qc_block(area, flags, header=h, printuid=uid)[:-1]])) for h in (True, False)]
    m.eq(head, (["UID"] if uid else []) + flags, "qc-block-header", ctx)
    want = [9 if (area, f) not in ALL or flag(q[3], area, f) is None else flag(q[3], area, f) for f in flags]
    m.eq(row[1 if uid else 0:], [str(w) for w in want], "qc-block", ctx)


def gen_fixed(r, i):
    d, clim, ext, seed = gen_rep(r, i, (r.choice([1850, 2004]), r.randint(1, 12)), r.choice(["SHIP1    ", "2300123  ", None]))
    d.setdefault("UID", "ABCDEF")
    d.update(DCK=r.choice([192, 720, 926]))
    if r.random() < 0.8:
        d["PT"] = r.randint(0, 13)
    if r.random() < 0.7:
        d["DS"], d["VS"] = r.randint(0, 9), r.randint(0, 9)
        if r.random() < 0.2:
            del d[r.choice(["DS", "VS"])]
    if r.random() < 0.3:
        d["LAT"], d["LON"] = round(d["LAT"], 0) + 0.7777, d["LON"] // 1 + 0.4321
    for v, lo, hi in [("SHU", 0, 30), ("VAP", 0, 40), ("CRH", 0, 100), ("CWB", -10, 30), ("DPD", 0, 20)]:
        if r.random() < 0.7:
            d[v] = round(r.uniform(lo, hi), 1)
        if r.random() < 0.7:
            clim[v] = None if r.random() < 0.2 else round(r.uniform(lo, hi), 2)
    if abs(d["LAT"]) > 90:
        d["LAT"] = 12.3456
    return ((d, clim, ext, seed), r.random() < 0.5)


def check_fixed(case, m):
    q, long = case
    d = q[0]
    ctx = lambda: repr(case)
    p = mk(q)
    s = p.print_longform_report() if long else p.print_report()
    m.ok(s.endswith("\n") and s.count("\n") == 1, "one-line", lambda: repr(s))
    m.eq(s[:10], (d.get("ID") or " " * 9) + " ", "fixed-id", ctx)
    m.eq(s[10:18].strip(), d["UID"], "fixed-uid", ctx)
    lon = d["LON"] - 360 if d["LON"] > 180 else d["LON"]
    cols = [(d["LAT"], 100), (lon, 100), (d["YR"], 1), (d["MO"], 1), (d.get("DY"), 1), (d.get("HR"), 100), (d.get("AT"), 10), (val(q, "AT_anom"), 100), (d.get("SST"), 10), (val(q, "SST_anom"), 100)]
    if long:
        cols += [(d.get("SLP"), 10), (d.get("DPT"), 10), (val(q, "DPT_anom"), 100)]
        for v in ("SHU", "VAP", "CRH", "CWB", "DPD"):
            cols += [(d.get(v), 10), (val(q, v + "_anom"), 100)]
    cols += [(d["DS"] * 100 + d["VS"] if "DS" in d and "VS" in d else 9999, 1), (d["DCK"], 1), (d.get("PT"), 1)]
    at = 18
    for k, (x, f) in enumerate(cols):
        got = int(s[at:at + 8])
        at += 8
        if x is None:
            m.eq(got, -32768, "fixed-missing", lambda: "column %d of %r: %s" % (k, s, ctx()))
        else:
            m.ok(abs(got - x * f) <= 0.5 + 1e-6, "fixed-value", lambda: "column %d of %r: %s" % (k, s, ctx()))
        m.event("fixed-columns")
    rest = s[at:].split()
    spec = [("POS", ["day", "land", "trk", "date", "time", "pos", "blklst", "iquam_track" if long else "dup"]), ("SST", ["bud", "clim", "nonorm", "freez", "noval", "spike" if long else "nbud", "bbud", "rep"]),
            ("AT", ["bud", "clim", "nonorm", None, "noval", "nbud", "bbud", "rep"])]
    if long:
        spec.append(("DPT", ["bud", "clim", "nonorm", "ssat", "noval", "round", "bbud", "rep", "repsat"]))
    m.eq(len(rest), 5, "fixed-blocks", lambda: repr(s))
    for (area, fs), got in zip(spec, rest):
        m.eq(got, "".join(str(p.get_qc(area, f)) if f else "9" for f in fs), "fixed-flags-" + area, ctx)
    if not long:
        m.eq(rest[3], "9" * 8, "fixed-unused-block", ctx)
    m.eq(rest[4], "%d%d999999" % (p.get_qc("POS", "few"), p.get_qc("POS", "ntrk")), "fixed-end", ctx)


STREAMS = [Stream("files", gen, check, 1500, 30000, need=50000), Stream("blocks", gen_block, check_block, 500, 20000, need=3000), Stream("fixed-width", gen_fixed, check_fixed, 1500, 20000, need=5000)]
