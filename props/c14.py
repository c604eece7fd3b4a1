"""C14 IMMA records survive decode and encode."""
import io
import math

import IMMA1
import NRT
import SimpleIMMA
import TestIMMA
from core import Stream
from imma_layout import LAYOUT

RULE = ("Records composed column by column here from random values (blank, extreme, negative, zero-padded, any printable text) of the core and of random attachments in any order, decoded, compared field by field, written, taken apart column by column again and re-read up to three times; "
        "files of several records; values edited between reads; oracle: the IMMA1 column layout in props/imma_layout.py. Reduced readers: lines composed from their documented columns.")
SPEC = {}
for _k, _v in LAYOUT.items():
    SPEC[_k] = []
    for _f in _v.split():
        _n, _w, _s, _t = _f.split(":")
        SPEC[_k].append((_n, None if _w == "*" else int(_w), None if _s == "-" else float(_s), _t))
WIDTH = {k: sum(f[1] or 0 for f in v) for k, v in SPEC.items()}
B36 = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"
TEXT = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 +-/.,*#()"
FAMILIES = [[1], [2, 5], [3, 6], [4, 7], [8], [9], [95], [96], [97], [98]]


def text(r, w):
    s = "".join(r.choice(TEXT) for k in range(w))
    if not s.strip():
        s = "A" + s[1:]
    return s


def gen_values(r, att, blank):
    out = {}
    for name, w, scale, kind in SPEC[att]:
        if r.random() < blank:
            out[name] = None
        elif w is None:
            out[name] = text(r, r.randint(1, 60)).rstrip() or None
        elif kind == "c":
            out[name] = text(r, w)
        elif kind == "b":
            out[name] = r.randint(0, 35)
        else:
            top = 10 ** w - 1
            v = r.choice([0, top, 1, r.randint(0, top), r.randint(0, top), r.randint(0, top)])
            if w >= 3 and r.random() < 0.35:
                v = -r.choice([1, 10 ** (w - 1) - 1, r.randint(1, 10 ** (w - 1) - 1), r.randint(1, 9)])
            out[name] = v
    return out


def gen(r, i):
    fam = [r.choice(f) for f in FAMILIES if r.random() < 0.45]
    r.shuffle(fam)
    if r.random() < 0.35:
        fam.append(99)
    blank = r.choice([0.0, 0.1, 0.5, 0.9, 1.0])
    rec = [(0, gen_values(r, 0, min(blank, 0.9)))]
    if rec[0][1]["YR"] is None and rec[0][1]["SST"] is None:
        rec[0][1]["YR"] = r.randint(1662, 2014)
    for a in fam:
        rec.append((a, gen_values(r, a, r.choice([blank, 0.0, 1.0]))))
    edits = []
    for k in range(r.randint(0, 6)):
        a = r.choice(rec)[0]
        f = r.choice(SPEC[a])
        if f[3] == "i" and f[1] is not None and f[2] is not None:
            top = 10 ** f[1] - 1
            v = r.uniform(-(10 ** (f[1] - 1) - 1) if f[1] > 1 else 0, top) * f[2]
            edits.append((f[0], r.choice([v, None, v])))
        elif f[3] == "c" and f[1] is not None:
            edits.append((f[0], text(r, r.randint(1, f[1]))))
    return (rec, r.choice([0, 1]), r.randint(1, 3), edits, r.random() < 0.5)


def compose(rec, zero, strip):
    line = ""
    for att, vals in rec:
        body = ""
        for name, w, scale, kind in SPEC[att]:
            v = vals[name]
            if v is None:
                s = " " * (w or 0)
            elif kind == "c":
                s = v
            elif kind == "b":
                s = B36[v]
            else:
                s = ("%0*d" if zero else "%*d") % (w, v)
            body += s
        if att:
            n = WIDTH[att] + 4
            line += "%2d%s" % (att, " 0" if att == 99 else "2U" if n == 102 else "%2d" % n)
        line += body
    return line.rstrip() if strip else line


def expected(rec):
    out = {}
    for att, vals in rec:
        for name, w, scale, kind in SPEC[att]:
            v = vals[name]
            out[name] = v if v is None or kind != "i" or scale in (None, 1.0) else v * scale
    return out


def compare(m, data, want, tol, label, ctx):
    m.eq(sorted(data), sorted(want), label + "-fields", ctx)
    for k, w in want.items():
        g = data[k]
        if w is None:
            m.ok(g is None or g == "", label + "-blank", lambda: "%s=%r %s" % (k, g, ctx()))
        elif isinstance(w, str):
            m.eq(g, w, label + "-text", lambda: k + " " + ctx())
        else:
            m.near(g, w, tol.get(k, 1e-9 * max(1.0, abs(w))), label + "-value", lambda: k + " " + ctx())


def take_apart(line, atts):
    """Values of a written line by documented columns; later attachments win."""
    pos = 0
    out = {}
    for n, att in enumerate(atts):
        if att:
            head = line[pos:pos + 4]
            want = "%2d%s" % (att, " 0" if att == 99 else "2U" if att == 8 else "%2d" % (WIDTH[att] + 4))
            if head != want:
                return None, "header %r instead of %r" % (head, want)
            pos += 4
        for name, w, scale, kind in SPEC[att]:
            s = line[pos:] if w is None else line[pos:pos + w].ljust(w)
            pos += len(s)
            if not s.strip():
                out[name] = None
            elif kind == "c":
                out[name] = s
            elif kind == "b":
                out[name] = B36.index(s)
            elif s[-1] == " ":
                return None, "number %r is not right-justified in its column" % s
            else:
                out[name] = int(s) if scale in (None, 1.0) else int(s) * scale
    if pos < len(line.rstrip()):
        return None, "data beyond the last column"
    return out, None


def check(c, m):
    rec, zero, trips, edits, strip = c
    ctx = lambda: repr(c)[:3000]
    atts = [a for a, v in rec]
    line = compose(rec, zero, strip)
    if atts[-1] == 99 and len(line) % 3 == 0:
        # a blank length means the same as zero: the rest of the line
        k = len(compose(rec[:-1], zero, False))
        line = line[:k + 2] + "  " + line[k + 4:]
        m.event("blank-length")
    x = IMMA1.IMMA()
    m.eq(x.readstr(line + "\n"), 1, "read", ctx)
    m.eq(x.attachments, atts, "attachments", ctx)
    want = expected(rec)
    compare(m, x.data, want, {}, "decode", ctx)
    tol = {}
    scales = {f[0]: f[2] for a in atts for f in SPEC[a]}
    widths = {f[0]: f[1] for a in atts for f in SPEC[a]}
    for k, v in edits:
        x[k] = v
        if isinstance(v, str):
            want[k] = v.ljust(widths[k])
            continue
        want[k] = v
        tol[k] = scales[k] * 0.5 + 1e-9 * max(1.0, abs(v or 0))
    for t in range(trips):
        fh = io.StringIO()
        x.write(fh)
        out = fh.getvalue()
        m.ok(out.endswith("\n") and out.count("\n") == 1, "one-line", ctx)
        cols, err = take_apart(out[:-1], atts)
        m.ok(err is None, "columns", lambda: "%s %r %s" % (err, out, ctx()))
        compare(m, cols, want, tol, "written", ctx)
        x = IMMA1.read(io.StringIO(out))
        m.eq(x.attachments, atts, "attachments-again", ctx)
        compare(m, x.data, want, tol, "round-trip", ctx)
        m.event("round-trips")
    for a in atts:
        m.event("attachment-%d" % a)
    m.event("blank-values", sum(v is None for v in want.values()))
    m.event("negative-values", sum(isinstance(v, (int, float)) and v < 0 for v in want.values()))


def gen_many(r, i):
    return [gen(r, i)[:2] for k in range(r.randint(2, 6))]


def check_many(c, m):
    """Several records in one file: read one after the other, written, read again; nothing leaks from one to the next."""
    fh = io.StringIO("".join(compose(rec, zero, True) + "\n" for rec, zero in c))
    recs = [IMMA1.read(fh) for k in c]
    out = io.StringIO()
    for x in recs:
        x.write(out)
    out.seek(0)
    again = [IMMA1.read(out) for k in c]
    for batch, label in ((recs, "file"), (again, "rewritten-file")):
        for (rec, zero), x in zip(c, batch):
            m.eq(x.attachments, [a for a, v in rec], label + "-attachments", lambda: repr(c)[:2000])
            compare(m, x.data, expected(rec), {}, label, lambda: repr(c)[:2000])
    m.eq(fh.readline(), "", "file-not-consumed", "")
    last = IMMA1.IMMA()
    m.ok(last.read(fh) is None, "end-of-file-read-as-a-record", lambda: repr(last.data))
    m.eq((last.data, last.attachments), ({}, []), "end-of-file-has-data", "")
    # an attachment that the format does not have is refused
    rec, zero = c[0]
    for n in (2 * sum(rec[0][1]["YR"] is None for rec, zero in c) + 10, 11 + len(c), 94):
        x = IMMA1.IMMA()
        try:
            x.readstr(compose(rec, zero, False) + "%2d12ABCDEFGH\n" % n if rec[-1][0] != 99 else "%s%2d12ABCDEFGH\n" % (compose(rec[:-1], zero, False), n))
            got = "accepted"
        except Exception:
            got = "refused"
        m.eq(got, "refused", "unknown-attachment", lambda: "%d %r" % (n, x.attachments))
        m.event("unknown-attachments")
    m.event("files")


def gen_simple(r, i):
    f = []
    for name, w, scale in SIMPLE:
        if scale == "c":
            f.append(text(r, w))
        elif r.random() < 0.15:
            f.append(" " * w)
        elif r.random() < 0.06:
            f.append(("X" + "1" * w)[:w])
        else:
            v = r.choice([0, 10 ** w - 1, r.randint(0, 10 ** w - 1)])
            if w > 2 and r.random() < 0.3:
                v = -r.randint(1, 10 ** (w - 1) - 1)
            f.append(("%*d" if r.random() < 0.5 else "%0*d") % (w, v))
    return f


SIMPLE = [("YR", 4, 1), ("MO", 2, 1), ("DY", 2, 1), ("HR", 4, 0.01), ("LAT", 5, 0.01), ("LON", 6, 0.01), ("DS", 1, 1), ("VS", 1, 1), ("ID", 9, "c"), ("AT", 4, 0.1),
          ("SST", 4, 0.1), ("DPT", 4, 0.1), ("DCK", 3, 1), ("SID", 3, 1), ("PT", 2, 1), ("UID", 6, "c")]


def check_simple(c, m):
    x = SimpleIMMA.IMMA()
    x.readstr("".join(c) + ("\n" if len(c[8].strip()) % 2 else "AB 12\n"))
    m.eq(sorted(x.data), sorted(f[0] for f in SIMPLE), "simple-fields", lambda: repr(c))
    for (name, w, scale), s in zip(SIMPLE, c):
        if scale == "c":
            m.eq(x.data[name], s, "simple-text", lambda: name + repr(c))
        else:
            try:
                v = int(s) * scale
            except ValueError:
                v = None
                m.event("blank-or-corrupt")
            m.near(x.data[name], v, 1e-9, "simple-value", lambda: name + repr(c))
    m.event("simple-records")


def gen_test(r, i):
    f = [text(r, 9), text(r, 6)] + [repr(r.uniform(-90, 90)), repr(r.uniform(-180, 360)), "%g" % r.randint(1850, 2014), str(float(r.randint(1, 12))), "%d" % r.randint(1, 31),
                                    r.choice(["-32768.", "-32768.0", "%.2f" % r.uniform(0, 24)])] + ["junk", "1", "2"] + [r.choice(["-32768.", "%.1f" % r.uniform(-5, 40)])]
    return f


def check_test(c, m):
    x = TestIMMA.IMMA()
    x.readstr(list(c))
    miss = lambda s: None if float(s) == -32768 else float(s)
    want = dict(ID=c[0], UID=c[1], LAT=float(c[2]), LON=float(c[3]), YR=int(float(c[4])), MO=int(float(c[5])), DY=int(c[6]), HR=miss(c[7]), SST=miss(c[11]), DCK=999)
    m.eq(sorted(x.data), sorted(want), "test-fields", lambda: repr(c))
    for k, w in want.items():
        m.eq(x.data[k], w, "test-value", lambda: k + repr(c))
    m.event("test-records")


def gen_nrt(r, i):
    y, mo, d, h, mi = r.randint(1950, 2024), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59)
    lat = r.choice([r.uniform(-90, 90), 200.0, 201.5, 999.0, 95.0])
    lon = r.choice([r.uniform(-180, 360), 400.0, 400.5, 9999.0])
    return ["W%d" % r.randint(0, 99999), text(r, 4).replace(",", "x"), [y, mo, d, h, mi], lat, lon, r.choice(["nan", "%.2f" % r.uniform(-3, 40), "%.2f" % r.uniform(-3, 40)])]


def check_nrt(c, m):
    i, dud, (y, mo, d, h, mi), lat, lon, sst = c
    iso = "%04d-%02d-%02dT%02d:%02d:00Z" % (y, mo, d, h, mi)
    x = NRT.NRT()
    x.readstr("%s,%s,%s,%r,%r,%s\n" % (i, dud, iso, lat, lon, sst))
    want = dict(UID="NRT" + i + iso, ID=i, YR=y, MO=mo, DY=d, HR=h + mi / 60.0, LAT=min(lat, 200.0), LON=min(lon, 400.0), SST=None if sst == "nan" else float(sst),
                AT=None, DCK=9999, PT=7, SIM=None, DS=None, VS=None, DPT=None, SID=9999, C1=None, SI=None)
    m.eq(sorted(x.data), sorted(want), "nrt-fields", lambda: repr(c))
    for k, w in want.items():
        if isinstance(w, float):
            m.near(x.data[k], w, 1e-9, "nrt-value", lambda: k + repr(c))
        else:
            m.eq(x.data[k], w, "nrt-value", lambda: k + repr(c))
    m.event("nrt-records")


STREAMS = [
    Stream("records", gen, check, 15000, 120000, need=20000),
    Stream("files", gen_many, check_many, 1500, 10000, need=2000),
    Stream("simple", gen_simple, check_simple, 10000, 60000, need=2000),
    Stream("test", gen_test, check_test, 2500, 10000, need=500),
    Stream("nrt", gen_nrt, check_nrt, 2500, 10000, need=500),
]
