"""C32 file and directory naming, archive and background lookups."""
import bz2
import os
import re
import shutil
import tempfile

import BackgroundField as bf
import Tracking_QC_wrapper as tw
import tracking_qc as tq
from core import Stream

RULE = ("Random templates with zero to four placeholders over years 1..9999; every year 1850 to 2025 and month of both ICOADS releases; lists of one to four archive candidates with any subset of the files present; background candidates present plain, "
        "compressed, both, empty or truncated, in directories with blanks, quotes or '.bz2' in their names, looked up repeatedly and for neighbouring days, with the bytes of the returned file compared with what was stored; lookups repeated after files arrived and were taken away; directory trees compared with "
        "a listing before and after one and two calls; identifier lists with blank, short, long and unterminated lines.")

PIECES = ["YYYY", "MMMM", "DDDD", "_", "-", "v01.0", "OSTIA", ".nc", "a b", "sst", "YY", "MM", "D", "2004", "R3.0.0", "{}", "%s", "Y", "\\N"]


def expand(s, y, m, d):
    """one pass over the template, leftmost placeholder first"""
    return re.sub("YYYY|MMMM|DDDD", lambda t: dict(Y="%04d" % y, M="%02d" % m, D="%02d" % d)[t.group(0)[0]], s)


def date(r):
    return r.choice([1, 850, 1850, 1985, 1999, 2004, 2014, 2025, 9999, r.randint(1, 9999)]), r.randint(1, 12), r.choice([1, 9, 10, 28, 31, r.randint(1, 31)])


def tmpl(r, lo=1):
    return "".join(r.choice(PIECES) for _ in range(r.randint(lo, 7)))


def gen_names(r, i):
    dirs = "/" + "/".join(tmpl(r) for _ in range(r.randint(1, 4)))
    return (dirs + r.choice(["", "/"]), tmpl(r), date(r))


def check_names(case, m):
    dirs, name, (y, mo, d) = case
    m.eq(bf.process_string(dirs, y, mo, d), expand(dirs, y, mo, d), "template", lambda: repr(case))
    m.eq(bf.process_string(name, y, mo, d), expand(name, y, mo, d), "template", lambda: repr(case))
    w = expand(dirs, y, mo, d)
    m.eq(bf.make_filename(dirs, name, y, mo, d), w + ("" if w.endswith("/") else "/") + expand(name, y, mo, d), "joined-name", lambda: repr(case))
    m.event("expanded")
    subs = [x for x in (dirs + "/" + name).split("/") if x]
    base = "/base dir" + ("/" if y % 2 else "")
    m.eq(bf.build_completions(base, subs), ["/base dir/" + "/".join(subs[:k + 1]) for k in range(len(subs))], "completions", lambda: repr(case))
    m.eq(bf.build_completions(base, []), [], "completions")
    m.eq(tw.safe_dir("/out", y, mo), "/out/%d/%02d/" % (y, mo), "month-directory", lambda: repr(case))


RELEASE = [(y, mo, v) for y in range(1850, 2026) for mo in range(1, 13) for v in ("2.5", "3.0")]


def check_release(case, m):
    y, mo, v = case
    if v == "2.5":
        w = "/x/R2.5.2.%d.%02d.gz" % (y, mo) if 2008 <= y <= 2014 else "/x/ICOADS.2.5.1/R2.5.1.%d.%02d.gz" % (y, mo)
    else:
        rel = "3.0.1" if y > 2014 else "3.0.0"
        w = "/x/ICOADS.%s/IMMA1_R%s_%d-%02d.gz" % (rel, rel, y, mo)
    m.eq(bf.icoads_filename("/x", y, mo, v), w, "release-file", lambda: repr(case))
    m.event("release-" + v)
    for bad in ("2.6", "3", "", 3.0):
        try:
            bf.icoads_filename("/x", y, mo, bad)
            m.ok(False, "unknown-release-accepted", repr(bad))
        except AssertionError:
            m.decided()


# --- archive -------------------------------------------------------------------------------------------------------

def gen_archive(r, i):
    n = r.randint(1, 4)
    dirs = [r.choice(["A%d" % k, "B%d/YYYY" % k, "C%d/YYYY/MMMM" % k, "with blank %d" % k]) + r.choice(["", "/"]) for k in range(n)]
    names = [r.choice(["R_%d_YYYY-MMMM.gz" % (k % 2), "YYYYMMMM.gz", "IMMA1_R3.0.%d_YYYY-MMMM.gz" % k]) for k in range(n)]
    y, mo = r.choice([1850, 1999, 2004, 2014]), r.randint(1, 12)
    months = [(y, mo), (y - (mo == 1), (mo - 2) % 12 + 1), (y + (mo == 12), mo % 12 + 1), (y - 1, mo)]
    present = [(k, ym, r.choice(["file", "file", "file", "directory", "empty"])) for k in range(n) for ym in months if r.random() < 0.4]
    changes = [(r.randrange(n), r.choice(months)) for k in range(r.choice([0, 0, 1, 3, 6]))]
    return (dirs, names, months, present, changes)


def touch(path, data=b"x"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def listing(root):
    return sorted((os.path.relpath(os.path.join(p, x), root), x in fs) for p, ds, fs in os.walk(root) for x in ds + fs)


def check_archive(case, m):
    dirs, names, months, present, changes = case
    tmp = tempfile.mkdtemp(prefix="c32_")
    try:
        stubs = [os.path.join(tmp, d) for d in dirs]
        path = lambda k, ym: os.path.join(expand(stubs[k], ym[0], ym[1], 1), expand(names[k], ym[0], ym[1], 1))
        for k, ym, kind in present:
            p = path(k, ym)
            if os.path.exists(p):
                continue
            if kind == "directory":
                os.makedirs(p)
            else:
                touch(p, b"" if kind == "empty" else b"x")
        before = listing(tmp)
        for ym in months:
            want = [path(k, ym) for k in range(len(stubs)) if os.path.isfile(path(k, ym))]
            got = bf.icoads_filename_from_stub(stubs, names, ym[0], ym[1])
            m.eq(got, want[0] if want else None, "archive-file", lambda: "%r %r" % (case, ym))
            m.event("found" if want else "none")
        # files arrive and are taken away while the program runs
        for k, ym in changes:
            if os.path.isdir(path(k, ym)):
                continue
            if os.path.isfile(path(k, ym)):
                os.remove(path(k, ym))
            else:
                touch(path(k, ym))
            for ym in months:
                want = [path(k, ym) for k in range(len(stubs)) if os.path.isfile(path(k, ym))]
                m.eq(bf.icoads_filename_from_stub(stubs, names, ym[0], ym[1]), want[0] if want else None, "archive-file-after-change", lambda: "%r %r" % (case, ym))
            m.event("archive-changes")
        before = listing(tmp)
        m.eq(bf.icoads_filename_from_stub(stubs, names, None, 3), None, "no-date")
        m.eq(bf.icoads_filename_from_stub(stubs, names, 2004, None), None, "no-date")
        try:
            bf.icoads_filename_from_stub(stubs, names + ["YYYY.gz"], 2004, 1)
            m.ok(False, "unequal-lists-accepted", repr(case))
        except AssertionError:
            m.decided()
        m.eq(listing(tmp), before, "lookup-changes-archive", lambda: repr(case))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --- background ----------------------------------------------------------------------------------------------------

STATES = ["none", "none", "plain", "bz2", "bz2", "both", "emptyplain", "emptybz2", "truncated", "garbage", "emptyplain+bz2", "plain+emptybz2"]


def gen_background(r, i):
    n = r.randint(1, 3)
    dirs = [r.choice(["bg%d/YYYY/MMMM", "bg %d/YYYY", "x.bz2.%d/YYYY/MMMM/DDDD", "it's%d", 'q"%d', "$HOME%d;x", "p%d&(q)"]) % k + r.choice(["", "/"]) for k in range(n)]
    names = ["YYYYMMMMDDDD-" + r.choice(["OSTIA%d.nc", "a b%d.nc", "v01-%d-fv02.nc"]) % k for k in range(n)]
    if i % 3 == 0:          # the date, or a part of it, only in the directory; the same name in all archives
        dirs = ["k%d/YYYY/MMMM/DDDD" % k for k in range(n)]
        names = r.choice([["sst.nc"] * n, ["DDDD.nc"] * n, ["YYYYMMMMDDDD.nc"] * n, ["sst%d-MMMM.nc" % k for k in range(n)], ["YYYY-MMMM.nc"] * n])
    y, mo, d = r.choice([1985, 2004, 2014]), r.randint(1, 12), r.randint(1, 28)
    days = [(y, mo, d), (y, mo, d % 28 + 1), (y, mo % 12 + 1, d)]
    states = [[r.choice(STATES) for _ in days] for _ in range(n)]
    order = [r.randrange(len(days)) for _ in range(r.randint(1, 6))]
    return (dirs, names, days, states, order, r.choice(["scratch", "scr atch", "s.bz2"]))


def check_background(case, m):
    dirs, names, days, states, order, scr = case
    tmp = tempfile.mkdtemp(prefix="c32_")
    old = os.environ.get("SCRATCH")
    err = os.dup(2)         # bunzip2 reports the damaged files
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    os.close(dn)
    try:
        scratch = os.path.join(tmp, scr)
        os.mkdir(scratch)
        os.environ["SCRATCH"] = scratch
        stubs = [os.path.join(tmp, "in", d) for d in dirs]
        state = {}
        content = {}
        for k in range(len(stubs)):
            for j, dt in enumerate(days):
                p = os.path.join(expand(stubs[k], *dt), expand(names[k], *dt))
                s = states[k][j]
                data = ("%d %r " % (k, dt)).encode() * 50
                state[k, j], content[k, j] = s, (p, data)
                full = bz2.compress(data)
                if s.startswith("emptyplain"):
                    touch(p, b"")
                if s.startswith("plain") or s == "both":
                    touch(p, data)
                if s.endswith("emptybz2"):
                    touch(p + ".bz2", b"")
                elif s.endswith("bz2") or s == "both":
                    touch(p + ".bz2", full)
                elif s == "truncated":
                    touch(p + ".bz2", full[:len(full) // 2])
                elif s == "garbage":
                    touch(p + ".bz2", b"not compressed at all")
        before = listing(os.path.join(tmp, "in"))
        for j in order:
            got = bf.get_background_filename(stubs, names, *days[j])
            usable = [k for k in range(len(stubs)) if state[k, j] in ("plain", "bz2", "both", "emptyplain+bz2", "plain+emptybz2")]
            broken = [k for k in range(len(stubs)) if state[k, j] in ("truncated", "garbage")]
            ctx = lambda: "%r day %r -> %r" % (case, days[j], got)
            if not usable:
                m.ok(got is None, "background-without-a-usable-file", ctx)
                m.event("broken" if broken else "none")
                continue
            k = usable[0]
            if broken and broken[0] < k and got is None:
                m.event("broken-before-usable")
                m.decided()
                continue
            m.ok(got is not None and os.path.isfile(got), "background-not-found", ctx)
            with open(got, "rb") as f:
                m.ok(f.read() == content[k, j][1], "background-content", ctx)
            if state[k, j] == "plain":
                m.eq(os.path.realpath(got), os.path.realpath(content[k, j][0]), "plain-file-not-read-in-place", ctx)
            m.event(state[k, j])
            here = os.path.realpath(got)
            m.ok(here.startswith(os.path.realpath(scratch)) or here == os.path.realpath(content[k, j][0]), "background-outside-scratch", ctx)
        m.eq(listing(os.path.join(tmp, "in")), before, "lookup-changes-archive", lambda: repr(case))
        # an uncompressed file arrives or is taken away while the program runs
        for j in sorted(set(order)):
            if any(state[k, j] not in ("none", "plain", "emptyplain") for k in range(len(stubs))) or len({content[k, j][0] for k in range(len(stubs))}) < len(stubs):
                continue
            for k in range(len(stubs)):
                if state[k, j] == "plain":
                    os.remove(content[k, j][0])
                    state[k, j] = "none"
                else:
                    touch(*content[k, j])
                    state[k, j] = "plain"
                want = [content[q, j][0] for q in range(len(stubs)) if state[q, j] == "plain"]
                got = bf.get_background_filename(stubs, names, *days[j])
                m.eq(got and os.path.realpath(got), os.path.realpath(want[0]) if want else None, "background-after-change", lambda: "%r day %r archive %d" % (case, days[j], k))
                m.event("background-changes")
        ok = {expand(names[k], *days[j]) for k in range(len(stubs)) for j in order}
        m.ok(set(os.listdir(scratch)) <= ok, "left-in-scratch", lambda: "%r: %r" % (case, os.listdir(scratch)))
        for none in [(None, 1, 1), (2004, None, 1), (2004, 1, None)]:
            m.eq(bf.get_background_filename(stubs, names, *none), None, "no-date")
        try:
            bf.get_background_filename(stubs[:-1], names, 2004, 1, 1)
            m.ok(False, "unequal-lists-accepted", repr(case))
        except AssertionError:
            m.decided()
    finally:
        os.dup2(err, 2)
        os.close(err)
        if old is None:
            os.environ.pop("SCRATCH", None)
        else:
            os.environ["SCRATCH"] = old
        shutil.rmtree(tmp, ignore_errors=True)


# --- directories ---------------------------------------------------------------------------------------------------

def gen_dirs(r, i):
    return [(r.choice([1850, 1985, 2004, 2014]), r.randint(1, 12), r.choice(["month", "month", "tracking", "edge", "generic", "make"]),
             r.choice(["start_edge_case", "end_edge_case"]), r.choice(["198501-200512", "185001-201412"]), [r.choice("abcd") + r.choice(["", " x", "1"]) for _ in range(r.randint(1, 4))]) for _ in range(r.randint(1, 8))]


def check_dirs(case, m):
    tmp = tempfile.mkdtemp(prefix="c32_")
    try:
        want = set()
        for n, (y, mo, kind, edge, run, subs) in enumerate(case):
            base = {"month": [str(y), "%02d" % mo], "tracking": ["TrackingQC", str(y), "%02d" % mo], "edge": ["TrackingQC", str(y), "%02d" % mo, edge + "_" + run], "generic": subs, "make": subs[:1]}[kind]
            for k in range(len(base)):
                want.add("/".join(base[:k + 1]))
            full = os.path.join(tmp, *base)
            for again in range(2):
                if kind == "month":
                    got = bf.safe_make_dir(tmp, y, mo)
                elif kind == "tracking":
                    got = tq.safe_make_tracking_dir(tmp, y, mo)
                elif kind == "edge":
                    got = tq.safe_make_edge_dir(tmp, y, mo, edge, run)
                elif kind == "generic":
                    got = bf.safe_make_dir_generic(tmp, subs)
                else:
                    got = full
                    tw.safemake(full)
                m.eq(os.path.normpath(got), full, "directory-name", lambda: repr(case[n]))
                m.eq([x for x, isf in listing(tmp) if not isf], sorted(want), "directory-tree", lambda: repr((n, case)))
                for x, isf in listing(tmp):
                    if isf:
                        with open(os.path.join(tmp, x)) as f:
                            m.eq(f.read(), x, "file-changed-by-mkdir", lambda: repr((n, case)))
                m.event(kind + ("-again" if again else ""))
                touch(os.path.join(full, "keep.txt"), os.path.relpath(os.path.join(full, "keep.txt"), tmp).encode())
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


# --- identifier lists ----------------------------------------------------------------------------------------------

def gen_ids(r, i):
    lines = [r.choice(["SHIP", "12345", "a b", " LEAD", "123456789", "LONGER THAN NINE", "", "   ", "         ", "\t", "0", "PLAT    ", "A/B*", "         X"]) for _ in range(r.randint(0, 15))]
    return (lines, r.choice(["\n", "\n", "\r\n"]), r.random() < 0.5)


def check_ids(case, m):
    lines, eol, last = case
    tmp = tempfile.mkdtemp(prefix="c32_")
    try:
        p = os.path.join(tmp, "ids.txt")
        with open(p, "w", newline="") as f:
            f.write(eol.join(lines) + (eol if last else ""))
        want = [x.rstrip().ljust(9) for x in lines if x.strip()]
        m.eq(bf.process_bad_id_file(p), want, "identifier-list", lambda: repr(case))
        m.event("ids", len(want))
        if not want:
            m.event("empty-list")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


STREAMS = [Stream("names", gen_names, check_names, 8000, 400000, need=10000),
           Stream("releases", RELEASE, check_release, None, None, need=10000),
           Stream("archive", gen_archive, check_archive, 3000, 60000, need=5000),
           Stream("background", gen_background, check_background, 2400, 40000, need=3000),
           Stream("directories", gen_dirs, check_dirs, 1600, 30000, need=3000),
           Stream("identifiers", gen_ids, check_ids, 2000, 40000, need=900)]
