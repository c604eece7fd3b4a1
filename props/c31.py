"""C31 chunks of months, the tracking driver and the tracking run."""
import argparse
import json
import os
import random
import shutil
import sys
import tempfile

import Extended_IMMA as ex
import Tracking_QC_wrapper as tw
import YMCounter as ymc
import c29
import geo
import tracking_qc as tq
from core import Stream

RULE = ("All patterns of months in series of 1 to 9 months for gaps of 1 to 5 and 11 months, and random patterns in series of up to 180 months for gaps of 1 to 14; the driver run on generated ID lists of 0 to 6 platforms, with blanks, quotes, slashes "
        "and shell characters in identifiers, for every edge mode, with stand-ins on PATH for sbatch, squeue and python that run each submitted job and record the arguments the tracking program would get; the tracking program run on monthly files of "
        "one platform among files of others, other months and other runs, with gaps, unsorted and unusable reports and missing or unequal files, and every cell of its output compared.")


def months(y1, m1, n):
    return [(y1 + (m1 - 1 + k) // 12, (m1 - 1 + k) % 12 + 1) for k in range(n)]


def chunks(bits, gap):
    """maximal groups of months with data such that fewer than gap months without data separate neighbours"""
    on = [k for k, b in enumerate(bits) if b]
    out = []
    for k in on:
        if out and k - out[-1][1] - 1 < gap:
            out[-1][1] = k
        else:
            out.append([k, k])
    return [tuple(c) for c in out]


def edges(a, b, n, gap):
    e = []
    if a < gap:
        e.append("start_edge_case")
    if n - 1 - b < gap:
        e.append("end_edge_case")
    if n - 1 - b == gap:
        e.append("new")
    if "start_edge_case" not in e and "end_edge_case" not in e:
        e.append("regular")
    return set(e)


ALLPAT = [(n, p, gap) for n in range(1, 10) for p in range(2 ** n) for gap in (1, 2, 3, 4, 5, 11)]


def check_pattern(case, m):
    n, p, gap = case
    run_chunks(1999, 1 + p % 12, [p >> k & 1 for k in range(n)], gap, [], m)


def gen_chunks(r, i):
    n = r.choice([12, 24, 36, 60, 180])
    gap = r.choice([1, 2, 3, 3, 4, 6, 9, 10, 11, 12, 14])
    return (r.choice([1850, 1985, 1999]), r.randint(1, 12), pattern(r, n, gap), gap, [r.randrange(n) for k in range(3)])


def pattern(r, n, gap):
    bits = []
    while len(bits) < n:
        bits += [0] * r.choice([0, gap - 1, gap, gap, gap + 1, r.randint(0, 3), r.randint(0, 2 * gap)]) if bits or r.random() < 0.6 else []
        bits += [1] * r.choice([1, 1, 2, r.randint(1, 15)])
    bits = bits[:n]
    if r.random() < 0.5:
        k = r.choice([0, 1, gap - 1, gap, gap + 1])
        bits = bits[:max(0, n - k)] + [0] * min(n, k)
    return bits if r.random() < 0.97 else [0] * n


def check_chunks(case, m):
    run_chunks(*case, m)


def run_chunks(y1, m1, bits, gap, again, m):
    n = len(bits)
    ms = months(y1, m1, n)
    ctx = lambda: "%r from %r gap %d" % (bits, (y1, m1), gap)
    c = ymc.YMCounter(y1, m1, ms[-1][0], ms[-1][1])
    order = [k for k in range(n) if bits[k]]
    random.Random(n).shuffle(order)
    for k in order + [k for k in again if bits[k]]:
        c.setym(ms[k][0], ms[k][1], 1)
    m.eq([int(x) for x in c.counter], bits, "months-marked", ctx)
    for k in again:
        m.eq([int(x) for x in c.index(*ms[k])], [k], "month-index", ctx)
    want = chunks(bits, gap)
    starts, ends = c.get_chunks(gap)
    m.eq([(int(a), int(b)) for a, b in zip(starts, ends)], want, "chunks", ctx)
    m.eq(len(starts), len(ends), "chunk-ends", ctx)
    got = [(a, b, x, y, set(cl)) for a, b, x, y, cl in c.yield_start_and_end_dates(gap)]
    m.ok(got == [ms[a] + ms[b] + (edges(a, b, n, gap),) for a, b in want], "chunk-dates-and-edges", lambda: "%r %s" % (got, ctx()))
    # what users rely on, without the reference: each month with data once, in order, no long gap inside, long gaps between
    seen = [k for a, b in zip(starts, ends) for k in range(int(a), int(b) + 1) if bits[k]]
    m.eq(seen, [k for k in range(n) if bits[k]], "months-covered-once", ctx)
    m.event("chunks", len(want))
    for a, b, x, y, cl in got:
        m.event("+".join(sorted(cl)))
    if not want:
        m.event("empty")


# --- driver --------------------------------------------------------------------------------------------------------

FAKE = {"sbatch": '#!/bin/bash\nn=$(ls "$C31_REC" | wc -l)\nmkdir "$C31_REC/$n"\nexport C31_JOB="$C31_REC/$n"\nexec bash "$1" >/dev/null 2>&1\n',
        "squeue": "#!/bin/bash\nexit 0\n", "module": "#!/bin/bash\nexit 0\n",
        "python": '#!/bin/bash\nprintf "%s\\0" "$@" > "$C31_JOB/args"\n'}
IDS = ["2300123  ", "51514    ", "A B      ", " LEAD    ", "A/B      ", "D*BU     ", "it's     ", 'q"t      ', "$HOME    ", "a;b      ", "a&b      ", "AB,CD    ", "`id`     ", "(x)      ", "#no      ", "a\\b      ", "~        ", "?        "]


def gen_driver(r, i):
    n = r.choice([1, 3, 8, 13, 30])
    gap = r.choice([1, 2, 3, 3, 5, 11])
    ids = r.sample(IDS, r.choice([0, 1, 2, 3]) if r.random() < 0.7 else 1)
    plats = [(x, pattern(r, n, gap)) for x in ids]
    if r.random() < 0.15 and n > 3:
        plats.append(("2300124  ", [1] + [0] * (n - 2) + [1]))
    return (r.choice([1985, 1999]), r.randint(1, 12), n, gap, r.choice(["all", "standard", "new", "noend"]), plats, r.random() < 0.1, i % 3 == 0)


def parse(args):
    p = argparse.ArgumentParser()
    for f in ("-config", "-id", "-runmonthid"):
        p.add_argument(f)
    for f in ("-yr1", "-mn1", "-yr2", "-mn2"):
        p.add_argument(f, type=int)
    p.add_argument("-edge", nargs="+")
    try:
        return p.parse_args(args)
    except SystemExit:
        return None


def check_driver(case, m):
    y1, m1, n, gap, mode, plats, busy, blank = case
    ctx = lambda: repr(case)
    ms = months(y1, m1, n)
    top = tempfile.mkdtemp(prefix="c31_")
    keep = {k: os.environ.get(k) for k in ("PATH", "C31_REC")}
    argv, sleep, load = sys.argv, tw.time.sleep, tw.subprocess.check_output
    err = os.dup(2)
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 2)
    os.close(dn)
    slept = []
    try:
        work = os.path.join(top, "wo rk" if blank else "work")
        for d in ("bin", "rec", "out", "trk"):
            os.makedirs(os.path.join(work, d))
        for f, text in FAKE.items():
            p = os.path.join(work, "bin", f)
            with open(p, "w") as fh:
                fh.write(text)
            os.chmod(p, 0o755)
        os.environ["PATH"] = os.path.join(work, "bin") + ":" + keep["PATH"]
        os.environ["C31_REC"] = os.path.join(work, "rec")
        for k, (y, mo) in enumerate(ms):
            d = os.path.join(work, "out", str(y), "%02d" % mo)
            os.makedirs(d)
            with open(os.path.join(d, "ID_file.txt"), "w") as f:
                for x, bits in plats:
                    if bits[k]:
                        f.write(x + "," + c29.safe(x) + "\n")
        with open(os.path.join(work, "par.json"), "w") as f:
            json.dump(dict(runid="run1"), f)
        cfg = os.path.join(work, "config.txt")
        with open(cfg, "w") as f:
            f.write("[Directories]\nout_dir=%s\ntrack_out_dir=%s\n[Files]\nparameter_file=%s\n" % (os.path.join(work, "out"), os.path.join(work, "trk"), os.path.join(work, "par.json")))
        answers = [251, 300] if busy else []

        def queue(*a, **k):
            return ["hadjj JOB\n"] * (answers.pop(0) if answers else 250)

        if busy:
            tw.subprocess.check_output = queue
        tw.time.sleep = lambda s: slept.append(s)
        sys.argv = ["Tracking_QC_wrapper.py", "-config", cfg, "-yr1", str(y1), "-mn1", str(m1), "-yr2", str(ms[-1][0]), "-mn2", str(ms[-1][1]), "-edge", mode]
        # three months and standard handling of the edges need not be asked for
        if gap != 3 or blank:
            sys.argv += ["-gap", str(gap)]
        if mode == "standard" and blank:
            del sys.argv[sys.argv.index("-edge"):sys.argv.index("-edge") + 2]
        tw.main(sys.argv[1:])
        want = []
        for x, bits in plats:
            for a, b in chunks(bits, gap):
                e = edges(a, b, n, gap)
                late = n - 1 - b
                go = dict(all=True, standard=a >= gap and late >= gap, new=late == gap, noend=late >= gap)[mode]
                if go:
                    want.append((x.ljust(9), ms[a] + ms[b], tuple(sorted(e)), "%d%02d-%d%02d" % (ms[0] + ms[-1]), cfg))
                m.event("submitted" if go else "left-out")
        got = []
        for job in os.listdir(os.environ["C31_REC"]):
            p = os.path.join(os.environ["C31_REC"], job, "args")
            m.ok(os.path.exists(p), "job-runs-nothing", ctx)
            with open(p) as f:
                args = f.read().split("\0")[:-1]
            m.ok(os.path.basename(args[0]) == "tracking_qc.py", "job-program", lambda: repr(args))
            a = parse(args[1:])
            m.ok(a is not None and None not in (a.id, a.config, a.yr1, a.mn1, a.yr2, a.mn2, a.edge), "job-arguments", lambda: "%r %s" % (args, ctx()))
            got.append((a.id.ljust(9), (a.yr1, a.mn1, a.yr2, a.mn2), tuple(sorted(a.edge)), a.runmonthid, a.config))
        m.eq(sorted(got), sorted(want), "jobs", ctx)
        if busy and want:
            m.eq(len(slept), 2, "waits-while-queue-is-full", ctx)
            m.event("queue-full")
        m.eq(sorted(os.listdir(os.path.join(work, "trk"))), ["TrackingQC"] if want else [], "output-tree", ctx)
        m.event("mode-" + mode)
    finally:
        os.dup2(err, 2)
        os.close(err)
        sys.argv, tw.time.sleep, tw.subprocess.check_output = argv, sleep, load
        for k, v in keep.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        shutil.rmtree(top, ignore_errors=True)


def quiet_run(args, years, plats, m):
    """run the driver on ID lists without a queue; (exception or None, submissions recorded at the point of sbatch)"""
    top = tempfile.mkdtemp(prefix="c31_")
    argv, keep = sys.argv, (tw.os.system, tw.subprocess.check_output, tw.time.sleep)
    out, jobs, slept = os.path.join(top, "out"), [], []
    try:
        os.makedirs(os.path.join(top, "trk"))
        for y, mo in years:
            d = os.path.join(out, str(y), "%02d" % mo)
            os.makedirs(d)
            with open(os.path.join(d, "ID_file.txt"), "w") as f:
                for ident, on in plats:
                    if (y, mo) in on:
                        f.write(ident + "," + c29.safe(ident) + "\n")
        with open(os.path.join(top, "par.json"), "w") as f:
            json.dump(dict(runid="run1"), f)
        with open(os.path.join(top, "configuration.txt"), "w") as f:
            f.write("[Directories]\nout_dir=%s\ntrack_out_dir=%s\n[Files]\nparameter_file=%s\n" % (out, os.path.join(top, "trk"), os.path.join(top, "par.json")))
        tw.os.system = lambda c: jobs.append(c) or 0
        tw.subprocess.check_output = lambda *a, **k: []
        tw.time.sleep = lambda s: slept.append(s)
        here = os.getcwd()
        os.chdir(top)
        try:
            sys.argv = ["Tracking_QC_wrapper.py"] + args
            tw.main(args)
            err = None
        except (Exception, SystemExit) as e:
            err = e
        finally:
            os.chdir(here)
        text = []
        for a, b, fs in os.walk(os.path.join(top, "trk")):
            for f in fs:
                with open(os.path.join(a, f)) as fh:
                    text += [x for x in fh if "tracking_qc.py" in x]
        return err, len(jobs), text
    finally:
        sys.argv = argv
        tw.os.system, tw.subprocess.check_output, tw.time.sleep = keep
        shutil.rmtree(top, ignore_errors=True)


def check_mode(case, m):
    """an unknown edge mode is refused and nothing is submitted"""
    err, jobs, text = quiet_run(["-yr1", "1999", "-mn1", "1", "-yr2", "1999", "-mn2", "12", "-edge", case], months(1999, 1, 12), [("2300123  ", {(1999, 6)})], m)
    m.ok(err is not None, "unknown-mode-accepted", case)
    m.eq((jobs, text), (0, []), "unknown-mode-submitted", case)


def check_defaults(case, m):
    """without arguments the driver covers January 1985 to December 2019 with a gap of three months and leaves chunks at the edges alone"""
    ms = months(1985, 1, 420)
    r = random.Random(case)
    plats = [("23001%02d  " % k, {ms[q] for q in range(420) if bits[q]}) for k, bits in enumerate(pattern(r, 420, 3) for _ in range(3))]
    plats.append(("2399999  ", {ms[q] for q in (2, 7, 416, 412)}))
    plats.append(("2399998  ", {ms[3], ms[416], ms[200], ms[203], ms[207]}))
    err, jobs, text = quiet_run([], ms, plats, m)
    m.ok(err is None, "defaults-refused", lambda: repr(err))
    want = 0
    for ident, on in plats:
        for a, b in chunks([q in on for q in ms], 3):
            want += a >= 3 and 419 - b >= 3
    m.eq((jobs, len(text)), (want, want), "default-series", case)
    m.event("default-jobs", want)


# --- tracking run --------------------------------------------------------------------------------------------------

IQ = dict(buoy_speed_limit=15.0, ship_speed_limit=60.0, delta_d=1.11, delta_t=0.01, number_of_neighbours=5)
BASE = [("POS", "isbuoy", 1), ("POS", "date", 0), ("POS", "time", 0), ("POS", "pos", 0), ("POS", "blklst", 0)]
SSTF = [("SST", f, 0) for f in ("clim", "nonorm", "freez", "noval", "rep", "hardlimit")]
ALLF = [("POS", f) for f in c29.VOY["POS"]] + [("SST", f) for f in c29.VOY["SST"]]


def gen_track(r, i):
    nm = r.choice([1, 1, 2, 3, 4])
    y, mo = r.choice([1999, 2004, 2014]), r.choice([1, 2, 6, 11, 12])
    polar = r.random() < 0.6
    lat, lon = r.choice([80.0, 85.5]) if polar else round(r.uniform(-60, 60), 1), r.choice([179.9, 0.0, round(r.uniform(-170, 170), 1)])
    step = r.choice([3, 6, 12, 24])
    rows, k = [], 0
    style = r.choice(["good", "good", "badhead", "badtail", "aground", "fast", "biased", "flags", "flags", "short"])
    ms = months(y, mo, nm)
    data = [True] + [r.random() < 0.8 for _ in ms[2:]] + [True] if nm > 1 else [True]
    per = r.choice([3, 8, 20])
    nouid = r.random() < 0.06
    pflag = 0.0 if nouid else r.choice([0.0, 0.0, 0.03, 0.2]) if style != "flags" else r.choice([0.1, 0.3])
    for (yy, mm), has in zip(ms, data):
        if not has:
            continue
        for j in range(r.randint(1, 2) if style == "short" else per):
            h = j * step
            moving = not (style == "aground" and k > 8)
            lon += r.choice([0.05, 0.1]) if moving else 0
            x = lon
            if style == "fast" and r.random() < 0.5:
                lon += 3.0
                x = lon
            bg = round(r.uniform(0, 25) * 4) / 4
            bad = (style == "badhead" and k < 7) or (style == "badtail" and k > per) or style == "biased"
            d = dict(YR=yy, MO=mm, DY=1 + h // 24, HR=float(h % 24) + r.choice([0, 0, 0.25]), LAT=round(lat, 2), LON=round((x + 180) % 360 - 180, 2), SST=round(bg + (r.choice([3.0, 4.5]) if bad else r.choice([0.1, -0.2, 0.3])), 1), UID="U%05d" % (k * 37 % 99991))
            if r.random() < 0.2:
                d["AT"] = 11.5
            fl = {}
            for a, f in ALLF:
                fl[a, f] = {"isbuoy": 1, "isdrifter": 1, "bbud": r.choice([0, 0, 0, 1, 3])}.get(f, 0)
                if r.random() < pflag / 8:
                    fl[a, f] = r.choice([1, 1, 9, 0, 2])
                if f == "bbud" and r.random() < pflag:
                    fl[a, f] = r.choice([3, 4, 5, 9])
            if r.random() < pflag / 4:
                d["HR"], fl["POS", "time"] = None, 1
            if r.random() < pflag / 4:
                d["DY"], fl["POS", "date"] = 31 if mm == 2 else d["DY"], 1
            if r.random() < pflag / 4:
                d["SST"], fl["SST", "noval"] = None, 1
            ext = (r.choice([bg] * 15 + [None]), r.choice([None, 0.0, 0.0, 0.4 if r.random() < 0.2 else 0.1]), r.choice([0.01, 0.04] + ([0.5] if r.random() < 0.05 else [])))
            rows.append((d, ext, [fl[x] for x in ALLF], r.choice([None, 12.25])))
            k += 1
    order = r.choice(["sorted", "sorted", "shuffled"])
    if order == "shuffled":
        r.shuffle(rows)
    par = dict(new_buoy_aground_check=dict(smooth_win=r.choice([1, 3, 5]), min_win_period=r.choice([1, 2])),
               new_buoy_speed_check=dict(speed_limit=2.5, min_win_period=r.choice([0.25, 0.8])), IQUAM_track_check=IQ,
               buoy_tail_check=dict(long_win_len=r.choice([1, 3, 5]), long_err_std_n=3.0, short_win_len=r.choice([1, 3]), short_err_std_n=3.0, short_win_n_bad=r.choice([1, 2]), drift_inter=0.29, drif_inter=0.29, drif_intra=1.0, background_err_lim=0.3),
               buoy_bias_noise_check=dict(n_eval=r.choice([3, 10, 30]), bias_lim=1.1, drif_intra=1.0, drif_inter=0.29, err_std_n=3.0, n_bad=2, background_err_lim=0.3))
    edge = r.choice([["regular"], ["new", "regular"], ["start_edge_case"], ["end_edge_case"], ["start_edge_case", "end_edge_case"], ["start_edge_case", "new"]])
    fault = r.choice(["none"] * (99 if nouid else 12) + ["no-data", "missing-file", "short-file", "wrong-uid", "empty-file", "only-one", "all-empty"])
    return (r.choice(["2300123  ", "51514    ", "A/B      ", "A B      "]), (y, mo, nm), rows, par, edge, fault, nouid, r.randint(0, 999))


def build(ident, rows, nouid=False):
    v = ex.Voyage()
    for d, ext, fl, clim in rows:
        p = geo.mk(dict({k: x for k, x in d.items() if x is not None and not (nouid and k == "UID")}, ID=ident, PT=7))
        for (a, f), x in zip(ALLF, fl):
            p.set_qc(a, f, x)
        for name, x in zip(("OSTIA", "ICE", "BGVAR"), ext):
            p.setext(name, x)
        if clim is not None:
            p.add_climate_variable("SST", clim)
        v.reps.append(p)
    return v


def sub(v, fl, lim):
    w = ex.Voyage()
    for p in v.reps:
        if all(p.get_qc(a, f) == x for a, f, x in fl) and (not lim or p.get_qc("SST", "bbud") < 4):
            w.add_report(p)
    w.sort()
    return w


def check_track(case, m):
    ident, (y, mo, nm), rows, par, edge, fault, nouid, seed = case
    ctx = lambda: repr(case)
    ms = months(y, mo, nm)
    top = tempfile.mkdtemp(prefix="c31_")
    argv = sys.argv
    try:
        out, trk = os.path.join(top, "out"), os.path.join(top, "trk")
        os.makedirs(trk)
        r = random.Random(seed)
        before, after = months(y, mo, 1)[0], ms[-1]
        outside = [(before[0] - (before[1] == 1), (before[1] - 2) % 12 + 1), (after[0] + (after[1] == 12), after[1] % 12 + 1)]
        for ym in ms + outside:
            d = os.path.join(out, "%d" % ym[0], "%02d" % ym[1])
            os.makedirs(d)
            mine = [q for q in rows if (q[0]["YR"], q[0]["MO"]) == ym]
            if mine and fault != "no-data":
                build(ident, mine, nouid).write_output("run1", d, ym[0], ym[1])
            # files that belong to somebody else, to another run or to a month outside the record
            other = [(dict(q[0], YR=ym[0], MO=ym[1], LAT=10.0, UID="X" + q[0]["UID"][1:]),) + q[1:] for q in rows[:3]]
            build("9" + ident[1:], other).write_output("run1", d, ym[0], ym[1])
            build(ident, other).write_output("run2", d, ym[0], ym[1])
            if ym in outside:
                build(ident, other).write_output("run1", d, ym[0], ym[1])
        last = max((q[0]["YR"], q[0]["MO"]) for q in rows)
        d = os.path.join(out, "%d" % last[0], "%02d" % last[1])
        tag = "%d%02d_%s_run1.csv" % (last[0], last[1], c29.safe(ident))
        target = os.path.join(d, r.choice(["Variables_", "POS_qc_", "SST_qc_"]) + tag)
        if fault == "missing-file":
            os.remove(target)
        elif fault == "only-one":
            keep = r.choice(["Variables_", "POS_qc_", "SST_qc_"])
            for x in ("Variables_", "POS_qc_", "SST_qc_"):
                if x != keep:
                    os.remove(os.path.join(d, x + tag))
        elif fault == "all-empty":
            for x in ("Variables_", "POS_qc_", "SST_qc_"):
                open(os.path.join(d, x + tag), "w").close()
        elif fault == "empty-file":
            open(target, "w").close()
        elif fault == "short-file":
            with open(target) as f:
                lines = f.readlines()
            with open(target, "w") as f:
                f.writelines(lines[:-1])
        elif fault == "wrong-uid":
            target = os.path.join(d, r.choice(["POS_qc_", "SST_qc_"]) + tag)
            with open(target) as f:
                lines = f.readlines()
            k = r.randrange(1, len(lines))
            lines[k] = "ZZZZZZ" + lines[k][lines[k].index(","):]
            with open(target, "w") as f:
                f.writelines(lines)
        with open(os.path.join(top, "par.json"), "w") as f:
            json.dump(dict(par, runid="run1"), f)
        cfg = os.path.join(top, "config.txt")
        with open(cfg, "w") as f:
            f.write("[Directories]\nout_dir=%s\ntrack_out_dir=%s\n[Files]\nparameter_file=%s\n" % (out, trk, os.path.join(top, "par.json")))
        sys.argv = ["tracking_qc.py", "-config", cfg, "-id", r.choice([ident, ident.rstrip()]), "-yr1", str(y), "-mn1", str(mo), "-yr2", str(ms[-1][0]), "-mn2", str(ms[-1][1]), "-edge"] + edge + ["-runmonthid", "198501-200512"]
        state = c29_listing(out)
        try:
            tq.main(sys.argv[1:])
            refused = None
        except UserWarning as e:
            refused = e
        m.eq(c29_listing(out), state, "input-changed", ctx)
        got = sorted(os.path.relpath(os.path.join(a, f), trk) for a, b, fs in os.walk(trk) for f in fs)
        if fault != "none":
            m.ok(refused is not None, "inconsistent-files-accepted", ctx)
            m.eq(got, [], "output-in-spite-of-faulty-input", ctx)
            m.event("fault-" + fault)
            return
        m.ok(refused is None, "refused", lambda: "%s %s" % (refused, ctx()))
        base = "TrackingQC/%d/%02d/" % ms[-1]
        name = "Tracking_%d%02d_%s_run1.csv" % (ms[-1] + (c29.safe(ident),))
        dirs = ([""] if set(edge) & {"new", "regular"} else []) + [e + "_198501-200512/" for e in edge if e.endswith("_case")]
        m.eq(got, sorted(base + x + name for x in dirs), "tracking-files", ctx)
        # the same checks on the reports that are documented to be passed to them
        v = build(ident, rows)
        sub(v, BASE, False).new_buoy_aground_check(par["new_buoy_aground_check"])
        sub(v, BASE, False).new_buoy_speed_check(dict(IQ), par["new_buoy_speed_check"])
        ok = BASE + SSTF + [("POS", "drf_agr", 0), ("POS", "drf_spd", 0)]
        sub(v, ok, True).buoy_tail_check(par["buoy_tail_check"])
        ok = ok + [("SST", "drf_tail1", 0), ("SST", "drf_tail2", 0)]
        sub(v, ok, True).buoy_bias_noise_check(par["buoy_bias_noise_check"])
        exp = {p.getvar("UID"): p for p in v.reps}
        src = {q[0]["UID"]: q for q in rows}
        fl = [("POS", f) for f in c29.TRK["POS"]] + [("SST", f) for f in c29.TRK["SST"]] + [("POS", "drf_agr"), ("POS", "drf_spd")] + [("SST", f) for f in ("drf_tail1", "drf_tail2", "drf_bias", "drf_noise", "drf_short")]
        for g in got:
            head, body = c29.table(os.path.join(trk, g), m, ctx)
            if nouid:       # known by their times
                when = {(q[0]["YR"], q[0]["MO"], q[0]["DY"], q[0]["HR"]): q[0]["UID"] for q in rows}
                m.ok(all(x[0] == "\\N" for x in body), "missing-uid", ctx)
                body = [[when[int(x[6]), int(x[7]), int(x[8]), float(x[9])]] + x[1:] for x in body]
                m.event("without-uid")
            m.eq(head, ["UID", "DATE", "PENTAD", "ID", "LON", "LAT", "YR", "MO", "DY", "HR"] + [f for a, f in fl] + ["SST", "OSTIA", "BGVAR", "ICE"], "tracking-header", ctx)
            m.eq(sorted(x[0] for x in body), sorted(src), "reports-of-the-platform-once", ctx)
            if all(q[0]["HR"] is not None and q[0]["DY"] < 29 for q in rows):
                at = [geo.hours(src[x[0]][0]) for x in body]
                m.ok(at == sorted(at), "not-in-time-order", ctx)
            for x in body:
                p, (d, ext, fs, clim) = exp[x[0]], src[x[0]]
                for cname, t in zip(("ID", "LON", "LAT", "YR", "MO", "DY", "HR"), x[3:10]):
                    c29.cell(m, t, dict(d, ID=ident)[cname], "value-" + cname, ctx)
                flags = dict(zip(fl, x[10:10 + len(fl)]))
                for a, f in fl:
                    want = p.get_qc(a, f)
                    m.ok(flags[a, f] == str(want), "tracking-flag-" + f, lambda: "%s of %s is %s, expected %s: %s" % (f, x[0], flags[a, f], want, ctx()))
                    if f.startswith("drf"):
                        m.event("%s=%d" % (f, want))
                for cname, t, want in zip(("SST", "OSTIA", "BGVAR", "ICE"), x[-4:], (d["SST"], ext[0], ext[2], ext[1])):
                    c29.cell(m, t, want, "value-" + cname, ctx)
        m.event("runs")
    finally:
        sys.argv = argv
        shutil.rmtree(top, ignore_errors=True)


def c29_listing(root):
    out = []
    for a, b, fs in os.walk(root):
        for f in fs:
            p = os.path.join(a, f)
            with open(p, "rb") as fh:
                out.append((p, hash(fh.read())))
    return sorted(out)


STREAMS = [Stream("all-patterns", ALLPAT, check_pattern, None, None, need=20000), Stream("chunks", gen_chunks, check_chunks, 6000, 100000, need=10000), Stream("driver", gen_driver, check_driver, 400, 10000, need=400),
           Stream("modes", ["", "nonsense", "regular", "ALL"], check_mode, None, None, need=4), Stream("defaults", [1, 2, 3], check_defaults, None, None, need=6),
           Stream("tracking", gen_track, check_track, 400, 12000, need=20000)]
