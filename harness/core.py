"""Case runner shared by all checks.

A property module defines STREAMS: each stream makes cases (plain Python literals) from a seeded generator, runs the
real code of /repo on them and judges what it observed with an oracle that does not use the code under test.  The
runner distributes cases over processes, counts what the monitors observed, stores the first failing cases so that
they can be replayed, and writes the evidence file.
"""
import ast
import hashlib
import json
import math
import multiprocessing
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAILFAST = bool(os.environ.get("VERIF_FAILFAST"))      # stop at the first violation
CPU_PER_CASE = float(os.environ.get("VERIF_CPU", "90"))      # CPU seconds; cases normally take milliseconds


def size(r, usual, large, p=0.01):
    """One of the usual sizes, now and then (about one case in a hundred) a large one."""
    if r.random() < p:
        return r.randint(large // 2, large)
    return r.choice(usual)


class CpuBudget(BaseException):
    pass


class Bad(Exception):
    """An oracle rejected an observation."""

    def __init__(self, label, msg):
        Exception.__init__(self, "%s: %s" % (label, msg))
        self.label = label
        self.msg = msg


class Stream:
    def __init__(self, name, gen, check, quick, thorough, need=1, heavy=False):
        self.name = name
        self.gen = gen              # gen(rng, i) -> case (literal), or a list of cases
        self.check = check          # check(case, m)
        self.quick = quick
        self.thorough = thorough
        self.need = need            # fewest oracle decisions for a verdict
        if not callable(gen):
            self.cases = list(gen)
            self.finite = True
        else:
            self.cases = None
            self.finite = False

    def n(self, tier):
        n = self.quick if tier == "quick" else self.thorough
        if self.finite:
            return len(self.cases) if n is None else min(n, len(self.cases))
        return n

    def case(self, pid, seed, tier, i):
        if self.finite:
            if self.n(tier) < len(self.cases):
                r = random.Random("%s/%s/%d" % (pid, self.name, seed))
                idx = (i * 7919 + r.randrange(len(self.cases))) % len(self.cases)
                return self.cases[idx]
            return self.cases[i]
        return self.gen(random.Random("%s/%s/%d/%d" % (pid, self.name, seed, i)), i)


class Monitor:
    """Collects decisions, event counts and failures for the cases of one worker."""

    def __init__(self):
        self.counts = {}
        self.decisions = 0
        self.fails = []
        self.known = {}
        self.trivial = False
        self.case_dec = 0

    def event(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def decided(self, k=1):
        self.decisions += k
        self.case_dec += k

    def ok(self, cond, label, msg=""):
        self.decided()
        if not cond:
            raise Bad(label, msg() if callable(msg) else msg)

    def eq(self, got, want, label, ctx=""):
        self.decided()
        if not same(got, want):
            raise Bad(label, "%s got %r, expected %r" % (ctx() if callable(ctx) else ctx, plain(got), plain(want)))

    def near(self, got, want, tol, label, ctx=""):
        self.decided()
        if want is None or got is None:
            good = got is None and want is None
        else:
            try:
                good = abs(float(got) - float(want)) <= tol
            except Exception:
                good = False
        if not good:
            raise Bad(label, "%s got %r, expected %r (tolerance %g)" % (ctx() if callable(ctx) else ctx, plain(got), plain(want), tol))

    def known_finding(self, key, text):
        """A case shows the defect listed in known_findings.txt under this key."""
        if key in KNOWN:
            self.known[key] = self.known.get(key, 0) + 1
        else:
            raise Bad(key, text)


def plain(x):
    try:
        import numpy as np
        if isinstance(x, np.generic):
            return x.item()
    except Exception:
        pass
    return x


def same(got, want):
    got, want = plain(got), plain(want)
    if want is None or got is None:
        return got is None and want is None
    if isinstance(want, (list, tuple)):
        try:
            got = list(got)
        except TypeError:
            return False
        return len(got) == len(want) and all(same(g, w) for g, w in zip(got, want))
    if isinstance(want, str) or isinstance(got, str):
        return isinstance(got, str) and isinstance(want, str) and got == want
    try:
        if isinstance(want, float) and math.isnan(want):
            return math.isnan(got)
        return bool(got == want)
    except Exception:
        return False


KNOWN = {}
AT = [0, 0]       # stream and case a worker is on


def load_known(pid):
    """Lines "known: property=<id> key=<mechanism> <text>" list findings; "fixed: ..." lines suppress nothing."""
    path = os.path.join(ROOT, "known_findings.txt")
    if not os.path.exists(path):
        return
    for line in open(path):
        parts = line.strip().split(None, 3)
        if len(parts) == 4 and parts[0] == "known:" and parts[1] == "property=" + pid and parts[2].startswith("key="):
            KNOWN[parts[2][4:]] = dict(text=parts[3])


def _alarm(signum, frame):
    raise CpuBudget()


def run_case(stream, case, m):
    m.trivial = False
    m.case_dec = 0
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_PER_CASE, 5.0)
    try:
        stream.check(case, m)
        return None
    except Bad as e:
        return (e.label, e.msg)
    except CpuBudget:
        return ("no-answer", "no answer within %g s of CPU time" % CPU_PER_CASE)
    except KeyboardInterrupt:
        raise
    except BaseException as e:      # SystemExit too: it must not end the worker
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if f.filename.startswith("/repo/")]
        loc = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "harness"
        last = tb[-1]
        return ("raised-" + type(e).__name__, "%s: %s [in %s; harness line %s:%s]" % (
            type(e).__name__, str(e)[:300], loc, os.path.basename(last.filename), last.lineno))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


class Lines:
    """Which lines of the code under test ran (a line event is switched off after its first hit, so this costs next to nothing)."""

    def __init__(self):
        self.seen = set()
        self.on = False
        mon = getattr(sys, "monitoring", None)
        if mon is None or mon.get_tool(mon.COVERAGE_ID) is not None:
            return
        mon.use_tool_id(mon.COVERAGE_ID, "verif")
        mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, self.line)
        mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
        self.on = True

    def line(self, code, n):
        if code.co_filename.startswith("/repo/"):
            self.seen.add((code.co_filename[6:], n))
        return sys.monitoring.DISABLE

    def stop(self):
        if self.on:
            sys.monitoring.set_events(sys.monitoring.COVERAGE_ID, 0)
            sys.monitoring.free_tool_id(sys.monitoring.COVERAGE_ID)
        return self.seen


def _worker(args, at, path):
    global AT
    AT = at
    lines = Lines()
    out = _work(args)
    with open(path + ".part", "wb") as f:
        pickle.dump((out, lines.stop()), f)
    os.rename(path + ".part", path)


def run_workers(argss, grace):
    """Run the workers; a worker that dies or hangs loses its results and is reported with the case it was on."""
    ctx = multiprocessing.get_context("fork")
    top = tempfile.mkdtemp(prefix="verif-")
    try:
        jobs = []
        for k, args in enumerate(argss):
            at = ctx.RawArray("q", [-1, -1])
            path = os.path.join(top, str(k))
            p = ctx.Process(target=_worker, args=(args, at, path))
            p.start()
            jobs.append((p, at, path))
        results, lost = [], []
        for p, at, path in jobs:
            p.join(max(0.0, grace - time.time()))
            alive = p.is_alive()
            if alive:
                p.kill()
                p.join()
            if os.path.exists(path):
                with open(path, "rb") as f:
                    results.append(pickle.load(f))
            else:
                lost.append((at[0], at[1], "no answer before the time ran out" if alive else "the process ended with exit code %s" % p.exitcode))
        return results, lost
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _work(args):
    modname, pid, seed, tier, k, w, deadline, base = args
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    out = {}
    mod = sys.modules[modname]
    for si, s in enumerate(mod.STREAMS):
        m = Monitor()
        hashes = set()
        ran = 0
        fails = []
        samples = []
        truncated = False
        n = s.n(tier)
        gen_err = None
        for i in range(base + k, base + n, w):
            if time.time() > deadline:
                truncated = True
                break
            try:
                case = s.case(pid, seed, tier, i)
            except BaseException:
                gen_err = traceback.format_exc()
                break
            AT[0], AT[1] = si, i
            res = run_case(s, case, m)
            ran += 1
            if m.case_dec > 0 and not m.trivial:
                rep = repr(case)
                hashes.add(hashlib.blake2b(rep.encode(), digest_size=8).digest())
                if len(samples) < 1 and len(rep) < 1500:
                    samples.append(rep)
            if res is not None:
                fails.append((res[0], res[1], repr(case)))
                if len(fails) >= 8 or FAILFAST:
                    break
        out[s.name] = dict(ran=ran, hashes=hashes, dec=m.decisions, counts=m.counts, fails=fails, samples=samples,
                           truncated=truncated, gen_err=gen_err, known=m.known)
        if FAILFAST and fails:
            break
    return out


def quiet():
    """Send the code's own printing to /dev/null; return a file object for our lines."""
    real = os.dup(1)
    dn = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(dn, 1)
    os.close(dn)
    warnings.simplefilter("ignore")
    return os.fdopen(real, "w")


def main(modname, pid, argv):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    load_known(pid)
    out = quiet()
    import numpy as np
    np.seterr(all="ignore")
    mod = sys.modules[modname]

    if argv[:1] == ["--replay"]:
        return replay(mod, pid, argv[1], out)

    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    limit = float(os.environ.get("VERIF_WALL", "0")) or (300.0 if tier == "quick" else 780.0)
    deadline = t0 + limit
    streams = {s.name: s for s in mod.STREAMS}
    agg = {n: dict(ran=0, hashes=set(), dec=0, counts={}, fails=[], samples=[], truncated=False, known={}) for n in streams}
    if hasattr(mod, "prepare"):
        mod.prepare()
    results, lost = run_workers([(modname, pid, seed, tier, k, nproc, deadline, 0) for k in range(nproc)], min(deadline + 200.0, t0 + 860.0))
    err = None
    for si, i, why in lost:
        if si < 0:
            err = "a worker was lost before its first case: " + why
            continue
        s = mod.STREAMS[si]
        agg[s.name]["fails"].append(("worker-lost", why, repr(s.case(pid, seed, tier, i))))
    ranlines = {}
    for r, seen in results:
        for f, n in seen:
            ranlines.setdefault(f, set()).add(n)
        for n, d in r.items():
            a = agg[n]
            a["ran"] += d["ran"]
            a["hashes"] |= d["hashes"]
            a["dec"] += d["dec"]
            a["fails"] += d["fails"]
            a["samples"] += d["samples"]
            a["truncated"] = a["truncated"] or d["truncated"]
            for c, v in d["counts"].items():
                a["counts"][c] = a["counts"].get(c, 0) + v
            for c, v in d["known"].items():
                a["known"][c] = a["known"].get(c, 0) + v
            if d["gen_err"]:
                err = d["gen_err"]
    if hasattr(mod, "cleanup"):
        mod.cleanup()

    violations = 0
    replay_path = None
    lines = []
    for n, a in agg.items():
        seen = {}
        for label, msg, rep in a["fails"]:
            violations += 1
            if label in seen:
                continue
            seen[label] = 1
            os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
            fn = "replays/%s-%s-%s.json" % (pid, n, "".join(c if c.isalnum() else "-" for c in label)[:60])
            with open(os.path.join(ROOT, fn), "w") as f:
                json.dump(dict(property=pid, stream=n, label=label, message=msg, case=rep, seed=seed, tier=tier,
                               replay="bash run.sh %s --replay %s" % (pid, fn)), f, indent=1)
            lines.append("VIOLATION property=%s replay=%s  (%s/%s: %s)" % (pid, fn, n, label, msg.replace("\n", " ")[:600]))
    for key in sorted(KNOWN):
        hits = sum(a["known"].get(key, 0) for a in agg.values())
        if hits:
            out.write("KNOWN-FINDING: property=%s %s (%d cases)\n" % (pid, KNOWN[key]["text"], hits))
    evals = sum(a["ran"] for a in agg.values())
    distinct = sum(len(a["hashes"]) for a in agg.values())
    samples = []
    for n, a in agg.items():
        samples += [dict(stream=n, case=s) for s in a["samples"][:1]]
    cov = dict(evaluations=evals, distinct_nontrivial=distinct,
               rule=getattr(mod, "RULE", "") + " A case counts as non-trivial when at least one oracle decision was made on it.",
               samples=samples,
               code_under_test_lines_run={f: len(v) for f, v in sorted(ranlines.items())},
               streams={n: dict(cases=a["ran"], distinct=len(a["hashes"]), oracle_decisions=a["dec"],
                                events=a["counts"], truncated_by_time=a["truncated"],
                                finite_space_completed=bool(streams[n].finite and a["ran"] == len(streams[n].cases)))
                        for n, a in agg.items()})
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(mod, "ASSUMPTIONS", []) + [
                  "Python 2 semantics as provided by /opt/vp/py2compat",
                  "the reference model in props/%s.py states the documented behaviour" % pid.lower()],
              wall_s=round(time.time() - t0, 2), violations=violations)
    if os.environ.get("VERIF_COV"):
        with open(os.path.join(os.environ["VERIF_COV"], pid + ".lines"), "w") as f:
            json.dump({k: sorted(v) for k, v in ranlines.items()}, f)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for l in lines:
        out.write(l + "\n")
    status = 0
    if lines:
        status = 1
    elif err:
        out.write("ERROR in case generation\n" + err + "\n")
        status = 2
    else:
        for n, a in agg.items():
            if a["dec"] < streams[n].need:
                out.write("INCONCLUSIVE property=%s stream %s: only %d oracle decisions\n" % (pid, n, a["dec"]))
                status = 2
    if status == 0:
        out.write("HELD property=%s tier=%s seed=%d cases=%d distinct=%d decisions=%d wall=%.1fs\n" % (
            pid, tier, seed, evals, distinct, sum(a["dec"] for a in agg.values()), time.time() - t0))
    out.flush()
    return status


def replay(mod, pid, path, out):
    with open(path) as f:
        r = json.load(f)
    streams = {s.name: s for s in mod.STREAMS}
    if hasattr(mod, "prepare"):
        mod.prepare()
    m = Monitor()
    res = run_case(streams[r["stream"]], ast.literal_eval(r["case"]), m)
    if hasattr(mod, "cleanup"):
        mod.cleanup()
    if res is None:
        out.write("REPLAY: the case passes now\n")
        out.flush()
        return 0
    out.write("VIOLATION property=%s replay=%s  (%s: %s)\n" % (pid, path, res[0], res[1]))
    out.flush()
    return 1
