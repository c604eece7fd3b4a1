"""C17 a deck is visited platform by platform, filtered and emptied without losing or duplicating reports."""
import datetime

import Extended_IMMA as ex
import geo
from core import Stream

RULE = ("Random histories of append, sort, index, pop, visit, set flags, set filter and split on decks of up to 60 reports with many shared and look-alike identifiers; after each visit or split the reports seen are compared, by identity, with a plain list model.")
FL = [("POS", "pos"), ("POS", "date"), ("POS", "time"), ("POS", "blklst"), ("SST", "bud"), ("AT", "clim")]


def gen_rep(r, k, ids):
    d = geo.stamp(datetime.datetime(2001, 2, 27), r.choice([0, 1, 5.5, r.randint(0, 96)]))
    if r.random() < 0.06:
        d[r.choice(["HR", "DY"])] = None          # no time: sorted with its platform, in no particular place
    d.update(ID=r.choice(ids), UID="U%04d" % k, LAT=round(r.uniform(-80, 80), 1), LON=round(r.uniform(-180, 180), 1), SST=float(k))
    return d


def gen_filter(r):
    return [(*r.choice(FL), r.choice([0, 0, 0, 1, 9])) for k in range(r.choice([0, 1, 1, 2, 3]))]


def gen(r, i):
    ids = r.choice([["A"], ["A", "B"], ["SHIP     ", "SHIP1    ", "ship     ", "         ", "1"], ["P%d" % k for k in range(12)], ["A", "B", None], ["A", " A", "A ", "a", "A.", "01", "1"]])
    ops, k = [], 0
    long = r.random() < 0.01
    for step in range(r.randint(100, 300) if long else r.randint(3, 40)):
        o = r.choice(["append", "append", "append", "append", "rename", "sort", "index", "pop", "pop", "visit", "flag", "filter", "flagall", "split", "partial"])
        if o == "append":
            for j in range(r.randint(1, 5) if not long or r.random() < 0.9 else 100):
                ops.append((o, gen_rep(r, k, ids)))
                k += 1
        elif o == "pop":
            for j in range(r.randint(1, 3)):
                ops.append((o, r.choice([None, None, 0, -1, r.randint(0, 30)])))
        elif o == "flag":
            ops.append((o, r.randint(0, 60), r.choice(FL), r.choice([0, 0, 1, 9])))
        elif o == "rename":
            ops.append((o, r.randint(0, 60), r.choice(ids)))
        elif o == "flagall":
            ops.append((o, r.choice(FL), r.choice([0, 0, 1])))
        elif o == "filter":
            ops.append((o, gen_filter(r)))
        elif o == "split":
            ops.append((o, gen_filter(r), r.randint(0, 2)))
        else:
            ops.append((o,))
    return ops + [("visit",), ("drain",)]


def make_filter(f):
    q = ex.QC_filter()
    for t in f:
        q.add_qc_filter(*t)
    return q


def passes(rep, f, flags):
    return all(flags.get((id(rep), a, b), 9) == c for a, b, c in f)


def visit(deck, model, filt, flags, m, ctx):
    seen = []
    ids = []
    for v in deck.get_one_platform_at_a_time():
        got = list(v.rep_feed())
        m.eq(len(v), len(got), "voyage-length", ctx)
        if not got:
            continue
        pid = got[0].getvar("ID")
        m.ok(all(g.getvar("ID") == pid for g in got), "platforms-mixed", ctx)
        m.ok(pid not in ids, "platform-visited-twice", ctx)
        ids.append(pid)
        want = [p for p in model if p.getvar("ID") == pid and passes(p, filt, flags)]
        m.ok(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "voyage-reports",
             lambda: "%r: %r, expected %r; %s" % (pid, [g.getvar("UID") for g in got], [g.getvar("UID") for g in want], ctx()))
        seen += got
    want = [p for p in model if passes(p, filt, flags)]
    m.eq(sorted(p.getvar("UID") for p in seen), sorted(p.getvar("UID") for p in want), "reports-visited", ctx)
    m.event("visits")
    m.event("reports-visited", len(seen))


def check(c, m):
    deck, model, filt, flags, keep = ex.Deck(), [], [], {}, []
    for n, o in enumerate(c):
        ctx = lambda: "step %d %r of %r" % (n, o, c)
        m.event("op-" + o[0])
        if o[0] == "append":
            rep = geo.mk(o[1])
            keep.append(rep)             # so that identities are never reused
            deck.append(rep)
            model.append(rep)
        elif o[0] == "sort":
            deck.sort()
            m.ok(sorted(map(id, deck.reps)) == sorted(map(id, model)), "sort-lost-reports", ctx)
            keys = [(p.getvar("ID") is not None, p.getvar("ID") or "") for p in deck.reps]
            m.eq(keys, sorted(keys), "not-sorted", ctx)
            if all(p.dt is not None for p in deck.reps):
                keys = [k + (p.dt,) for k, p in zip(keys, deck.reps)]
                m.eq(keys, sorted(keys), "not-sorted-by-time", ctx)
            else:
                m.event("sorted-with-undated-reports")
            model = list(deck.reps)
        elif o[0] == "index":
            deck.index_by_id()
        elif o[0] == "pop":
            if not model:
                continue
            if o[1] is None:
                got, want = deck.pop(), model.pop(0)
            else:
                p = o[1] if o[1] < len(model) else 0
                got, want = deck.pop(p), model.pop(p)
            m.ok(got is want, "popped-wrong-report", lambda: "%r, expected %r %s" % (got.getvar("UID"), want.getvar("UID"), ctx()))
        elif o[0] == "flag":
            if model:
                rep = model[o[1] % len(model)]
                rep.set_qc(*o[2], o[3])
                flags[(id(rep),) + tuple(o[2])] = o[3]
        elif o[0] == "rename":
            if model:
                model[o[1] % len(model)].setvar("ID", o[2])
        elif o[0] == "flagall":
            deck.set_qc(*o[1], o[2])
            for p in model:
                flags[(id(p),) + tuple(o[1])] = o[2]
            m.ok(all(p.get_qc(*o[1]) == o[2] for p in model), "deck-flag", ctx)
        elif o[0] == "filter":
            filt = o[1]
            deck.add_filter(make_filter(filt))
        elif o[0] == "visit":
            visit(deck, model, filt, flags, m, ctx)
        elif o[0] == "partial":
            for v in deck.get_one_platform_at_a_time():     # a visit that stops early changes nothing
                break
        elif o[0] == "split":
            q = make_filter(o[1])
            for p in model:
                m.eq(q.test_report(p), 0 if passes(p, o[1], flags) else 1, "filter-verdict", lambda: "%r %s" % (p.getvar("UID"), ctx()))
            good, bad = q.split_reports(deck)
            wg, wb = [p for p in model if passes(p, o[1], flags)], [p for p in model if not passes(p, o[1], flags)]
            m.ok(len(good) == len(wg) and all(a is b for a, b in zip(good.reps, wg)), "split-passes",
                 lambda: "%r, expected %r %s" % ([p.getvar("UID") for p in good.reps], [p.getvar("UID") for p in wg], ctx()))
            m.ok(len(bad) == len(wb) and all(a is b for a, b in zip(bad.reps, wb)), "split-fails", ctx)
            m.eq(len(deck), 0, "split-left-reports", ctx)
            m.event("split-both" if wg and wb else "split-one-side")
            visit(good, wg, [], flags, m, ctx)
            visit(bad, wb, [], flags, m, ctx)
            visit(deck, [], [], flags, m, ctx)
            if o[2] == 0:
                deck, model, filt = good, wg, []
            elif o[2] == 1:
                deck, model, filt = bad, wb, []
            else:
                for p in wb + wg:
                    deck.append(p)
                model = wb + wg
        elif o[0] == "drain":
            out = []
            while len(deck):
                out.append(deck.pop(0))
            m.ok(len(out) == len(model) and all(a is b for a, b in zip(out, model)), "drain-order", ctx)
            m.event("drained", len(out))
        if o[0] != "drain":
            m.eq(len(deck), len(model), "deck-length", ctx)
            m.ok(all(a is b for a, b in zip(deck.reps, model)), "deck-order", ctx)
            m.ok(all(p.get_qc(a, b) == flags.get((id(p), a, b), 9) for p in model for a, b in FL), "flags-changed", ctx)


STREAMS = [Stream("histories", gen, check, 12000, 60000, need=100000)]
