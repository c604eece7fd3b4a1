"""Series of related cases: each differs from an earlier one in one or two arguments (replaced, or moved by a hair), and some
come back.  An answer remembered from an earlier call with not quite the same arguments is given away by the next one."""


def related(gen, check, valid=None, nudge=True, kind=None, fix=()):
    def make(r, i):
        out = [tuple(gen(r, i))]
        for k in range(r.randint(2, 5)):
            a, b = r.choice(out), tuple(gen(r, i))
            if len(a) != len(b) or (kind is not None and a[kind] != b[kind]):
                out.append(b)
                continue
            c = list(a)
            for j in r.sample([j for j in range(len(c)) if j not in fix], r.choice([1, 1, 2])):
                if nudge and isinstance(c[j], float) and r.random() < 0.5:
                    c[j] += r.choice([-1, 1]) * 10.0 ** -r.randint(1, 6)
                else:
                    c[j] = b[j]
            c = tuple(c)
            out.append(c if valid is None or valid(c) else b)
        out.append(r.choice(out))
        return tuple(out)

    def judge(c, m):
        for x in c:
            check(x, m)
        m.event("related-cases")
    return make, judge
