"""C04: the report of a set of checks is the union of the reports of its checks."""
from common import *
import collections, fixes, meta as metamod, work

m = Monitor('C04', "A case is one program (generated unit or test program of clazy) analysed with all checks at once and with a random partition of them (order "
                   'shuffled, names repeated); non-trivial when at least two checks report on it, distinct by program and partition')


def recs(r, wd):
    ev = collections.Counter(r.ev)
    fx = collections.Counter()
    if r.extra:
        for f in fixes.clazy_only(fixes.load(r.extra, wd, all_=True)):
            fx[f] += 1
    return ev, fx


def body():
    names = metamod.Meta().names
    rng = m.rng
    jobs = []
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    for i in range(m.n(14, 260)):
        qt = rng.choice([5, 6])
        if rng.random() < .6:
            p = work.unit_prog(work.random_unit(rng, qt, rng.choice([8, 20, 40])))
            if rng.random() < .5:
                p = work.wrapped(rng, p)
                m.count('units with statements in macro arguments')
        else:
            p = rng.choice(corpus[qt])
        k = rng.choice([2, 2, 3, 4]) if not m.thorough else rng.choice([2, 3, 6, 12])
        parts = [[] for _ in range(k)]
        for n in names:
            rng.choice(parts).append(n)
        parts = [q for q in parts if q]
        for q in parts:
            rng.shuffle(q)
            q += rng.sample(q, min(len(q), 2))
        # on top of the partition, some checks on their own
        jobs.append((p, parts, rng.choice(['standalone', 'standalone', 'plugin'])))
    print('%d programs' % len(jobs), flush=True)

    def one(j):
        p, parts, fe = j
        whole = work.analyse(m, p, names, fe, export=True)
        if whole.errs or whole.r.crash():
            return whole, []
        rs = [work.analyse(m, p, q, fe, export=True) for q in parts]
        if p.unit is not None:
            tags = sorted({e.check for e in whole.ev})
            for t in random.Random(p.text).sample(tags, min(len(tags), m.n(3, 10))):
                rs.append((t, work.analyse(m, p, [t], fe, export=True)))
        return whole, rs

    for (p, parts, fe), (whole, rs) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(whole.r, p.name, p.replay()):
            continue
        if whole.errs:
            m.count('programs that do not compile with this Qt (left out)')
            continue
        ev, fx = recs(whole, whole.wd)
        tags = {e.check for e in ev}
        m.case((p.text, str(parts)) if len(tags) > 1 else None, {'program': p.name, 'qt': p.qt, 'parts': len(parts), 'reports': len(ev), 'front end': fe})
        for t in tags:
            m.seen('checks that reported', t)
        m.count('diagnostics', sum(ev.values()))
        m.count('exported entries', sum(fx.values()))
        ev2, fx2 = collections.Counter(), collections.Counter()
        bad = False
        for q, r in zip(parts, rs):
            if m.check_crash(r.r, p.name, p.replay()):
                bad = True
            a, b = recs(r, r.wd)
            ev2 += a
            fx2 += b
            for t in {e.check for e in a} - set(q):
                m.violation('foreign:' + t, '%s reported although it was not selected' % t, p.replay(), [r.r])
        for t, r in rs[len(parts):]:
            m.count('checks run on their own')
            if m.check_crash(r.r, p.name, p.replay()):
                bad = True
                continue
            a, b = recs(r, r.wd)
            want = collections.Counter({e: n for e, n in ev.items() if e.check == t})
            if a != want:
                d = list((want - a).elements()) + list((a - want).elements())
                m.violation('alone:' + t, '%s reports differently alone than with all checks (%s, Qt %d, %s):\nonly with all: %s\nonly alone: %s' % (
                    t, p.name, p.qt, fe, list((want - a))[:5], list((a - want))[:5]), p.replay(), [r.r, whole.r])
        if bad:
            continue
        if ev2 != ev:
            lost, extra = list((ev - ev2).elements()), list((ev2 - ev).elements())
            m.violation('parts:' + '+'.join(sorted({e.check for e in lost + extra})),
                        'all checks at once and %d parts of them report differently (%s, Qt %d, %s):\nonly at once: %s\nonly in parts: %s' % (
                            len(parts), p.name, p.qt, fe, lost[:5], extra[:5]), p.replay(), [whole.r] + [r.r for r in rs[:len(parts)]])
        if fx2 != fx:
            lost, extra = list((fx - fx2).elements()), list((fx2 - fx).elements())
            m.violation('fixes:' + '+'.join(sorted({fixes.name(e.check) for e in lost + extra})),
                        'exported entries differ between all checks at once and parts of them (%s, Qt %d, %s):\nonly at once: %s\nonly in parts: %s' % (
                            p.name, p.qt, fe, lost[:5], extra[:5]), p.replay(), [whole.r])
    return m.finish({'checks that reported': 50, 'diagnostics': m.n(300, 5000), 'exported entries': m.n(100, 2000)})


main(body)
