"""C24: documented patterns are reported at their lines, and documented good code is not, in every ordinary context."""
from common import *
import collections, patterns, work

m = Monitor('C24', 'A case is a documented pattern placed in a context of a generated translation unit; non-trivial when it holds lines that must be '
                   'reported or must not be, distinct by pattern, context and Qt version. The verdict per line is fixed when the unit is generated')


def judge(u, run_):
    """[(placed, {line: (want, got)})] of the patterns whose lines were judged differently"""
    got = collections.Counter((e.check, e.line) for e in run_.ev if e.file == 'x.cpp')
    text = u.text.split('\n')
    bad = []
    for p in u.placed:
        d = {}
        for l in range(p.first, p.last + 1):
            w, g = p.want.get(l, 0), got[(p.pat.check, l)]
            if w != g:
                d[l] = (w, g, text[l - 1].strip())
        if d:
            bad.append((p, d))
    return bad


def body():
    units = []
    for qt in (5, 6):
        units += work.cover(m.rng, qt, m.n(12, 10), m.n(6, 34))
    print('%d units' % len(units), flush=True)

    def one(u):
        pr = work.unit_prog(u)
        fe = 'standalone' if u.args or m.fe_rng.random() < .7 else m.fe_rng.choice(['plugin', 'tidy'])
        return pr, fe, work.analyse(m, pr, pr.checks, fe)

    m.fe_rng = m.rng
    for u, (pr, fe, r) in zip(units, m.parallel(one, units)):
        if m.check_crash(r.r, 'unit of patterns', pr.replay()):
            continue
        if r.errs:
            raise HarnessError('a generated unit does not compile: %s' % (r.errs[:3],))
        for p in u.placed:
            m.case((p.pat.id, p.ctx, u.qt), {'pattern': p.pat.id, 'context': p.ctx, 'qt': u.qt, 'reported lines': len(p.want)})
            m.seen('patterns', p.pat.id)
            m.seen('checks', p.pat.check)
            m.seen('contexts', p.ctx)
            m.count('lines that must be reported', sum(p.want.values()))
            m.count('lines that must not be reported', p.last - p.first + 1 - len(p.want))
        m.count('units via ' + fe)
        for p, d in judge(u, r):
            u1 = patterns.build_unit([(p.pat, p.ctx)], u.qt)
            pr1 = work.unit_prog(u1)
            r1 = work.analyse(m, pr1, pr1.checks, fe)
            alone = judge(u1, r1)
            how = 'alone too' if alone else 'only together with the other patterns of the unit'
            txt = '\n'.join('line %d: %d report(s) expected, %d seen: %s' % ((l,) + d[l]) for l in sorted(d))
            m.violation('%s:%s' % (p.pat.id, '+'.join(sorted({'missed' if d[l][0] > d[l][1] else 'extra' for l in d}))),
                        'pattern %s in context %r, Qt %d, %s (%s):\n%s' % (p.pat.id, p.ctx, u.qt, fe, how, txt),
                        (pr1 if alone else pr).replay(), [(r1 if alone else r).r])
    return m.finish({'patterns': 90, 'checks': 85, 'contexts': 30, 'lines that must be reported': 600})


main(body)
