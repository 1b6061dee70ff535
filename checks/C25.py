"""C25: with Qt configured into a namespace every check reports the same lines."""
from common import *
import classuse, collections, os, re, shutil, fixes, meta as metamod, patterns, work

m = Monitor('C25', 'A case is one pattern of a generated unit (or one test program of clazy) analysed with Qt in a namespace (-DQT_NAMESPACE, as a Qt configured with -qtnamespace '
                   'has it) and without; reported lines, checks and texts (less the namespace) must be the same. Non-trivial when it has reports and compiles both ways')

def body():
    names = metamod.Meta().names
    rng = m.rng
    jobs = []
    for qt in (5, 6):
        for u in work.cover(rng, qt, m.n(26, 12), m.n(1, 6)):
            jobs.append(('unit', qt, u, rng.choice(['Foo', 'QtNs', 'N_1'])))
        for p in (rng.sample(work.corpus_progs(qt), m.n(14, 400)) if not m.thorough else work.corpus_progs(qt)):
            jobs.append(('corpus', qt, p, 'Foo'))
        for _ in range(m.n(2, 40)):
            jobs.append(('matrix', qt, classuse.matrix(rng, qt, m.n(1500, 2000)), rng.choice(['Foo', 'QtNs', 'N_1'])))
    rng.shuffle(jobs)

    def both(p, ns):
        a = work.analyse(m, p, names, 'standalone', export=True)
        b = work.analyse(m, p.with_text(p.text, flags=p.flags + ['-DQT_NAMESPACE=' + ns]), names, 'standalone', export=True)
        return a, b

    def one(j):
        kind, qt, x, ns = j
        if kind == 'corpus':
            return x, both(x, ns), 0
        dropped = 0
        if kind == 'matrix':
            wd = os.path.join(m.work, 'mx%d' % next(work._seq))
            p = classuse.compiling(x[0], x[1], ns, wd)
            shutil.rmtree(wd, ignore_errors=True)
            return p, both(p, ns), 0
        u = x
        for _ in range(4):
            p = work.unit_prog(u)
            a, b = both(p, ns)
            if not b.errs or a.errs:
                break
            bad = {e.line for e in b.errs if e.file.endswith('x.cpp')}
            keep = [(q.pat, q.ctx) for q in u.placed if not any(q.start <= l <= q.last + 3 for l in bad)]
            if not keep or len(keep) == len(u.placed):
                break
            dropped += len(u.placed) - len(keep)
            u = patterns.build_unit(keep, qt)
        return p, (a, b), dropped

    for (kind, qt, x, ns), (p, (a, b), dropped) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(a.r, p.name, p.replay()) or m.check_crash(b.r, p.name + ' -DQT_NAMESPACE', p.replay()):
            continue
        m.count('patterns that do not compile in a namespace (left out)', dropped)
        if a.errs or b.errs:
            m.count('programs that do not compile in a namespace (left out)')
            continue
        rx = re.compile(r'(::)?\b%s::' % ns)
        f = lambda e: (e.file, e.line, e.check, rx.sub('', e.msg.replace(' ::', ' ')))
        wa, wb = collections.Counter(map(f, a.ev)), collections.Counter(map(f, b.ev))
        if kind == 'unit':
            for q in p.unit.placed:
                has = any(q.start <= e.line <= q.last and e.file == 'x.cpp' for e in a.ev)
                m.case((q.pat.check, qt, q.ctx) if has else None, {'pattern': q.pat.name if hasattr(q.pat, 'name') else q.pat.check, 'context': q.ctx, 'qt': qt, 'namespace': ns} if has else None)
        elif kind == 'matrix':
            for i, l in enumerate(p.text.split('\n'), 1):
                if any(e.line == i and e.file == 'x.cpp' for e in a.ev):
                    m.case((re.sub(r'\d+', '', l), qt), {'use of a class': l, 'qt': qt, 'namespace': ns})
                    m.count('uses of classes that are reported')
        else:
            m.case((p.name, qt) if a.ev else None)
        m.count('reports compared', len(a.ev))
        for e in a.ev:
            m.seen('checks that reported', e.check)
        fx = []
        for r in (a, b):
            fs = fixes.clazy_only(fixes.load(r.extra, r.wd, True)) if r.extra else []
            fx.append(collections.Counter((g, f.line if hasattr(f, 'line') else o, fixes.name(f.check), 'edit %r for %r' % (rx.sub('', t), o)) for f in fs for g, o, l, t in f.edits))
        m.count('edits compared', sum(fx[0].values()))
        wa, wb = wa + fx[0], wb + fx[1]
        if wa != wb:
            lost, extra = list((wa - wb).elements()), list((wb - wa).elements())
            for t in sorted({e[2] for e in lost + extra}):
                l, g = [e for e in lost if e[2] == t], [e for e in extra if e[2] == t]
                d = 'lost' if l and not g else 'extra' if g and not l else 'different'
                m.violation('%s:%s:qt%d' % (d, t, qt), '%s (Qt %d, %s), with -DQT_NAMESPACE=%s\nnot reported any more: %s\nreported in addition: %s' % (t, qt, p.name, ns, l[:4], g[:4]), p.replay(), [b.r])
    return m.finish({'reports compared': m.n(600, 4000), 'edits compared': m.n(150, 1000), 'checks that reported': 70})


main(body)
