"""C08: severity options change severities and the exit status, nothing else."""
from common import *
import collections, fixes, meta as metamod, work

m = Monitor('C08', 'A case is one program analysed with one combination of -Werror, CLAZY_NO_WERROR, CLAZY_CHECKS_AS_ERRORS and front end; diagnostics must be those of '
                   'the run without them, with the severities, exit status and products the documentation says. Non-trivial when the program has reports and an option is set')


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    jobs = []
    for i in range(m.n(14, 220)):
        qt = rng.choice([5, 6])
        r = rng.random()
        if r < .55:
            p = work.unit_prog(work.random_unit(rng, qt, rng.choice([1, 3, 10, 30])))
            if rng.random() < .4:
                p = work.wrapped(rng, p)
                m.count('units with statements in macro arguments')
        elif r < .85:
            p = rng.choice(corpus[qt])
        else:
            p = work.Prog('clean', '#include <QString>\nint main() { return 0; }\n', qt)
        jobs.append((p, rng.choice(['standalone', 'plugin']), rng.randrange(1 << 30)))
    BASE = ['-Wno-everything', '-ferror-limit=0']

    def go(p, fe, flags=(), env=None, check=names):
        if fe == 'plugin':            # a real compilation
            wd = os.path.join(m.work, 'c%d' % next(work._seq))
            src = p.put(wd)
            e = dict(p.env)
            e.update(env or {})
            r0 = m.clazy.plugin(src, check, flags=p.cflags(wd) + BASE + list(flags), args=['export-fixes'] + [a.lstrip('-') for a in p.args], env=e, cwd=wd, mode=('-c', '-o', wd + '/x.o'))
            y = src + '.clazy.yaml'
            r = work.Run(r0, work.events(r0, wd), work.errors(r0), open(y, errors='surrogateescape').read() if os.path.exists(y) else None)
            r.wd, r.obj = wd, os.path.exists(wd + '/x.o')
            shutil.rmtree(wd, ignore_errors=True)
            return r
        r = work.analyse(m, p, check, fe, flags=BASE + list(flags), env=env, export=True)
        r.obj = None
        return r

    def edits(r):
        if not r.extra:
            return collections.Counter()
        return collections.Counter(f for f in fixes.clazy_only(fixes.load(r.extra, r.wd)))

    def one(j):
        p, fe, s = j
        lr = random.Random(s)
        base = go(p, fe)
        if base.r.crash() or base.errs:
            return base, []
        out = []
        tags = sorted({e.check for e in base.ev})
        for k in range(m.n(4, 6)):
            we, nw, as_ = lr.random() < .5, lr.random() < .35, None
            if lr.random() < .65:
                as_ = lr.sample(tags, min(len(tags), lr.choice([1, 1, 3, 10]))) + lr.sample(names, lr.choice([0, 1, 5]))
                if lr.random() < .25:
                    as_.append('no-such-check')
                lr.shuffle(as_)
            env = {}
            if nw:
                env['CLAZY_NO_WERROR'] = lr.choice(['1', 'true', '0'])
            if as_:
                env['CLAZY_CHECKS_AS_ERRORS'] = ','.join(as_)
            out.append((we, nw, as_ or [], go(p, fe, ['-Werror'] if we else [], env)))
        return base, out

    for (p, fe, _), (base, out) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(base.r, p.name, p.replay()):
            continue
        if base.errs:
            m.count('programs that do not compile with this Qt (left out)')
            continue
        bad = [e for e in base.ev if e.sev != 'warning']
        if bad or base.r.rc != 0 or base.obj is False:
            m.violation('default', 'without any option: exit status %d, object file %s, severities %s' % (base.r.rc, base.obj, bad[:3]), p.replay(), [base.r])
            continue
        m.count('default runs that compiled')
        ed = edits(base)
        for we, nw, as_, r in out:
            if m.check_crash(r.r, p.name, p.replay()):
                continue
            sev = lambda c: 'error' if c in as_ or (we and not nw) else 'warning'
            want = collections.Counter(e._replace(sev=sev(e.check)) for e in base.ev)
            errs = sum(e.sev == 'error' for e in want)
            if fe == 'plugin' or fe == 'standalone':
                rc = 1 if errs else 0
            got = r.counter()
            opts = '%s -Werror=%s CLAZY_NO_WERROR=%s CLAZY_CHECKS_AS_ERRORS=%s' % (fe, we, nw, ','.join(as_))
            m.case((p.text, opts) if base.ev and (we or nw or as_) else None, {'program': p.name, 'options': opts, 'errors': errs, 'warnings': len(base.ev) - errs})
            m.count('errors expected', errs)
            m.count('warnings expected', sum(e.sev == 'warning' for e in want.elements()))
            m.seen('checks made errors', tuple(sorted({e.check for e in want if e.sev == 'error'})))
            if got != want:
                lost, extra = list((want - got).elements()), list((got - want).elements())
                same = {e._replace(sev='') for e in lost} == {e._replace(sev='') for e in extra}
                m.violation('severity' if same else 'set', '%s\nshould be there, is not: %s\nis there, should not: %s' % (opts, lost[:4], extra[:4]), p.replay(), [r.r])
            if r.r.rc != rc:
                m.violation('status', '%s\nexit status %d with %d errors' % (opts, r.r.rc, errs), p.replay(), [r.r])
            if r.obj is not None and r.obj != (not errs):
                m.violation('object', '%s\nobject file written: %s, errors: %d' % (opts, r.obj, errs), p.replay(), [r.r])
            if edits(r) != ed:
                m.violation('edits', '%s\nthe exported edits differ: %s / %s' % (opts, list((ed - edits(r)).elements())[:3], list((edits(r) - ed).elements())[:3]), p.replay(), [r.r])
            if ('no-such-check' in as_) != ('no-such-check' in r.r.err):
                m.violation('unknown name', '%s\nan unknown name is %s' % (opts, 'not reported' if 'no-such-check' in as_ else 'reported'), p.replay(), [r.r])
    return m.finish({'errors expected': m.n(80, 4000), 'warnings expected': m.n(80, 4000), 'default runs that compiled': m.n(8, 120)})


main(body)
