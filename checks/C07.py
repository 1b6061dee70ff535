"""C07: location filters keep exactly the diagnostics they describe."""
from common import *
import collections, fixes, layout, meta as metamod, work

m = Monitor('C07', 'A case is one program spread over a main file and headers, with one combination of filters; the diagnostics must be those of the unfiltered run minus '
                   'exactly what a model of the options excludes by reported file and line. Non-trivial when the model removes some and keeps some')
NAMES = ['inc/code.h', 'inc/sub/code2.h', 'third_party/lib.h', 'Code.h']


def pieces(rng, p, cuts, names):
    """The unit spread over several headers that are included one after another (each needs the ones before)."""
    lines = p.text.split('\n')
    cs = [cuts[0]] + sorted(rng.sample(cuts[1:], min(len(cuts) - 1, len(names))))
    files, prev = {}, 1
    names = ['inc/base.h'] + names     # what all parts use
    for c, n in zip(cs, names):
        files[n] = '#pragma once\n' + '\n'.join(lines[prev - 1:c - 1]) + '\n'
        prev = c
    main = ''.join('#include %s\n' % ('<%s>' % os.path.basename(n) if 'third' in n else '"%s"' % n) for n in files)
    q = p.with_text(main + 'int text7 = 0;\n' + '\n'.join(lines[prev - 1:]))
    q.files = files
    return q


MULTI = '''#define IDENT7(x) x
#define TWICE7(a, b) a; b
void multi7(QString s)
{
    IDENT7(
        s = s.left(1)
    );
    TWICE7(s.toLower() == s,
           s.toUpper() == s);
}
'''


def regexes(rng, files, wd):
    """A regular expression both for POSIX and Python, that is about the names of the program's files."""
    r = rng.random()
    f = rng.choice(files)
    b = os.path.basename(f)
    if r < .25:
        return re.escape(b).replace('\\-', '-').replace('\\_', '_').replace('\\/', '/')
    if r < .4:
        return os.path.dirname(f) + '/' if os.path.dirname(f) else b
    if r < .55:
        return '.*/' + f + '$'
    if r < .7:
        return '(%s|%s)' % (rng.choice(files), rng.choice(files))
    if r < .8:
        return '^' + f                     # names are absolute: matches nothing
    if r < .9:
        return rng.choice(['code[0-9]?[.]h', '[.]h$', 'sub', 'third_party|inc/code', 'nothing-like-this', '.*', '(Code|lib)[.]h', '[^2][.]h$'])
    return '^' + wd + '/' + rng.choice(['inc', 'third', 'Code', 'x'])


def linefilter(rng, diags):
    """[{name, lines}] and its model."""
    out = []
    files = sorted({f for f, _ in diags})
    for _ in range(rng.choice([1, 1, 2, 4])):
        f = rng.choice(files)
        r = rng.random()
        n = f if r < .3 else os.path.basename(f) if r < .6 else '/'.join(f.split('/')[-2:]) if r < .8 else os.path.basename(f)[rng.randrange(3):] if r < .9 else 'other.cpp'
        e = {'name': n}
        if rng.random() < .8:
            ls = [l for g, l in diags if g == f]
            rs = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = rng.choice(ls) + rng.choice([0, 0, 0, 1, -1])
                b = rng.choice([a, a + rng.randrange(40), max(ls), rng.choice(ls)])
                rs.append([max(a, 1), max(b, 1)])
            e['lines'] = rs
        out.append(e)

    def keep(f, l):
        for e in out:
            if f.endswith(e['name']) and ('lines' not in e or any(a <= l <= b for a, b in e['lines'])):
                return True
        return False
    return json.dumps(out), keep


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    jobs = []
    for i in range(m.n(9, 150)):
        qt = rng.choice([5, 6])
        u = work.random_unit(rng, qt, rng.choice([10, 25, 40]))
        p = work.unit_prog(u)
        if rng.random() < .4:
            p = work.wrapped(rng, p)
            m.count('units with statements in macro arguments')
        cuts = [q.start for q in u.placed]
        p = pieces(rng, p, cuts, rng.sample(NAMES, rng.choice([1, 2, 3, 4])))
        if rng.random() < .6:
            p = p.with_text('#include <QString>\n' + p.text + MULTI)
        jobs.append((p, rng.choice(['standalone', 'standalone', 'plugin']), rng.randrange(1 << 30)))

    def go(p, wd, fe, args=(), env=None, third='-I', qt=True):
        r = work.analyse(m, p, names, fe, args=args, env=env, wd=wd, flags=[third, wd + '/third_party'] + (['-DQT_CORE_LIB'] if qt else []))
        ev = collections.Counter((f, l, c, n, s, t) for f, l, c, n, s, t in r.r.clazy())
        return r, ev

    def one(j):
        p, fe, s = j
        lr = random.Random(s)
        wd = os.path.join(m.work, 'p%d' % s)
        r, ev = go(p, wd, fe)
        if r.errs or r.r.crash():
            return wd, r, ev, []
        out = []
        files = [p.main] + list(p.files)
        diags = sorted({(f, l) for f, l, *_ in ev})
        for k in range(m.n(5, 10)):
            args, env, preds, what = [], {}, [], []
            main = os.path.join(wd, p.main)
            if lr.random() < .45:
                h = regexes(lr, files, wd)
                if fe == 'standalone' and lr.random() < .6:
                    args.append('-header-filter=' + h)
                    if lr.random() < .3:
                        env['CLAZY_HEADER_FILTER'] = regexes(lr, files, wd)      # the option wins
                else:
                    env['CLAZY_HEADER_FILTER'] = h
                preds.append((lambda h: lambda f, l: f == main or re.search(h, f) is not None)(h))
                what.append('header filter')
            if lr.random() < .35:
                d = regexes(lr, files, wd)
                if fe == 'standalone' and lr.random() < .6:
                    args.append('-ignore-dirs=' + d)
                    if lr.random() < .3:
                        env['CLAZY_IGNORE_DIRS'] = regexes(lr, files, wd)
                else:
                    env['CLAZY_IGNORE_DIRS'] = d
                preds.append((lambda d: lambda f, l: re.search(d, f) is None)(d))
                what.append('ignored directories')
            if fe == 'standalone' and diags and lr.random() < .45:
                t, keep = linefilter(lr, diags)
                args.append('-line-filter=' + t)
                preds.append(keep)
                what.append('line filter')
            third = '-I'
            if lr.random() < .2:
                third = '-isystem'
                preds.append(lambda f, l: not f.startswith(wd + '/third_party/'))
                what.append('isystem')
            qt = True
            if lr.random() < .2:
                args.append('-only-qt')
                qt = lr.random() < .6
                if not qt:
                    preds.append(lambda f, l: False)
                what.append('only-qt' + ('' if qt else ' without Qt'))
            sub = False
            if lr.random() < .15:
                args.append('-ignore-included-files')
                what.append('ignore-included-files')
                sub = True
            if not what:
                continue
            out.append((what, args, env, preds, sub) + go(p, wd, fe, args, env, third, qt))
        return wd, r, ev, out

    for (p, fe, _), (wd, r, ev, out) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(r.r, p.name, p.replay()):
            continue
        if r.errs:
            raise HarnessError('program does not compile: %s' % r.errs[:2])
        main = os.path.join(wd, p.main)
        for what, args, env, preds, sub, r2, got in out:
            if m.check_crash(r2.r, p.name + str(args), p.replay()):
                continue
            if r2.errs:
                raise HarnessError('filtered run: %s' % r2.errs[:2])
            want = collections.Counter({e: n for e, n in ev.items() if all(q(e[0], e[1]) for q in preds)})
            gone = sum(ev.values()) - sum(want.values())
            m.case((p.text, str(args), str(env), fe) if gone and want else None,
                   {'front end': fe, 'filters': what, 'options': args, 'environment': env, 'kept': sum(want.values()), 'removed': gone})
            m.count('diagnostics removed', gone)
            m.count('diagnostics kept', sum(want.values()))
            for w in what:
                m.count('filter: ' + w)
            lost, extra = want - got, got - want
            if sub:            # only some checks support it: removed diagnostics must be in included files
                m.count('diagnostics in included files left out by ignore-included-files', sum(lost.values()))
                lost = collections.Counter({e: n for e, n in lost.items() if e[0] == main})
            if lost or extra:
                k = '+'.join(sorted(what))
                m.violation('%s:%s' % ('lost' if lost else 'extra', k), '%s, %s, %s %s\nshould be reported, are not: %s\nreported in spite of the filter: %s' % (
                    fe, what, args, env, list(lost)[:4], list(extra)[:4]), p.replay(), [r2.r])
    return m.finish({'diagnostics removed': m.n(500, 10000), 'diagnostics kept': m.n(500, 10000), 'filter: header filter': 5, 'filter: line filter': 5, 'filter: ignored directories': 3})


main(body)
