"""C06: suppression comments remove exactly the diagnostics of the named checks at the lines they govern."""
from common import *
import collections, fixes, fnmatch, layout, meta as metamod, rewrite, work

m = Monitor('C06', 'A case is one program with a random set of suppression comments and look-alikes put into its files; the diagnostics and exported edits must be those '
                   'of the program without the comments minus exactly what a model of the documentation removes. Non-trivial when the model removes some and keeps '
                   'some; distinct by program and comments')
DECOYS = ['// clazy : skip', '// clasy:skip', '// clazy:exclud=@', '// clazy:exclude= @', '// clazy-exclude=@', '// CLAZY:SKIP', '/* nolint */', '// NOLINT(google-*)',
          '// NOLINT(bugprone-@)', '// NOLINTNEXTLINE(misc-foo, google-bar)', '// clazy:exclude=clazy-@', '// clazy:exclude=no-such-check', '// clazy:excludeall=no-such',
          '// clazy:exclude-next-line=other', '// NOLINT(clazy-no-such-check)', '// clazy:exclude-line=@', '// NO LINT', '// clazy:@']


def glob(g, check):
    return re.match('^' + re.escape(g).replace(r'\*', '.*') + '$', check) is not None


class Model:
    """What the comments of one file remove."""

    def __init__(self):
        self.skip, self.all, self.rules, self.used = False, set(), [], collections.Counter()

    def governs(self, line, check):
        if self.skip:
            return True
        if check in self.all:
            return True
        return any(a <= line <= b and f(check) for a, b, f in self.rules)


def comments(rng, text, diags, names, tidy):
    """Puts comments into a file. Rules are kept in terms of the new lines."""
    tail, own = layout.free_lines(text)
    for i, l in enumerate(text.split('\n'), 1):
        if re.match(r'\s*(IDENT6\(|CALL6\(sink6,)$', l):     # a report inside of the macro's arguments may also follow comments at its start
            tail.discard(i)
            own.discard(i)
            own.discard(i + 1)
    ed = layout.Edits(text)
    mod = Model()
    pend = []            # (kind, old line, function or None)
    dl = sorted({l for l, _ in diags})
    here = collections.defaultdict(set)
    for l, c in diags:
        here[l].add(c)
    present = sorted({c for _, c in diags})

    def line(among):
        c = [l for l in dl if l in among]
        if c and rng.random() < .8:
            return rng.choice(c)
        return rng.choice(sorted(among))

    def some(l):
        k = sorted(here[l])
        r = rng.random()
        base = k if k and r < .6 else present if present and r < .8 else names
        s = rng.sample(base, min(len(base), rng.choice([1, 1, 2, 3])))
        if rng.random() < .4:
            s.append(rng.choice(names))
        rng.shuffle(s)
        return s

    def globs(l):
        out = []
        for c in some(l):
            r = rng.random()
            if r < .55:
                out.append(c)
            elif r < .7:
                out.append(c[:rng.randrange(1, len(c))] + '*')
            elif r < .8:
                out.append('*' + c[rng.randrange(1, len(c)):])
            elif r < .9:
                i, j = sorted([rng.randrange(0, len(c)), rng.randrange(0, len(c))])
                out.append(c[:i] + '*' + c[j:])
            else:
                out.append(c[:-1])        # no such check
        return out

    def listing(gs):
        it = ['clazy-' + g for g in gs]
        if rng.random() < .3:
            it.insert(rng.randrange(len(it) + 1), rng.choice(['google-explicit', 'bugprone-*', 'misc-x']))
        return '(' + rng.choice([',', ', ', ' , ']).join(it) + ')'

    def pick(gs):
        gs = list(gs)
        return lambda c: any(glob(g, c) for g in gs)

    k = rng.choice([1, 3, 8, 20]) if not m.thorough else rng.choice([1, 4, 15, 40])
    r = rng.random()
    if r < .05:
        ed.own.setdefault(rng.choice(sorted(own)), []).append(rng.choice(['// clazy:skip', '/* clazy:skip */', '// see clazy:skip please']))
        mod.skip = True
        mod.used['skip'] += 1
    elif r < .4:
        for _ in range(rng.choice([1, 1, 2])):
            cs = some(dl[0]) if dl else [names[0]]
            ed.own.setdefault(rng.choice(sorted(own)), []).append(rng.choice(['// clazy:excludeall=%s', '/* clazy:excludeall=%s */', '// why: clazy:excludeall=%s because']) % ','.join(cs))
            mod.all |= set(cs)
            mod.used['excludeall'] += 1
    for _ in range(k):
        what = rng.choice(['exclude', 'exclude', 'next', 'next', 'nolint', 'nolint list', 'nolint list', 'nextline', 'nextline list', 'decoy', 'decoy'])
        if what in ('exclude', 'nolint', 'nolint list'):
            l = line(tail)
            if l in ed.tail:
                continue
            if what == 'exclude':
                cs = some(l)
                c, f = 'clazy:exclude=' + ','.join(cs), (lambda cs: lambda x: x in cs)(set(cs))
            elif what == 'nolint':
                c, f = 'NOLINT', lambda x: True
            else:
                gs = globs(l)
                c, f = 'NOLINT' + listing(gs), pick(gs)
            ed.tail[l] = rng.choice([' // %s', ' /* %s */', '// %s', '\t// %s why', ' // text %s']) % c
            pend.append((what, l, f))
        elif what in ('next', 'nextline', 'nextline list'):
            l = line(own)
            if l in ed.own:
                continue
            if what == 'next':
                cs = some(l)
                c, f = 'clazy:exclude-next-line=' + ','.join(cs), (lambda cs: lambda x: x in cs)(set(cs))
            elif what == 'nextline':
                c, f = 'NOLINTNEXTLINE', lambda x: True
            else:
                gs = globs(l)
                c, f = 'NOLINTNEXTLINE' + listing(gs), pick(gs)
            ed.own[l] = [rng.choice(['// %s', '/* %s */', '    // %s', '// text %s and more']) % c]
            pend.append((what, l, f))
        else:
            l = line(tail)
            if l in ed.tail:
                continue
            ed.tail[l] = ' ' + rng.choice(DECOYS).replace('@', rng.choice(sorted(here[l]) or names))
            mod.used['look-alike'] += 1
    # properly nested ranges
    ranges = []

    def nest(lo, hi, depth):
        a = lo
        while depth and a < hi - 1 and rng.random() < .7:
            x = [l for l in sorted(own) if a <= l < hi and l not in ed.own]
            if len(x) < 2:
                return
            b, e = sorted(rng.sample(range(len(x)), 2))
            b, e = x[b], x[min(e, b + rng.choice([3, 20, 80]))]
            if b == e:
                return
            if rng.random() < .25:
                t, f = '', lambda c: True
            else:
                gs = globs(b)
                t, f = listing(gs), pick(gs)
            ed.own[b] = ['// NOLINTBEGIN' + t]
            ed.own[e] = ['// NOLINTEND' + t]
            pend.append(('range', (b, e), f))
            if tidy:
                return
            nest(b, e, depth - 1)
            a = e + 1
    if rng.random() < .5:
        nest(1, len(ed.lines), rng.choice([1, 2, 3]))
    elif not tidy and rng.random() < .6:
        # pairs that don't match govern nothing
        x = [l for l in sorted(own) if l not in ed.own]
        if len(x) > 1:
            b, e = 0, len(x) - 1
            if rng.random() < .5:
                b, e = sorted(rng.sample(range(len(x)), 2))
            g = listing(globs(line(own)))
            o = rng.choice(['begin only', 'end only', 'bare end', 'bare begin', 'other list'])
            bt, et = {'begin only': ('', None), 'end only': (None, ''), 'bare end': (g, ''), 'bare begin': ('', g), 'other list': (g, '(clazy-no-such)')}[o]
            if bt is not None:
                ed.own[x[b]] = ['// NOLINTBEGIN' + (bt or rng.choice(['', g] if o == 'begin only' else ['']))]
            if et is not None:
                ed.own[x[e]] = ['// NOLINTEND' + (et or rng.choice(['', g] if o == 'end only' else ['']))]
            mod.used['unmatched ' + o] += 1
    new, mp = ed.result()
    for what, l, f in pend:
        if what == 'range':
            mod.rules.append((mp[l[0]] - 1, mp[l[1]] - 1, f))
        else:
            mod.rules.append((mp[l], mp[l], f))
        mod.used[what] += 1
    return new, mp, mod


MULTI = '''#include <QString>
#define IDENT6(x) x
#define CALL6(f, x) f(x)
#define BODY6(n) void n(QString s) { s = s.left(1); }
void sink6(bool);
BODY6(body6)
void multi6(QString s)
{
    IDENT6(
        s = s.left(1)
    );
    CALL6(sink6,
          s.toLower() == s); int a = 0; (void)a;
    const char *raw = R"(
        // clazy:skip
        NOLINT
)"; (void)raw;
    const char *str = "// clazy:skip NOLINT"; (void)str; /* text */ sink6(s.toLower() == s); /* after */
    sink6(s.toUpper() == s); const char *str2 = "clazy:exclude=qstring-insensitive-allocation"; (void)str2;
}
'''


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    jobs = []
    for i in range(m.n(14, 240)):
        qt = rng.choice([5, 6])
        fe = rng.choice(['standalone', 'standalone', 'standalone', 'plugin', 'tidy'])
        if rng.random() < .75:
            u = work.random_unit(rng, qt, rng.choice([6, 15, 35]))
            p = work.unit_prog(u)
            if rng.random() < .7:
                p = layout.split(rng, p, [q.start for q in u.placed]) or p
            if rng.random() < .5 and fe != 'tidy':     # clang-tidy follows comments at the definition of a macro too
                p = p.with_text(MULTI + p.text)
        else:
            p = rng.choice(corpus[qt])
        if not all(rewrite.usable(t.replace(MULTI, '')) for t in p.replay().values()):
            continue
        if re.search(r'clazy:|NOLINT', re.sub(re.escape(MULTI), '', ''.join(t.replace(MULTI, '') for t in p.replay().values()))):
            m.count('programs with suppression comments of their own (left out)')
            continue
        jobs.append((p, fe, rng.randrange(1 << 30)))
    print('%d programs' % len(jobs), flush=True)

    def go(p, fe):
        r = work.analyse(m, p, names, fe, export=fe != 'tidy')
        fx = collections.Counter()
        if r.extra:
            for f in fixes.clazy_only(fixes.load(r.extra, r.wd, all_=True)):
                fx[fixes.name(f.check), f.msg, f.file, len(f.edits)] += 1
        return r, fx

    def one(j):
        p, fe, s = j
        lr = random.Random(s)
        r, fx = go(p, fe)
        if r.errs or r.r.crash():
            return r, fx, []
        out = []
        for _ in range(m.n(4, 6)):
            q = p.with_text(p.text, files=dict(p.files))
            maps, mods = {}, {}
            for n in q.replay():
                t, maps[n], mods[n] = comments(lr, q.replay()[n], [(e.line, e.check) for e in r.ev if e.file == n], names, fe == 'tidy')
                if n == q.main:
                    q.text = t
                else:
                    q.files[n] = t
            if lr.random() < .15:
                q.text = q.text.replace('\n', '\r\n')
            out.append((q, maps, mods) + go(q, fe))
        return r, fx, out

    for (p, fe, _), (r, fx, out) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(r.r, p.name, p.replay()):
            continue
        if r.errs:
            m.count('programs that do not compile with this Qt (left out)')
            continue
        if any(e.file not in p.replay() for e in r.ev):
            m.count('programs with reports in files of the repository (left out)')
            continue
        for q, maps, mods, r2, fx2 in out:
            if m.check_crash(r2.r, p.name, q.replay()):
                continue
            if r2.errs:
                raise HarnessError('comments made a program invalid: %s' % r2.errs[:2])
            want, kept, gone = collections.Counter(), 0, collections.Counter()
            for e in r.ev:
                if e.file not in maps:
                    raise HarnessError('report outside of the program: %s' % (e,))
                l = maps[e.file][e.line]
                msg = re.sub(r'(x\.cpp|code\.h):\d+:\d+', 'POS', e.msg)
                if mods[e.file].governs(l, e.check):
                    gone[e.check] += 1
                else:
                    want[e.file, l, e.col, e.check, msg] += 1
            got = collections.Counter((e.file, e.line, e.col, e.check, re.sub(r'(x\.cpp|code\.h):\d+:\d+', 'POS', e.msg)) for e in r2.ev)
            m.case((str(q.replay()), fe) if gone and want else None,
                   {'program': p.name, 'front end': fe, 'removed': sum(gone.values()), 'kept': sum(want.values()),
                    'comments': [l.strip() for t in q.replay().values() for l in t.split('\n') if 'clazy:' in l or 'NOLINT' in l][:8]})
            m.count('diagnostics removed', sum(gone.values()))
            m.count('diagnostics kept', sum(want.values()))
            for md in mods.values():
                for k, v in md.used.items():
                    m.count('comments: ' + k, v)
            if want != got:
                lost, extra = list((want - got).elements()), list((got - want).elements())
                kinds = ','.join(sorted({k for md in mods.values() for k in md.used}))
                m.violation('%s' % ('unsuppressed' if extra else 'lost'), '%s: comments %s\nshould be reported, are not: %s\nreported in spite of a comment: %s' % (
                    fe, kinds, lost[:4], extra[:4]), dict(list(q.replay().items()) + [('original-' + n, t) for n, t in p.replay().items()]), [r2.r])
            elif fe != 'tidy':
                w2 = collections.Counter((c, re.sub(r'(x\.cpp|code\.h):\d+:\d+', 'POS', ms), f, n) for (c, ms, f, n), v in fx2.items() for _ in range(v))
                all_ = collections.Counter((e.check, e.file) for e in r2.ev)
                bad = collections.Counter((c, f) for (c, ms, f, n), v in w2.items() for _ in range(v) if n) - all_
                if bad:
                    m.violation('export', 'the exported fixes hold edits of diagnostics that are suppressed: %s' % list(bad)[:4], q.replay(), [r2.r])
    return m.finish({'diagnostics removed': m.n(300, 5000), 'diagnostics kept': m.n(1000, 20000), 'comments: range': m.n(5, 100), 'comments: exclude': m.n(30, 400),
                     'comments: nextline list': m.n(10, 150)})


main(body)
