"""C05: the report on a translation unit does not depend on what the same process analysed before or after; runs are repeatable."""
from common import *
import collections, fixes, meta as metamod, work

m = Monitor('C05', 'A case is a history: a sequence (with repetitions) of translation units with different Qt versions, namespaces and flags, sharing headers, analysed '
                   'in one process by clazy-standalone or clang-tidy; the multiset of reports and exported edits must be the sum of those of the units '
                   'alone. Non-trivial: at least two units of the sequence have reports; distinct by sequence and front end')
SHARED = '''#pragma once
#include <QString>
#include <QObject>
struct SharedR3@ { int *p; ~SharedR3@() { delete p; } };
inline bool sharedF@(const QString &s) { return s == QString("x").toLower(); } // clazy:exclude=qstring-insensitive-allocation
inline int sharedG@(QString s) { return s.toUpper().contains("A"); } // NOLINT(clazy-function-args-by-ref)
class SharedO@ : public QObject { public: void f() { s = s.left(1); } QString s; };
'''


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    worlds = []
    for i in range(m.n(6, 70)):
        wd = os.path.join(m.work, 'world%d' % i)
        tus = []
        full = []
        if i % 3 == 2:          # all patterns, all checks
            q = rng.choice((5, 6)) if i > 5 else 5 + i // 3 % 2
            full = [work.unit_prog(u) for u in work.cover(rng, q, 45) if not (u.flags or u.env or u.args)][:3]
        for k in range(len(full) or m.n(5, 6)):
            if full:
                p = full[k]
                p.main = 'tu%d/x.cpp' % k
                tus.append(p)
                continue
            qt = rng.choice([5, 5, 6, 6])
            r = rng.random()
            if r < .55:
                p = work.unit_prog(work.random_unit(rng, qt, rng.choice([5, 12, 25])))
            elif r < .85:
                p = rng.choice(corpus[qt])
            else:
                p = work.Prog('plain', 'const char *g@ = "x"; struct P@ { int *p; ~P@() { delete p; } virtual void f(); };\n'.replace('@', str(k)), 0)
            if tus and rng.random() < .3:        # the same layout as an earlier unit, with other code at the same positions
                b = rng.choice(tus)
                p = b.with_text(re.sub(r'\b(const|virtual|static|override|explicit|mutable)\b', lambda x: ' ' * len(x[0]) if rng.random() < .25 else x[0], b.text), unit=None)
            elif rng.random() < .5 and p.qt:
                p = p.with_text('#include "../shared%d.h"\n' % rng.randrange(2) + p.text)
            if p.unit is None and rng.random() < .3:
                p = p.with_text(p.text, flags=p.flags + ['-DQT_NAMESPACE=Foo'])
            if rng.random() < .6:
                p = p.with_text(p.text, flags=p.flags + ['-DQT_CORE_LIB'])
            p.main = 'tu%d/x.cpp' % k
            tus.append(p)
        os.makedirs(wd)
        for k in range(2):
            open(os.path.join(wd, 'shared%d.h' % k), 'w').write(SHARED.replace('@', str(k)))
        db = []
        for p in tus:
            f = p.put(wd)
            db.append({'directory': os.path.dirname(f), 'file': f,
                       'arguments': ['clang++-20', '-c', f, '-x', 'c++', '-resource-dir', run.LLVM + '/lib/clang/20'] + p.cflags(os.path.dirname(f))})
        json.dump(db, open(os.path.join(wd, 'compile_commands.json'), 'w'))
        opts = rng.choice([[], [], [], ['-only-qt'], ['-only-qt'], ['-ignore-included-files'], ['-header-filter=shared.*'],
                           ['-line-filter=[{"name":"x.cpp","lines":[[1,120]]},{"name":"shared1.h"}]']])
        sel, env = names, {}
        if full:
            opts = []
        elif rng.random() < .5:
            # a part of the selection comes from the environment
            on, off = rng.sample(names, rng.choice([1, 3, 20])), rng.sample(names, rng.choice([10, 40]))
            its = [n for n in on if n not in off] + ['no-' + n for n in off]
            rng.shuffle(its)
            sel, env = [rng.choice(['level0', 'level1', 'level2', 'level2', ','.join(rng.sample(names, 30))])], {'CLAZY_CHECKS': ','.join(its)}
            if rng.random() < .3:
                env['CLAZY_CHECKS_AS_ERRORS'] = ','.join(rng.sample(names, 5))
        if rng.random() < .15:
            env['CLAZY_HEADER_FILTER'] = 'shared0'
        worlds.append((i, wd, tus, opts, rng.random(), sel, env))
    sels = {w[1]: w[5:] for w in worlds}

    def go(wd, opts, seq, fe, tag):
        names, env = sels[wd]
        srcs = [os.path.join(wd, 'tu%d/x.cpp' % k) for k in seq]
        y = os.path.join(wd, 'fix-%s.yaml' % tag)
        if fe == 'tidy':
            cmd = [run.CLANGTIDY, '--load=' + m.clazy.p.tidy, '--quiet', '--checks=-*,clazy-*', '--config={}', '-header-filter=.*', '--system-headers',
                   '-p', wd] + srcs
            r = run.execute(cmd, wd, m.clazy.env({}, True), timeout=400)
        else:
            r = m.clazy.standalone(srcs, names, env=env, args=opts + ['-export-fixes=' + y], db=wd, cwd=wd, timeout=400)
        ev = collections.Counter(work.events(r, wd))
        fx = collections.Counter()
        if os.path.exists(y):
            for f in fixes.clazy_only(fixes.load(open(y, errors='surrogateescape').read(), wd, True)):
                fx[f] += 1
        return r, ev, fx

    def world(w):
        i, wd, tus, opts, x = w[:5]
        lr = random.Random('%s/%d' % (x, i))
        alone = {fe: [go(wd, opts, [k], fe, '%s-a%d' % (fe, k)) for k in range(len(tus))] for fe in ('standalone', 'tidy')}
        res = []
        for n in range(m.n(2, 5)):
            fe = 'standalone' if n % 3 != 1 else 'tidy'
            seq = list(range(len(tus)))
            lr.shuffle(seq)
            if fe == 'standalone':
                seq += lr.sample(seq, lr.choice([0, 1, 2]))
            seq = seq[:lr.choice([2, 3, 5, len(seq)])]
            if fe == 'standalone' and (lr.random() < .7 or i % 3 == 2):      # one of them again
                seq.insert(lr.randrange(len(seq)), lr.choice(seq))
            res.append((fe, seq, go(wd, opts, seq, fe, 's%d' % n)))
        again = go(wd, opts, [0], 'standalone', 'again')
        return alone, res, again

    for (i, wd, tus, opts, *_), (alone, res, again) in zip(worlds, m.parallel(world, worlds)):
        rep = {p.main.replace('/', '_'): p.text for p in tus}
        rep['compile_commands.json'] = open(os.path.join(wd, 'compile_commands.json')).read()
        if any([m.check_crash(r, 'single unit', rep) for fe in alone for r, _, _ in alone[fe]] + [m.check_crash(r, 'history', rep) for _, _, (r, _, _) in res]):
            continue
        a = [d for d in alone['standalone'][0][0].diags]
        b = [d for d in again[0].diags]
        m.count('repeated runs')
        if a != b:
            m.violation('repeat', 'two runs on the same unit differ: %s / %s' % (a[:5], b[:5]), rep, [again[0]])
        for fe, seq, (r, ev, fx) in res:
            want, wfx = collections.Counter(), collections.Counter()
            loud = 0
            for k in seq:
                _, e1, f1 = alone[fe][k]
                want += e1
                wfx += f1
                loud += bool(e1)
            if fe == 'tidy':       # clang-tidy itself reports an equal diagnostic of two units once
                want, ev = collections.Counter(set(want)), collections.Counter(set(ev))
            m.case((i, m.seed, fe, tuple(seq)) if loud > 1 else None,
                   {'front end': fe, 'sequence': ['%s (Qt %d) %s' % (tus[k].name, tus[k].qt, tus[k].flags) for k in seq], 'options': opts, 'reports': sum(ev.values())})
            m.count('units analysed in histories', len(seq))
            m.count('reports compared', sum(ev.values()))
            m.seen('options', str(opts))
            m.seen('environments', str(sorted(sels[wd][1])))
            m.seen('sequences', (fe, tuple(seq)))
            if ev != want:
                lost, extra = list((want - ev).elements()), list((ev - want).elements())
                m.violation('history:%s:%s' % (fe, '+'.join(sorted({e.check for e in lost + extra})[:6])),
                            'units %s together, options %s, %s:\nmissing with regard to the units alone: %s\nadditional: %s' % (seq, opts, fe, lost[:6], extra[:6]), rep, [r])
            if fe == 'standalone' and fx != wfx:
                lost, extra = list((wfx - fx).elements()), list((fx - wfx).elements())
                m.violation('export:%s' % ('lost' if lost else 'extra'), 'exported entries of units %s together, options %s:\nmissing: %s\nadditional: %s' % (
                    seq, opts, lost[:4], extra[:4]), rep, [r])
    return m.finish({'units analysed in histories': m.n(20, 400), 'reports compared': m.n(300, 8000), 'repeated runs': m.n(3, 30)})


main(body)
