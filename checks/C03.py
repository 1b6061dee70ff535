"""C03: the compiler plugin, clazy-standalone and the clang-tidy module report the same diagnostics and suggest the same edits."""
from common import *
import collections, fixes, meta as metamod, work

m = Monitor('C03', 'A case is one program (generated unit, possibly with its code in a user header, or test program of clazy) analysed by the three front ends '
                   'with the same flags and the same random set of checks; non-trivial when clazy reports something on it, distinct by program and set')
FES = ('plugin', 'standalone', 'tidy')


def dropped_by_tidy(fs, all_):
    """clang-tidy itself drops edits that overlap with those of another diagnostic, and merges equal diagnostics of different checks."""
    iv = sorted((e[0], e[1], e[1] + e[2], f) for f in fs for e in f[4])
    out = set()
    for i, x in enumerate(iv):
        for y in iv[i + 1:]:
            if y[0] != x[0] or y[1] > x[2]:
                break
            if y[3] != x[3]:
                out |= {x[3], y[3]}
    # an edit inside the span between the first and the last edit of another one may count as overlapping, too
    span = sorted((f[4][0][0], min(e[1] for e in f[4]), max(e[1] + e[2] for e in f[4]), f) for f in fs if f[4])
    for i, x in enumerate(span):
        for y in span[i + 1:]:
            if y[0] != x[0] or y[1] > x[2]:
                break
            out |= {x[3], y[3]}
    same = collections.defaultdict(list)
    for f in all_:
        same[f[1:4]].append(f)
    for l in same.values():
        if len(l) > 1:
            out |= set(l)
    return out


def effect(f, text):
    """What applying the edits of one diagnostic gives, apart from blanks."""
    out = []
    for n in sorted({e[0] for e in f[4]}):
        if n not in text:
            return f
        r = fixes.apply(text[n], [(o, l, t.encode()) for g, o, l, t in f[4] if g == n])
        out.append((n, hash(re.sub(rb'\s+', b'', r)) if r is not None else f))
    return f[:4] + tuple(out)


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    jobs = []
    for i in range(m.n(26, 420)):
        qt = rng.choice([5, 6])
        if rng.random() < .65:
            p = work.unit_prog(work.random_unit(rng, qt, rng.choice([6, 15, 30])))
            if rng.random() < .4:
                p = work.wrapped(rng, p)
                m.count('units with statements in macro arguments')
            if rng.random() < .35:
                # the code moves to a header of the program
                q = p.with_text('#include "sub/code.h"\nint main() { return 0; }\n')
                q.files = {'sub/code.h': '#pragma once\n' + p.text}
                q.name = 'unit in a header'
                p = q
        else:
            p = rng.choice(corpus[qt])
        cs = list(names) if rng.random() < .6 else rng.sample(names, rng.randrange(1, len(names)))
        if p.checks and len(cs) < 60:
            cs = sorted(set(cs) | set(rng.sample(p.checks, min(len(p.checks), 5))))
        jobs.append((p, cs))
    print('%d programs' % len(jobs), flush=True)

    def one(j):
        p, cs = j
        return {fe: work.analyse(m, p, cs, fe, export=True) for fe in FES}

    for (p, cs), rs in zip(jobs, m.parallel(one, jobs)):
        if any([m.check_crash(r.r, p.name, p.replay()) for r in rs.values()]):
            continue
        if all(r.errs for r in rs.values()):
            m.count('programs that do not compile with this Qt (left out)')
            continue
        if any(r.errs for r in rs.values()):
            m.violation('errors', 'compiler errors in %s only' % [fe for fe in FES if rs[fe].errs], p.replay(), [r.r for r in rs.values()])
            continue
        ev = {fe: {(e.file, e.line, e.col, e.check, e.msg) for e in rs[fe].ev} for fe in FES}
        m.case((p.text, str(p.files), str(cs)) if ev['plugin'] else None,
               {'program': p.name, 'qt': p.qt, 'checks': len(cs), 'reports': len(ev['plugin'])})
        for e in rs['plugin'].ev:
            m.seen('checks that reported', e.check)
            m.seen('files reported on', 'header' if e.file != p.main else 'main file')
        m.count('diagnostics compared', len(ev['plugin']))
        for fe in ('standalone', 'tidy'):
            if ev[fe] != ev['plugin']:
                a, b = ev['plugin'] - ev[fe], ev[fe] - ev['plugin']
                m.violation('diag:%s:%s' % (fe, '+'.join(sorted({e[3] for e in a | b}))), 'plugin and %s differ on %s, Qt %d:\nonly plugin: %s\nonly %s: %s' % (
                    fe, p.name, p.qt, sorted(a)[:6], fe, sorted(b)[:6]), p.replay(), [rs['plugin'].r, rs[fe].r])
        fx = {}
        for fe in FES:
            fs = fixes.clazy_only(fixes.load(rs[fe].extra, rs[fe].wd)) if rs[fe].extra else []
            fx[fe] = {(fixes.name(f.check), f.msg, f.file, f.offset, f.edits) for f in fs}
        allfx = [(fixes.name(f.check), f.msg, f.file, f.offset, f.edits) for f in fixes.clazy_only(fixes.load(rs['plugin'].extra, rs['plugin'].wd, True))] \
            if rs['plugin'].extra else []
        m.count('edits compared', len(fx['plugin']))
        for fe in ('standalone', 'tidy'):
            if fx[fe] != fx['plugin']:
                a, b = fx['plugin'] - fx[fe], fx[fe] - fx['plugin']
                if fe == 'tidy':
                    a -= dropped_by_tidy(fx['plugin'], allfx)
                    # clang merges the edits of a diagnostic before clang-tidy sees them, which may take a blank along
                    text = {n: t.encode('utf-8', 'surrogateescape') for n, t in p.replay().items()}
                    ea, eb = {effect(f, text): f for f in a}, {effect(f, text): f for f in b}
                    a, b = {f for k, f in ea.items() if k not in eb}, {f for k, f in eb.items() if k not in {effect(x, text) for x in fx['plugin']}}
                if not a and not b:
                    continue
                m.violation('edit:%s:%s' % (fe, '+'.join(sorted({e[0] for e in a | b}))), 'edits of plugin and %s differ on %s, Qt %d:\nonly plugin: %s\nonly %s: %s' % (
                    fe, p.name, p.qt, sorted(a)[:4], fe, sorted(b)[:4]), p.replay(), [rs['plugin'].r, rs[fe].r])
    return m.finish({'checks that reported': 60, 'diagnostics compared': m.n(400, 8000), 'edits compared': m.n(80, 1500), 'files reported on': 2})


main(body)
