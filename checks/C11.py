"""C11: the edits the checks offer: the program still prints what it printed."""
from common import *
import fixes, fixgen, fixrun, fixknown

m = Monitor('C11', 'A case is one statement with its declarations whose offered edits (those of one check) were applied; the program is built and run before and after, and the statement must print the same values, leave the same '
                   'data behind and evaluate the same number of calls. Programs as for C10; what differs between two runs of the unedited program, and what does not compile after the edits (C10), is left out. Distinct by check, statement and operands')


def judge(p, rng, checks):
    base = p.text
    if p.build(base):
        return 'nobuild', [], []
    b1, rc = p.run()
    b2, rc2 = p.run()
    if rc != 0 or rc2 != 0:
        return 'status', [], []
    r, fs = p.analyse(m, checks, base)
    if r.crash():
        return r, [], []
    chosen, common = fixrun.choose(rng, base, fs, p.ids)
    for n in list(chosen):
        if b1.get(n) != b2.get(n):
            del chosen[n]
    if not chosen:
        return r, [], []

    def drop_errors(now):
        for _ in range(4):
            new = fixrun.apply(base, now, common)
            er = p.errors(new)
            if not er:
                return new
            bad = {fixgen.region(new, fixrun.offset(new, l)) for l, _ in er} & set(now)
            if not bad:
                return None
            for b in bad:
                now.pop(b)
        return None
    new = fixrun.apply(base, chosen, common)
    if p.build(new):
        new = drop_errors(chosen)
        if new is None or not chosen or p.build(new):
            return r, [], []
    got, rc3 = p.run()
    out = []
    diff = [n for n in sorted(set(b1) | set(got)) if b1.get(n) == b2.get(n) and b1.get(n) != got.get(n)]
    if rc3 != 0:       # the one at which it ended
        last = max([n for n in got if n] or [0])
        order = sorted(n for n in b1 if n)
        diff = [n for n in diff if n in got] + [n for n in order if n > last][:1]

    def again():
        """what differs in both of two runs"""
        runs = [p.run() for _ in range(2)]
        ds = [{k for k in set(b1) | set(g) if b1.get(k) == b2.get(k) and g.get(k) != b1.get(k)} | ({-1} if c != 0 else set()) for g, c in runs]
        return runs[0][0], runs[0][1], sorted(ds[0] & ds[1])
    suspects = [n for n in diff if n in chosen][:6]
    if (diff or rc3 != 0) and not suspects:
        suspects = sorted(chosen)[:6]
    for n in suspects:          # on its own?
        one = fixrun.apply(base, {n: chosen[n]}, common)
        if p.build(one):
            continue
        g1, rc4, d = again()
        if d:
            out.append((n, chosen[n][0], 'printed before: %s\nprints now:     %s%s\nbefore: %s\nafter:  %s' % (b1.get(n), g1.get(n), '' if rc4 == 0 else ' (ends with %s)' % rc4, fixrun.body(base, n), fixrun.body(one, n)), one))
    if (diff or rc3 != 0) and not out and not p.build(new):
        g1, rc4, d = again()
        if d:
            out.append((0, 'several', 'statements %s print something else when the edits of all are applied (exit code %s)' % (d[:5], rc4), new))
    return r, out, [(n, c, tuple(b1.get(n, ()))) for n, (c, e) in chosen.items()]


def body():
    checks = [c for c in fixknown.names() if c != 'jni-signatures']
    jobs = [('known', k) for k in fixknown.for_property('C11')] + [('random', i) for i in range(m.n(16, 240))]
    seeds = {i: m.rng.random() for i in range(len(jobs))}

    def one(ij):
        i, (kind, what) = ij
        rng = random.Random(seeds[i])
        wd = os.path.join(m.work, 'p%d' % i)
        if kind == 'known':
            p = fixknown.program(what, wd)
        else:
            qt = 5 + what % 2
            text, ids = fixgen.Gen(rng, qt).program(150)
            p = fixrun.Program(wd, qt, text.encode(), ids, ['-DQT_USE_QSTRINGBUILDER'] if rng.random() < 0.3 else [])
        res = judge(p, rng, [what.check] if kind == 'known' else checks) if p.clean() and p.ids else ('nocompile', [], [])
        p.close()
        return kind, what, p, res

    for kind, what, p, (r, out, done) in m.parallel(one, list(enumerate(jobs))):
        if isinstance(r, str):
            if kind == 'known':
                raise HarnessError('the program of %s: %s' % (what.key, r))
            m.count('programs left out (%s)' % r)
            continue
        if m.check_crash(r, kind, {'x.cpp': p.text}):
            continue
        m.count('programs')
        m.seen('Qt versions', p.qt)
        for n, c, o in done:
            if kind == 'random':
                m.case((c, p.ids[n][1].replace(str(n), '@'), p.qt), {'check': c, 'statement': p.ids[n][1][:300], 'printed before and after': list(o)[:3], 'Qt': p.qt})
                m.count('edited statements run')
                m.count('values printed by them', len(o))
                m.seen('checks whose edits were run', c)
        for n, c, msg, text in out:
            key = what.key if kind == 'known' else '%s-%s' % (c, re.sub(r'\W+', '_', p.ids.get(n, ('', ''))[1])[:60])
            m.violation(key, 'Qt %d, %s: the edits of %s change what the program does: %s' % (p.qt, kind, c, msg), {'x.cpp': p.text, 'edited.cpp': text, 'build.txt': 'g++ -std=c++17 -fPIC %s %s x.cpp -lQt%dCore -lQt%dGui' % (' '.join(p.defs), ' '.join(fixrun.inc(p.qt)), p.qt, p.qt)})
    return m.finish({'programs': m.n(10, 150), 'edited statements run': m.n(500, 8000), 'checks whose edits were run': m.n(20, 25)})


main(body)
