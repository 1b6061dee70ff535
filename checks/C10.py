"""C10: the edits the checks offer: the program still compiles, and applying them comes to an end."""
from common import *
import fixes, fixgen, fixrun, fixknown

m = Monitor('C10', 'A case is one statement with its declarations whose offered edits (those of one check) were applied; the program must compile as before, and applying what is offered then, again and again, must end. '
                   'Programs with hundreds of statements of 38 checks over operands of all kinds of shapes, in all kinds of contexts, with blanks and comments between the tokens, for both Qt versions. Distinct by check, statement and operands')
ROUNDS = 5


def judge(p, rng, checks, count=None):
    """violations of a program: [(number, check, kind, message, text)], applied statements"""
    base = p.text
    out, done = [], []
    r, fs = p.analyse(m, checks, base)
    if r.crash():
        return r, out, done
    chosen, common = fixrun.choose(rng, base, fs, p.ids)
    cur, now = base, dict(chosen)
    for rnd in range(ROUNDS):
        if not now:
            break
        while True:
            new = fixrun.apply(cur, now, common)
            if new is None:
                raise HarnessError('the chosen edits overlap')
            er = p.errors(new)
            if not er:
                break
            bad = {fixgen.region(new, fixrun.offset(new, l)) for l, _ in er} & set(now)
            confirmed = set()
            for b in sorted(bad)[:8] or sorted(now)[:25]:         # on its own?
                one = fixrun.apply(cur, {b: now[b]}, common)
                e1 = p.errors(one)
                if e1:
                    confirmed.add(b)
                    out.append((b, now[b][0], 'does not compile', '%s\nbefore: %s\nafter:  %s' % (e1[0][1], fixrun.body(cur, b), fixrun.body(one, b)), one))
                if not bad and len(confirmed) > 3:
                    break
            if not confirmed:
                if bad:
                    confirmed = bad
                else:
                    out.append((0, 'several', 'does not compile', '%s\n(line %d)' % (er[0][1], er[0][0]), new))
                    return r, out, done
            for b in confirmed:
                now.pop(b)
                chosen.pop(b, None)
        if not now:
            break
        if rnd == 0:
            done = [(n, c) for n, (c, e) in now.items()]
        cur = new
        m.count('rounds of edits')
        r, fs = p.analyse(m, checks, cur)
        if r.crash():
            return r, out, done
        prev = now
        now, common = fixrun.choose(rng, cur, fs, p.ids, {n: c for n, (c, e) in chosen.items()})
        if rnd == ROUNDS - 2:
            for b in sorted(now):
                out.append((b, now[b][0], 'never ends', 'after %d rounds edits are still offered\nfirst: %s\nnow:   %s' % (rnd + 1, fixrun.body(base, b), fixrun.body(cur, b)), cur))
            break
    return r, out, done


def body():
    checks = [c for c in fixknown.names() if c != 'jni-signatures']
    jobs = [('known', k) for k in fixknown.for_property('C10')] + [('random', i) for i in range(m.n(16, 240))]
    seeds = {i: m.rng.random() for i in range(len(jobs))}

    def one(ij):
        i, (kind, what) = ij
        rng = random.Random(seeds[i])
        wd = os.path.join(m.work, 'p%d' % i)
        if kind == 'known':
            p = fixknown.program(what, wd)
        else:
            qt = 5 + what % 2
            text, ids = fixgen.Gen(rng, qt).program(150)
            p = fixrun.Program(wd, qt, text.encode(), ids, ['-DQT_USE_QSTRINGBUILDER'] if rng.random() < 0.3 else [])
        if not p.clean() or not p.ids:
            p.close()
            return kind, what, p, None
        res = judge(p, rng, [what.check] if kind == 'known' else checks)
        p.close()
        return kind, what, p, res

    for kind, what, p, res in m.parallel(one, list(enumerate(jobs))):
        if res is None:
            if kind == 'known':
                raise HarnessError('the program of %s does not compile' % what.key)
            m.count('programs that do not compile at all')
            continue
        r, out, done = res
        if m.check_crash(r, kind, {'x.cpp': p.text}):
            continue
        m.count('programs')
        m.seen('Qt versions', p.qt)
        for n, c in done:
            if kind == 'random':
                m.case((c, p.ids[n][1].replace(str(n), '@'), p.qt), {'check': c, 'statement': p.ids[n][1][:300], 'Qt': p.qt})
                m.count('statements edited')
                m.seen('checks whose edits were applied', c)
        for n, c, what_, msg, text in out:
            key = what.key if kind == 'known' and what_.startswith(what.kind) else '%s-%s-%s' % (c, what_.split()[0], re.sub(r'\W+', '_', p.ids.get(n, ('', ''))[1])[:60])
            m.violation(key, 'Qt %d, %s: the edits of %s: the program %s: %s' % (p.qt, kind, c, what_, msg), {'x.cpp': p.text, 'edited.cpp': text, 'build.txt': 'clang++ -std=c++17 -fPIC %s %s x.cpp' % (' '.join(p.defs), ' '.join(fixrun.inc(p.qt)))})
    return m.finish({'programs': m.n(10, 150), 'statements edited': m.n(500, 8000), 'checks whose edits were applied': m.n(20, 25)})


main(body)
