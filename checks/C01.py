"""C01: the set of checks in force is the documented function of the request and the environment."""
from common import *
import meta as metamod

m = Monitor('C01', 'Random selection requests (level argument, comma lists of check names, fixit names, levels, no-<check>, '
                   'unknown names, duplicates; CLAZY_CHECKS plain, quoted or all_checks) through the plugin and through '
                   'clazy-standalone; non-trivial: a request with at least two elements, distinct as text')


def element(rng, meta, allow_bad=True):
    k = rng.random()
    names = meta.names
    if k < 0.45:
        return rng.choice(names)
    if k < 0.55:
        return rng.choice(sorted(meta.fixits))
    if k < 0.68:
        return rng.choice(['level0', 'level1', 'level2'])
    if k < 0.92 or not allow_bad:
        return 'no-' + rng.choice(names)
    return rng.choice(['foo', 'level3', 'level9', 'level', 'no-foo', 'no-level1', 'clazy-qgetenv', 'levelx', 'Qgetenv', 'qgetenv2', 'no-'])


def elements(rng, meta, allow_bad):
    n = rng.choice([1, 1, 2, 2, 3, 4, 6, 9])
    l = [element(rng, meta, allow_bad) for _ in range(n)]
    if rng.random() < 0.4:  # disable something that is on
        on = metamod.Request(meta).parse(','.join(l))[0]
        if on:
            for _ in range(rng.choice([1, 1, 2, 3])):
                l.insert(rng.randrange(len(l) + 1), 'no-' + rng.choice(sorted(on)))
    if rng.random() < 0.2:
        l.append(rng.choice(l))
    return ','.join(l)


def body():
    meta = metamod.Meta()
    model = metamod.Request(meta)
    clz = m.clazy
    src = os.path.join(m.work, 'empty.cpp')
    open(src, 'w').write('int main() { return 0; }\n')

    def requested(r):
        mm = re.search(r'^Requested checks: (.*)$', r.err, re.M)
        return [x for x in mm[1].split(', ') if x] if mm else None

    cases = []
    for lv in (None, 'level0', 'level1', 'level2'):
        for env in (None, 'level0', 'all_checks', 'no-qgetenv'):
            cases.append((lv, None, env, ''))
    for c in meta.names:   # every check by name, and every check disabled from the level it is in
        cases.append((None, c, None, ''))
        if meta.level[c] >= 0:
            cases.append((None, 'level%d,no-%s' % (meta.level[c], c), None, ''))
            cases.append((None, None, 'level%d,no-%s' % (meta.level[c], c), ''))
    for f in sorted(meta.fixits):
        cases.append((None, f, None, ''))
    for _ in range(m.n(250, 2500)):
        lv = m.rng.choice([None, None, 'level0', 'level1', 'level2'])
        text = elements(m.rng, meta, True) if m.rng.random() < 0.75 else None
        env = None
        if m.rng.random() < 0.5:
            env = 'all_checks' if m.rng.random() < 0.08 else elements(m.rng, meta, True)
        cases.append((lv, text, env, '"' if env and m.rng.random() < 0.3 else ''))

    def one(case):
        lv, text, env, q = case
        args = ['print-requested-checks'] + [x for x in (lv, text) if x is not None]
        m2 = random.Random(repr(case))
        m2.shuffle(args)
        e = {'CLAZY_CHECKS': q + env + q} if env is not None else {}
        r = clz.plugin(src, None, args=args, env=e)
        return r

    results = m.parallel(one, cases)
    for case, r in zip(cases, results):
        lv, text, env, q = case
        want, bad, refused = model.resolve(lv, text, env)
        if want is None:
            m.count('undocumented requests left undecided')
            continue
        m.case(case if len((text or '').split(',')) + len((env or '').split(',')) > 2 else None,
               {'level': lv, 'argument': text, 'CLAZY_CHECKS': env, 'checks in force': len(want)})
        key = 'plugin level=%s arg=%s env=%s%s' % (lv, text, q, env)
        if m.check_crash(r, key):
            continue
        got = requested(r)
        if refused:
            m.count('refused requests')
            if got is not None and got:
                m.violation('selection:' + key, 'a request naming no known check was not refused: %s' % got, results=[r])
            for b in bad:
                if b and b not in r.err:
                    m.violation('diagnosed:' + key, 'the unknown name %r was not reported' % b, results=[r])
            continue
        if got is None:
            if want:
                m.violation('selection:' + key, 'no checks in force; the documentation says %d' % len(want), results=[r])
            continue
        m.count('selections compared')
        for g in got:
            m.seen('checks in force', g)
        if len(set(got)) != len(got):
            m.violation('dups:' + key, 'a check is in force twice: %s' % got, results=[r])
        if set(got) != want:
            m.violation('selection:' + key, 'in force but not requested: %s; requested but not in force: %s' % (
                sorted(set(got) - want), sorted(want - set(got))), results=[r])
        for b in bad:
            if b and not re.search(r'(Invalid[^\n]*|not[^\n]*): ?%s$' % re.escape(b), r.err, re.M):
                m.violation('diagnosed:' + key, 'the unknown name %r was not reported' % b, results=[r])
            m.count('unknown names')

    # clazy-standalone: -checks plus CLAZY_CHECKS
    scases = [(None, None), (None, 'level0'), ('level0', None)]
    for _ in range(m.n(120, 1200)):
        text = elements(m.rng, meta, True) if m.rng.random() < 0.8 else None
        env = elements(m.rng, meta, True) if m.rng.random() < 0.5 else None
        scases.append((text, env))

    def two(case):
        text, env = case
        return clz.standalone([], text, args=['-list-checks'], env={'CLAZY_CHECKS': env} if env is not None else {})

    for case, r in zip(scases, m.parallel(two, scases)):
        text, env = case
        want, bad, refused = model.resolve(None, text, env)
        if want is None:
            m.count('undocumented requests left undecided')
            continue
        m.case(('standalone', case) if ',' in (text or '') + (env or '') else None)
        key = 'standalone arg=%s env=%s' % case
        if m.check_crash(r, key):
            continue
        got = re.findall(r'^    (\S+)$', r.out, re.M)
        m.count('standalone selections compared')
        if set(got) != want or len(got) != len(set(got)):
            m.violation('selection:' + key, 'in force but not requested: %s; requested but not in force: %s' % (
                sorted(set(got) - want), sorted(want - set(got))), results=[r])
    return m.finish({'selections compared': 200, 'checks in force': 90, 'standalone selections compared': 100})


main(body)
