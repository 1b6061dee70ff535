"""C02: all listings of checks, levels and fixits agree with each other and with what runs."""
from common import *
import collections, fixes, subprocess, meta as metamod, work

m = Monitor('C02', 'A case is one statement of one listing (a check, its level or its fixits in the JSON dump, -list-checks, the help of the plugin, the list of clang-tidy, the README, the '
                   'installed documentation as the wrapper lists it) compared with the other listings, one check or fixit selected on its own in one front end, or one check observed to '
                   'report or to suggest edits. Non-trivial always')


def body():
    clz, rng = m.clazy, m.rng
    empty = os.path.join(m.work, 'e.cpp')
    open(empty, 'w').write('int e;\n')

    # 1. the JSON dump
    r = run.execute([clz.p.standalone, '-supported-checks-json'], m.work, clz.env({}, False))
    if m.check_crash(r, '-supported-checks-json', {}):
        return m.finish({})
    try:
        J = metamod.Meta(r.out)
    except Exception as ex:
        m.violation('json', '-supported-checks-json (status %d) is not the expected JSON: %r %s' % (r.rc, ex, r.out[:300]), {}, [r])
        return m.finish({})
    F = metamod.Meta()
    fx = {c: {f for f, d in J.fixits.items() if d == c} for c in J.names}
    listing = {}                       # name -> {check: (level or None, fixits or None)}
    listing['-supported-checks-json'] = {c: (J.level[c], fx[c]) for c in J.names}
    listing['checks.json'] = {c: (F.level[c], {f for f, d in F.fixits.items() if d == c}) for c in F.names}
    dup = [c for c, n in collections.Counter(x['name'] for x in json.loads(r.out)['checks']).items() if n > 1]
    if dup:
        m.violation('json:twice', 'listed twice: %s' % dup, {}, [r])

    # 2. -list-checks for every level and for everything
    def names_of(r):
        return [l.strip() for l in r.out.split('\n') if l.startswith('    ')]
    at = {}
    for lv in (0, 1, 2):
        r = run.execute([clz.p.standalone, '-checks=level%d' % lv, '-list-checks'], m.work, clz.env({}, False))
        ns = names_of(r)
        if len(ns) != len(set(ns)):
            m.violation('list:twice', '-list-checks names a check twice at level%d' % lv, {}, [r])
        for c in ns:
            at.setdefault(c, lv)
    r = run.execute([clz.p.standalone, '-checks=' + ','.join(J.names), '-list-checks'], m.work, clz.env({}, False))
    for c in names_of(r):
        at.setdefault(c, -1)
    listing['-list-checks'] = {c: (l, None) for c, l in at.items()}

    # 3. the help of the plugin
    r = clz.plugin(empty, None, args=['help'])
    out, lv = {}, None
    for l in r.text.split('\n'):
        q = re.match(r'- Checks from level(-?\d+):', l)
        if q:
            lv = int(q[1])
        q = re.match(r'    - (\S+)(?:\s+\(([^)]*)\))?$', l)
        if q:
            if q[1] in out:
                m.violation('help:twice', 'the help lists %s twice' % q[1], {}, [r])
            out[q[1]] = (lv, set(q[2].split(',')) if q[2] else set())
    # Manual checks come first there, without a heading of their own
    listing['help of the plugin'] = {c: (-1 if l is None else l, f) for c, (l, f) in out.items()}
    m.check_crash(r, 'help', {})

    # 4. clang-tidy
    r = clz.tidy(empty, 'clazy-*', args=['--list-checks'])
    listing['clang-tidy --list-checks'] = {l.strip()[6:]: (None, None) for l in r.out.split('\n') if l.strip().startswith('clazy-')}

    # 5. README and the documentation files
    out, lv = {}, None
    for l in open(os.path.join(build.REPO, 'README.md'), encoding='utf-8'):
        q = re.match(r'- Checks from (Manual|Level) (Level|\d)', l)
        if q:
            lv = -1 if q[1] == 'Manual' else int(q[2])
        q = re.match(r'\s+- \[([\w-]+)\]\((docs/checks/README-[\w-]+\.md)\)(?:\s*\(([^)]*)\))?\s*$', l)
        if q and lv is not None:
            out[q[1]] = (lv, set(q[3].split(',')) if q[3] else set())
            f = os.path.join(build.REPO, q[2])
            if q[2] != 'docs/checks/README-%s.md' % q[1] or not os.path.exists(f):
                m.violation('readme:%s' % q[1], 'README.md describes %s in %s' % (q[1], q[2]), {})
    listing['README.md'] = out

    # 6. the wrapper on an installation
    inst = os.path.join(m.work, 'inst')
    r = subprocess.run(['cmake', '--install', clz.p.out, '--prefix', inst], capture_output=True, text=True)
    if r.returncode:
        raise HarnessError('installing failed: ' + r.stderr[-300:])
    r = run.execute(['/bin/sh', inst + '/bin/clazy', '--list'], m.work, {})
    out, lv = {}, None
    for l in r.out.split('\n'):
        q = re.match(r'(?:Checks \S+ level(\d)|Manual checks)', l)
        if q:
            lv = int(q[1]) if q[1] else -1
        q = re.match(r'    (\S+)$', l)
        if q:
            out[q[1]] = (lv, None)
    listing['clazy --list'] = out
    r = run.execute(['/bin/sh', inst + '/bin/clazy', '--explain'], m.work, {})
    out = {}
    for c, l in re.findall(r'^== Explanation for checker (\S+) \((\w+)\) ==$', r.out, re.M):
        out[c] = (-1 if l == 'manuallevel' else int(l[-1]), None)
    listing['clazy --explain'] = out

    ref = listing['-supported-checks-json']
    m.count('listings', len(listing))
    for n, l in listing.items():
        for c in sorted(set(l) | set(ref)):
            m.case((n, c), {'listing': n, 'check': c, 'says': [l[c][0], sorted(l[c][1] or [])] if c in l else None})
            if n.startswith('help') and c not in l and c in ref and ref[c][0] == -1:
                continue                    # the help has the levels only
            if (c in l) != (c in ref):
                m.violation('listed:%s:%s' % (n, c), '%s %s %s, -supported-checks-json %s' % (n, 'lists' if c in l else 'does not list', c, 'does' if c in ref else 'does not'), {})
                continue
            if l[c][0] is not None and l[c][0] != ref[c][0]:
                m.violation('level:%s:%s' % (n, c), '%s has %s at level %s, -supported-checks-json at %s' % (n, c, l[c][0], ref[c][0]), {})
            if l[c][1] is not None and l[c][1] != ref[c][1]:
                m.violation('fixits:%s:%s' % (n, c), '%s gives %s the fixits %s, -supported-checks-json %s' % (n, c, sorted(l[c][1]), sorted(ref[c][1])), {})
    r0 = run.execute([clz.p.standalone, '-help'], m.work, clz.env({}, False))
    m.check_crash(r0, '-help', {})

    # 7. each can be selected on its own
    sel = [(fe, c) for fe in ('standalone', 'plugin', 'tidy') for c in J.names] + [(fe, f) for fe in ('standalone', 'plugin') for f in J.fixits]

    def alone(x):
        fe, n = x
        if fe == 'standalone':
            r = run.execute([clz.p.standalone, '-checks=' + n, '-list-checks'], m.work, clz.env({}, False))
            return r, names_of(r)
        if fe == 'plugin':
            r = clz.plugin(empty, None, args=[n, 'print-requested-checks'])
            q = re.search(r'Requested checks: (.*)', r.text)
            return r, [s.strip() for s in q[1].split(',')] if q else None
        r = clz.tidy(empty, 'clazy-' + n, args=['--list-checks'])
        return r, [l.strip()[6:] for l in r.out.split('\n') if l.strip().startswith('clazy-')]

    for (fe, n), (r, got) in zip(sel, m.parallel(alone, sel)):
        m.case(('alone', fe, n))
        m.count('selected alone')
        if m.check_crash(r, '%s of %s' % (n, fe), {}):
            continue
        if got != [J.fixits.get(n, n)]:
            m.violation('alone:%s:%s' % (fe, n), '%s: selecting %s alone gives %s' % (fe, n, got), {}, [r])

    # 8. what is listed really runs: every check reports, every fixit shows in edits
    jobs = []
    for qt in (5, 6):
        for u in work.cover(rng, qt, 12, 1):
            jobs.append((rng.choice(['standalone', 'plugin', 'tidy']), work.unit_prog(u)))
    rng.shuffle(jobs)

    def obs(j):
        fe, p = j
        return work.analyse(m, p, J.names, fe, export=True)

    reported, edited = set(), set()

    def go(jobs):
        for (fe, p), r in zip(jobs, m.parallel(obs, jobs)):
            if m.check_crash(r.r, p.name, p.replay()):
                continue
            m.count('programs observed')
            for e in r.ev:
                reported.add(e.check)
            for f in (fixes.clazy_only(fixes.load(r.extra, r.wd, True)) if r.extra else []):
                if f.edits:
                    edited.add(fixes.name(f.check))

    go(jobs)
    lack = {c for c in J.names if c not in reported or (fx[c] and c not in edited)}
    go([('plugin', p) for p in work.corpus_progs(5) + work.corpus_progs(6) if p.name.split('/')[1] in lack])
    for c in sorted(reported - set(J.names)):
        m.violation('unlisted:' + c, 'a check %s reports, no listing has it' % c, {})
    for c in J.names:
        m.case(('reports', c))
        if c == 'foreach' and c not in reported:
            continue                        # switches itself off with Qt 5.9 and later; there is no older Qt here
        if c not in reported:
            m.violation('silent:' + c, '%s is listed but reported nothing in any of the programs that show its pattern' % c, {})
        if fx[c] and c not in edited:
            m.violation('no-edit:' + c, '%s is listed with the fixits %s but suggested no edit in any program that shows its pattern' % (c, sorted(fx[c])), {})
    m.count('checks seen reporting', len(reported))
    m.count('checks seen suggesting edits', len(edited))
    return m.finish({'listings': 8, 'selected alone': 290, 'checks seen reporting': 90, 'programs observed': 20})


main(body)
