"""C12: no program makes clazy crash, hang or touch invalid memory (ASan, UBSan, libstdc++ and clang assertions watching)."""
from common import *
import classuse, meta as metamod, mutate, genexpr, work

m = Monitor('C12', "Programs: clazy's own test programs and mutations of them (tokens, lines, odd declarations and statements spliced in, wrapping in "
                   'templates, lambdas, macros and namespaces, preprocessor noise, truncation), rarely written language forms, and randomly generated typed programs over the Qt API, with Qt 5, Qt 6 or none, language modes and options; all checks on. '
                   'Non-trivial: a mutated program, distinct as text, that reached the checks (the analysis ran past parsing)')

LANGS = [('c++', 'c++17')] * 8 + [('c++', 'c++20'), ('c++', 'c++23'), ('c++', 'c++14'), ('c++', 'gnu++17'), ('c', 'c11'), ('objective-c++', 'c++17')]
EXTRA = [[], [], [], [], ['-fms-extensions'], ['-fdelayed-template-parsing'], ['-DQT_NAMESPACE=Foo'], ['-DQT_NAMESPACE=1'], ['-DQT_NAMESPACE=A::B'], ['-DQT_NAMESPACE'], ['-DQT_USE_QSTRINGBUILDER'], ['-fno-exceptions'], ['-frecovery-ast'],
         ['-DQT_NO_KEYWORDS'], ['-DQT_NO_DEBUG'], ['-w', '-ferror-limit=0'], ['-ferror-limit=1'], ['-fmodules'], ['-DQT_STRICT_ITERATORS']]
OPTS = [[], [], [], ['-qt-developer'], ['-visit-implicit-code'], ['-ignore-included-files'], ['-only-qt'], ['-header-filter=.*'], ['-header-filter=['], ['-ignore-dirs=('],
        ['-line-filter=[{"name":"x.cpp","lines":[[1,9]]}]'], ['-line-filter={'], ['-header-filter=.*\\.h', '-ignore-dirs=.*/qt5/.*']]
ENVS = [{}, {}, {}, {'CLAZY_EXTRA_OPTIONS': 'qstring-arg-fillChar-overloads,qstring-allocations-no-msvc-compat,implicit-casts-bool-to-int,writing-to-temporary-widen-criteria,'
                     'unused-non-trivial-variable-no-whitelist,unneeded-cast-prefer-dynamic-cast-over-qobject,function-args-by-value-warn-for-overridden-methods'},
        {'CLAZY_ACCESSSPECIFIER_NON_QOBJECT': '1'}, {'CLAZY_CHECKS_AS_ERRORS': 'qgetenv,qstring-arg,foo'}, {'CLAZY_NO_WERROR': '1'}]


def body():
    meta = metamod.Meta()
    checks = ','.join(meta.names)
    clz = m.clazy
    files = mutate.corpus()
    if len(files) < 20:
        raise HarnessError('the corpus of test programs is missing')
    jobs = []
    rng = m.rng
    nbase = m.n(24, len(files) * 2)
    order = files * 2
    rng.shuffle(order)
    for name, text, d in order[:nbase]:
        jobs.append((name, text, d, rng.choice([5, 6]), ('c++', 'c++17'), [], [], {}, ['as_is'], 'standalone'))
    mut = mutate.Mutator(rng, files)
    hostile = mutate.hostile()
    for name, text, d in hostile:
        for qt in (5, 6):
            jobs.append((name, text, d, qt, ('c++', 'c++20'), [], [], {}, ['hostile'], 'standalone'))
    for k in range(m.n(190, 5000)):
        if k % 4 == 0:  # a generated program
            name, d = 'generated', '/nonexistent'
            t, ops = genexpr.Gen(rng).program(rng.randint(3, 8), rng.randint(3, 7), rng.randint(2, 4)), ['generated']
            if rng.random() < 0.4:
                t, ops2 = mut.mutate(name, t)
                ops = ops + ops2
        else:
            name, text, d = rng.choice(files) if rng.random() < 0.9 else rng.choice(hostile)
            t, ops = mut.mutate(name, text)
        qt = rng.choice([5, 5, 6, 6, 0]) if rng.random() < 0.5 else rng.choice([5, 6])
        jobs.append((name, t, d, qt, rng.choice(LANGS), rng.choice(EXTRA), rng.choice(OPTS), rng.choice(ENVS), ops,
                     rng.choice(['standalone'] * 6 + ['export', 'plugin', 'tidy'])))
    for k in range(m.n(7, 160)):
        qt = rng.choice([5, 6])
        t = classuse.matrix(rng, qt, m.n(900, 1500))[0].text if k % 2 else classuse.chains(rng, qt, 6000)[0].text
        ops = ['uses of classes' if k % 2 else 'calls on what is returned', 'compiling']
        if rng.random() < .2:
            ops = ops[:1]
            t, ops2 = mut.mutate('generated', t)
            ops = ops + ops2
        jobs.append((ops[0], t, '/nonexistent', qt, ('c++', rng.choice(['c++17', 'c++20', 'c++23'])), ['-w', '-ferror-limit=0'] + (rng.choice(EXTRA) if 'compiling' not in ops else []), rng.choice(OPTS), rng.choice(ENVS), ops, rng.choice(['standalone', 'export'])))
    print('%d programs' % len(jobs), flush=True)

    def one(ij):
        i, (name, text, d, qt, (lang, std), extra, opts, env, ops, fe) = ij
        wd = os.path.join(m.work, str(i))
        os.makedirs(wd)
        src = os.path.join(wd, 'x.cpp')
        if 'compiling' in ops:
            text = classuse.compiling(work.Prog(name, text, qt, flags=['-Wno-everything', '-std=' + std]), 4, 'Foo', wd).text
        open(src, 'w', encoding='utf-8', errors='surrogateescape', newline='').write(text)
        fl = [f for f in (run.qtflags(qt) if qt else ['-fPIC']) if not f.startswith('-std=')] + ['-std=' + std, '-I' + d] + extra
        if fe == 'plugin':
            r = clz.plugin(src, checks, flags=fl, env=env, cwd=wd, lang=lang)
        elif fe == 'tidy':
            r = clz.tidy(src, 'clazy-*', flags=fl, env=env, cwd=wd, lang=lang, args=['-header-filter=.*'])
        else:
            r = clz.standalone(src, checks, flags=fl, env=env, cwd=wd, lang=lang,
                               args=opts + (['-export-fixes=' + os.path.join(wd, 'f.yaml')] if fe == 'export' else []))
        shutil.rmtree(wd, ignore_errors=True)
        return r

    for job, r in zip(jobs, m.parallel(one, list(enumerate(jobs)))):
        name, text, d, qt, lang, extra, opts, env, ops, fe = job
        tags = {c[3] for c in r.clazy()}
        for t in tags:
            m.seen('checks that reported', t)
        for o in ops:
            m.seen('mutations', o)
        m.seen('modes', (qt,) + lang)
        nerr = sum(1 for x in r.diags if x.sev in ('error', 'fatal error'))
        m.count('programs with compiler errors' if nerr else 'programs without compiler errors')
        reached = bool(tags) or not nerr
        if reached:
            m.count('programs whose analysis is known to have reached the checks')
        m.case((text, qt, lang, tuple(extra)) if reached and ops != ['as_is'] else None,
               {'from': name, 'mutations': ops, 'qt': qt, 'mode': lang, 'front end': fe, 'clazy diagnostics': len(r.clazy())})
        if m.check_crash(r, name + ' ' + '+'.join(ops), {'x.cpp': text}):
            continue
        if r.rc not in (0, 1) and not nerr:
            m.violation('exit:%d' % r.rc, 'unexpected exit status %d' % r.rc, {'x.cpp': text}, [r])
    return m.finish({'checks that reported': 15, 'programs whose analysis is known to have reached the checks': m.n(40, 400)})


main(body)
