"""C21: the clazy wrapper hands everything on and returns the compiler's status."""
from common import *
import itertools, subprocess, work

m = Monitor('C21', 'A case is one call of an installed or built clazy wrapper with a recording compiler (or the real one): the recorded argument vector must be the options that load the '
                   'plugin followed by exactly the given bytes, the exit status and the streams those of the compiler. Non-trivial when the compiler was reached or a status was judged')

STUB = r'''#!/usr/bin/python3
import os, sys, json
d = sys.argv
rec = os.environb.get(b'REC')
with open(rec, 'wb') as f:
    f.write(b'\0'.join(os.fsencode(a) for a in sys.argv) + b'\0')
with open(rec + b'.env', 'wb') as f:
    f.write(b'\0'.join(k + b'=' + v for k, v in os.environb.items()))
with open(rec + b'.cwd', 'wb') as f:
    f.write(os.fsencode(os.getcwd()))
inp = sys.stdin.buffer.read()
sys.stdout.buffer.write(b'out:' + inp); sys.stdout.flush()
sys.stderr.buffer.write(b'err:' + inp); sys.stderr.flush()
how = os.environ.get('HOW', '0')
if how.startswith('k'):
    os.kill(os.getpid(), int(how[1:]))
os._exit(int(how))
'''
LOAD = [b'-Qunused-arguments', b'-Xclang', b'-load', b'-Xclang', b'ClazyPlugin.so', b'-Xclang', b'-add-plugin', b'-Xclang', b'clazy']
PARG = [b'-Xclang', b'-plugin-arg-clazy', b'-Xclang']
PIECES = ['a', 'foo.cpp', '-o', '-c', ' ', '  ', '\t', '\n', '"', "'", '\\', '*', '?', '[a-z]', '$HOME', '$(id)', '`id`', '$', '${x}', ';', '&', '|', '>', '<', '(', ')', '{', '}', '!', '#',
          '~', '=', '--', '-', '%s', '\\n', '@file', 'é', '\udcff\udcfe', '-DX="a b"', "-DY='c'", '-I/a b', '/tmp', '0', '-e', '-n', '\r', '$@', '$*', '$1', '\x7f', '\x01']
FIRST = ['--', '-', '', '(', ')', '!', '=', '-a', '-o', '-n', '-z', '-gt', '--hel', '--help ', '--versions', '--listing', '-list', '--explains', '--qtdevelope', '--standalone2', 'help', '--Help', '0']


def body():
    rng = m.rng
    clz = m.clazy
    base = m.work
    stub = os.path.join(base, 'stub cc')
    open(stub, 'w').write(STUB)
    os.chmod(stub, 0o755)
    plain = os.path.join(base, 'stubcc')
    os.symlink('stub cc', plain)
    wraps = []                                   # (path, expected library folder)
    for n in ('inst', 'with space', "q'uo\"te", 'st*r [x]', '$HOME;x'):
        p = os.path.join(base, n)
        r = subprocess.run(['cmake', '--install', clz.p.out, '--prefix', p], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('installing failed: ' + r.stderr[-400:])
        for b in ('clazy-standalone',):          # stands in for the real one: it only has to receive its arguments
            os.unlink(os.path.join(p, 'bin', b))
            shutil.copy(stub, os.path.join(p, 'bin', b))
        wraps.append((os.path.join(p, 'bin', 'clazy'), os.path.join(p, 'lib')))
    for n in ('build', 'bu ild'):                # the layout of a build folder
        p = os.path.join(base, n)
        os.makedirs(p + '/lib')
        os.makedirs(p + '/bin')
        shutil.copy(clz.p.wrapper, p + '/clazy')
        os.chmod(p + '/clazy', 0o755)
        open(p + '/lib/ClazyPlugin.so', 'w').close()
        shutil.copy(stub, p + '/bin/clazy-standalone')
        wraps.append((p + '/clazy', p + '/lib'))
    seq = itertools.count()

    def arg():
        return ''.join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 1, 1, 2, 3, 6])))

    def case(args, wrapper=None, env=None, how='0', stdin=b'', shells=None):
        return dict(args=args, w=wrapper or rng.choice(wraps), env=env or {}, how=how, stdin=stdin, how_called=rng.choice(['abs', 'abs', 'rel', 'path']), shell=rng.choice([None, None, 'bash', 'dash']))

    cases = [case([f] + [arg() for _ in range(rng.randint(0, 3))]) for f in FIRST + PIECES]
    cases += [case([]), case(['x'] * 2000), case(['y' * 100000])]
    hows = ['0', '1', '2', '42', '127', '126', '255', '254', '70', 'k6', 'k11', 'k15', 'k9']
    for h in hows:
        cases.append(case([arg()], how=h, stdin=os.urandom(rng.randint(0, 3000))))
        cases.append(case(['--standalone', arg()], how=h))
    for pre in (['--qtdeveloper'], ['--visit-implicit-code'], ['--qtdeveloper', '--visit-implicit-code']):
        for _ in range(3):
            cases.append(case(pre + [arg() for _ in range(rng.randint(0, 4))]))
    for v in ('', 'level0', 'level0,no-qstring-ref', '"level1"', 'a b * $HOME', '-x', "it's", 'qgetenv\n', 'é'):
        cases.append(case([arg(), 'x'], env={'CLAZY_CHECKS': v}))
    for ndk in ('/ndk', '/n d k', '/n*"$HOME'):
        cases.append(case([arg(), 'x'], env={'CLAZY_CHECKS': rng.choice(['jni-signatures', 'level0,jni-signatures', 'jni-signatures,qgetenv']), 'ANDROID_NDK': ndk}))
    for _ in range(2):
        cases.append(case(['x'], env={'CLAZY_CHECKS': 'jni-signatures,level0'}))
    for v in ('', '/l i b', '/a:/b'):
        cases.append(case([arg()], env={'LD_LIBRARY_PATH': v}))
    for v in ('IFS', 'CDPATH', 'BASH_ENV', 'ENV', 'LANG', 'TMPDIR', 'CLAZY_EXPORT_FIXES', 'CLAZY_IGNORE_DIRS', 'CCACHE_DIR', 'a b'):
        if v not in ('BASH_ENV', 'ENV'):
            cases.append(case([arg()], env={v: rng.choice(['/', 'x y', ' ', '*', 'a=b'])}))
    for _ in range(m.n(2500, 40000)):
        pre = rng.choice([[]] * 6 + [['--qtdeveloper'], ['--visit-implicit-code'], ['--standalone']])
        e = {}
        if rng.random() < .3:
            e['CLAZY_CHECKS'] = rng.choice(['level0', arg().replace('\0', '').replace('jni', ''), 'level2,no-foreach'])
        cases.append(case(pre + [arg() for _ in range(rng.randint(0, 8))], env=e, how=rng.choice(['0'] * 5 + ['1', '3', '99'] + [str(rng.randint(0, 255))]), stdin=rng.choice([b'', b'in put\n', os.urandom(40)])))

    def one(c):
        i = next(seq)
        w, lib = c['w']
        rec = os.path.join(base, 'rec%d' % i)
        cwd = os.path.join(base, 'cwd%d' % (i % 3) + [' x', '', '*'][i % 3])
        os.makedirs(cwd, exist_ok=True)
        env = {'PATH': '/usr/bin:/bin', 'REC': rec, 'HOW': c['how'], 'CLANGXX': plain, 'HOME': '/nonexistent'}
        env.update(c['env'])
        called = w
        if c['how_called'] == 'rel':
            called = os.path.relpath(w, cwd)
        elif c['how_called'] == 'path' and c['shell'] is None:
            env['PATH'] = os.path.dirname(w) + ':' + env['PATH']
            called = 'clazy'
        cmd = ([c['shell']] if c['shell'] else []) + [called] + c['args']
        exe = None
        if called == 'clazy':
            exe = w
        try:
            p = subprocess.run([os.fsencode(x) for x in cmd], executable=exe, cwd=cwd, env={os.fsencode(k): os.fsencode(v) for k, v in env.items()}, input=c['stdin'], capture_output=True, timeout=60)
        except OSError as ex:
            if ex.errno in (7, 22):
                return None
            raise
        def rd(x):
            f = rec + x
            if not os.path.exists(f):
                return None
            d = open(f, 'rb').read()
            os.unlink(f)
            return d
        return cmd, env, cwd, p, rd(''), rd('.env'), rd('.cwd')

    for c, res in zip(cases, m.parallel(one, cases)):
        if res is None:
            continue
        cmd, env, cwd, p, argv, renv, rcwd = res
        args = list(c['args'])
        why = []
        sh = 'cd %r && env %s %r' % (cwd, ' '.join('%s=%r' % kv for kv in sorted(env.items())), cmd)
        kind = 'compiler'
        noNdk = 'jni-signatures' in c['env'].get('CLAZY_CHECKS', '') and not c['env'].get('ANDROID_NDK')
        if args[:1] == ['--standalone'] and not noNdk:
            kind = 'standalone'
            want = args[1:]
            want = [os.fsencode(a) for a in want]
        else:
            extra = []
            if args[:1] == ['--qtdeveloper']:
                extra += PARG + [b'qt-developer']
                args = args[1:]
            if args[:1] == ['--visit-implicit-code']:
                extra += PARG + [b'visit-implicit-code']
                args = args[1:]
            if 'jni-signatures' in c['env'].get('CLAZY_CHECKS', ''):
                extra += [os.fsencode('-idirafter%s/sysroot/usr/include' % c['env'].get('ANDROID_NDK', ''))]
            want = LOAD + extra + [os.fsencode(a) for a in args]
        if noNdk:
            m.case(('no ndk', c['shell']))
            if argv is not None or p.returncode == 0:
                m.violation('ndk', 'jni-signatures without ANDROID_NDK: %s, status %d' % ('compiler not run' if argv is None else 'compiler run', p.returncode), {'cmd.txt': sh})
            continue
        how = c['how']
        st = 128 + int(how[1:]) if how[0] == 'k' else int(how)
        m.case((kind, tuple(c['args']), tuple(sorted(c['env'].items())), how, c['shell']), {'wrapper': os.path.basename(os.path.dirname(c['w'][0])), 'args': ascii(c['args'])[:200], 'env': c['env'], 'compiler ends with': how})
        if argv is None:
            m.violation('not-run:' + kind, 'the %s was not run (status %d, %r)' % (kind, p.returncode, p.stderr[-300:]), {'cmd.txt': sh})
            continue
        m.count('argument vectors compared')
        m.count('argument bytes compared', len(argv))
        got = argv[:-1].split(b'\0')[1:]
        if got != want:
            k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            m.violation('argv:' + kind, 'the %s got other arguments (%d, expected %d), first difference at %d: %r instead of %r' % (kind, len(got), len(want), k, got[k:k + 2], want[k:k + 2]), {'cmd.txt': sh})
        if p.returncode % 256 != st:
            m.violation('status:%s' % kind, 'exit status %d, the %s ended with %d' % (p.returncode, kind, st), {'cmd.txt': sh})
        m.seen('exit statuses', st)
        if p.stdout != b'out:' + c['stdin'] or not (p.stderr == b'err:' + c['stdin'] or (how[0] == 'k' and p.stderr.startswith(b'err:' + c['stdin']))):
            m.violation('streams', 'standard streams are not those of the compiler: %r %r' % (p.stdout[:200], p.stderr[:300]), {'cmd.txt': sh})
        if rcwd != os.fsencode(os.path.realpath(cwd)):
            m.violation('cwd', 'the compiler ran in %r' % rcwd, {'cmd.txt': sh})
        e = dict(x.split(b'=', 1) for x in renv.split(b'\0') if b'=' in x)
        for k, v in env.items():
            k, v = os.fsencode(k), os.fsencode(v)
            if k in (b'LD_LIBRARY_PATH', b'PWD', b'_', b'SHLVL', b'OLDPWD', b'IFS', b'DYLD_LIBRARY_PATH') or b' ' in k:
                continue
            if e.get(k) != v:
                m.violation('env', 'the compiler sees %r=%r, given was %r' % (k, e.get(k), v), {'cmd.txt': sh})
        lp = e.get(b'LD_LIBRARY_PATH', b'')
        first = os.fsdecode(lp)
        ok = any(os.path.realpath(os.path.join(cwd, first[:i])) == os.path.realpath(c['w'][1]) for i in [j for j, ch in enumerate(first + ':') if ch == ':'])
        if not ok or not first.endswith(c['env'].get('LD_LIBRARY_PATH', '')):
            m.violation('libdir', 'library path %r does not start with the folder of the plugin %r and end with the given one' % (lp, c['w'][1]), {'cmd.txt': sh})
        m.count('library paths judged')

    # with the real compiler: the plugin is found and used, the object code and the status are clang's own
    src = 'extern "C" char *getenv(const char *);\nstruct QByteArray { bool isEmpty() const { return true; } };\nstruct S { S(); S(const S &); ~S(); int i; };\nint fn(S s) { return s.i; }\nQByteArray qgetenv(const char *n);\nbool e() { return qgetenv("x").isEmpty(); }\n'
    bad = src + 'int broken( { ;\n'
    env = clz.env({}, True)
    for i, (text, checks, rep) in enumerate([(src, 'qgetenv', True), (src, 'level0', True), (src, 'qcolor-from-literal', False), (bad, 'qgetenv', None), (src, 'level0,no-qgetenv', False)]):
        d = os.path.join(base, 'real%d' % i)
        os.makedirs(d)
        open(d + '/t u.cpp', 'w').write(text)
        real = os.path.join(base, 'inst', 'bin', 'clazy')
        e = dict(env, CLANGXX=run.CLANG, CLAZY_CHECKS=checks)
        r = run.execute(['/bin/sh', real, '-c', 't u.cpp', '-o', 'w ith.o', '-Wall', '-DQ="a b"'], d, e)
        r0 = run.execute([run.CLANG, '-c', 't u.cpp', '-o', 'without.o', '-Wall', '-DQ="a b"'], d, {})
        m.case(('real', checks, text is bad), {'compiler': 'clang++', 'CLAZY_CHECKS': checks})
        if m.check_crash(r, 'the wrapper with the real compiler', {'t u.cpp': text}):
            continue
        if r.rc != r0.rc:
            m.violation('real:status', 'status %d with, %d without clazy\n%s' % (r.rc, r0.rc, r.text[-500:]), {'t u.cpp': text}, [r])
            continue
        if rep is not None and bool(r.clazy()) != rep:
            m.violation('real:checks', 'CLAZY_CHECKS=%s: reports %s' % (checks, r.clazy()), {'t u.cpp': text}, [r])
        o = [open(d + '/' + f, 'rb').read() if os.path.exists(d + '/' + f) else None for f in ('w ith.o', 'without.o')]
        if o[0] != o[1]:
            m.violation('real:object', 'object files differ', {'t u.cpp': text}, [r])
        m.count('real compilations')
    return m.finish({'argument vectors compared': 2000, 'real compilations': 5, 'exit statuses': 12})


main(body)
