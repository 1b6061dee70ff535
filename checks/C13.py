"""C13: analysing a program does not change how it is compiled, and writes to nothing."""
from common import *
import collections, hashlib, meta as metamod, mutate, work

m = Monitor('C13', 'A case is one compilation with the plugin loaded (checks, mode and options vary) next to the same compilation without it: the produced files byte for byte, the '
                   "compiler's own diagnostics in order, and the exit status must be the same; or one run of a front end after which every file of the program's folder must be as "
                   'before. Non-trivial when the compiler produced something or diagnosed something')

MODES = [('object', ['-c', '-o', 'out.o'], ['out.o']),
         ('object -O2 -g', ['-c', '-O2', '-g', '-o', 'out.o'], ['out.o']),
         ('assembly', ['-S', '-O1', '-o', 'out.s'], ['out.s']),
         ('bitcode', ['-c', '-emit-llvm', '-o', 'out.bc'], ['out.bc']),
         ('dependencies', ['-c', '-o', 'out.o', '-MD', '-MF', 'out.d'], ['out.o', 'out.d']),
         ('preprocessed', ['-E', '-o', 'out.i'], ['out.i']),
         ('preprocessed with macros', ['-E', '-dD', '-C', '-o', 'out.i'], ['out.i']),
         ('dependency list', ['-MM', '-o', 'out.d'], ['out.d']),
         ('syntax', ['-fsyntax-only'], []),
         ('precompiled header', ['-o', 'out.pch'], ['out.pch'])]
OPTS = [[], [], ['-Wall', '-Wextra'], ['-Weverything', '-Wno-unsafe-buffer-usage'], ['-w'], ['-Werror', '-Wno-error'], ['-ferror-limit=1'], ['-Wfatal-errors'], ['-fno-exceptions'], ['-DNDEBUG', '-O2'],
        ['-fsanitize=undefined'], ['-fno-spell-checking'], ['-ftime-trace=t.json'], ['-Xclang', '-verify-ignore-unexpected'], ['-fdiagnostics-show-note-include-stack'], ['-ftemplate-depth=200'],
        ['-std=c++20'], ['-Wall', '-Werror=unused-variable'], ['-Wall', '-Werror']]
PLAIN = ['#include "none.h"\nint i;\n', 'int f( {\n', 'int main() { int x; return y; }\n', '#error stop\nint i;\n', '#warning careful\nint f(int a) { return 0; }\n', 'int f() { }\n',
         'template<class T> T g(T t) { return t.nothing(); }\nint h() { return g(1); }\n', 'struct A; A a;\n', 'void f(int x) { x == 1; if (x = 2) {} switch (x) { case 1: case 1: ; } }\n',
         'static_assert(sizeof(int) == 3, "no");\n', 'enum E { a, b }; int f(E e) { switch (e) { case a: return 1; } return 0; }\n', '#pragma message("hello")\n#pragma once\nint i;\n',
         'int i = 0/0; int a[2] = {1,2,3};\n', 'constexpr int f(int n) { return n ? f(n + 1) : 0; }\nconstexpr int x = f(1);\n', '', '\n', '/* open', '#if 1\nint i;\n', 'int i = 99999999999999999999;\n',
         '[[deprecated("d")]] void f(); void g() { f(); }\n', 'const char *s = "\\q";\nint \\u00e9 = 1;\n']


def body():
    clz, rng = m.clazy, m.rng
    names = metamod.Meta().names
    jobs = []
    files = mutate.corpus()
    mut = mutate.Mutator(rng, files)
    for qt in (5, 6):
        for u in work.cover(rng, qt, 20 if not m.thorough else 12, m.n(1, 3)):
            jobs.append(work.unit_prog(u))
        ps = work.corpus_progs(qt)
        jobs += rng.sample(ps, m.n(10, len(ps)))
        for _ in range(m.n(14, 250)):
            name, text, d = rng.choice(files)
            t, ops = mut.mutate(name, text)
            jobs.append(work.Prog('mutated ' + name, t, qt, incdir=d))
    for t in PLAIN:
        jobs.append(work.Prog('plain', t, 0))
    rng.shuffle(jobs)
    sels = [','.join(names), 'level2', 'level0', None]
    todo = []
    mi = rng.randrange(100)
    for p in jobs:
        for _ in range(m.n(1, 2)):
            mode = MODES[mi % len(MODES)]
            opts = rng.choice(OPTS)
            todo.append((p, mode, opts, rng.choice(sels[:1] * 3 + sels), rng.choice([[], [], [], ['export-fixes'], ['ignore-included-files'], ['only-qt'], ['qt-developer'], ['visit-implicit-code']])))
            mi += 1

    def sha(wd):
        out = {}
        for root, ds, fs in os.walk(wd):
            for f in fs:
                q = os.path.join(root, f)
                st = os.stat(q)
                out[os.path.relpath(q, wd)] = (hashlib.sha1(open(q, 'rb').read()).hexdigest(), st.st_mtime_ns, st.st_mode)
        return out

    seq = iter(range(10 ** 9))

    def own(r):
        """The compiler's own words: every line except the diagnostics of clazy with their source excerpts and notes."""
        out, skip = [], False
        for d in r.diags:
            if d.sev == 'note':
                if not skip:
                    out.append((d.file, d.line, d.col, d.sev, d.msg, d.tag))
                continue
            skip = run.clazy_name(d.tag) is not None or d.msg == 'Type declared here:'    # the second half of missing-typeinfo, untagged
            if not skip:
                out.append((d.file, d.line, d.col, d.sev, d.msg, d.tag))
        return out

    def one(t):
        p, mode, opts, sel, extra = t
        wd = os.path.join(m.work, 'k%d' % next(seq))
        src = p.put(wd)
        lang = 'c++-header' if mode[0].startswith('precompiled') else 'c++'
        fl = p.cflags(wd) + opts
        before = sha(wd)
        res = []
        for with_ in (False, True):
            if with_:
                e = dict(p.env, CLAZY_NO_WERROR='1')
                cmd = clz.plugin_cmd(src, ([sel] if sel else []) + extra, fl, lang, mode=mode[1])
                r = run.execute(cmd, wd, clz.env(e, True))
            else:
                r = run.execute([run.CLANG] + mode[1] + fl + ['-x', lang, src], wd, {})
            outs = {}
            for f in mode[2]:
                q = os.path.join(wd, f)
                if os.path.exists(q):
                    outs[f] = open(q, 'rb').read()
                    os.unlink(q)
            for f in ('t.json',):
                if os.path.exists(os.path.join(wd, f)):
                    os.unlink(os.path.join(wd, f))
            if with_ and 'export-fixes' in extra and os.path.exists(src + '.clazy.yaml'):
                os.unlink(src + '.clazy.yaml')
            after = sha(wd)
            touched = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            res.append((r, outs, own(r), touched))
            for k in touched:
                if k not in before:
                    os.unlink(os.path.join(wd, k))
        shutil.rmtree(wd, ignore_errors=True)
        return res

    for t, (a, b) in zip(todo, m.parallel(one, todo)):
        p, mode, opts, sel, extra = t
        what = '%s (Qt %s), %s %s, checks %s %s' % (p.name, p.qt, mode[0], ' '.join(opts), 'all' if sel == sels[0] else sel, extra)
        if m.check_crash(b[0], what, p.replay()):
            continue
        if a[0].rc not in (0, 1):
            m.count('left out: the compiler alone does not end normally')
            continue
        m.case((p.name, p.qt, p.text if p.qt == 0 else '', mode[0], tuple(opts)) if a[1] or a[2] else None, {'program': p.name, 'qt': p.qt, 'mode': mode[0], 'options': opts, 'own diagnostics': len(a[2]), 'outputs': sorted(a[1]), 'clazy reports': len(b[0].clazy())})
        m.count('clazy reports made meanwhile', len(b[0].clazy()))
        m.count("compiler's diagnostics compared", len(a[2]))
        m.seen('modes', mode[0])
        # A clazy warning that -Werror makes an error is documented (CLAZY_NO_WERROR is set here); a limit on errors or a fatal error can hide reports
        if a[0].rc != b[0].rc:
            m.violation('status:' + mode[0].split()[0], '%s\nexit status %d without, %d with the plugin\n%s' % (what, a[0].rc, b[0].rc, b[0].text[-1500:]), p.replay(), [a[0], b[0]])
        if a[2] != b[2]:
            x, y = collections.Counter(a[2]), collections.Counter(b[2])
            m.violation('diagnostics:' + mode[0].split()[0], "%s\nthe compiler's diagnostics are not the same\nwithout: %s\nwith: %s" % (what, list((x - y).elements())[:4], list((y - x).elements())[:4]), p.replay(), [a[0], b[0]])
        for f in sorted(set(a[1]) | set(b[1])):
            m.count('outputs compared')
            if a[1].get(f) != b[1].get(f):
                s = [None if f not in z[1] else len(z[1][f]) for z in (a, b)]
                m.violation('output:' + mode[0].split()[0], '%s\n%s differs (sizes %s)' % (what, f, s), p.replay(), [a[0], b[0]])
        if b[3]:
            m.violation('writes:plugin', '%s\nfiles touched in the folder of the program: %s' % (what, b[3]), p.replay(), [b[0]])
        if a[3]:
            raise HarnessError('the compiler alone touches %s' % a[3])

    # the other front ends leave every file alone
    def two(t):
        p, fe, export = t
        wd = os.path.join(m.work, 'k%d' % next(seq))
        src = p.put(wd)
        os.makedirs(wd + '/out')
        before = sha(wd)
        fl = p.cflags(wd)
        if fe == 'standalone':
            r = clz.standalone(src, ','.join(names), flags=fl, cwd=wd, args=['-export-fixes=' + wd + '/out/f.yaml'] if export else [])
        elif fe == 'tidy':
            r = clz.tidy(src, 'clazy-*', flags=fl, cwd=wd, args=['--export-fixes=' + wd + '/out/f.yaml'] if export else [])
        else:
            r = clz.plugin(src, ','.join(names), flags=fl, cwd=wd, args=['export-fixes'] if export else [])
        after = sha(wd)
        ok = {'out/f.yaml'} if fe != 'plugin' else {p.main + '.clazy.yaml'}
        touched = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not (export and k in ok))
        shutil.rmtree(wd, ignore_errors=True)
        return r, touched

    todo = [(p, rng.choice(['standalone', 'tidy', 'plugin']), rng.random() < .6) for p in rng.sample(jobs, m.n(20, 200))]
    for (p, fe, export), (r, touched) in zip(todo, m.parallel(two, todo)):
        m.case(('writes', p.name, p.qt, fe, export) if r.clazy() else None)
        m.count('folders compared')
        if m.check_crash(r, p.name, p.replay()):
            continue
        if touched:
            m.violation('writes:' + fe, '%s, %s: files touched: %s' % (p.name, fe, touched), p.replay(), [r])
    return m.finish({'outputs compared': m.n(30, 400), "compiler's diagnostics compared": 40, 'clazy reports made meanwhile': 200, 'modes': 9})


main(body)
