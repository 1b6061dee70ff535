"""C17: several analyses at the same time in one process (as with libclang), under ThreadSanitizer, against each analysis on its own."""
from common import *
import subprocess, yaml
import fixes, genexpr, work

m = Monitor('C17', 'A case is one analysis that ran at the same time as others in one process: no race on clazy\'s state, and the diagnostics and the exported file it gives alone. '
                   'Non-trivial when its time overlaps with that of another analysis; distinct by program, options, and the order of the starts and ends around it')
RT = build.RTDIR
T = 8


def driver():
    """The process that runs analyses in threads, built like the plugin."""
    p = build.ensure('tsan')
    src = os.path.join(build.VERIF, 'lib', 'par.cpp')
    exe = os.path.join(build.BUILD, 'tsan', 'par')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        r = subprocess.run(['clang++-18', '-std=c++20', '-g1', '-O1', '-fsanitize=thread', '-shared-libsan', '-fno-rtti', '-I' + build.LLVM + '/include', src, '-o', exe + '.new',
                            '-L' + build.LLVM + '/lib', '-lclang-cpp', '-lLLVM-20', '-lpthread', '-Wl,-rpath,' + RT], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('building the driver failed: ' + r.stderr[-2000:])
        os.replace(exe + '.new', exe)
    return exe, p.plugin


BLOCK = re.compile(r'^BEGIN (\d+) (\d+) (\d+) (\d+) (\d+) (\d+)\n(.*?)\n?^END$', re.S | re.M)


def go(exe, plugin, wd, jobs, threads, rounds, seed, env, name):
    jf = os.path.join(wd, name)
    with open(jf, 'w') as f:
        for j in jobs:
            f.write('\t'.join([j['src'], '\x01'.join(j['args']), '\x01'.join(j['flags'])]) + '\n')
    e = dict(env)
    e['LD_LIBRARY_PATH'] = RT
    e['TSAN_OPTIONS'] = 'ignore_noninstrumented_modules=1:exitcode=0:history_size=5:report_signal_unsafe=0'
    r = run.execute([exe, plugin, str(threads), str(rounds), str(seed), jf], cwd=wd, env=e, timeout=600)
    out = [(int(a), int(b), int(c), int(s), int(t), int(ok), text) for a, b, c, s, t, ok, text in BLOCK.findall(r.out)]
    return r, out


def races(text):
    """Reports of ThreadSanitizer that concern clazy's own code or state."""
    out = []
    for rep in text.split('==================\n'):
        if 'WARNING: ThreadSanitizer' in rep and 'ClazyPlugin.so' in rep:
            # the accesses, not the creation of the threads
            acc = rep.split('Thread T')[0]
            fr = re.findall(r'#\d+ (.*?) (/[^ ]*/tsan/src/(src/[^: ]+)|[^ ]*ClazyPlugin)', acc)
            if fr or 'ClazyPlugin.so' in acc:
                f = next((x[2] for x in fr if x[2]), 'plugin')
                fn = next((re.sub(r'\W+', '_', x[0].split('(')[0])[-40:] for x in fr if x[2]), '')
                out.append(('%s:%s' % (f, fn), rep))
    return out


def normal(text):
    return sorted((d.file, d.line, d.col, d.sev, d.msg, d.tag) for d in run.parse(text))


def body():
    rng = m.rng
    exe, plugin = driver()
    import meta as metamod
    names = metamod.Meta().names
    envs = [{}, {}, {'CLAZY_CHECKS_AS_ERRORS': 'range-loop-detach,qgetenv,qstring-allocations'}, {'CLAZY_HEADER_FILTER': '.*'}, {'CLAZY_IGNORE_DIRS': '.*/qt[56]/.*'}, {'CLAZY_CHECKS': 'qgetenv,no-qstring-arg'}]
    corpora = {q: work.corpus_progs(q) for q in (5, 6)}
    tw, mx = m.n(9, 80), m.n(2, 40)
    for run_no in range(tw + mx):
        wd = os.path.join(m.work, 'p%d' % run_no)
        os.makedirs(wd)
        twins = run_no < tw
        env = rng.choice(envs) if run_no % 2 else {}
        rounds, jobs = 1 if twins else 2, []
        njobs = T if twins or run_no % 2 else 2 * T

        def program():
            q = rng.choice((5, 6))
            k = rng.randrange(4)
            if k < 2:
                return work.unit_prog(work.random_unit(rng, q, rng.randrange(8, 20)), 'unit')
            if k == 2:
                return rng.choice(corpora[q])
            return work.Prog('gen', genexpr.Gen(rng).program(2, 4, 3), q, flags=['-w'])

        def options(every):
            sel = ','.join(names) if every else rng.choice([','.join(names), 'level2', 'level0', ','.join(rng.sample(names, 25))])
            return [sel] + [a for a in ('export-fixes', 'only-qt', 'ignore-included-files', 'visit-implicit-code', 'qt-developer') if rng.random() < (.7 if a == 'export-fixes' else .1)]
        p, args = None, None
        if twins:       # the same program in all threads: they come to each table and cache of the process at the same time, cold
            pats = work.random_unit(rng, rng.choice((5, 6)), (20, 30, 40)[run_no % 3])
            p, args = work.unit_prog(pats, 'twins'), options(True)
        for i in range(njobs):
            q = p or program()
            d = os.path.join(wd, 'j%d' % i)
            src = q.put(d)
            a = args or options(False)
            jobs.append(dict(src=src, args=a, flags=q.cflags(d) + ['-resource-dir', build.LLVM + '/lib/clang/20'], prog=q, dir=d, export='export-fixes' in a))
        # alone
        def alone(ij):
            i, j = ij
            return go(exe, plugin, wd, [j], 1, 1, 0, env, 'alone%d' % i)
        refs = m.parallel(alone, list(enumerate(jobs[:1] if twins else jobs)))

        def yamltext(j):
            y = j['src'] + '.clazy.yaml'
            return open(y, encoding='utf-8', errors='surrogateescape').read() if os.path.exists(y) else ''
        ref = []
        j0 = jobs[0]
        for j, (r, out) in zip(jobs, refs):
            if len(out) != 1:
                ref.append(None)
                continue
            ref.append((out[0][5], normal(out[0][6]), yamltext(j)))
            y = j['src'] + '.clazy.yaml'
            if os.path.exists(y):
                os.remove(y)
        if twins:        # all the same, but for the folder
            swap = lambda x, j: x.replace(j0['dir'] + '/', j['dir'] + '/')
            ref = [ref[0] and (ref[0][0], [tuple(swap(x, j) if isinstance(x, str) else x for x in d) for d in ref[0][1]], swap(ref[0][2], j)) for j in jobs]
        r, out = go(exe, plugin, wd, jobs, T, rounds, m.seed * 100 + run_no, env, 'jobs')
        files = {'job%d.cpp' % i: j['prog'].text for i, j in enumerate(jobs)}
        files['jobs.txt'] = '\n'.join('%d: %s' % (i, ' '.join(j['args'])) for i, j in enumerate(jobs))
        m.count('concurrent processes')
        for key, rep in races(r.err):
            files['report.txt'] = rep
            m.violation('race:' + key, 'data race: ' + rep[:1200], files, [])
        if len(out) < T * rounds:
            # the process died: which is only judged when every analysis survives on its own
            if any(x is None for x in ref):
                m.count('processes not judged')
                continue
            m.violation('died', 'the process with %d threads ended early (status %s): %d of %d analyses finished; each ends normally alone\n%s' % (T, r.rc, len(out), T * rounds, r.err[-1500:]), files, [])
            continue
        for n, rd, t, a, b, ok, text in out:
            if ref[n] is None:
                continue
            over = [x for x in out if x[1] == rd and x[2] != t and x[3] < b and a < x[4]]
            order = tuple(x[1:] for x in sorted([(s, 's', k) for _, r2, k, s, e, _, _ in out if r2 == rd] + [(e, 'e', k) for _, r2, k, s, e, _, _ in out if r2 == rd]))
            m.case((run_no, n, order) if over else None, {'program': jobs[n]['prog'].name, 'options': jobs[n]['args'][1:], 'overlaps': len(over), 'diagnostics': len(ref[n][1])})
            m.count('overlapping pairs', len(over))
            m.seen('interleavings of starts and ends', order)
            m.count('diagnostics compared', len(ref[n][1]))
            if ok != ref[n][0]:
                m.violation('status', 'status %d instead of %d when run concurrently' % (ok, ref[n][0]), files, [])
            got = normal(text)
            if got != ref[n][1]:
                import collections
                x, y = collections.Counter(ref[n][1]), collections.Counter(got)
                miss, extra = list((x - y))[:3], list((y - x))[:3]
                tag = (miss + extra)[0][5]
                m.violation('diagnostics-%s' % (run.clazy_name(tag) or 'none'), 'job %d run concurrently: missing %s, additional %s' % (n, miss, extra), files, [])
        for n, j in enumerate(jobs):
            if not j['export'] or ref[n] is None or not any(x[0] == n for x in out):
                continue
            m.count('exported files compared')
            if yamltext(j) != ref[n][2]:
                try:
                    same = sorted(fixes.load(yamltext(j), all_=True)) == sorted(fixes.load(ref[n][2], all_=True)) if ref[n][2] else not fixes.load(yamltext(j), all_=True)
                except Exception:
                    same = False
                if not same:
                    m.violation('export', 'job %d: the exported file differs from that of a run alone (%d and %d bytes)' % (n, len(yamltext(j)), len(ref[n][2])), dict(files, alone=ref[n][2], concurrent=yamltext(j)), [])
        shutil.rmtree(wd, ignore_errors=True)
    return m.finish({'concurrent processes': m.n(3, 40), 'overlapping pairs': m.n(40, 1000), 'diagnostics compared': m.n(500, 5000), 'exported files compared': 4})


main(body)
