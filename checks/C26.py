"""C26: failing input and output is reported and never loses the results of the parts that worked."""
from common import *
import collections, fixes, meta as metamod, subprocess, work

m = Monitor('C26', 'A case is one run of a front end during which a read or write fails (missing, unreadable or odd sources, headers, overlays, compilation databases; export targets that cannot '
                   'be created, are full or are cut off; closed or full output; the nth file operation made to fail by an injected error). The run must end without a crash, must not end with '
                   'status 0 after losing something it was asked for, must say so, and must report of the untouched parts what it reports of them alone. Non-trivial when the fault took effect')

SHIM = r'''
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <unistd.h>
/* FAULT=<op>:<n>:<errno>:<part of the path>: the nth operation op on a file whose path has that part fails. */
static int armed(const char *op, const char *path)
{
    static char o[16], part[256]; static int n = -1, e; static __thread int busy;
    if (busy) return 0;
    busy = 1;
    if (n == -1) { const char *f = getenv("FAULT"); n = 0; if (f) sscanf(f, "%15[^:]:%d:%d:%255[^\n]", o, &n, &e, part); }
    int hit = 0;
    if (n > 0 && path && !strcmp(op, o) && strstr(path, part) && --n == 0) {
        hit = e;
        const char *l = getenv("FAULT_LOG");
        if (l) { int (*ro)(const char *, int, ...) = dlsym(RTLD_NEXT, "open"); int fd = ro(l, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd >= 0) { (void)!write(fd, op, strlen(op)); close(fd); } }
    }
    busy = 0;
    return hit;
}
static const char *name(int fd, char *b) { char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%d", fd); ssize_t k = readlink(p, b, 4095); if (k < 0) return NULL; b[k] = 0; return b; }
#define OPEN(fn) int fn(const char *p, int fl, ...) { va_list a; va_start(a, fl); mode_t mo = (fl & (O_CREAT | O_TMPFILE)) ? va_arg(a, mode_t) : 0; va_end(a); \
    static int (*r)(const char *, int, ...); if (!r) r = dlsym(RTLD_NEXT, #fn); int e = armed((fl & O_ACCMODE) == O_RDONLY ? "open" : "create", p); if (e) { errno = e; return -1; } return r(p, fl, mo); }
OPEN(open) OPEN(open64)
ssize_t read(int fd, void *b, size_t n) { static ssize_t (*r)(int, void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "read"); char q[4096]; int e = getenv("FAULT") ? armed("read", name(fd, q)) : 0; if (e) { errno = e; return -1; } return r(fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { static ssize_t (*r)(int, void *, size_t, off_t); if (!r) r = dlsym(RTLD_NEXT, "pread"); char q[4096]; int e = getenv("FAULT") ? armed("read", name(fd, q)) : 0; if (e) { errno = e; return -1; } return r(fd, b, n, o); }
ssize_t write(int fd, const void *b, size_t n) { static ssize_t (*r)(int, const void *, size_t); if (!r) r = dlsym(RTLD_NEXT, "write"); char q[4096]; int e = getenv("FAULT") ? armed("write", name(fd, q)) : 0; if (e == 1000) { return r(fd, b, n > 3 ? n / 3 : n); } if (e) { errno = e; return -1; } return r(fd, b, n); }
int fstat(int fd, struct stat *s) { static int (*r)(int, struct stat *); if (!r) r = dlsym(RTLD_NEXT, "fstat"); char q[4096]; int e = getenv("FAULT") ? armed("fstat", name(fd, q)) : 0; if (e) { errno = e; return -1; } return r(fd, s); }
int fstat64(int fd, struct stat64 *s) { static int (*r)(int, struct stat64 *); if (!r) r = dlsym(RTLD_NEXT, "fstat64"); char q[4096]; int e = getenv("FAULT") ? armed("fstat", name(fd, q)) : 0; if (e) { errno = e; return -1; } return r(fd, s); }
int stat(const char *p, struct stat *s) { static int (*r)(const char *, struct stat *); if (!r) r = dlsym(RTLD_NEXT, "stat"); int e = armed("stat", p); if (e) { errno = e; return -1; } return r(p, s); }
int stat64(const char *p, struct stat64 *s) { static int (*r)(const char *, struct stat64 *); if (!r) r = dlsym(RTLD_NEXT, "stat64"); int e = armed("stat", p); if (e) { errno = e; return -1; } return r(p, s); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { static void *(*r)(void *, size_t, int, int, int, off_t); if (!r) r = dlsym(RTLD_NEXT, "mmap"); if (fd >= 0 && getenv("FAULT")) { char q[4096]; int e = armed("mmap", name(fd, q)); if (e) { errno = e; return MAP_FAILED; } } return r(a, n, pr, fl, fd, o); }
int close(int fd) { static int (*r)(int); if (!r) r = dlsym(RTLD_NEXT, "close"); char q[4096]; int e = getenv("FAULT") ? armed("close", name(fd, q)) : 0; int k = r(fd); if (e) { errno = e; return -1; } return k; }
'''
ERR = {'EIO': 5, 'ENOSPC': 28, 'EACCES': 13, 'EMFILE': 24, 'ENOENT': 2, 'EINTR': 4, 'short': 1000, 'EDQUOT': 122, 'EFBIG': 27}
# Diagnostics in the main file and in headers, with edits
TU = '''#include "h%(i)d.h"
namespace T%(i)d {
bool a%(i)d() { return qgetenv("FOO").isEmpty(); }
int b%(i)d() { return qgetenv("BAR").toInt(); }
void c%(i)d(QString s) { for (auto x : s.split(QLatin1Char(','))) { (void)x; } }
struct R%(i)d { R%(i)d(); R%(i)d(const R%(i)d &); ~R%(i)d(); int v; };
}
'''
HD = '''#pragma once
#include <QString>
#include <QStringList>
#include <QByteArray>
#include <QtGlobal>
namespace H%(i)d { inline bool in%(i)d() { return QByteArray().isNull() || qgetenv("HDR").isEmpty(); } }
'''


def body():
    clz, rng = m.clazy, m.rng
    shim = os.path.join(m.work, 'shim.so')
    open(m.work + '/shim.c', 'w').write(SHIM)
    r = subprocess.run(['clang-18', '-shared', '-fPIC', '-O1', '-o', shim, m.work + '/shim.c', '-ldl'], capture_output=True, text=True)
    if r.returncode:
        raise HarnessError('shim: ' + r.stderr[:500])
    checks = 'level2'
    N = 3
    seq = iter(range(10 ** 9))

    def fresh(n=N):
        wd = os.path.join(m.work, 'f%d' % next(seq))
        os.makedirs(wd)
        for i in range(n):
            open('%s/t%d.cpp' % (wd, i), 'w').write(TU % {'i': i})
            open('%s/h%d.h' % (wd, i), 'w').write(HD % {'i': i})
        return wd

    def fl(qt, wd):
        return run.qtflags(qt) + ['-I' + wd, '-Wno-everything']

    def ev(r, wd):
        return collections.Counter(work.events(r, wd))

    def flines(e):
        return e[0][1:2] if re.match(r'[th]\d\.', e[0]) else ''

    # what each unit alone reports
    base = {}

    def alone(x):
        fe, qt, i = x
        wd = fresh()
        src = '%s/t%d.cpp' % (wd, i)
        r = go(fe, qt, wd, [src])
        return ev(r, wd), r

    def go(fe, qt, wd, srcs, args=(), env=None, export=None, timeout=120, pre=None, checks=checks, vfs=None, more=()):
        e = dict(env or {})
        f = fl(qt, wd) + list(more)
        if fe == 'standalone':
            a = list(args) + (['-export-fixes=' + export] if export else []) + ['-header-filter=.*']
            cmd = [clz.p.standalone, '-checks=' + checks] + a + srcs + ['--', '-resource-dir', run.LLVM + '/lib/clang/20'] + f + ['-x', 'c++']
            en = clz.env(e, False)
        elif fe == 'tidy':
            a = list(args) + (['--export-fixes=' + export] if export else []) + ['-header-filter=.*', '--system-headers']
            cmd = [run.CLANGTIDY, '--load=' + clz.p.tidy, '--quiet', '--checks=-*,clazy-*', '--config={}'] + a + srcs + ['--'] + f + ['-x', 'c++']
            en = clz.env(e, True)
        else:
            cmd = clz.plugin_cmd(srcs, [checks] + list(args) + (['export-fixes'] if export else []), f, 'c++')
            en = clz.env(e, True)
        if 'FAULT' in en:
            en['LD_PRELOAD'] = (clz.rt + ':' if 1 else '') + shim
        if pre:
            cmd = pre + cmd
        return run.execute(cmd, wd, en, timeout=timeout)

    xs = [(fe, qt, i) for fe in ('standalone', 'plugin', 'tidy') for qt in (5, 6) for i in range(N)]
    for x, (e, r) in zip(xs, m.parallel(alone, xs)):
        if sum(e.values()) < 4 or r.rc not in (0, 1):
            raise HarnessError('the unit alone: %s %s' % (x, r.text[-1500:]))
        base[x] = e

    def want(fe, qt, idx):
        c = collections.Counter()
        for i in idx:
            c |= base[(fe, qt, i)]
        return c

    # ---------------- scenarios: each returns (name, result, problems)
    jobs = []

    taken = {}

    def scen(f):
        # quick: every fault with one of the Qt versions
        d = f.__defaults__ or ()
        k = (f.__code__.co_firstlineno, tuple(x for i, x in enumerate(d) if f.__code__.co_varnames[i] not in ('qt', 'text')))
        if not m.thorough and 'qt' in f.__code__.co_varnames[:len(d)] and taken.setdefault(k, rng.choice([5, 6])) != d[f.__code__.co_varnames.index('qt')]:
            return
        jobs.append(f)

    def judge(name, fe, qt, wd, r, idx, fail=True, says=None, extra_ok=True, yaml=None, crash_ok=False):
        """idx: the units that must be reported in full."""
        bad = []
        c = r.crash()
        if c and not (c.startswith('LLVM ERROR: IO failure') and r.rc == 1):
            bad.append(('crash', c))
        got = ev(r, wd)
        w = want(fe, qt, idx)
        lost = set(w) - set(got)
        if idx and lost:
            bad.append(('lost', 'not reported: %s' % sorted(lost)[:3]))
        spurious = set(got) - set(want(fe, qt, range(N)))
        if spurious:
            bad.append(('spurious', 'reported in addition: %s' % sorted(spurious)[:3]))
        if fail and r.rc == 0:
            bad.append(('status', 'ended with status 0'))
        if not fail and r.rc != 0:
            bad.append(('status', 'ended with status %d' % r.rc))
        if says and not any(s in r.text for s in ([says] if isinstance(says, str) else says)):
            bad.append(('silent', 'does not say %r: %s' % (says, r.text[-300:])))
        if yaml:
            path, ids = yaml
            try:
                t = open(path, encoding='utf-8', errors='surrogateescape').read()
                fs = fixes.clazy_only(fixes.load(t, wd, True))
                have = {(os.path.basename(f.file), fixes.name(f.check)) for f in fs}
                need = {(os.path.basename(e.file), e.check) for e in want(fe, qt, ids)}
                if need - have:
                    bad.append(('export', 'lacks %s' % sorted(need - have)[:4]))
            except Exception as ex:
                bad.append(('export', 'the exported file: %r' % ex))
        shutil.rmtree(wd, ignore_errors=True)
        return name, fe, r, bad

    def T(wd, i):
        return '%s/t%d.cpp' % (wd, i)

    for fe in ('standalone', 'plugin', 'tidy'):
        for qt in (5, 6):
            for pos in range(N):
                # one source of several cannot be read
                for how in ('missing', 'directory', 'dangling', 'loop'):
                    if not m.thorough and rng.random() < .75:
                        continue

                    def f(fe=fe, qt=qt, pos=pos, how=how):
                        wd = fresh()
                        s = T(wd, pos)
                        os.unlink(s)
                        if how == 'directory':
                            os.mkdir(s)
                        elif how == 'dangling':
                            os.symlink(wd + '/none', s)
                        elif how == 'loop':
                            os.symlink(s, s)
                        y = wd + '/out.yaml' if fe == 'standalone' else None
                        r = go(fe, qt, wd, [T(wd, i) for i in range(N)], export=y)
                        rest = [i for i in range(N) if i != pos]
                        return judge('source ' + how, fe, qt, wd, r, rest if fe == 'standalone' else [], True, 't%d.cpp' % pos, yaml=(y, rest) if y else None)
                    scen(f)
            # a header that cannot be read: the rest is still analysed
            for how in ('missing', 'directory', 'empty', 'binary'):
                def f(fe=fe, qt=qt, how=how):
                    wd = fresh()
                    h = wd + '/h1.h'
                    os.unlink(h)
                    if how == 'directory':
                        os.mkdir(h)
                    elif how == 'empty':
                        open(h, 'w').close()
                    elif how == 'binary':
                        open(h, 'wb').write(bytes(range(256)) * 20)
                    y = wd + '/out.yaml' if fe == 'standalone' else None
                    r = go(fe, qt, wd, [T(wd, i) for i in range(N)], export=y)
                    return judge('header ' + how, fe, qt, wd, r, [0, 2] if fe != 'tidy' or how == 'empty' else [], True, 'h1.h' if how != 'empty' and how != 'binary' else None, yaml=(y, [0, 2]) if y else None)
                scen(f)
            # export targets
            for how in ('nodir', 'directory', 'full', 'notdir', 'limit', 'rofile'):
                def f(fe=fe, qt=qt, how=how):
                    wd = fresh()
                    pre = None
                    y = {'nodir': wd + '/no/such/f.yaml', 'directory': wd, 'full': '/dev/full', 'notdir': wd + '/t0.cpp/f.yaml', 'limit': wd + '/f.yaml', 'rofile': '/proc/version'}[how]
                    srcs = [T(wd, i) for i in range(N)]
                    if fe == 'plugin':
                        srcs = srcs[:1]
                        y = T(wd, 0) + '.clazy.yaml'
                        if how in ('nodir', 'notdir', 'rofile'):
                            os.symlink({'nodir': wd + '/no/such/f', 'notdir': wd + '/t1.cpp/f', 'rofile': '/proc/version'}[how], y)
                        elif how == 'directory':
                            os.mkdir(y)
                        elif how == 'full':
                            os.symlink('/dev/full', y)
                    if how == 'limit':
                        pre = ['/bin/bash', '-c', 'ulimit -f 1; trap "" XFSZ; exec "$@"', 'x']
                    if fe == 'tidy' or (fe == 'plugin' and how == 'limit'):     # clang itself does not stand the limit
                        return None
                    r = go(fe, qt, wd, srcs, export=y, pre=pre)
                    return judge('export ' + how, fe, qt, wd, r, range(len(srcs)), fe == 'standalone', ['could not write', 'yaml', '/dev/full'])
                scen(f)
            # outputs
            for how in ('stdout closed', 'stderr closed', 'both closed', 'stdout full', 'stderr full', 'pipe gone', 'stdin closed'):
                def f(fe=fe, qt=qt, how=how):
                    wd = fresh()
                    red = {'stdout closed': '>&-', 'stderr closed': '2>&-', 'both closed': '>&- 2>&-', 'stdout full': '>/dev/full', 'stderr full': '2>/dev/full', 'pipe gone': '2>&1 | true', 'stdin closed': '<&-'}[how]
                    y = wd + '/out.yaml' if fe == 'standalone' else None
                    r = go(fe, qt, wd, [T(wd, i) for i in range(N)], export=y, pre=['/bin/bash', '-o', 'pipefail', '-c', '"$@" ' + red, 'x'])
                    shown = (fe != 'tidy' and 'stderr' not in how and 'both' not in how and 'pipe' not in how) or (fe == 'tidy' and how in ('stderr closed', 'stdin closed'))
                    if 'pipe' in how and r.rc in (141, -13):     # the ordinary end by SIGPIPE
                        r.rc = 1
                        y = None
                    return judge('output ' + how, fe, qt, wd, r, range(N) if shown else [], r.rc != 0, yaml=(y, range(N)) if y else None)
                scen(f)
    # tool specific inputs
    for qt in (5, 6):
        for how, text in (('missing', None), ('empty', ''), ('not yaml', '{ "version": 0, "roots": ['), ('no roots', '{"version": 0}'), ('binary', '\x01\x02\x03'), ('directory', 0), ('wrong type', '[1,2]'), ('dangling contents', 1)):
            def f(qt=qt, how=how, text=text):
                wd = fresh()
                v = wd + '/o.yaml'
                if isinstance(text, str):
                    open(v, 'w').write(text)
                elif text == 0:
                    os.mkdir(v)
                elif text == 1:
                    open(v, 'w').write(json.dumps({'version': 0, 'roots': [{'name': wd, 'type': 'directory', 'contents': [{'name': 'h1.h', 'type': 'file', 'external-contents': wd + '/none'}]}]}))
                r = go('standalone', qt, wd, [T(wd, i) for i in range(N)], args=['-vfsoverlay=' + v])
                return judge('overlay ' + how, 'standalone', qt, wd, r, range(N) if text == 1 else [], text != 1, [v, 'h1.h'] if text != 1 else None)
            scen(f)
        for how, text in (('missing', None), ('not json', '[{'), ('not an array', '{}'), ('lacks command', '[{"directory": "%(wd)s", "file": "t0.cpp"}]'), ('no entry', '[]'), ('binary', '\xff\xfe')):
            def f(qt=qt, how=how, text=text):
                wd = fresh()
                if text == 1:
                    open(wd + '/compile_commands.json', 'w').write(json.dumps([{'directory': wd + ('/gone' if i == 1 else ''), 'file': T(wd, i), 'arguments': ['clang++', '-resource-dir', run.LLVM + '/lib/clang/20'] + fl(qt, wd) + ['-c', T(wd, i)]} for i in range(N)]))
                elif text is not None:
                    open(wd + '/compile_commands.json', 'w').write(text.replace('%(wd)s', wd))
                r = run.execute([clz.p.standalone, '-checks=' + checks, '-header-filter=.*', '-p', wd] + [T(wd, i) for i in range(N)], wd, clz.env({}, False))
                return judge('database ' + how, 'standalone', qt, wd, r, [0, 2] if text == 1 else [], True, ['ompil', 'rror'])
            scen(f)
        for how in ('-supported-checks-json', '-list-checks', '-help', '--version'):
            if qt == 5:
                def f(how=how):
                    wd = fresh(0)
                    r = run.execute(['/bin/bash', '-c', '"$@" >/dev/full', 'x', clz.p.standalone, '-checks=level0', how], wd, clz.env({}, False))
                    # -help and --version are LLVM's own
                    return judge('listing to a full device ' + how, 'standalone', 5, wd, r, [], True if how.startswith('-s') or how.startswith('-l') else r.rc != 0)
                scen(f)
        # standard input as the source of the plugin
        for export in (False, True):
            def f(qt=qt, export=export):
                wd = fresh()
                cmd = clz.plugin_cmd('-', [checks] + (['export-fixes'] if export else []), fl(qt, wd), 'c++')
                r = run.execute(cmd, wd, clz.env({}, True), stdin=open(T(wd, 0), 'rb').read())
                r.err = r.err.replace('<stdin>:', T(wd, 0) + ':')
                return judge('source on standard input%s' % (' with export' if export else ''), 'plugin', qt, wd, r, [0], False)
            scen(f)
        # a reader without permission
        for what in ('source', 'header', 'export'):
            def f(qt=qt, what=what):
                wd = fresh()
                os.chmod(m.work, 0o755)
                os.chmod(wd, 0o755)
                os.mkdir(wd + '/o')
                if what != 'export':
                    os.chmod(wd + ('/t1.cpp' if what == 'source' else '/h1.h'), 0)
                r = go('standalone', qt, wd, [T(wd, i) for i in range(N)], export=wd + '/o/f.yaml', pre=['/usr/bin/setpriv', '--reuid=65534', '--regid=65534', '--clear-groups'])
                return judge('no permission: ' + what, 'standalone', qt, wd, r, [0, 1, 2] if what == 'export' else [0, 2], True, {'source': 't1.cpp', 'header': 'h1.h', 'export': 'f.yaml'}[what])
            scen(f)
    # the nth operation fails
    inj = []
    for op, es, parts in (('open', ['EACCES', 'EMFILE', 'EIO', 'ENOENT'], ['t1.cpp', 'h1.h', 't0.cpp', 'h2.h']), ('stat', ['EACCES', 'EIO'], ['t1.cpp', 'h1.h']), ('fstat', ['EIO'], ['t1.cpp', 'h1.h']),
                          ('read', ['EIO', 'EINTR'], ['t1.cpp', 'h1.h', 'h0.h']), ('mmap', ['EIO'], ['t1.cpp', 'h1.h']),
                          ('create', ['EACCES', 'ENOSPC', 'EIO', 'EMFILE'], ['yaml']), ('write', ['ENOSPC', 'EIO', 'EINTR', 'short', 'EDQUOT', 'EFBIG'], ['yaml']), ('close', ['EIO', 'ENOSPC'], ['yaml', 't1.cpp'])):
        for e in es:
            for pt in parts:
                for n in (1, 2, 3):
                    inj.append((op, e, pt, n))
    rng.shuffle(inj)
    inj.sort(key=lambda x: x[3])
    keep = [x for x in inj if x[2] == 'yaml' and x[3] == 1] + [x for x in inj if not (x[2] == 'yaml' and x[3] == 1)]
    for op, e, pt, n in keep[:m.n(36, 10 ** 6)]:
        for fe in (['standalone'] if not m.thorough else ['standalone', 'plugin']):
            qt = rng.choice([5, 6])

            def f(op=op, e=e, pt=pt, n=n, fe=fe, qt=qt):
                wd = fresh()
                srcs = [T(wd, i) for i in range(N)] if fe == 'standalone' else [T(wd, 1)]
                y = wd + '/out.yaml' if fe == 'standalone' else T(wd, 1) + '.clazy.yaml'
                log = wd + '/fault.log'
                r = go(fe, qt, wd, srcs, export=y, env={'FAULT': '%s:%d:%d:%s' % (op, n, ERR[e], pt), 'FAULT_LOG': log})
                if not os.path.exists(log):
                    shutil.rmtree(wd, ignore_errors=True)
                    return ('not reached', fe, r, None)
                name = 'injected %s %s on %s' % (op, e, pt)
                if pt == 'yaml':
                    whole = r.rc == 0 if fe == 'standalone' else 'could not write' not in r.text
                    # either it says that the file is not written, or the file is whole
                    bad = judge(name, fe, qt, wd, r, range(N) if fe == 'standalone' else [1], r.rc != 0, None if whole else 'could not write', yaml=(y, range(N) if fe == 'standalone' else [1]) if whole else None)
                    return bad
                hit = int(pt[1])
                rest = [i for i in range(N) if i != hit] if fe == 'standalone' else []
                got = ev(r, wd)
                lostsome = not (set(base[(fe, qt, hit)]) <= set(got)) if fe == 'standalone' or hit == 1 else False
                return judge(name, fe, qt, wd, r, rest, True if lostsome else r.rc != 0, pt if lostsome else None, yaml=(y, rest) if fe == 'standalone' else None)
            scen(f)

    def one(f):
        return f()

    for res in m.parallel(one, jobs):
        if res is None:
            continue
        name, fe, r, bad = res
        if bad is None:
            m.count('injected faults never reached')
            m.case(None)
            continue
        m.case((name, fe, r.shell()), {'fault': name, 'front end': fe, 'status': r.rc, 'says': (re.findall(r'[^\n]*(?:rror|ould not)[^\n]*', r.text) or [''])[0][:160]})
        m.count('faults that took effect')
        m.seen('kinds of fault', name)
        for k, t in bad:
            m.violation('%s:%s:%s' % (k, fe, re.sub(r'\W+', '-', name)), '%s, %s: %s' % (fe, name, t), {}, [r])
    return m.finish({'faults that took effect': m.n(70, 300), 'kinds of fault': 40})


main(body)
