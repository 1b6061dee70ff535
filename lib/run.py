"""Runs clazy's three front ends (compiler plugin, clazy-standalone, clang-tidy module) from the monitored build and
turns what they printed into events."""
import collections, os, re, shutil, signal, subprocess, tempfile
import build

LLVM = build.LLVM
CLANG = LLVM + '/bin/clang-20'
CLANGTIDY = LLVM + '/bin/clang-tidy'
APPLY = LLVM + '/bin/clang-apply-replacements'
INC = '/usr/include/x86_64-linux-gnu'
QT5 = INC + '/qt5'
QT6 = INC + '/qt6'
MODULES = ['QtCore', 'QtGui', 'QtWidgets', 'QtNetwork', 'QtTest', 'QtQml', 'QtXml', 'QtDBus', 'QtConcurrent', 'QtScript']


def qtflags(ver, how='-isystem'):
    root = QT5 if ver == 5 else QT6
    fl = [how, root]
    for m in MODULES:
        if os.path.isdir(os.path.join(root, m)):
            fl += [how, os.path.join(root, m)]
    if ver == 6:
        fl += ['-I/usr/lib/x86_64-linux-gnu/qt6/mkspecs/linux-g++']
    return fl + ['-fPIC', '-std=c++17']


Diag = collections.namedtuple('Diag', 'file line col sev msg tag')
DIAG_RE = re.compile(r'^(?P<file>(?:/|[^\s:][^:]*?)[^:\n]*):(?P<line>\d+):(?P<col>\d+): '
                     r'(?P<sev>warning|error|note|remark|fatal error): (?P<msg>.*)$')
NOLOC_RE = re.compile(r'^(?P<sev>warning|error|fatal error|remark): (?P<msg>.*)$')
TAG_RE = re.compile(r'^(?P<m>.*?) ?\[(?P<tag>[^\[\]]*)\]$')


def parse(text):
    """All diagnostics of a clang-style text, in order. tag is the bracketed flag ('' when there is none)."""
    out = []
    for l in text.split('\n'):
        m = DIAG_RE.match(l)
        if m:
            f, li, co = m['file'], int(m['line']), int(m['col'])
        else:
            m = NOLOC_RE.match(l)
            if not m:
                continue
            f, li, co = '', 0, 0
        msg, tag = m['msg'], ''
        t = TAG_RE.match(msg)
        if t:
            msg, tag = t['m'], t['tag']
        out.append(Diag(f, li, co, m['sev'], msg, tag))
    return out


def clazy_name(tag):
    """The check named by a diagnostic's tag, or None when clazy did not emit it."""
    for part in tag.split(','):
        if part.startswith('-Wclazy-'):
            return part[len('-Wclazy-'):]
        if part.startswith('clazy-'):
            return part[len('clazy-'):]
    return None


SAN_PATTERNS = [
    re.compile(r'ERROR: AddressSanitizer: [^\n]*'),
    re.compile(r'[^\n]*: runtime error: [^\n]*'),
    re.compile(r'WARNING: ThreadSanitizer: [^\n]*'),
    re.compile(r"[^\n]*: Assertion [`'][^\n]* failed\.?"),
    re.compile(r'/[^\n]*: Assertion .* failed'),
    re.compile(r'UNREACHABLE executed[^\n]*'),
    re.compile(r'LLVM ERROR: [^\n]*'),
    re.compile(r'PLEASE submit a bug report[^\n]*'),
    re.compile(r'terminate called [^\n]*'),
    re.compile(r'SUMMARY: [A-Za-z]*Sanitizer: [^\n]*'),
]


class Result:
    __slots__ = ('cmd', 'rc', 'out', 'err', 'timeout', 'cwd', 'env', '_d')

    def __init__(self, cmd, rc, out, err, timeout, cwd, env):
        self.cmd, self.rc, self.out, self.err, self.timeout, self.cwd, self.env = cmd, rc, out, err, timeout, cwd, env
        self._d = None

    @property
    def text(self):
        return self.out + '\n' + self.err

    @property
    def diags(self):
        if self._d is None:
            self._d = parse(self.out) + parse(self.err)
        return self._d

    def clazy(self):
        """(file, line, col, check, severity, message) of every clazy diagnostic (not notes)."""
        r = []
        for d in self.diags:
            if d.sev == 'note':
                continue
            for part in d.tag.split(','):      # clang-tidy joins the names of checks that say the same at the same place
                n = clazy_name(part)
                if n is not None:
                    r.append((d.file, d.line, d.col, n, d.sev, d.msg))
        return r

    def crash(self):
        """A one-line description of a monitor report (sanitizer, assertion, signal, hang), or None."""
        if self.timeout:
            return 'hang: still running after the time limit'
        for p in SAN_PATTERNS:
            m = p.search(self.err) or p.search(self.out)
            if m:
                return m.group(0).strip()[:300]
        if self.rc < 0:
            return 'killed by signal %d' % -self.rc
        if self.rc in (134, 135, 136, 139):
            return 'killed by signal %d' % (self.rc - 128)
        return None

    def shell(self):
        import shlex
        envs = ' '.join('%s=%s' % (k, shlex.quote(v)) for k, v in sorted((self.env or {}).items()))
        return 'cd %s && %s %s' % (shlex.quote(self.cwd or '.'), envs, ' '.join(shlex.quote(c) for c in self.cmd))


BASE_ENV = {'PATH': LLVM + '/bin:/usr/local/bin:/usr/bin:/bin', 'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
            'HOME': '/nonexistent',
            'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=1',
            'UBSAN_OPTIONS': 'print_stacktrace=0:halt_on_error=0'}


def execute(cmd, cwd=None, env=None, timeout=180, stdin=None, mem_gb=None):
    full = dict(BASE_ENV)
    if env:
        full.update(env)
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=full, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            o, e = p.communicate(stdin, timeout=timeout)
            to = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            o, e = p.communicate()
            to = True
    except OSError as ex:
        raise RuntimeError('cannot run %s: %s' % (cmd[0], ex))
    return Result(cmd, p.returncode, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace'), to, cwd, env)


class Clazy:
    def __init__(self, products):
        self.p = products
        self.rt = build.RTDIR + '/libclang_rt.asan-x86_64.so'

    def env(self, extra, preload):
        e = dict(extra or {})
        e['LD_LIBRARY_PATH'] = build.RTDIR + ':' + self.p.out + '/lib'
        if preload:
            e['LD_PRELOAD'] = self.rt
        return e

    # -- compiler plugin
    def plugin_cmd(self, src, plugin_args, flags, lang='c++', clang=CLANG, mode=('-fsyntax-only',)):
        cmd = [clang] + list(mode) + ['-Xclang', '-load', '-Xclang', self.p.plugin,
                                      '-Xclang', '-add-plugin', '-Xclang', 'clazy']
        for a in plugin_args:
            cmd += ['-Xclang', '-plugin-arg-clazy', '-Xclang', a]
        cmd += list(flags)
        if lang:
            cmd += ['-x', lang]
        srcs = [src] if isinstance(src, str) else list(src)
        return cmd + srcs

    def plugin(self, src, checks=None, flags=(), args=(), env=None, cwd=None, lang='c++', mode=('-fsyntax-only',), **kw):
        a = ([','.join(checks) if not isinstance(checks, str) else checks] if checks is not None else []) + list(args)
        return execute(self.plugin_cmd(src, a, flags, lang, mode=mode), cwd, self.env(env, True), **kw)

    # -- clazy-standalone
    def standalone(self, src, checks=None, flags=(), args=(), env=None, cwd=None, lang='c++', db=None, **kw):
        srcs = [src] if isinstance(src, str) else list(src)
        cmd = [self.p.standalone]
        if checks is not None:
            cmd += ['-checks=' + (','.join(checks) if not isinstance(checks, str) else checks)]
        cmd += list(args)
        if db:
            cmd += ['-p', db] + srcs
        else:
            cmd += srcs + ['--', '-resource-dir', LLVM + '/lib/clang/20'] + list(flags) + (['-x', lang] if lang else [])
        return execute(cmd, cwd, self.env(env, False), **kw)

    # -- clang-tidy module
    def tidy(self, src, checks=None, flags=(), args=(), env=None, cwd=None, lang='c++', **kw):
        srcs = [src] if isinstance(src, str) else list(src)
        cs = checks if isinstance(checks, str) else ','.join('clazy-' + c for c in checks)
        cmd = [CLANGTIDY, '--load=' + self.p.tidy, '--quiet', '--checks=-*,' + cs, '--config={}'] + list(args) + srcs + ['--'] + \
            list(flags) + (['-x', lang] if lang else [])
        return execute(cmd, cwd, self.env(env, True), **kw)
