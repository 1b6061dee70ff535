"""Applying the edits the checks offer to running programs: choose, apply, compile, run."""
import collections, os, re, shutil, subprocess
import fixes, fixgen, run

MOC = {5: '/usr/lib/qt5/bin/moc', 6: '/usr/lib/qt6/libexec/moc'}
CLANG = run.CLANG
ENV = {'PATH': '/usr/bin:/bin', 'HOME': '/nonexistent', 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC', 'QT_HASH_SEED': '0'}
ERR = re.compile(r'x\.cpp:(\d+):\d+: (?:fatal )?error: ([^\n]*)')


def inc(q):
    b = '/usr/include/x86_64-linux-gnu/qt%d' % q
    return ['-isystem', b, '-isystem', b + '/QtCore', '-isystem', b + '/QtGui']


class Program:
    def __init__(self, wd, qt, text, ids, defs):
        self.wd, self.qt, self.text, self.ids, self.defs = wd, qt, text, ids, defs
        os.makedirs(wd, exist_ok=True)
        self.src = os.path.join(wd, 'x.cpp')

    def put(self, text):
        with open(self.src, 'wb') as f:
            f.write(text)
        subprocess.run([MOC[self.qt], self.src, '-o', self.wd + '/x.moc'], capture_output=True, env=ENV, timeout=120)
        if not os.path.exists(self.wd + '/x.moc'):
            open(self.wd + '/x.moc', 'w').close()

    def errors(self, text):
        """[(line, message)] of the compiler."""
        self.put(text)
        p = subprocess.run([CLANG, '-std=c++17', '-fPIC', '-w', '-fsyntax-only', '-ferror-limit=0', *self.defs, *inc(self.qt), '-x', 'c++', self.src], capture_output=True, env=ENV, timeout=300)
        out = p.stderr.decode('utf-8', 'replace')
        er = [(int(a), b) for a, b in ERR.findall(out)]
        return er or ([(0, ' / '.join(re.findall('error: [^\\n]*', out)[:3]) or out[-300:])] if p.returncode else [])

    def clean(self):
        """Drop the statements which don't compile; False when that doesn't help."""
        for _ in range(5):
            t = self.text
            er = self.errors(t)
            if not er:
                return True
            bad = {fixgen.region(t, offset(t, l)) for l, _ in er} - {None}
            if not bad:
                return False
            for b in bad:
                t = re.sub(rb'    void f%d\(\) \{.*?\n    \}(?=\n)' % b, b'    void f%d() { }' % b, t, flags=re.S)
                t = re.sub(rb'\n//@D%d\n.*?(?=\n//@)' % b, b'', t, flags=re.S)
                self.ids.pop(b, None)
            self.text = t
        return False

    def build(self, text):
        """None, or what the compiler said"""
        self.put(text)
        p = subprocess.run(['g++', '-std=c++17', '-fPIC', '-w', '-O0', *self.defs, *inc(self.qt), self.src, '-o', self.wd + '/x', '-lQt%dCore' % self.qt, '-lQt%dGui' % self.qt], capture_output=True, env=ENV, timeout=600)
        return p.stderr.decode('utf-8', 'replace')[-3000:] if p.returncode else None

    def run(self):
        """({number: [lines]}, exit code)"""
        try:
            r = subprocess.run([self.wd + '/x'], capture_output=True, timeout=120, env=ENV, cwd=self.wd)
            rc, text = r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            rc, text = 'timeout', e.stdout or b''
        out = collections.defaultdict(list)
        for l in text.decode('utf-8', 'replace').split('\n'):
            mo = re.match(r'(\d+) (.*)', l, re.S)
            if mo:
                out[int(mo[1])].append(mo[2])
        return dict(out), rc

    def analyse(self, m, checks, text):
        """(run, fixes of clazy in the program itself)"""
        self.put(text)
        y = self.wd + '/f.yaml'
        if os.path.exists(y):
            os.remove(y)
        r = m.clazy.standalone(self.src, checks, flags=['-std=c++17', '-fPIC', '-w', '-ferror-limit=0', *self.defs, *inc(self.qt)], args=['-export-fixes=' + y], cwd=self.wd)
        fs = []
        if os.path.exists(y):
            fs = [f for f in fixes.clazy_only(fixes.load(open(y, errors='surrogateescape').read())) if all(os.path.normpath(e[0]) == self.src for e in f.edits)]
        return r, fs

    def close(self):
        shutil.rmtree(self.wd, ignore_errors=True)


def offset(text, line):
    """Offset of the end of that line"""
    pos = 0
    for _ in range(line):
        n = text.find(b'\n', pos)
        if n < 0:
            return len(text)
        pos = n + 1
    return max(pos - 1, 0)


def choose(rng, text, fs, ids, fixed=None):
    """{number: (check, edits)} and the edits outside of all statements: of every statement the edits of one check, leaving out diagnostics which overlap others."""
    by = collections.defaultdict(lambda: collections.defaultdict(list))
    common = collections.defaultdict(set)
    for f in fs:
        chk = fixes.name(f.check)
        ed = [(o, n, t.encode('utf-8', 'surrogateescape')) for _, o, n, t in f.edits]
        regs = [fixgen.region(text, o) for o, _, _ in ed]
        nums = {r for r in regs if r is not None and r in ids}
        if len(nums) != 1:
            continue
        r = nums.pop()
        inside = [e for e, x in zip(ed, regs) if x == r]
        common[chk] |= {e for e, x in zip(ed, regs) if x != r}
        by[r][chk].append(inside)
    out = {}
    for r, checks in sorted(by.items()):
        if fixed is not None:
            chk = fixed.get(r)
            if chk not in checks:
                continue
        else:
            chk = ids[r][0] if ids[r][0] in checks and rng.random() < 0.85 else rng.choice(sorted(checks))
        taken = set()
        for ed in checks[chk]:
            if any(x != e and (e[0] < x[0] + x[1] and x[0] < e[0] + e[1] or e[0] == x[0] and (e[1] == 0 or x[1] == 0)) for e in ed for x in taken):
                continue
            taken |= set(ed)
        if taken:
            out[r] = (chk, taken)
    return out, common


def apply(text, chosen, common):
    ed = set()
    for chk, e in chosen.values():
        ed |= e | common.get(chk, set())
    return fixes.apply(text, sorted(ed))


def body(text, r):
    """The lines of a statement and its declarations"""
    mo = re.search(rb'    void f%d\(\)[^\n]*\n(.*?)\n    \}(?=\n)' % r, text, re.S)
    de = re.search(rb'\n//@D%d\n(.*?)(?=\n//@)' % r, text, re.S)
    return ((de[1].decode('utf-8', 'replace').strip() + '\n  ') if de else '') + (mo[1].decode('utf-8', 'replace').strip() if mo else '?')
