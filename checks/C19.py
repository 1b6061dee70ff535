"""C19: findings about literals against the values the literals have."""
from common import *
import subprocess, work, fixes

m = Monitor('C19', "A case is one literal in one spelling and place; whether and how qcolor-from-literal, qlatin1string-non-ascii, unexpected-flag-enumerator-value, jni-signatures, "
                   "lowercase-qml-type-name, empty-qstringliteral and connect-by-name report it is compared with what Qt or another compiler makes of the very same literal in a running program, or with an independent reading "
                   "of the value; programs with the colour fixits applied must compile and yield the same colours. Non-trivial when the literal is not plain ASCII text in one token or is expected to be reported; "
                   "distinct by literal and place")


def spell(rng, b):
    """A narrow string literal with the bytes b (at most one prefix)."""
    def esc(c, nxt):
        if c in b'"\\?' or c < 32 or c > 126:
            r = rng.random()
            if c >= 128 and r < .5:
                return None
            return '\\%03o' % c
        if rng.random() < .06:
            return '\\%03o' % c
        return chr(c)
    out, i = '', 0
    try:
        text = b.decode('utf-8')
    except UnicodeDecodeError:
        text = None
    if text is not None and rng.random() < .15 and '"' not in text and not re.search(r'[\0\\\r\n]|\)x', text):
        return rng.choice(['R"(%s)"', 'R"x(%s)x"']) % text
    for ch in (text if text is not None else b.decode('latin-1')):
        bs = ch.encode('utf-8') if text is not None else ch.encode('latin-1')
        if text is not None and len(bs) > 1 and rng.random() < .6:
            out += ch if rng.random() < .7 else '\\u%04x' % ord(ch) if ord(ch) < 0x10000 else '\\U%08x' % ord(ch)
        else:
            for c in bs:
                e = esc(c, None)
                out += e if e is not None else '\\x%02x" "' % c
    s = '"%s"' % out
    if rng.random() < .15 and len(out) > 1 and '\\' not in out:
        k = rng.randrange(1, len(out))
        s = '"%s"%s"%s"' % (out[:k], rng.choice([' ', '', '\n    ', ' /* "x" */ ']), out[k:])
    return s


def rand_hex(rng, n):
    return ''.join(rng.choice('0123456789abcdefABCDEF' if rng.random() < .6 else '00fF') for _ in range(n))


def colours(rng, qt):
    lines, n = [], 0
    orc = []
    cases = {}
    for k in range(m.n(70, 120)):
        r = rng.random()
        if r < .6:
            t = '#' + rand_hex(rng, rng.choice([3, 3, 6, 6, 6, 8, 8, 8, 9, 12]))
            if rng.random() < .12:
                t = '#' + '0' * (len(t) - 1)
        elif r < .75:
            t = '#' + rand_hex(rng, rng.choice([0, 1, 2, 4, 5, 7, 10, 11, 13, 16]))
        elif r < .88:
            t = list('#' + rand_hex(rng, rng.choice([3, 6, 8, 9, 12])))
            t[rng.randrange(1, len(t))] = rng.choice('gGzx -.#é')
            t = ''.join(t)
        else:
            t = rng.choice(['red', 'transparent', '', ' #123', 'steelblue', '0x123', 'nocolour', '#'])
        b = t.encode()
        l = spell(rng, b)
        form = rng.choice(['QColor c(%s);', 'QColor c = %s;', 'QColor c{%s};', 'QColor c = QColor(%s);', 'QColor c = take(%s);', 'QColor c = take({%s});', 'QColor a[] = {Qt::red, %s}; QColor c = a[1];', 'const QColor c((%s));',
                           'QColor c = static_cast<QColor>(%s);', 'struct H { QColor q{%s}; H() {} } h; QColor c = h.q;', 'struct H { QColor q; H() : q(%s) {} } h; QColor c = h.q;', 'QColor *p = new QColor(%s); QColor c = *p; delete p;', 'QColor c; c.setNamedColor(%s);',
                           'QColor c; c = %s;', 'auto c = QColor{%s};', 'auto g = []() -> QColor { return %s; }; QColor c = g();', 'bool y = true; QColor c = y ? QColor(%s) : QColor(Qt::blue);', 'QColor c = twice(%s, 3);'])
        if qt == 6 and rng.random() < .15:
            form = 'QColor c = QColor::fromString(%s);'
        cases[k] = (b, l, form)
        lines.append('static void f%d() { // @%d' % (k, k))
        lines.append('    ' + form % l)
        lines.append('    out(%d, c);' % k)
        lines.append('}')
    head = ['#include <QColor>', '#include <QString>', '#include <cstdio>', 'static QColor take(QColor c) { return c; }', 'static QColor twice(const QColor &c, int) { return c; }',
            'static void out(int k, const QColor &c) { printf("%d %d %d %llx\\n", k, int(c.isValid()), int(c.spec() == QColor::Rgb), (unsigned long long)quint64(c.rgba64())); }']
    tail = ['int main() {'] + ['    f%d();' % k for k in cases] + ['}']
    return cases, '\n'.join(head + lines + tail) + '\n'


def texts(rng):
    b = rng.choice([b'', b'abc', b'x', b'a b', 'é'.encode(), 'naïve'.encode(), b'\xe9', b'a\x80b', b'\x7f', '日本'.encode(), b'\0', b'tab\t', b'a\0\xff', '😀'.encode(), b'plain text', b'q"uote', b'back\\slash'])
    if rng.random() < .3:
        b = bytes(rng.choice([rng.randrange(1, 128), rng.randrange(1, 256)]) for _ in range(rng.randrange(1, 6)))
    return b


def strings(rng, qt):
    """QLatin1String and QStringLiteral: the program prints what the literals hold."""
    lines, cases = [], {}
    for k in range(m.n(90, 140)):
        b = texts(rng)
        l = spell(rng, b)
        form = rng.choice(['QLatin1String v(%s);', 'QLatin1String v = QLatin1String(%s);', 'auto v = QLatin1String{%s};', 'QString v = QString("a") + QLatin1String(%s);', 'bool v = QString() == QLatin1String(%s);',
                           'QStringLiteral', 'QStringLiteral', 'QString v = QLatin1String("x") + QLatin1String(%s);'])
        if form == 'QStringLiteral':
            if any(c >= 128 for c in b) or 'R"' in l:
                b = b'' if rng.random() < .6 else b'ab\0'
                l = spell(rng, b)
                if 'R"' in l:
                    l = '""'
            form = rng.choice(['QString v = QStringLiteral(%s);', 'auto v = QStringLiteral(%s).size();', 'QString v = (QStringLiteral( %s ));', 'bool v = QString() == QStringLiteral(%s);'])
            if not b and rng.random() < .3:
                l = rng.choice(['', '"" ""', '""', '"" /* x */'])
        cases[k] = (l, form)
        lines += ['static void f%d() { // @%d' % (k, k), '    ' + form % l + ' (void)v;', '    static const char t[] = %s; out(%d, t, sizeof(t) - 1);' % (l or '""', k), '}']
    head = ['#include <QString>', '#include <QStringView>', '#include <cstdio>', 'static void out(int k, const char *t, int n) { printf("%d x", k); for (int i = 0; i < n; ++i) printf("%02x", (unsigned char)t[i]); printf("\\n"); }']
    return cases, '\n'.join(head + lines + ['int main() {'] + ['    f%d();' % k for k in cases] + ['}']) + '\n'


def num(rng, v):
    a = abs(v)
    suf = rng.choice(['', '', '', 'u', 'U', 'L', 'ul', 'LL']) if a < 2 ** 31 else ''
    s = rng.choice(['%d' % a, '%d' % a, '0x%x' % a, '0X%X' % a, '0%o' % a if a else '0', bin(a), '0b' + bin(a)[2:].rjust(8, '0')]) + suf
    if a > 999 and s.isdigit() and s[0] != '0':
        s = s[:-3] + "'" + s[-3:]
    if a in range(33, 127) and a not in (39, 92) and rng.random() < .1:
        s = "'%s'" % chr(a)
    return s if v >= 0 else '-' + s.rstrip('uUlL')


def enums(rng):
    lines, cases = [], {}
    for k in range(m.n(60, 150)):
        n = rng.choice([2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 12])
        vs = []
        mode = rng.choice(['flags', 'flags', 'flags', 'mixed', 'seq'])
        for i in range(n):
            if mode == 'seq':
                v = i + (rng.random() < .1)
            elif mode == 'flags' and rng.random() < .8:
                v = 1 << rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 30])
            else:
                v = rng.choice([0, 3, 5, 6, 7, 9, 10, 12, 14, 15, 16, 24, 28, 31, 48, 56, 60, 65, 100, 255, 0xff00, 0x18, -1, -4, 2 ** 20 + 1, 1, 2, 4])
            vs.append(v)
        big = rng.random() < .1
        if big:
            vs[rng.randrange(n)] = rng.choice([2 ** 40, 2 ** 40 + 1, 2 ** 62, 2 ** 33 + 2 ** 31])
        names = ['%s%d_%d' % (rng.choice(['A', 'B', 'Flag', 'Mask', 'Bitmask', 'AMASKED', 'M_ask']) if rng.random() < .3 else 'E', k, i) for i in range(n)]
        inits, kinds = [], []
        for i, v in enumerate(vs):
            r = rng.random()
            if r < .04:
                inits.append('')
                kinds.append('none')
                vs[i] = (vs[i - 1] + 1) if i else 0
            elif r < .1 and v > 0 and v & (v - 1) == 0 and v < 2 ** 31:
                inits.append(' = 1 << %d' % (v.bit_length() - 1))
                kinds.append('binary')
            elif r < .16 and i and vs[i - 1] >= 0:
                j, h = rng.randrange(i), rng.randrange(i)
                if vs[j] < 0 or vs[h] < 0:
                    inits.append(' = %s' % num(rng, v))
                    kinds.append('literal')
                    continue
                vs[i] = vs[j] | vs[h]
                inits.append(' = %s | %s' % (names[j], names[h]))
                kinds.append('binary')
            elif r < .2 and i:
                j = rng.randrange(i)
                vs[i] = vs[j]
                inits.append(' = %s' % names[j])
                kinds.append('ref')
            else:
                inits.append(' = %s' % num(rng, v))
                kinds.append('literal')
        under = rng.choice(['', '', '', ' : long long']) if min(vs) < 0 or max(vs) >= 2 ** 31 or big else rng.choice(['', '', '', ' : unsigned', ' : unsigned long', ' : long long', ' : int'])
        if any(x == '' for x in inits) and any(v >= 2 ** 31 or v < 0 for v in vs):
            continue
        kw = rng.choice(['enum', 'enum', 'enum class'])
        if kw == 'enum class':
            under = ' : long long'
        anon = kw == 'enum' and rng.random() < .08
        lines.append('%s%s%s {' % (kw, '' if anon else ' K%d' % k, under))
        at = {}
        for i in range(n):
            lines.append('    %s%s,' % (names[i], inits[i]))
            at[len(lines)] = i
        lines.append('};')
        ones = lambda v: bin(v).count('1')
        exp = {}
        p2 = lambda v: v > 0 and v & (v - 1) == 0
        seq = all(vs[i] == vs[0] + i for i in range(min(4, n)))
        if n >= 4 and 'none' not in kinds and not seq and sum(not p2(v) for v in vs) <= n // 2 and not anon:
            for ln, i in at.items():
                v = vs[i]
                if v <= 0 or p2(v) or kinds[i] in ('binary', 'ref'):
                    continue
                low = (v & -v)
                run = v // low
                if run & (run + 1) == 0 and ones(v) >= 3:       # three or more ones in one block: a mask
                    continue
                if 'mask' in names[i].lower():
                    continue
                exp[ln] = 'Unexpected non power-of-2 enumerator value: %d' % v
        for ln in at:
            cases[ln] = exp.get(ln), (vs[at[ln]], kinds[at[ln]], n)
    return cases, '\n'.join(lines) + '\n'


PRIM = 'ZBCSIJFD'
JHEAD = '''class QAndroidJniObject
{
public:
    QAndroidJniObject(const char *className, const char *signature, ...);
    QAndroidJniObject(int theClass, const char *signature, ...);
    QAndroidJniObject(const char *className);
    template <typename T> T callMethod(const char *methodName, const char *signature, ...) const;
    template <typename T> T callMethod(const char *methodName) const;
    QAndroidJniObject callObjectMethod(const char *methodName, const char *signature, ...) const;
    template <typename T> static T callStaticMethod(const char *className, const char *methodName, const char *signature, ...);
    template <typename T> static T callStaticMethod(int clazz, const char *methodName, const char *signature, ...);
    static QAndroidJniObject callStaticObjectMethod(const char *className, const char *methodName, const char *signature, ...);
};
'''


def jni_names(rng):
    ident = lambda: rng.choice(['String', 'lang', 'java', 'a', 'Foo', 'Bar_1', 'Outer$Inner', 'x2', 'org', 'R$id', '_u', 'V', 'L', 'I', 'camelCase', 'É'])
    cls = lambda: '/'.join(ident() for _ in range(rng.choice([1, 1, 2, 3, 4])))

    def ty(ret=False):
        if ret and rng.random() < .4:
            return 'V'
        return '[' * rng.choice([0, 0, 0, 1, 2, 3]) + (rng.choice(PRIM) if rng.random() < .5 else 'L' + cls() + ';')
    sig = lambda: '(' + ''.join(ty() for _ in range(rng.choice([0, 0, 1, 2, 3, 5]))) + ')' + ty(True)

    def spoil(s):
        s = list(s)
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.randrange(len(s) + 1)
            s[k:k + rng.randrange(2)] = rng.choice(list('();[/VLIX.a '))
        return ''.join(s)
    return ident, cls, sig, spoil


def jident(s):
    return bool(re.fullmatch(r'(?:[A-Za-z_$]|[^\x00-\x7f])(?:[A-Za-z0-9_$]|[^\x00-\x7f])*', s))


def jclass(s):
    return bool(s) and all(jident(x) for x in s.split('/'))


def jtype(s, i):
    """End of the field descriptor at i, or -1."""
    while i < len(s) and s[i] == '[':
        i += 1
    if i >= len(s):
        return -1
    if s[i] in PRIM:
        return i + 1
    if s[i] == 'L':
        j = s.find(';', i)
        return j + 1 if j > 0 and jclass(s[i + 1:j]) else -1
    return -1


def jsig(s):
    if not s.startswith('('):
        return False
    i = 1
    while i < len(s) and s[i] != ')':
        i = jtype(s, i)
        if i < 0:
            return False
    return i < len(s) and (s[i + 1:] == 'V' or jtype(s, i + 1) == len(s))


def jni(rng):
    ident, cls, sig, spoil = jni_names(rng)
    lines, cases = [], {}
    for k in range(m.n(80, 160)):
        c, n, s = cls(), ident(), sig()
        if rng.random() < .2:
            c = spoil(c)
        if rng.random() < .2:
            n = spoil(n)
        if rng.random() < .35:
            s = spoil(s)
        if rng.random() < .02:
            s = '(' + s * 1500 + ')V'
        q = lambda x: spell(rng, x.encode()).replace('\n', ' ')
        form = rng.choice(['ctor', 'ctor2', 'call', 'callobj', 'static', 'staticobj', 'nosig', 'jclass'])
        exp = []
        C = lambda: exp.append("Invalid class name: '%s'" % c) if not jclass(c) else None
        N = lambda: exp.append("Invalid method name: '%s'" % n) if not jident(n) else None
        S = lambda w='method': exp.append("Invalid %s signature: '%s'" % (w, s)) if not jsig(s) else None
        if form == 'ctor':
            l = 'QAndroidJniObject o%d(%s, %s);' % (k, q(c), q(s)); C(); S('constructor')
        elif form == 'ctor2':
            l = 'QAndroidJniObject o%d(5, %s, 1);' % (k, q(s)); S('constructor')
        elif form == 'call':
            l = 'o.callMethod<int>(%s, %s, 3);' % (q(n), q(s)); N(); S()
        elif form == 'callobj':
            l = 'o.callObjectMethod(%s, %s);' % (q(n), q(s)); N(); S()
        elif form == 'static':
            l = 'QAndroidJniObject::callStaticMethod<void>(%s, %s, %s);' % (q(c), q(n), q(s)); C(); N(); S()
        elif form == 'staticobj':
            l = 'QAndroidJniObject::callStaticObjectMethod(%s, %s, %s, 1, 2);' % (q(c), q(n), q(s)); C(); N(); S()
        elif form == 'nosig':
            l = 'o.callMethod<int>(%s);' % q(n); N()
        else:
            l = 'QAndroidJniObject::callStaticMethod<int>(7, %s, %s);' % (q(n), q(s)); N(); S()
        lines.append('    ' + l)
        cases[JHEAD.count('\n') + 1 + len(lines)] = sorted(exp), (form, c, n, s)
    return cases, JHEAD + 'void f(QAndroidJniObject o) {\n' + '\n'.join(lines) + '\n}\n'


def qml(rng):
    lines, cases = [], {}
    head = ['#include <QObject>', '#include <QtQml>', 'struct T : QObject { };', 'void f() {']
    for k in range(m.n(40, 60)):
        b = rng.choice([b'Thing', b'thing', b'', b'_Thing', b'1Thing', b'A', b'z', b'Z', 'Été'.encode(), 'été'.encode(), b' Thing', b'T hing', b'aB', b'\xc9', b'[X', b'@A', b'`a'])
        fn = rng.choice(['qmlRegisterType<T>("Uri", 1, 0, %s);', 'qmlRegisterUncreatableType<T>("Uri", 1, 0, %s, "why");', 'qmlRegisterType<T>("uri", 1, 0, %s);', '(void)qmlRegisterType<T>("a.b", 2, 1, (%s));'])
        lines.append('    ' + fn % spell(rng, b).replace('\n', ' '))
        cases[len(head) + len(lines)] = ([] if b[:1] and b'A' <= b[:1] <= b'Z' else ['QML types must begin with uppercase']), (b,)
    return cases, '\n'.join(head + lines) + '\n}\n'


def gxx(wd, text, qt, name, run=True):
    open('%s/%s.cpp' % (wd, name), 'w').write(text)
    q = '/usr/include/x86_64-linux-gnu/qt%d' % qt
    r = subprocess.run(['g++', '-w', '-O0', '-std=c++17', '-fPIC', '-isystem', q, '-isystem', q + '/QtCore', '-isystem', q + '/QtGui', '%s/%s.cpp' % (wd, name), '-o', '%s/%s' % (wd, name), '-lQt%dGui' % qt, '-lQt%dCore' % qt], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr
    o = subprocess.run(['%s/%s' % (wd, name)], capture_output=True, text=True, timeout=60)
    os.unlink('%s/%s' % (wd, name))
    return {int(l.split(' ', 1)[0]): l.split(' ', 1)[1] for l in o.stdout.split('\n')[:-1]}, o.stderr


def body():
    rng = m.rng
    units = []
    for rep in range(m.n(2, 30)):
        for kind in ['colours', 'colours', 'strings', 'strings', 'enums', 'jni', 'qml']:
            qt = rng.choice([5, 6])
            if kind == 'colours':
                cases, text = colours(rng, qt)
            elif kind == 'strings':
                cases, text = strings(rng, qt)
            else:
                cases, text = {'enums': enums, 'jni': jni, 'qml': qml}[kind](rng)
            units.append((len(units), kind, qt, cases, text, rng.choice(['standalone', 'standalone', 'plugin', 'tidy']) if kind != 'colours' else rng.choice(['standalone', 'plugin'])))
    CH = {'colours': ['qcolor-from-literal'], 'strings': ['qlatin1string-non-ascii', 'empty-qstringliteral'], 'enums': ['unexpected-flag-enumerator-value'], 'jni': ['jni-signatures'], 'qml': ['lowercase-qml-type-name']}

    def one(u):
        i, kind, qt, cases, text, fe = u
        wd = os.path.join(m.work, 'u%d' % i)
        os.makedirs(wd)
        facts = err = fixed = None
        if kind in ('colours', 'strings'):
            facts, err = gxx(wd, text, qt, 'o')
            if facts is None:
                raise HarnessError('oracle: ' + err[:1500])
        r = work.analyse(m, work.Prog('u%d' % i, text, qt, flags=['-w']), CH[kind], fe, export=kind == 'colours', keep=True)
        if kind == 'colours' and r.extra:
            fs = fixes.load(r.extra, r.wd)
            # implicit conversions may report the same place more than once; the edits of each place once
            new = fixes.apply(text.encode(), [(o, l, t.encode()) for f in fs for _, o, l, t in f.edits])
            if new is None:
                fixed = (None, 'overlapping edits', '', fs)
            else:
                fixed = gxx(wd, new.decode(), qt, 'p') + (new.decode(), fs)
        return facts, r, fixed

    for (i, kind, qt, cases, text, fe), (facts, r, fixed) in zip(units, m.parallel(one, units)):
        src = {'x.cpp': text}
        if m.check_crash(r.r, kind, src):
            continue
        if r.errs:
            raise HarnessError('a unit (%s) does not compile: %s' % (kind, r.errs[:3]))
        lines = text.split('\n')
        got = {}
        for e in r.ev:
            if kind in ('colours', 'strings'):
                k = None
                for j in range(e.line - 1, -1, -1):
                    mk = re.search(r'// @(\d+)$', lines[j])
                    if mk:
                        k = int(mk.group(1))
                        break
            else:
                k = e.line
            got.setdefault(k, []).append(e.msg)
        for k, c in cases.items():
            g = got.pop(k, [])
            if kind == 'colours':
                b, l, form = c
                valid = facts[k].split()[0] == '1'
                hexy = b.startswith(b'#')
                if 'setNamedColor' in form:
                    exp = [["The ctor taking ints is cheaper than QColor::setNamedColor(QString)"]] if hexy and len(b) in (4, 7, 9, 10, 13) else [[]]
                elif not hexy:
                    exp = [[]]
                elif valid:
                    exp = [['The QColor ctor taking %s is cheaper than one taking string literals' % ('RGB int value' if len(b) in (4, 7) else 'ints' if len(b) == 9 else 'QRgba64')]]
                elif len(b) not in (4, 7, 9, 10, 13):
                    exp = [['Pattern length does not match any supported one by QColor, check the documentation']]
                else:
                    exp = [['QColor pattern may only contain hexadecimal digits']]
                m.count('colours Qt %s' % ('accepts' if valid else 'refuses'))
                ok = sorted(set(g)) in exp
                key = (b, form)
                what = (b, form, 'valid' if valid else 'not valid for Qt')
            elif kind == 'strings':
                l, form = c
                b = bytes.fromhex(facts[k][1:])
                if 'QStringLiteral' in form:
                    exp = [] if b else ['Use QLatin1String("") or QString() instead of an empty QStringLiteral']
                else:
                    exp = ['QLatin1String with non-ascii literal'] if any(x >= 128 for x in b) else []
                ok = sorted(set(g)) == exp
                key = (l, form) if exp or '\\' in l or 'R"' in l or l.count('"') > 2 else None
                what = (b, form % l)
                m.count('texts in Qt literals')
            elif kind == 'enums':
                e0, what = c
                exp = [e0] if e0 else []
                ok = g == exp
                key = what
                m.count('enumerators')
            else:
                exp, what = c
                ok = sorted(g) == exp
                key = what
                m.count('names and signatures for %s' % kind)
            if exp and exp != [[]]:
                m.count('expected reports: ' + kind)
            m.case(key, {'kind': kind, 'what': repr(what)[:200], 'reported': g[:2]})
            if not ok:
                m.violation('%s-%s' % (kind, 'missing' if not g else 'additional' if exp in ([], [[]]) else 'other'), 'Qt %d, %s: %r\nreported: %s\nexpected: %s' % (qt, fe, what, g, exp), src, [r.r])
        if got:
            m.violation(kind + '-elsewhere', 'reports elsewhere: %s' % got, src, [r.r])
        if fixed is not None:
            new, err, ntext, fs = fixed
            src['fixed.cpp'] = ntext
            m.count('colour fixits applied', len(fs))
            if new is None:
                m.violation('colours-fixed-does-not-compile', 'Qt %d: with its fixits applied the program does not compile: %s' % (qt, err[:1500]), src, [r.r])
            else:
                for k in cases:
                    if new[k] != facts[k]:
                        m.violation('colours-fixed-differs', 'Qt %d: %r: before %s, with the fixit %s' % (qt, cases[k], facts[k], new[k]), src, [r.r])
    return m.finish({'colours Qt accepts': m.n(80, 1500), 'colours Qt refuses': m.n(40, 700), 'texts in Qt literals': m.n(150, 3000), 'enumerators': m.n(200, 4000), 'names and signatures for jni': 60, 'names and signatures for qml': 40,
                     'expected reports: enums': m.n(5, 100), 'expected reports: jni': 20})


main(body)
