"""C14: connect-not-normalized against Qt's own normalization."""
from common import *
import subprocess, work

m = Monitor('C14', "A case is one SIGNAL, SLOT, Q_ARG or Q_RETURN_ARG text; the report of connect-not-normalized, and the replacement it names, must be those that running "
                   "QMetaObject::normalizedSignature or normalizedType of the installed Qt 5 on the very text gives. Non-trivial when Qt changes the text or it has blanks, "
                   "const, references, templates or multi-word types; distinct by text and place")
ORACLE = r'''
#include <QMetaObject>
#include <QObject>
#include <QByteArray>
#include <cstdio>
static void show(int line, char kind, const char *t)
{
    QByteArray n = kind == 't' ? QMetaObject::normalizedType(t) : QByteArray(1, t[0]) + QMetaObject::normalizedSignature(t + 1);
    printf("%d %s %s\n", line, QByteArray(t).toHex().constData(), n.toHex().constData());
}
int main()
{
'''
BASE = ['int', 'unsigned', 'unsigned int', 'long', 'unsigned long', 'long long', 'unsigned long long', 'short', 'char', 'signed char', 'unsigned char', 'double', 'bool', 'void',
        'QString', 'QObject', 'Foo::Bar', '::Foo', 'Qt::Orientation', 'std::string', 'size_t', 'QPrivateSignal', 'long int', 'short int', 'constant', 'myconst', 'structure',
        'enumeration', 'Struct', 'unsignedint', 'unsigned long int', 'long unsigned int', 'int unsigned', 'wchar_t', 'ulong', 'uint', 'unsigned_t', 'QVariantMap', 'A::const_iterator', 'T$x', 'int64_t', 'classy::A']


def texts(rng):
    def ws(p=.3):
        return rng.choice([' ', '  ', '\t', ' \t ']) if rng.random() < p else ''

    def ty(d=0):
        r = rng.random()
        if r < .2 and d < 3:
            t = rng.choice(['QList', 'QMap', 'QHash', 'std::vector', 'QVector<int>::X', 'QPair', 'Ns::T']) + ws() + '<' + ws() + (',' + ws()).join(ty(d + 1) for _ in range(rng.choice([1, 1, 2]))) + ws() + '>'
        else:
            t = rng.choice(BASE)
        if rng.random() < .12:
            t = rng.choice(['struct ', 'class ', 'enum ', 'struct  ', 'enum\t']) + t
        r = rng.random()
        if r < .25:
            t = 'const ' + ws() + t
        elif r < .4:
            t = t + ' ' + ws() + 'const'
        elif r < .45:
            t = 'volatile ' + t
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            t += ws() + rng.choice(['*', '*', '&', '&&', ' const', '* const', '*const', 'const'])
        if rng.random() < .03:
            t += ws() + rng.choice(['(*)(int)', '[3]', '(int)', '...'])
        return ws(.15) + t + ws(.15)

    def sig():
        n = rng.choice(['foo', 'f', 'sig_1', 'operator()', 'Foo::bar', 'constFoo', 'voidSig', 'unsignedSig'])
        return n + ws(.1) + '(' + ws(.15) + ','.join(ty() for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))) + ')' + ws(.1) + rng.choice([''] * 12 + ['const', ' const', 'noexcept'])

    def spoil(t):
        t = list(t)
        for _ in range(3):
            i = rng.randrange(1, len(t) + 1)
            t[i:i + rng.randrange(2)] = rng.choice(list('<>(),*&: x'))
        return ''.join(t)
    return ty, sig, spoil


def lit(rng, t):
    """A spelling of a narrow string literal."""
    r = rng.random()
    if r < .7 or len(t) < 3:
        return '"%s"' % t.replace('\t', '\\t')
    if r < .85:
        i = rng.randrange(1, len(t))
        return '"%s" "%s"' % (t[:i].replace('\t', '\\t'), t[i:].replace('\t', '\\t'))
    if r < .93:
        return 'R"x(%s)x"' % t
    return '"%s"' % ''.join('\\x%02x" "' % ord(c) if rng.random() < .1 else c for c in t).replace('\t', '\\t')


def macro_safe(t):
    d = 0
    for c in t:
        d += c == '('
        d -= c == ')'
        if d < 0 or (c == ',' and not d):
            return False
    return d == 0 and t.strip() == t and t and not re.search(r'[$]', t)


def body():
    rng = m.rng
    ty, sig, spoil = texts(rng)
    units = []
    for _ in range(m.n(24, 200)):
        qt = rng.choice([5, 6])
        N = m.n(220, 400)
        head = ['#include <QObject>', '#include <QMetaObject>', '#include <QString>', 'void all(QObject *o, int v, QString s) {']
        body_, orc, silent = [], [], set()
        for k in range(N):
            line = len(head) + k + 1
            r = rng.random()
            if r < .22:
                t = ty()
                if rng.random() < .05:
                    t = spoil(t)
                l = lit(rng, t)
                c = rng.choice(['QArgument<int>(%s, v)', 'QReturnArgument<int>(%s, v)', 'QArgument<const int &>(%s, v)', 'QArgument<QString>(%s, s)'])
                if 'const int' in c:
                    c = 'QArgument<int>(%s, 1 + v)'
                body_.append('    (void)' + c % l + ';')
                orc.append('    show(%d, \'t\', %s);' % (line, l))
            elif r < .27:
                c = rng.choice(['Q_ARG(const QString &, s)', 'Q_ARG(QString, s)', 'Q_ARG( int , v)', 'Q_RETURN_ARG(int, v)', 'Q_RETURN_ARG(QString, s)', 'Q_ARG(int const, v)', 'Q_ARG(unsigned int, v + 0u)', 'Q_ARG(const int&, 1)'])
                t = c[c.index('(') + 1:c.index(',')].strip()
                body_.append('    (void)' + c + ';')
                orc.append('    show(%d, \'t\', "%s");' % (line, t))
            else:
                t = sig()
                if rng.random() < .05:
                    t = spoil(t)
                way = rng.choice(['macro', 'literal', 'literal'])
                if way == 'macro' and not macro_safe(t):
                    way = 'literal'
                which = rng.choice(['SIGNAL', 'SLOT'])
                if way == 'macro':
                    e = '%s(%s)' % (which, t)
                    x = e
                else:
                    x = lit(rng, ('2' if which == 'SIGNAL' else '1') + t)
                    e = 'qFlagLocation(%s%s)' % (x, rng.choice(['', '', ' "\\0" "x.cpp:1"']))
                other = 'SLOT(deleteLater())' if which == 'SIGNAL' else 'SIGNAL(destroyed())'
                form = rng.choice(['QObject::connect(o, %s, o, %s)', 'QObject::connect(o, %s, o, %s)', 'o->connect(o, %s, %s)', 'QObject::connect(o, %s, o, %s, Qt::QueuedConnection)', 'QObject::disconnect(o, %s, o, %s)'])
                if 'disconnect' in form:
                    silent.add(line)
                a = (e, other) if which == 'SIGNAL' else (other, e)
                body_.append('    ' + form % a + ';')
                orc.append('    show(%d, \'s\', %s);' % (line, x))
        units.append((qt, '\n'.join(head + body_) + '\n}\n', ORACLE + '\n'.join(orc) + '\n}\n', silent))

    def one(u):
        i, (qt, text, orc, silent) = u
        wd = os.path.join(m.work, 'u%d' % i)
        os.makedirs(wd)
        open(wd + '/o.cpp', 'w').write(orc)
        q5 = '/usr/include/x86_64-linux-gnu/qt5'
        r = subprocess.run(['g++', '-w', '-O0', '-std=c++17', '-fPIC', '-fdollars-in-identifiers', '-isystem', q5, '-isystem', q5 + '/QtCore', wd + '/o.cpp', '-o', wd + '/o', '-lQt5Core'], capture_output=True, text=True)
        if r.returncode:
            raise HarnessError('oracle: ' + r.stderr[:800])
        o = subprocess.run([wd + '/o'], capture_output=True, text=True)
        want = {}
        for l in o.stdout.split('\n')[:-1]:
            p = (l + '  ').split(' ')
            want[int(p[0])] = tuple(bytes.fromhex(x).decode() for x in p[1:3])
        return want, work.analyse(m, work.Prog('u%d' % i, text, qt, flags=['-w']), ['connect-not-normalized'], rng_fe(i))

    def rng_fe(i):
        return ['standalone', 'standalone', 'plugin', 'tidy'][i % 4]

    for (qt, text, orc, silent), (want, r) in zip(units, m.parallel(one, list(enumerate(units)))):
        src = {'x.cpp': text, 'oracle.cpp': orc}
        if m.check_crash(r.r, 'texts', src):
            continue
        if r.errs:
            raise HarnessError('a unit does not compile: %s' % r.errs[:3])
        got = {}
        for e in r.ev:
            got.setdefault(e.line, []).append(e.msg)
        lines = text.split('\n')
        for line, (t, n) in want.items():
            exp = []
            if t != n and line not in silent:
                sg = lines[line - 1].lstrip().startswith(('QObject::', 'o->'))
                exp = ['Signature is not normalized. Use %s instead of %s' % ((n[1:], t[1:]) if sg else (n, t))]
            g = got.pop(line, [])
            m.case((t, lines[line - 1].strip()[:12]) if t != n or re.search(r'[\s<&*]|const', t) else None, {'text': t, 'Qt': n, 'reported': g})
            m.count('texts Qt changes' if t != n else 'texts Qt leaves alone')
            if line in silent:
                m.count('texts in disconnect')
            norm = lambda s: s.replace('\t', ' ')
            if [norm(x) for x in g] != [norm(x) for x in exp]:
                m.violation('%s' % ('missing' if not g else 'additional' if not exp else 'text'), 'Qt %d: %r, which Qt turns into %r\n%s\nreported: %s\nexpected: %s' % (qt, t, n, lines[line - 1], g, exp), src, [r.r])
        if got:
            m.violation('elsewhere', 'reports at lines that hold no text: %s' % got, src, [r.r])
    return m.finish({'texts Qt changes': m.n(1500, 20000), 'texts Qt leaves alone': m.n(500, 6000)})


main(body)
