"""C18: advice on passing arguments against the size and traits the compiler computes."""
from common import *
import subprocess, work

m = Monitor('C18', "A case is one parameter or loop variable of a random type, way of passing, kind of function and use in the body; whether function-args-by-ref, function-args-by-value or "
                   "range-loop-reference report it is compared with what sizeof, is_trivially_copy_constructible and is_trivially_destructible evaluate to in a program compiled by another "
                   "compiler and run. Non-trivial when the type is a class; distinct by properties of the type, way of passing, function kind and use")
CHECKS = ['function-args-by-ref', 'function-args-by-value', 'range-loop-reference']
QTYPES = ['QString', 'QByteArray', 'QPoint', 'QPointF', 'QSize', 'QRect', 'QRectF', 'QLine', 'QLineF', 'QMargins', 'QDate', 'QTime', 'QDateTime', 'QVariant', 'QModelIndex', 'QPersistentModelIndex',
          'QChar', 'QLatin1String', 'QUuid', 'QUrl', 'QList<int>', 'QHash<int, QString>', 'QPair<int, int>', 'QMap<int, int>', 'QStringList', 'Qt::Orientations', 'QStringView', 'QVersionNumber',
          'QFlags<Qt::AlignmentFlag>', 'QSet<int>', 'QRegularExpression', 'QLocale', 'QBitArray', 'QDeadlineTimer', 'QSharedPointer<int>']
STD = ['std::string', 'std::pair<int, int>', 'std::pair<int, std::string>', 'std::array<int, 4>', 'std::array<char, 17>', 'std::array<int, 5>', 'std::vector<int>', 'std::shared_ptr<int>', 'std::tuple<int, int>',
       'std::string_view', 'std::complex<double>', 'std::function<void()>', 'std::chrono::seconds', 'std::initializer_list<int>', 'std::bitset<256>', 'std::unique_ptr<int>', 'std::optional<int>']
BUILTIN = ['int', 'double', 'long double', 'char', 'bool', 'int *', 'const char *', 'Qt::Orientation', 'long long', 'std::size_t', 'void (*)(int)', 'int S0::*', 'std::nullptr_t', 'E0', 'EC0', '__int128']
HEAD = '''#include <QtCore>
#include <array>
#include <bitset>
#include <complex>
#include <chrono>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <vector>
#include <utility>
struct S0 { int z; };
enum E0 { e0 };
enum class EC0 : char { a };
struct Triv { int t; };
struct NonTriv { NonTriv(); NonTriv(const NonTriv &); ~NonTriv(); };
template <class T> struct Range { T *begin() const; T *end() const; };
template <class T> struct Wrap { T w; };
template <class T, int N> struct Arr { T a[N]; };
'''
IGNORED = {'std::shared_ptr<int>', 'QSharedPointer<int>'}


def mk_types(rng):
    """(definitions, [(name, is a class of ours with members c()/n())])"""
    defs, names = [], []
    pool_ = ['char', 'short', 'int', 'long', 'double', 'void *', 'Triv', 'float', 'bool', 'char[3]', 'int[2]', 'char[13]', 'S0']
    for k in range(14):
        n = 'T%d' % k
        r = rng.random()
        if r < .08 and names:
            defs.append('using %s = %s;' % (n, rng.choice(names + ['QString', 'std::pair<int, long>', 'int'])))
            names.append(n)
            continue
        if r < .14 and names:
            defs.append('typedef %s %s;' % (rng.choice(['Wrap<%s>' % rng.choice(names), 'Arr<int, %d>' % rng.randrange(1, 7), 'Wrap<QString>']), n))
            names.append(n)
            continue
        kind = rng.choice(['struct', 'struct', 'struct', 'class', 'union'])
        base = ''
        if kind != 'union' and names and rng.random() < .25:
            cand = [x for x in names if any(d.startswith(('struct %s ' % x, 'class %s ' % x)) and 'final' not in d for d in defs)]
            if cand:
                base = ' : public ' + ('virtual ' if rng.random() < .15 else '') + rng.choice(cand)
        b = []
        for i in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 5])):
            t = rng.choice(pool_ + (['NonTriv', 'QString', 'std::unique_ptr<int>'] if kind != 'union' and rng.random() < .3 else []) + ([x for x in names] if kind != 'union' and rng.random() < .3 else []))
            if kind != 'union' and rng.random() < .06:
                b.append('int m%d : %d;' % (i, rng.randrange(1, 20)))
            elif '[' in t:
                b.append('%s m%d%s;' % (t[:t.index('[')], i, t[t.index('['):]))
            else:
                b.append('%s%s m%d;' % (rng.choice([''] * 12 + ['mutable ', 'static ', 'alignas(32) ', 'volatile ']) if kind != 'union' else '', t, i))
        if kind != 'union' and rng.random() < .06:
            b.append('int &rf;')
        out = []
        if kind != 'union':
            r = rng.random()
            if r < .1:
                b.append('%s(const %s &) = default;' % (n, n))
            elif r < .17:
                b.append('%s(const %s &);' % (n, n))
            elif r < .22:
                b.append('%s(const %s &) = delete;' % (n, n))
            elif r < .26:
                b.append('%s(const %s &);' % (n, n))
                out.append('inline %s::%s(const %s &) = default;' % (n, n, n) if not base and 'unique' not in ' '.join(b) and all(x + ' m' not in ' '.join(b) for x in names) else '')
            elif r < .3:
                b.append('%s(%s &);' % (n, n))
            r = rng.random()
            if r < .08:
                b.append('%s(%s &&) = default;' % (n, n))
            elif r < .1:
                b.append('%s(%s &&);' % (n, n))
            if rng.random() < .06:
                b.append('%s &operator=(%s &&) = default;' % (n, n))
            r = rng.random()
            if r < .07:
                b.append('~%s();' % n)
            elif r < .12:
                b.append('~%s() = default;' % n)
            elif r < .17 and rng.random() < .6:
                b.append('virtual ~%s() = default;' % n)
            if rng.random() < .06:
                b.append('virtual void vf();')
            if rng.random() < .15:
                b.append('%s();' % n)
            if rng.random() < .05:
                b.append('%s &operator=(const %s &);' % (n, n))
        b.append('void c_() const; void n_();')
        rng.shuffle(b)
        defs.append('%s %s%s%s { %s%s };' % (kind, n, ' final' if rng.random() < .05 else '', base, 'public: ' if kind == 'class' else '', ' '.join(b)))
        defs += [x for x in out if x]
        names.append(n)
    return defs, names


def has_members(defs, t):
    return any(re.match(r'(struct|class|union) %s\b' % re.escape(t), d) for d in defs)


def body():
    rng = m.rng
    units = []
    for u in range(m.n(22, 220)):
        defs, names = mk_types(rng)
        qt = rng.choice([5, 6])
        code, probe, params = [], [], {}
        inmain = []
        for k in range(m.n(70, 110)):
            p = 'p%d' % k
            r = rng.random()
            t = rng.choice(names) if r < .6 else rng.choice(QTYPES) if r < .75 else rng.choice(STD) if r < .87 else rng.choice(BUILTIN)
            if rng.random() < .06 and t in names:
                t = rng.choice(['Wrap<%s>', 'Arr<%s, 2>', 'Arr<%s, 3>', 'Wrap<Wrap<%s>>']) % t
            cust = has_members(defs, t)
            how = rng.choice(['val', 'val', 'val', 'cval', 'cref', 'cref', 'cref', 'ref', 'rref', 'ptr'])
            fptr = t in ('void (*)(int)',)
            if fptr:
                t = 'FP0'
            al = t if t[-1] != '*' and '(' not in t and '::*' not in t else None
            if al is None:
                # the alias keeps the declarator simple
                al = 'A%d' % k
                code.append('using %s = %s;' % (al, t))
            w = {'val': '%s %%s', 'cval': 'const %s %%s', 'cref': 'const %s &%%s', 'ref': '%s &%%s', 'rref': '%s &&%%s', 'ptr': '%s *%%s'}[how] % al
            if how == 'cref' and rng.random() < .1:
                w = '%s const &%%s' % al
            fk = rng.choice(['free', 'free', 'static', 'member', 'outmember', 'ctor', 'virtual', 'override', 'lambda', 'template', 'constexpr', 'friend', 'ns', 'loop', 'loop', 'declared', 'deleted', 'op', 'oplessless', 'refinit', 'default2', 'moveinit'])
            use = rng.choice(['none', 'none', 'const', 'byconstref', 'nonconst', 'byref'])
            if (use in ('const', 'nonconst') and not cust) or how == 'ptr' or (use in ('nonconst', 'byref') and how not in ('val', 'ref', 'rref')):
                use = 'none'
            arg = p
            stm = {'none': '', 'const': '%s.c_();' % p, 'nonconst': '%s.n_();' % p, 'byconstref': 'takeC(%s);' % p, 'byref': 'takeR(%s);' % p}[use]
            d = w % p
            f = 'f%d' % k
            if fk == 'free':
                c = 'void %s(%s) { %s }' % (f, d, stm)
            elif fk == 'default2':
                c = 'void %s(%s, int x = 3);\nvoid %s(%s, int) { %s }' % (f, w % '', f, d, stm)
            elif fk == 'static':
                c = 'static inline void %s(%s) { %s }' % (f, d, stm)
            elif fk == 'constexpr':
                c = 'inline int %s(int a, %s, int b) { %s return a + b; }' % (f, d, stm)
            elif fk == 'member':
                c = 'struct C%d { void %s(%s) const { %s } };' % (k, f, d, stm)
            elif fk == 'outmember':
                c = 'class C%d { void %s(%s); };\nvoid C%d::%s(%s) { %s }' % (k, f, w % '', k, f, d, stm)
            elif fk == 'ctor':
                c = 'struct C%d { explicit C%d(int, %s) { %s } };' % (k, k, d, stm)
            elif fk == 'virtual':
                c = 'struct C%d { virtual void %s(%s) { %s } };' % (k, f, d, stm)
            elif fk == 'override':
                c = 'struct B%d { virtual void %s(%s); };\nstruct C%d : B%d { void %s(%s) override { %s } };' % (k, f, w % '', k, k, f, d, stm)
            elif fk == 'lambda':
                c = 'void %s() { auto l = [](%s) { %s }; (void)l; }' % (f, d, stm)
            elif fk == 'template':
                c = 'template <class Q> void %s(%s, Q) { %s }' % (f, d, stm if use in ('const', 'nonconst') else '')
                if use not in ('const', 'nonconst'):
                    use = 'none'
            elif fk == 'friend':
                c = 'struct C%d { friend void %s(%s, C%d *) { %s } };' % (k, f, d, k, stm)
            elif fk == 'ns':
                c = 'namespace N%d { namespace { void %s(%s) { %s } } }' % (k, f, d, stm)
            elif fk == 'declared':
                c = 'void %s(%s);' % (f, d)
            elif fk == 'deleted':
                c = 'void %s(%s, int) = delete;' % (f, d)
            elif fk == 'op':
                c = 'struct C%d { void operator+(%s) { %s } };' % (k, d, stm)
            elif fk == 'oplessless':
                c = 'struct C%d { void operator<<(%s) { %s } };' % (k, d, stm)
            elif fk == 'refinit':
                if how != 'cref':
                    continue
                c = 'struct C%d { const %s &r; explicit C%d(%s) : r(%s) { %s } };' % (k, al, k, d, p, stm)
            elif fk == 'moveinit':
                if how != 'val' or not (t in names or t in QTYPES):
                    continue
                c = 'struct C%d { %s r; explicit C%d(%s) : r(std::move(%s)) { } };' % (k, al, k, d, p)
                use = 'none'
                c = '#if MV%d\n%s\n#endif' % (k, c)
            elif fk == 'loop':
                if how in ('ptr', 'rref'):
                    continue
                if how == 'val' or how == 'cval':
                    c = '#if CP%d\nvoid %s(Range<%s> r) { for (%s : r) { %s } }\n#endif' % (k, f, al, d, stm)
                else:
                    c = 'void %s(Range<%s> r) { for (%s : r) { %s } }' % (f, al, d, stm)
            if t == 'void' or (fk == 'op' and False):
                continue
            # a class template used by reference only would stay uninstantiated
            code.append('static_assert(sizeof(%s) > 0, "");' % al)
            code.append(c)
            probe.append((k, al))
            params[p] = dict(t=t, al=al, how=how, fk=fk, use=use, cust=cust, decl=d)
        head = HEAD + 'using FP0 = void (*)(int);\n' + '\n'.join(defs) + '\ntemplate <class T> void takeC(const T &);\ntemplate <class T> void takeR(T &);\n'
        orc = head + '\n'.join(c for c in code if c.startswith('using ')) + '\n#include <cstdio>\nint main() {\n' + '\n'.join(
            '    { using X = %s; printf("%d %%d %%d %%d %%d %%d %%d\\n", (int)sizeof(X), (int)std::is_trivially_copy_constructible<X>::value, (int)std::is_trivially_destructible<X>::value,'
            ' (int)std::is_copy_constructible<X>::value, (int)std::is_move_constructible<X>::value, (int)std::is_class<X>::value + 2 * (int)std::is_union<X>::value); }' % (al, k) for k, al in probe) + '\n}\n'
        units.append((u, qt, head, code, orc, params, rng.choice(['standalone', 'standalone', 'plugin', 'tidy'])))

    def one(u):
        i, qt, head, code, orc, params, fe = u
        wd = os.path.join(m.work, 'u%d' % i)
        os.makedirs(wd)
        open(wd + '/o.cpp', 'w').write(orc)
        q = '/usr/include/x86_64-linux-gnu/qt%d' % qt
        r = subprocess.run(['g++', '-w', '-O0', '-std=c++17', '-fPIC', '-isystem', q, '-isystem', q + '/QtCore', wd + '/o.cpp', '-o', wd + '/o', '-lQt%dCore' % qt], capture_output=True, text=True)
        if r.returncode:
            return None, None       # the random types contradict each other
        o = subprocess.run([wd + '/o'], capture_output=True, text=True)
        facts = {}
        for l in o.stdout.split('\n')[:-1]:
            k, sz, tc, td, cc, mc, cl = map(int, l.split())
            facts['p%d' % k] = (sz, tc, td, cc, mc, cl)
        os.unlink(wd + '/o')
        flags = ['-DMV%s=%d' % (p[1:], f[4]) for p, f in facts.items() if params[p]['fk'] == 'moveinit'] + ['-DCP%s=%d' % (p[1:], f[3]) for p, f in facts.items() if params[p]['fk'] == 'loop']
        return facts, work.analyse(m, work.Prog('u%d' % i, head + '\n'.join(code) + '\n', qt, flags=['-w', '-std=c++17'] + flags), CHECKS, fe)

    for (i, qt, head, code, orc, params, fe), (facts, r) in zip(units, m.parallel(one, units)):
        text = head + '\n'.join(code) + '\n'
        src = {'x.cpp': text, 'oracle.cpp': orc}
        if facts is None or (r.errs and not r.r.crash()):
            m.count('units whose random types do not compile')
            continue
        if m.check_crash(r.r, 'types', src):
            continue
        m.count('units judged')
        lines = text.split('\n')
        got, junk = {}, []
        for e in r.ev:
            rest = lines[e.line - 1][e.col - 1:] if e.line <= len(lines) else ''
            n = re.search(r'\bp\d+\b', rest)
            if not n:
                junk.append(e)
                continue
            got.setdefault(n.group(0), set()).add((e.check, re.sub(r'^.*?: (?=Missing|Pass)', '', e.msg).split(' (')[0] + (' ' + re.search(r'is (\d+) bytes', e.msg).group(1) if 'bytes' in e.msg else '')))
        for p, d in params.items():
            if p not in facts:
                continue
            sz, tc, td, cc, mc, cl = facts[p]
            nontriv = bool(cl) and not (tc and td)
            big = sz > 16
            fk, how, use = d['fk'], d['how'], d['use']
            if (fk == 'moveinit' and not mc) or (fk == 'loop' and how in ('val', 'cval') and not cc):
                continue
            exp = set()
            ignored = d['t'] in IGNORED or any(x in d['t'] for x in ())
            changed = how == 'val' and use in ('nonconst', 'byref')
            byval = how in ('val', 'cval') and (nontriv or big) and not changed
            if fk == 'loop':
                if byval and nontriv:
                    exp.add(('range-loop-reference', 'Missing reference in range-for with non trivial type'))
            elif not ignored:
                if byval and fk not in ('declared', 'deleted', 'oplessless', 'moveinit'):
                    exp.add(('function-args-by-ref', 'Missing reference on non-trivial type' if nontriv else 'Missing reference on large type %d' % sz))
                if how == 'cref' and not nontriv and not big and fk not in ('declared', 'deleted', 'oplessless', 'override', 'refinit'):
                    exp.add(('function-args-by-value', 'Pass small and trivially-copyable type by value'))
            g = got.get(p, set())
            m.case((sz > 16, sz == 16, tc, td, cc, cl, how, fk, use) if cl else None, {'param': d['decl'], 'type facts': facts[p], 'function': fk, 'use': use, 'reported': sorted(g)})
            m.count('expected reports', len(exp))
            if not exp:
                m.count('expected silence')
            if g != exp:
                key = '%s-%s-%s' % (next(iter(sorted(g ^ exp)))[0], 'missing' if not g else 'additional' if not exp else 'other', 'nontriv' if nontriv else 'big' if big else 'small')
                ln = '\n'.join(x for x in lines if re.search(r'\b%s\b' % p, x)) + '\n' + '\n'.join(x for x in head.split('\n') if re.match(r'(struct|class|union|using|typedef).*\b%s\b' % re.escape(d['t']), x))
                m.violation(key, 'Qt %d, %s: %r; size %d, trivial copy %d, trivial destruction %d, copyable %d, class %d; %s, use %s\n%s\nreported: %s\nexpected: %s'
                            % (qt, fe, d['decl'], sz, tc, td, cc, cl, fk, use, ln, sorted(g), sorted(exp)), src, [r.r])
        if junk:
            m.violation('elsewhere', 'reports at places that hold no parameter: %s' % junk[:3], src, [r.r])
    return m.finish({'units judged': m.n(12, 120), 'expected reports': m.n(150, 3000), 'expected silence': m.n(300, 5000)})


main(body)
