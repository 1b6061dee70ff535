"""C22: detach warnings against containers that are watched detaching in a running program."""
from common import *
import subprocess, work

m = Monitor('C22', "A case is one use of a Qt container: type, member function, access path, constness, statement around it. Which member functions detach is measured by a program linked with Qt that "
                   "calls each of them on a shared container and watches the address of the data; which conversions of iterators are mixing is decided by the compiler with QT_STRICT_ITERATORS. "
                   "Non-trivial when the member function is one of those that detach, or the loop is over a Qt container; distinct by (Qt version, type, function, path, statement)")
CHECKS = ['detaching-temporary', 'detaching-member', 'range-loop-detach', 'readlock-detaching', 'strict-iterators']
# name -> (type, how to make a filled one)
CONT = {'QList': ('QList<int>', '{1, 2}'), 'QListS': ('QList<QString>', '{"a", "b"}'), 'QVector': ('QVector<int>', '{1, 2}'), 'QVectorS': ('QVector<QString>', '{"a"}'), 'QStringList': ('QStringList', '{"a", "b"}'),
        'QStack': ('QStack<int>', None), 'QQueue': ('QQueue<int>', None), 'QMap': ('QMap<int, QString>', '{{0, "a"}}'), 'QMultiMap': ('QMultiMap<int, int>', '{{0, 1}}'), 'QHash': ('QHash<int, QString>', '{{0, "a"}}'),
        'QMultiHash': ('QMultiHash<int, int>', '{{0, 1}}'), 'QSet': ('QSet<int>', '{0, 1}'), 'QString': ('QString', '("abc")'), 'QByteArray': ('QByteArray', '("abc")'), 'QLinkedList': ('QLinkedList<int>', '{1, 2}'),
        'QByteArrayList': ('QByteArrayList', '{"a"}'), 'QListList': ('QList<QList<int>>', '{{1}}'), 'QMapL': ('QMap<int, QList<int>>', '{{0, {1}}}'), 'QVariantMap': ('QVariantMap', None), 'QVariantList': ('QVariantList', '{1}'),
        'QPolygon': ('QVector<QPoint>', '{QPoint(1, 1)}')}
METHODS = {'begin': '.begin()', 'end': '.end()', 'rbegin': '.rbegin()', 'rend': '.rend()', 'first': '.first()', 'last': '.last()', 'front': '.front()', 'back': '.back()', 'operator[]': '[0]', 'data': '.data()', 'find': '.find(0)',
           'lowerBound': '.lowerBound(0)', 'upperBound': '.upperBound(0)', 'equal_range': '.equal_range(0)', 'keyValueBegin': '.keyValueBegin()', 'keyValueEnd': '.keyValueEnd()', 'top': '.top()', 'head': '.head()',
           'cbegin': '.cbegin()', 'cend': '.cend()', 'constBegin': '.constBegin()', 'constFirst': '.constFirst()', 'constLast': '.constLast()', 'at': '.at(0)', 'value': '.value(0)', 'constData': '.constData()', 'constFind': '.constFind(0)',
           'size': '.size()', 'isEmpty': '.isEmpty()', 'keys': '.keys()', 'values': '.values()', 'mid': '.mid(0)', 'toUpper': '.toUpper()', 'crbegin': '.crbegin()', 'firstKey': '.firstKey()', 'constKeyValueBegin': '.constKeyValueBegin()'}
# not measured, or reported although this version of Qt happens not to detach there: the tables serve all versions of Qt
LENIENT = {'end', 'rend', 'rbegin', 'keyValueEnd'}

FACTS = r'''#include <QtCore>
#include <cstdio>
template <class C> auto addr(const C &c, int) -> decltype((const void *)&*c.cbegin()) { return (const void *)&*c.cbegin(); }
#define M(N, CALL) struct N { \
  template <class D> static auto call(D &c, int) -> decltype(CALL, void(), 1) { (void)(CALL); return 1; } \
  template <class D> static int call(D &, long) { return 0; } };
%s
template <class F, class C> void go(const char *cn, const char *mn, const C &proto) {
  C b = proto; const void *x = addr(b, 0); int e = F::call(b, 0); int det = x != addr(b, 0);
  const C k = proto; const void *y = addr(k, 0); int ce = F::call(k, 0); int cdet = y != addr(k, 0);
  if (e) printf("%%s %%s %%d %%d %%d\n", cn, mn, det, ce, cdet); }
int main() {
%s
}
'''


def facts(qt):
    ms = sorted(METHODS)
    decl = '\n'.join('M(F%d, c%s)' % (i, METHODS[n]) for i, n in enumerate(ms))
    body_ = []
    for c, (t, fill) in sorted(CONT.items()):
        if c == 'QLinkedList' and qt == 6:
            continue
        mk = '%s a %s;' % (t, fill) if fill else '%s a; %s' % (t, {'QStack': 'a.push(1);', 'QQueue': 'a.enqueue(1);', 'QVariantMap': 'a.insert("0", 1);'}[c])
        body_.append('{ %s %s }' % (mk, ' '.join('go<F%d>("%s", "%s", a);' % (i, c, n) for i, n in enumerate(ms))))
    wd = os.path.join(m.work, 'facts%d' % qt)
    os.makedirs(wd)
    open(wd + '/f.cpp', 'w').write(FACTS % (decl, '\n'.join(body_)))
    q = '/usr/include/x86_64-linux-gnu/qt%d' % qt
    r = subprocess.run(['g++', '-std=c++17', '-w', '-fPIC', '-O0', '-isystem', q, '-isystem', q + '/QtCore', wd + '/f.cpp', '-o', wd + '/f', '-lQt%dCore' % qt], capture_output=True, text=True)
    if r.returncode:
        raise HarnessError('the program that measures detaching does not build: ' + r.stderr[-800:])
    o = subprocess.run([wd + '/f'], capture_output=True, text=True)
    out = {}
    for l in o.stdout.split('\n')[:-1]:
        c, n, det, const, cdet = l.split()
        out[c, n] = (int(det), int(const), int(cdet))
    return out


# paths: (expression, non-const lvalue or temporary?, kind)
def paths():
    P = []
    for e in ['m_x', 'this->m_x', '(*this).m_x', 'so.m_x', 'sp->m_x', 'sr.m_x', 'm_o->m_x', 'm_in.m_y', 'm_in.m_z.m_y', 'm_r', 'm_mu', 'self()->m_x', 'self()->m_o->m_x', 'm_up->m_x', 'B::m_b', 'm_b', 'tm.v', 'as<S>()->m_x']:
        P.append((e, 1, 'member', 0))
    for e in ['m_mu', 'so.m_x', 'sp->m_x', 'csr.m_mu', 'm_o->m_x', 'm_r']:
        P.append((e, 1, 'member', 1))
    for e in ['m_x', 'this->m_x', 'm_in.m_y', 'm_b', 'm_c', 'csr.m_x', 'csp->m_x', 'std::as_const(m_mu)']:
        P.append((e, 0, 'member', 1))
    for e in ['m_c', 'csr.m_x', 'csp->m_x', 'cself()->m_x', 'std::as_const(m_x)', 'std::as_const(so.m_x)', 'm_cr', 'static_cast<const T &>(m_x)', 'const_cast<const T &>(m_x)']:
        P.append((e, 0, 'member', 0))
    for e in ['f()', 'S::sf()', 'sf()', 'mf()', 'so.mf()', 'sp->mf()', 'm_o->mf()', 'mfc()', 'tf<int>()', 'tf<T>()', 'ns::f()', '::ns::f()', 'fd(1)', 'fd()', 'vf()', 'self()->mf()', 'lam()', 'fun()', 'so()', 'm_in.g()', 'fal()', 'fauto()', 'f2(m_x)']:
        P.append((e, 1, 'temp', 0))
    for e in ['cf()', 'mcf()', 'so.mcf()', 'crf()', 'so.crf()', 'std::as_const(l)', 'clam()']:
        P.append((e, 0, 'temp', 0))
    for e in ['rf()', 'mrf()', '(*pf())', 'S::srf()']:
        P.append((e, 1, 'ref', 0))
    for e in ['crf()', 'cself()->crf()']:
        P.append((e, 0, 'ref', 0))
    for e in ['l', 'g_x', 'par', 'rpar', 'S::s_x']:
        P.append((e, 1, 'var', 0))
    for e in ['cl', 'cpar', 'crpar', 'gc_x', 'clt']:
        P.append((e, 0, 'var', 0))
    return P


UNIT = '''struct In2 { T m_y; }; struct In { T m_y; In2 m_z; T g() const; };
template <class X> struct Tm { X v; };
struct B { T m_b; };
typedef const T CT; typedef T AT; using AU = T;
T f(); const T cf(); T &rf(); const T &crf(); T *pf(); T fd(int i = 0); AU fal(); template <class X> T tf(); T f2(const T &); inline auto fauto() { return T(); }
namespace ns { T f(); }
extern T g_x; extern const T gc_x;
template <class X> X *as(); template <class X> void use(const X &) { }
struct S : B { S *m_o; T m_x; mutable T m_mu; const T m_c; T &m_r; const T &m_cr; In m_in; std::unique_ptr<S> m_up; Tm<T> tm; mutable QReadWriteLock m_lock; mutable QReadWriteLock m_lock2; static T s_x;
    S(); S(int); static T sf(); T mf(); T mfc() const; const T mcf(); const T &crf() const; T &mrf(); static T &srf(); virtual T vf(); S *self(); const S *cself() const; T operator()();
    void run(S &sr, S *sp, const S &csr, const S *csp, T par, T &rpar, const T cpar, const T &crpar);
    void crun(S &sr, S *sp, const S &csr, const S *csp, T par, T &rpar, const T cpar, const T &crpar) const;
    void lrun(S &sr, S *sp, const S &csr, const S *csp, T par, T &rpar, const T cpar, const T &crpar); };
'''
OPEN = 'void S::%s(S &sr, S *sp, const S &csr, const S *csp, T par, T &rpar, const T cpar, const T &crpar)%s { S so; T l = g_x; const T cl = g_x; CT clt = g_x; auto lam = [] { return T(); }; auto clam = []() -> const T { return T(); }; std::function<T()> fun; bool cond = false; use(cond);'
STM = ['{ auto v = %s; use(v); }', '{ (void)%s; }', '{ const auto &v = %s; use(v); }', '{ auto &&v = %s; use(v); }', '{ auto fn = [&] { auto v = %s; use(v); }; fn(); }', 'if (cond) { auto v = %s; use(v); }', '{ auto v = cond ? 1 : 2; { auto w = %s; use(w); } use(v); }',
       'for (int i = 0; i < 2; ++i) { auto v = %s; use(v); }', 'switch (1) { case 1: { auto v = %s; use(v); } }', '{ auto v((%s)); use(v); }', 'try { auto v = %s; use(v); } catch (...) { }', 'do { auto v = %s; use(v); } while (cond);']
ELEM = {'QMap': 'auto', 'QHash': 'auto'}
# loops: (statement, may detach and be reported?)
LOOPV = [('auto e', 1), ('const auto e', 1), ('const auto &e', 1), ('auto &e', 0), ('decltype(auto) e', None), ('auto &&e', 0)]
RANGES = [(p[0], p[1]) for p in []]
LOCALS = [('T r; r = g_x;', None), ('T r = g_x;', 1), ('T r(g_x);', 1), ('T r{m_x};', None), ('T r = f();', 1), ('auto r = f();', 1), ('auto r = m_x;', 1), ('T r = cond ? g_x : m_x;', 1), ('T r;', 0), ('T r = {};', 0), ('T r; use(r);', 1), ('T r; T r2 = r; use(r2);', 1), ('T r; T r2(r); use(r2);', 1),
          ('T r; f2(r);', 1), ('T r; m_x = r;', None), ('const T r;', 0), ('const T r = g_x;', 0), ('const auto r = f();', 0), ('const auto &r = g_x;', 0), ('const T &r = m_x;', 0), ('T &&r = f();', None), ('auto &r = cl;', 0), ('CT r = g_x;', 0), ('T r0; const T &r = r0;', 0), ('static const T r = g_x;', 0),
          ('AT r = g_x;', 1), ('AU r = f();', 1), ('T r(std::move(par));', 1)]


# iterators: which statements mix iterators is asked of the compiler, with the containers of Qt 5 that know QT_STRICT_ITERATORS
ITS = ['T::const_iterator a = m_x.begin(); use(a);','T::const_iterator a = m_x.cbegin(); use(a);','T::iterator a = m_x.begin(); use(a);','const T::const_iterator a(m_x.begin()); use(a);','use(it == m_x.cend());','use(it != ci);','use(ci == m_x.end());','use(ci == m_x.cend());','use(it == m_x.end());','use(ci != it);','use(m_x.begin() == m_x.cend());','use(m_x.cbegin() == m_x.end());',
'takeC(m_x.begin());','takeC(it);','takeC(ci);','takeC(m_x.cbegin());','takeCR(it);','takeCR(ci);','takeI(it);','ci = m_x.begin();','ci = it;','ci = m_x.cend();','it = m_x.end();','for (T::const_iterator i = m_x.begin(); i != m_x.cend(); ++i) { }','for (T::const_iterator i = m_x.cbegin(); i != m_x.end(); ++i) { }','for (auto i = m_x.begin(); i != m_x.cend(); ++i) { }','for (auto i = m_x.begin(); i != m_x.end(); ++i) { }',
'for (auto i = m_x.cbegin(); i != m_x.cend(); ++i) { }','auto fn = [&]() -> T::const_iterator { return m_x.begin(); }; use(fn());','auto fn = [&]() -> T::const_iterator { return m_x.cbegin(); }; use(fn());','T::const_iterator a = cond ? m_x.begin() : m_x.end(); use(a);','T::const_iterator a = cond ? m_x.cbegin() : m_x.cend(); use(a);','T::const_iterator a = m_it; use(a);','use(m_it == m_x.cend());','T::const_iterator a = std::as_const(m_x).begin(); use(a);','T::const_iterator a{m_x.begin()}; use(a);',
'auto a = T::const_iterator(m_x.begin()); use(a);','auto a = static_cast<T::const_iterator>(m_x.begin()); use(a);','if (it == m_x.constEnd()) return;','if (m_x.find(0) == m_x.constEnd()) return;','if (m_x.constFind(0) == m_x.end()) return;','if (m_x.constFind(0) == m_x.cend()) return;','m_x.erase(it);','QList<T::const_iterator> q; q << it;','T::const_iterator a; a = m_x.begin(); use(a);','const T k = m_x; use(k.begin() == m_x.end());','use(m_x.end() - m_x.begin());','use(m_x.end() - m_x.cbegin());','use(m_x.cend() - m_x.begin());','use(m_x.cend() - m_x.cbegin());','use(std::find(m_x.begin(), m_x.end(), 0) == m_x.cend());','use(std::find(m_x.cbegin(), m_x.cend(), 0) == m_x.end());','use(it < ci);','use(ci < it);','use(ci <= m_x.end());']
ITHEAD = ['#include <QtCore>', '#include <algorithm>', 'using T = %s;', 'template <class X> void use(const X &) { }', 'void takeC(T::const_iterator); void takeCR(const T::const_iterator &); void takeI(T::iterator);',
          'struct S { T m_x; T::iterator m_it; void run(T::iterator it, T::const_iterator ci, bool cond) {']
STRICT = ['QList<int>', 'QMap<int, int>', 'QHash<int, int>', 'QStringList', 'QMultiMap<int, int>', 'QMultiHash<int, int>', 'QList<QString>', 'QHash<QString, int>']
OTHERS = ['QVector<int>', 'QSet<int>', 'QString', 'QByteArray', 'QStack<int>', 'QQueue<int>', 'QLinkedList<int>', 'QVector<QString>', 'QMap<QString, int>']
# pointers know no explicit conversion, and comparing or copying one kept in a member cannot detach
POINTER_FREE = re.compile(r'a\{m_x|static_cast|a\(m_x|q << it|m_it|std::find|cend\(\) - ')
# Qt 6's const_iterator of QList has operators that take an iterator: nothing is converted
LIST6_FREE = re.compile(r'k\.begin|cbegin\(\)|ci [!=<]=? ?(it|m_x)')


def syntax(lines, qt, flags=()):
    q = '/usr/include/x86_64-linux-gnu/qt%d' % qt
    r = subprocess.run(['clang++', '-fsyntax-only', '-w', '-std=c++17', '-fPIC', '-ferror-limit=0', '-fno-caret-diagnostics', '-isystem', q, '-isystem', q + '/QtCore', '-x', 'c++', '-'] + list(flags), input='\n'.join(lines) + '\n', capture_output=True, text=True)
    return {int(x) for x in re.findall(r'^<stdin>:(\d+):\d+: (?:fatal error|error|note: in inst)', r.stderr, re.M)}


def iterators():
    def prep(tq):
        t, qt = tq
        L = [x.replace('%s', t) for x in ITHEAD]
        first = len(L) + 1
        sts = list(ITS)
        L += ['{ %s }' % x for x in sts] + ['} };']
        bad = syntax(L, qt)
        L = ['' if i + 1 in bad else l for i, l in enumerate(L)]
        strict = syntax(L, qt, ['-DQT_STRICT_ITERATORS']) if qt == 5 and t in STRICT else None
        return t, qt, L, first, bad, strict
    units = m.parallel(prep, [(t, 5) for t in STRICT + OTHERS] + [(t, 6) for t in STRICT + OTHERS if 'Linked' not in t])
    ref = {}
    for t, qt, L, first, bad, strict in units:
        if strict is not None:
            for i, s in enumerate(ITS):
                if first + i not in bad:
                    ref.setdefault(s, set()).add(first + i in strict)
    jobs = [(u, m.rng.choice(['standalone', 'plugin', 'tidy'])) for u in units]
    rs = m.parallel(lambda j: work.analyse(m, work.Prog('it', '\n'.join(j[0][2]) + '\n', j[0][1], flags=['-w', '-std=c++17']), CHECKS, j[1]), jobs)
    for ((t, qt, L, first, bad, strict), fe), r in zip(jobs, rs):
        src = {'x.cpp': '\n'.join(L) + '\n'}
        if m.check_crash(r.r, 'iterators', src):
            continue
        if r.errs:
            m.count('units that do not compile')
            continue
        got = {e.line for e in r.ev if e.check == 'strict-iterators'}
        pointer = qt == 5 and t.startswith(('QVector', 'QStack')) or t in ('QString', 'QByteArray')
        list6 = qt == 6 and t.startswith(('QList', 'QVector', 'QStack', 'QQueue', 'QStringList'))
        for i, s in enumerate(ITS):
            n = first + i
            if n in bad or len(ref.get(s, ())) != 1 or pointer and POINTER_FREE.search(s) or list6 and LIST6_FREE.search(s):
                continue
            want = next(iter(ref[s]))
            m.case((qt, t, s), {'Qt': qt, 'container': t, 'code': s, 'reported': n in got})
            m.count('strict-iterators: ' + ('reports expected' if want else 'silence expected'))
            if (n in got) != want:
                m.violation('strict-iterators-%s-%s' % ('missing' if want else 'additional', i), 'Qt %d, %s, %s: strict-iterators %s for\n    %s\nwith QT_STRICT_ITERATORS the compiler %s' % (qt, fe, t, 'says nothing' if want else 'reports something', s, 'rejects it' if want else 'accepts it'), src, [r.r])


def body():
    iterators()
    fact = {q: facts(q) for q in (5, 6)}
    for q in (5, 6):
        n = sum(1 for v in fact[q].values() if v[0])
        m.count('member functions seen detaching with Qt %d' % q, n)
        bad = [k for k, v in fact[q].items() if v[2]]
        if bad:
            raise HarnessError('const member functions that detach? %s' % bad)
    P = paths()
    units = []
    rng = m.rng
    order = {q: [] for q in (5, 6)}
    for u in range(m.n(14, 160)):
        qt = 5 + u % 2
        if not order[qt]:
            order[qt] = [c for c in CONT if c != 'QLinkedList' or qt == 5]
            rng.shuffle(order[qt])
        c = order[qt].pop()
        avail = [n for n in METHODS if (c, n) in fact[qt]]
        det = [n for n in avail if fact[qt][c, n][0]]
        lines = {'run': [], 'crun': [], 'lrun': []}
        for _ in range(150):
            e, nonconst, kind, cm = rng.choice(P)
            n = rng.choice(det) if rng.random() < .75 else rng.choice(avail)
            st = rng.choice(STM)
            d, hasconst, _x = fact[qt][c, n]
            hits = bool(d and hasconst and nonconst)
            free = hasconst and nonconst and (n in LENIENT and not d)
            exp = {'detaching-temporary': hits if kind == 'temp' else False, 'detaching-member': hits if kind == 'member' else False, 'range-loop-detach': False, 'readlock-detaching': False, 'strict-iterators': False}
            if hits and kind in ('ref', 'var') or hits and kind == 'temp' and n == 'operator[]':
                exp['detaching-member'] = None      # returned references and static members: the container is one too
            if free:
                exp['detaching-temporary' if kind == 'temp' else 'detaching-member'] = None
            lines['crun' if cm else 'run'].append((st % (e + METHODS[n]), exp, (kind, e, n, nonconst, st), bool(d)))
        for _ in range(60):
            decl, rep = rng.choice(LOOPV)
            if c == 'QSet' and rep == 0:
                rep = 1     # its elements cannot be changed: auto & is a reference to const
            if rng.random() < .5:
                e, nonconst, kind, cm = rng.choice(P)
                want = rep and (1 if nonconst else 0)
                if rep and e == 'l':
                    want = 1
                if e in ('clam()',) or e.startswith('(*'):
                    want = None if want != 0 else 0
                stmt = rng.choice(['for (%s : %s) use(e);', 'for (%s : %s) { use(e); break; }', 'if (cond) for (%s : %s) use(e);', '{ auto fn = [&] { for (%s : %s) use(e); }; fn(); }'])
                if stmt.endswith('fn(); }') and kind == 'var':
                    want = None if want != 0 else 0
                lines['crun' if cm else 'run'].append((stmt % (decl, e), {'range-loop-detach': None if want is None else bool(want), 'detaching-member': False, 'detaching-temporary': False, 'readlock-detaching': False, 'strict-iterators': False},
                                                      ('loop', kind, e, nonconst, decl), True))
            else:
                loc, may = rng.choice(LOCALS)
                want = None if may is None or rep is None else bool(rep and may)
                where = 'run'
                # each in a function of its own: whether the variable is shared elsewhere in the function counts
                code = '{ struct L { S &q; T par; T &m_x; void go(bool cond) { const T cl = g_x; %s for (%s : r) use(e); } }; }' % (loc, decl)
                lines[where].append((code, {'range-loop-detach': want, 'strict-iterators': False, 'detaching-temporary': False, 'readlock-detaching': False, 'detaching-member': None}, ('loop', 'local', loc, decl), True))
        for _ in range(60):
            n = rng.choice(det) if rng.random() < .8 else rng.choice(avail)
            d, hasconst, _x = fact[qt][c, n]
            hit = bool(d and hasconst)
            e, on = rng.choice([('m_x', 1)] * 6 + [('this->m_x', 1), ('m_in.m_y', 1), ('m_o->m_x', 1), ('m_c', 0), ('std::as_const(m_x)', 0), ('csr.m_x', 0), ('m_mu', 1), ('sp->m_x', 1)])
            call = rng.choice(['{ auto v = %s; use(v); }', '(void)%s;', 'if (cond) { auto v = %s; use(v); }', '{ const auto &v = %s; use(v); }']) % (e + METHODS[n])
            L, inside = rng.choice([('QReadLocker k(&m_lock); %s', 1), ('QReadLocker k{&m_lock}; %s', 1), ('const QReadLocker k(&m_lock); %s', 1), ('QReadLocker k(&m_lock); use(1); { %s }', 1), ('m_lock.lockForRead(); %s m_lock.unlock();', 1), ('m_lock.lockForRead(); m_lock.unlock(); %s', 0),
                                    ('%s m_lock.lockForRead(); m_lock.unlock();', 0), ('%s QReadLocker k(&m_lock); use(2);', 0), ('{ QReadLocker k(&m_lock); use(3); } %s', 0), ('QReadLocker k(&m_lock); k.unlock(); %s', 0), ('QWriteLocker k(&m_lock); %s', 0), ('m_lock.lockForWrite(); %s m_lock.unlock();', 0),
                                    ('m_lock.lockForRead(); use(1); m_lock.unlock(); m_lock.lockForRead(); %s m_lock.unlock();', 1), ('m_lock.unlock(); m_lock.lockForRead(); %s m_lock.unlock();', 1), ('QMutex mx; QMutexLocker k(&mx); %s', 0), ('this->m_lock.lockForRead(); %s this->m_lock.unlock();', 1),
                                    ('QReadLocker k(&sr.m_lock); %s', 1), ('if (cond) { QReadLocker k(&m_lock); %s }', 1), ('for (int i = 0; i < 2; ++i) { QReadLocker k(&m_lock); %s }', 1), ('sp->m_lock.lockForRead(); %s sp->m_lock.unlock();', 1), ('if (!m_lock.tryLockForWrite()) { %s }', 0)])
            want = bool(hit and on and inside)
            if n in LENIENT and not d and on and hasconst:
                want = None
            lines['lrun'].append(('{ %s }' % (L % call), {'readlock-detaching': want, 'strict-iterators': False, 'range-loop-detach': False, 'detaching-temporary': False}, ('lock', L, e, n), bool(d)))
        units.append((u, qt, c, lines, rng.choice(['standalone', 'standalone', 'plugin', 'tidy'])))

    def text_of(qt, c, lines):
        out = ['#include <QtCore>', '#include <functional>', '#include <memory>', rng_alias(c)] + UNIT.rstrip('\n').split('\n')
        where = {}
        for fn in ('run', 'crun', 'lrun'):
            out.append(OPEN % (fn, ' const' if fn == 'crun' else ''))
            for x in lines[fn]:
                where[len(out) + 1] = x
                out.append('    ' + x[0])
            out.append('}')
        return '\n'.join(out) + '\n', where

    def rng_alias(c):
        return ['using T = %s;', 'typedef %s T;'][len(c) % 2] % CONT[c][0]

    def one(un):
        u, qt, c, lines, fe = un
        lines = {k: list(v) for k, v in lines.items()}
        text, where = text_of(qt, c, lines)
        q = '/usr/include/x86_64-linux-gnu/qt%d' % qt
        for _ in range(3):      # what does not exist for this container is left out
            r = subprocess.run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-fsyntax-only', '-w', '-std=c++17', '-fPIC', '-ferror-limit=0', '-fno-caret-diagnostics', '-isystem', q, '-isystem', q + '/QtCore', '-x', 'c++', '-'],
                               input=text, capture_output=True, text=True)
            bad = {int(x) for x in re.findall(r'^<stdin>:(\d+):\d+: (?:fatal )?error', r.stderr, re.M)} | {int(x) for x in re.findall(r'^<stdin>:(\d+):\d+: note: in instantiation', r.stderr, re.M)}
            if r.returncode == 0:
                break
            drop = {id(where[b]) for b in bad if b in where}
            if not drop:
                if os.environ.get('C22_DEBUG'):
                    open('/tmp/w/c22/bad%d.cpp' % u, 'w').write(text); print(r.stderr[:600])
                return text, where, None
            lines = {k: [x for x in v if id(x) not in drop] for k, v in lines.items()}
            text, where = text_of(qt, c, lines)
        return text, where, work.analyse(m, work.Prog('u%d' % u, text, qt, flags=['-w', '-std=c++17']), CHECKS, fe)

    for (u, qt, c, lines, fe), (text, where, r) in zip(units, m.parallel(one, units)):
        src = {'x.cpp': text}
        if r is None:
            m.count('units that do not compile')
            continue
        if m.check_crash(r.r, 'detach', src):
            continue
        if r.errs:
            m.count('units that do not compile')
            continue
        m.count('units judged')
        got = {}
        for e in r.ev:
            got.setdefault(e.line, {}).setdefault(e.check, []).append(e.msg)
        for ln, (code, exp, label, nontriv) in where.items():
            g = got.pop(ln, {})
            m.case((qt, c) + label if nontriv else None, {'Qt': qt, 'container': CONT[c][0], 'code': code, 'reported': sorted(g)})
            for ch, want in exp.items():
                if want is None:
                    continue
                m.count('%s: %s' % (ch, 'reports expected' if want else 'silence expected'))
                if bool(g.get(ch)) != want:
                    m.violation('%s-%s-%s' % (ch, 'missing' if want else 'additional', '-'.join(str(x) for x in label[1:] if x not in (0, 1)) if label[0] == 'loop' else label[2] if label[0] != 'lock' else label[3]),
                                'Qt %d, %s, %s: %s %s for\n    %s\nreported there: %s' % (qt, fe, CONT[c][0], ch, 'says nothing' if want else 'reports something', code, g), src, [r.r])
                elif want and ch in ('detaching-temporary', 'detaching-member') and len(label) > 2 and label[0] in ('temp', 'member'):
                    if not any(('::%s()' % label[2]) in x for x in g[ch]):
                        m.violation('%s-message' % ch, 'the message does not name %s: %s\n    %s' % (label[2], g[ch], code), src, [r.r])
        if got:
            m.violation('elsewhere', 'reports at lines without a case: %s' % str(got)[:300], src, [r.r])
    return m.finish({'strict-iterators: reports expected': 200, 'strict-iterators: silence expected': 200, 'units judged': m.n(8, 90), 'detaching-temporary: reports expected': m.n(100, 1500), 'detaching-member: reports expected': m.n(100, 1500), 'range-loop-detach: reports expected': m.n(100, 1200),
                     'readlock-detaching: reports expected': m.n(80, 1000)})


main(body)
