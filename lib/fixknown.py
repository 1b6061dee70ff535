"""Statements for which the edits are known to be wrong (listed in known_findings.txt): each one is tried by itself on every run, and left out of the random programs."""
import collections, json, os
import build, fixgen, fixrun

Known = collections.namedtuple('Known', 'prop key kind check qt statement decl exclude defs')
LIST = []


def names():
    with open(os.path.join(build.REPO, 'checks.json')) as f:
        return [c['name'] for c in json.load(f)['checks']]


def add(prop, key, check, statement, qt=6, decl='', exclude=None, kind='', defs=()):
    k = Known(prop, key, kind, check, qt, statement, decl, exclude, tuple(defs))
    LIST.append(k)
    for e in exclude or ():
        fixgen.KNOWN.append((check, e))


def for_property(p):
    return [k for k in LIST if k.prop == p]


class Fixed:
    """a random source for a given statement"""
    def random(self):
        return 0.0

    def choice(self, l):
        return l[0]


def program(k, wd):
    g = fixgen.Gen(Fixed(), k.qt)
    g.S, g.D = ([], [(k.check, k.decl, k.statement)]) if k.decl else ([(k.check, k.statement)], [])
    g.noise = lambda text, p: text
    text, ids = g.program(1)
    return fixrun.Program(wd, k.qt, text.encode(), ids, list(k.defs))


N = 'does not compile'
add('C10', 'detaching-member-iterator-written', 'detaching-member', 'auto it@ = m_l.begin(); *it@ = s;', exclude=('begin(); *it@', '++it) *it = ', 'it@.value() = '), kind=N)
add('C10', 'detaching-member-iterator-type', 'detaching-member', 'QStringList::iterator it@ = m_l.begin(); outS(@, *it@);', exclude=('::iterator it@',), kind=N)
add('C10', 'qstring-allocations-unevaluated', 'qstring-allocations', 'outI(@, sizeof(QString("abc")));', qt=5, exclude=('sizeof(',), kind=N)
add('C10', 'qstring-allocations-c-style-cast', 'qstring-allocations', 'outS(@, (QString)QLatin1String("abc"));', exclude=('(QString)',), kind=N)
add('C10', 'qstring-allocations-blank-before-colons', 'qstring-allocations', 'QString q@ = QString ::fromLatin1("abc"); outS(@, q@);', kind=N)
add('C10', 'modernize-list-initialization-narrowing', 'modernize-list-initialization', 'QList<int> q@ = QList<int>() << 1.5 << 2; outI(@, q@.size());', exclude=('1.5', 'QList<double>'), kind=N)
add('C10', 'modernize-list-initialization-list-appended', 'modernize-list-initialization', 'QStringList q@ = QStringList() << m_l << s; outL(@, q@);', exclude=('QStringList() << m_l',), kind=N)
add('C10', 'modernize-list-initialization-auto', 'modernize-list-initialization', 'auto q@ = QStringList() << s; outL(@, q@);', exclude=('auto q@',), kind=N)
add('C10', 'modernize-list-initialization-assignment', 'modernize-list-initialization', 'm_l = QStringList() << s;', qt=5, exclude=('m_l = QStringList()',), kind=N)
add('C10', 'modernize-overloaded-connects-blanks', 'modernize-overloaded-connects', 'QObject::connect(m_o, QOverload<int>::of( &Obj::over ), m_o, QOverload<int> :: of(&Obj::slot)); Q_EMIT m_o->over(1);', exclude=(':: of',), kind=N)
add('C10', 'function-args-by-ref-member-modified', 'function-args-by-ref', "auto f@ = [](Item x) { x.t += QLatin1Char('a'); return x.t; }; outS(@, f@(Item()));", exclude=('x.t +=', 'x.t.append'), kind=N)
add('C10', 'function-args-by-ref-address-taken', 'function-args-by-ref', 'auto f@ = [](Item x) { Item *p = &x; p->set(2); return x.n; }; outI(@, f@(Item()));', exclude=('Item *p',), kind=N)
add('C10', 'function-args-by-ref-override', 'function-args-by-ref', 'E@ e@; D@ *p@ = &e@; outS(@, p@->f(s));', decl='struct D@ { virtual QString f(QString x) { return x; } virtual ~D@() { } }; struct E@ : D@ { QString f(QString y) override { return y.mid(1); } };', exclude=('override',), kind=N)
add('C10', 'function-args-by-value-function-pointer-parameter', 'function-args-by-value', 'outI(@, d@(gint));', decl='static int d@(int (*const &f)()) { return f(); }', exclude=('(*const &f)',), kind=N)
add('C10', 'function-args-by-value-pointer-to-the-function', 'function-args-by-value', 'outI(@, p@(4));', decl='static int d@(const int &x) { return x; } static int (*p@)(const int &) = d@;', exclude=('(*p@)(const int',), kind=N)
add('C10', 'range-loop-reference-member-modified', 'range-loop-reference', 'for (Item y : m_it) { y.t += s; outS(@, y.t); }', exclude=('y.t +=', 'y.t.append', 'y.t[0]', '++y.n', 'y.n++'), kind=N)
add('C10', 'range-loop-reference-address-taken', 'range-loop-reference', 'for (Item y : m_it) { int *p = &y.n; *p = 4; outI(@, y.n); }', exclude=('&y.n', 'p = &y'), kind=N)
add('C10', 'range-loop-reference-reference-to-it', 'range-loop-reference', 'for (QString y : m_l) { QString &z = y; z.clear(); outS(@, y); }', exclude=('&z = y', '&z : y'), kind=N)
fixgen.KNOWN.append(('function-args-by-ref', 'm_s.clear(); return x'))
add('C11', 'qgetenv-isNull', 'qgetenv', 'outB(@, qgetenv("VP_SET").isNull());', exclude=('isNull()',))
add('C11', 'range-loop-reference-container-modified', 'range-loop-reference', 'for (QString y : l) { l[0] = gs; l[1] = gs; outS(@, y); }', exclude=('l[0] = ', 'm_l.clear(); outS'))
add('C11', 'function-args-by-value-argument-modified', 'function-args-by-value', 'outI(@, d@(gi));', decl='static int d@(const int &r) { gi = 9; return r; }', exclude=('gi = 9', 'return &x', '-> const QPoint &', 'const int &r'))
add('C11', 'detaching-member-begin-without-end', 'detaching-member', 'for (auto it = m_l.begin(); it != m_l.end(); ++it) outS(@, *it);', exclude=('it != {=}.end()',))
add('C11', 'detaching-member-subscript-inserts', 'detaching-member', 'outI(@, m_h["not in it"]);')
fixgen.KNOWN += [(c, t) for c in ('detaching-member', 'qstring-allocations') for t in ('m_h[{lit}]',)]
add('C11', 'qstring-allocations-overload', 'qstring-allocations', 'outS(@, overS(""));', exclude=('overS(',))
add('C11', 'qstring-arg-adjacent-digits', 'qstring-arg', 'outS(@, QString::fromLatin1("%2%1").arg(QString::fromLatin1("1")).arg(QString::fromLatin1("b")));', exclude=('%2%1',))
add('C11', 'isempty-vs-count-of-a-value', 'isempty-vs-count', 'outB(@, m_mm.count(1, 77));', exclude=('m_mm.count(1', 'p@->count(1, 2)'))
