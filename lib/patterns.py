"""Code patterns whose verdict is known from the documentation of the checks (docs/checks/README-*.md).

A pattern is a piece of code for one check. A line ending in '//!' must be reported once by that check ('//!2': twice), every other line
of the pattern must not. '@' is replaced by a unique number. Kinds: 'stmt' (goes into any function body), 'decl' (goes to namespace
scope), 'method' (goes into a QObject-derived class as a member function body).
"""
import collections, re

Pat = collections.namedtuple('Pat', 'check kind code qt inc flags env id noctx args gsup')
PATTERNS = []
_n = collections.Counter()


def S(check, code, qt=(5, 6), inc=(), flags=(), env=None, kind='stmt', noctx=(), args=(), gsup=''):
    _n[check] += 1
    PATTERNS.append(Pat(check, kind, code.strip('\n'), tuple(qt), tuple(inc), tuple(flags), env or {}, '%s#%d' % (check, _n[check]),
                        tuple(noctx), tuple(args), gsup))


def D(check, code, **kw):
    S(check, code, kind='decl', **kw)


Q5, Q6 = (5,), (6,)
# clazy looks at templates as they are written, not at their instances (RecursiveASTVisitor's default), so calls that clang can only
# resolve in the instance are out of reach there.
TEMPLATES = ('template instance', 'class template instance', 'generic lambda', 'constexpr if')
LOOPS = ('do', 'for', 'while', 'range for')

# ------------------------------------------------------------------ containers and strings: statements
S('qgetenv', '''
bool a@ = qgetenv("FOO@").isEmpty(); //!
bool b@ = qgetenv("FOO@").isNull(); //!
int c@ = qgetenv("FOO@").toInt(); //!
bool ok@ = false; int d@ = qgetenv("FOO@").toInt(&ok@); //!
QByteArray e@ = qgetenv("FOO@");
int g@ = qgetenv("FOO@").size();
bool h@ = qEnvironmentVariableIsSet("FOO@");
(void)a@; (void)b@; (void)c@; (void)d@; (void)g@; (void)h@;
''', inc=['QByteArray'])
S('qdatetime-utc', '''
auto a@ = QDateTime::currentDateTime().toUTC(); //!
auto b@ = QDateTime::currentDateTime().toMSecsSinceEpoch(); //!
auto c@ = QDateTime::currentDateTimeUtc().toMSecsSinceEpoch(); //!
auto d@ = QDateTime::currentDateTime().toSecsSinceEpoch(); //!
auto e@ = QDateTime::currentDateTimeUtc().toSecsSinceEpoch(); //!
auto f@ = QDateTime::currentDateTime().toLocalTime();
auto g@ = QDateTime::currentDateTimeUtc();
auto h@ = QDateTime(QDate(2020, 1, 1), QTime(1, 2)).toUTC();
auto i@ = QDateTime::currentMSecsSinceEpoch();
(void)b@; (void)c@; (void)d@; (void)e@; (void)i@;
''', inc=['QDateTime'])
S('qfileinfo-exists', '''
bool a@ = QFileInfo("/tmp/x@").exists(); //!
bool b@ = QFileInfo(QString("/tmp/y@")).exists(); //!
bool c@ = QFileInfo::exists("/tmp/x@");
QFileInfo fi@("/tmp/x@"); bool d@ = fi@.exists();
(void)a@; (void)b@; (void)c@; (void)d@;
''', inc=['QFileInfo'])
S('qstring-left', '''
QString s@("abc");
QString a@ = s@.left(1); //!
QString b@ = s@.left(2);
int one@ = 1; QString c@ = s@.left(one@);
QString d@ = s@.right(1);
''', inc=['QString'])
S('qstring-arg', '''
QString a@ = QString("%1 %2").arg(QString("x")).arg(QString("y")); //!
QString b@ = QString("%1 %2 %3").arg(QString("x"), QString("y")).arg(QString("z")); //!
QString c@ = QString("%1 %2").arg(QString("x"), QString("y"));
QString d@ = QString("%1").arg(3);
QString e@ = QString("%1 %2").arg(3).arg(4);
''', inc=['QString'], qt=(5,))
S('qstring-insensitive-allocation', '''
QString s@("abc");
bool a@ = s@.toLower().contains("b"); //!
bool b@ = s@.toUpper().startsWith("B"); //!
bool c@ = s@.toLower().endsWith(QString("b")); //!
int d@ = s@.toUpper().compare("b"); //!
bool e@ = s@.contains("b", Qt::CaseInsensitive);
bool f@ = s@.trimmed().contains("b");
int g@ = s@.toLower().indexOf("b");
(void)a@; (void)b@; (void)c@; (void)d@; (void)e@; (void)f@; (void)g@;
''', inc=['QString'])
S('qstring-comparison-to-implicit-char', '''
QString s@("abc");
bool a@ = s@ == 5000; //!
bool b@ = s@ == QString::number(5000);
bool c@ = s@ == QLatin1String("5000");
(void)a@; (void)b@; (void)c@;
''', inc=['QString'], qt=Q5)
S('empty-qstringliteral', '''
QString a@ = QStringLiteral(""); //!
QString b@ = QStringLiteral("x");
QString c@ = QLatin1String("");
QString d@ = QString();
''', inc=['QString'])
S('qlatin1string-non-ascii', '''
QString a@ = QLatin1String("\\u00e9"); //!
QString b@ = QLatin1String("plain ascii 0-9 ~");
QString c@ = QLatin1String("");
''', inc=['QString'])
S('qstring-ref', '''
QString s@("abc12");
int a@ = s@.mid(3).toInt(); //!
bool b@ = s@.left(2).isEmpty(); //!
bool c@ = s@.right(2).contains("1"); //!
int d@ = s@.mid(1, 2).indexOf("1"); //!
int e@ = s@.midRef(3).toInt();
QString f@ = s@.mid(3);
QString g@ = s@.mid(3).toUpper();
(void)a@; (void)b@; (void)c@; (void)d@; (void)e@;
''', inc=['QString'], qt=Q5)
S('qstring-varargs', '''
QString s@("x"); const char *p@ = "x";
va@("%s", s@); //!
va@("%s", p@);
QByteArray ba@("x"); va@("%s", 1, ba@); //!
va@("%s", ba@.constData(), 3);
''', inc=['QString', 'QByteArray'], flags=['-Wno-non-pod-varargs'])
S('qcolor-from-literal', '''
QColor a@("#123"); //!
QColor b@("#112233"); //!
QColor c@("#99112233"); //!
QColor d@("red");
QColor e@(1, 2, 3);
QColor f@; f@.setNamedColor("#445566"); //!
''', inc=['QColor'])
S('container-anti-pattern', '''
QMap<int, QString> m@; QHash<int, QString> h@; QSet<int> st@; QVector<int> v@; QList<int> l@;
auto a@ = m@.values().size(); //!
auto b@ = h@.keys().contains(1); //!
auto c@ = st@.values().size(); //!
auto d@ = v@.toList().size(); //!
auto e@ = l@.toVector().size(); //!
for (auto i@ : h@.values()) { (void)i@; } //!
for (auto i@ : m@.keys()) { (void)i@; } //!
auto f@ = m@.size() + h@.size();
auto g@ = m@.values();
auto hh@ = h@.keys();
for (auto i@ : m@) { (void)i@; }
(void)a@; (void)b@; (void)c@; (void)d@; (void)e@; (void)f@;
''', inc=['QMap', 'QHash', 'QSet', 'QVector', 'QList', 'QString'], qt=Q5)
S('container-anti-pattern', '''
QMap<int, QString> m@; QHash<int, QString> h@;
auto a@ = m@.values().size(); //!
auto b@ = h@.keys().contains(1); //!
for (auto i@ : h@.values()) { (void)i@; } //!
foreach (auto j@, m@.keys()) { (void)j@; } //!
auto g@ = m@.values();
auto f@ = m@.size() + h@.size();
(void)a@; (void)b@; (void)f@;
''', inc=['QMap', 'QHash', 'QString', 'QList'], qt=Q6)
S('container-inside-loop', '''
for (int i@ = 0; i@ < 3; ++i@) {
    QVector<int> v@; //!
    v@.append(i@);
    std::vector<int> w@; //!
    w@.push_back(i@);
}
QVector<int> x@;
while (x@.size() < 3) {
    QList<int> y@; //!
    y@.append(1);
    x@.append(1);
    QMap<int, int> z@;
    z@.insert(1, 2);
}
''', inc=['QVector', 'QList', 'QMap', '<vector>'], qt=Q5, noctx=LOOPS)
S('detaching-temporary', '''
auto a@ = getList@().first(); //!
auto b@ = getList@().last(); //!
auto c@ = getList@()[0]; //!
auto d@ = getHash@()[3]; //!
auto e@ = getList@().at(0);
auto f@ = getList@().constFirst();
auto g@ = getHash@().value(3);
const auto lst@ = getList@(); auto h@ = lst@.first();
(void)a@; (void)b@; (void)c@; (void)d@; (void)e@; (void)f@; (void)g@; (void)h@;
''', inc=['QList', 'QHash'])
S('temporary-iterator', '''
auto it@ = getList@().begin(); //!
auto ie@ = getList@().constEnd(); //!
auto ik@ = getHash@().find(1); //!
QList<int> l@; auto i3@ = l@.begin(); auto i4@ = std::as_const(l@).begin();
(void)it@; (void)ie@; (void)ik@; (void)i3@; (void)i4@;
''', inc=['QList', 'QHash', '<utility>'])
S('strict-iterators', '''
QHash<int, int> h@; QVector<int> v@;
bool a@ = h@.find(1) == h@.cend(); //!
bool b@ = h@.constFind(1) == h@.cend();
bool e@ = h@.find(1) == h@.end();
QHash<int, int>::const_iterator c@ = h@.begin(); //!
QHash<int, int>::const_iterator d@ = h@.cbegin();
(void)a@; (void)b@; (void)e@; (void)c@; (void)d@;
''', inc=['QHash', 'QVector'])
S('range-loop-detach', '''
QList<int> l@; const QList<int> cl@; QVector<int> v@; std::vector<int> sv@; QMap<int, int> m@; const QList<int> &rl@ = l@;
pass@(l@); pass@(v@); pass@(m@); pass@(cl@); pass@(rl@); pass@(sv@);
for (auto i@ : l@) { (void)i@; } //!
for (int i@ : v@) { (void)i@; } //!
for (auto &i@ : m@) { (void)i@; }
for (const auto &i@ : m@) { (void)i@; } //!
for (auto i@ : cl@) { (void)i@; }
for (auto i@ : rl@) { (void)i@; }
for (auto i@ : sv@) { (void)i@; }
for (auto i@ : std::as_const(l@)) { (void)i@; }
for (auto &i@ : l@) { i@++; }
''', inc=['QList', 'QVector', 'QMap', '<vector>', '<utility>'],
  gsup='template <typename P@> void pass@(const P@ &);')
S('range-loop-reference', '''
const QList<QString> l@; const QList<int> li@; std::vector<QString> sv@;
for (QString i@ : l@) { (void)i@.size(); } //!
for (const QString i@ : l@) { (void)i@.size(); } //!
for (const auto &i@ : l@) { (void)i@.size(); }
for (const QString &i@ : l@) { (void)i@.size(); }
for (int i@ : li@) { (void)i@; }
for (const auto i@ : li@) { (void)i@; }
''', inc=['QList', 'QString', '<vector>'])
S('qdeleteall', '''
QSet<int *> s@; QMap<int, int *> m@; QHash<int *, int> h@; QList<int *> l@;
qDeleteAll(s@.values()); //!
qDeleteAll(m@.values()); //!
qDeleteAll(h@.keys()); //!
qDeleteAll(s@);
qDeleteAll(m@);
qDeleteAll(l@);
''', inc=['QSet', 'QMap', 'QHash', 'QList'])
S('reserve-candidates', '''
QVector<int> src@;
QVector<int> a@;
for (auto i@ : src@) a@ << i@; //!
QVector<int> b@;
b@.reserve(src@.size());
for (auto i@ : src@) b@ << i@;
QVector<int> c@;
for (int i@ = 0; i@ < 10; ++i@) { c@.append(i@); } //!
''', inc=['QVector'])
S('isempty-vs-count', '''
QList<int> l@; QMap<int, int> m@; std::vector<int> v@;
if (l@.count()) { l@.clear(); } //!
bool a@ = m@.size(); //!
bool b@ = !l@.count(); //!
if (!l@.isEmpty()) { l@.clear(); }
int n@ = l@.count();
bool c@ = l@.count() > 3;
(void)a@; (void)b@; (void)n@; (void)c@;
''', inc=['QList', 'QMap', '<vector>'])
S('unused-non-trivial-variable', '''
QString a@; //!
QList<int> b@; //!
QUrl u@("x"); //!
QString c@; c@.append("x");
QString d@("x"); use@(d@);
''', inc=['QString', 'QList', 'QUrl'])
S('writing-to-temporary', '''
getSize@().setWidth(3); //!
getString@().append("x");
getRect@().setLeft(1); //!
QSize s@ = getSize@(); s@.setWidth(3);
getRectRef@().setLeft(1);
getRectPtr@()->setLeft(1);
''', inc=['QSize', 'QRect', 'QString'])
S('auto-unexpected-qstringbuilder', '''
QString s@("x");
const auto a@ = "hello " + QString::fromLatin1("world"); //!
auto b@ = s@ + s@ + "y"; //!
QString c@ = s@ + s@;
auto d@ = QString(s@ + s@);
(void)a@; (void)b@;
''', inc=['QString', 'QStringBuilder'], flags=['-DQT_USE_QSTRINGBUILDER'])
S('auto-unexpected-qstringbuilder', '''
QString s@("x");
auto l@ = [s@] { return s@ + "x"; }; //!
auto m@ = [s@]() -> QString { return s@ + "x"; };
(void)l@; (void)m@;
''', inc=['QString', 'QStringBuilder'], flags=['-DQT_USE_QSTRINGBUILDER'], noctx=TEMPLATES)
S('qstring-allocations', '''
QString a@ = "foo"; //!
QString b@ = QLatin1String("foo"); //!
QString c@ = QLatin1String("");
QString d@ = QStringLiteral("foo");
QString e@ = QString::fromLatin1("foo"); //!
QString f@ = QString::fromUtf8("foo"); //!
bool g@ = d@ == "foo"; //!
bool h@ = d@ == QLatin1String("foo");
bool i@ = d@ == QStringLiteral("foo");
bool j@ = d@.startsWith(QLatin1String("foo"));
bool k@ = d@.startsWith("foo"); //!
(void)g@; (void)h@; (void)i@; (void)j@; (void)k@;
''', inc=['QString'], qt=Q5)
S('use-static-qregularexpression', '''
QString s@("abc");
bool a@ = s@.contains(QRegularExpression("a+")); //!
int b@ = s@.indexOf(QRegularExpression("b+"), 0); //!
QRegularExpression re@("c+");
bool c@ = s@.contains(re@); //!
static QRegularExpression sre@("c+");
bool d@ = s@.contains(sre@);
(void)a@; (void)b@; (void)c@; (void)d@;
''', inc=['QString', 'QRegularExpression'])
S('use-chrono-in-qtimer', '''
QTimer t@;
t@.start(1000); //!
t@.setInterval(500); //!
QTimer::singleShot(300, &t@, &QTimer::stop); //!
t@.start(std::chrono::seconds(1));
int ms@ = 3; t@.start(ms@);
''', inc=['QTimer', '<chrono>'])
S('use-arrow-operator-instead-of-data', '''
QScopedPointer<QString> p@(new QString); QSharedPointer<QString> q@(new QString); QPointer<QObject> r@;
p@.data()->clear(); //!
q@.data()->clear(); //!
r@.data()->deleteLater(); //!
p@->clear();
QString *raw@ = p@.data(); raw@->clear();
''', inc=['QScopedPointer', 'QSharedPointer', 'QString', 'QPointer', 'QObject'])
S('heap-allocated-small-trivial-type', '''
auto p@ = new QPoint(1, 1); //!
(void)p@->x();
auto q@ = new QString(); delete q@;
QPoint r@(1, 1); (void)r@;
''', inc=['QPoint', 'QString'])
S('qvariant-template-instantiation', '''
QVariant v@(3);
auto a@ = v@.value<int>(); //!
auto b@ = v@.value<QString>(); //!
auto c@ = v@.toInt();
auto d@ = v@.value<QObject *>();
(void)a@; (void)c@; (void)d@;
''', inc=['QVariant', 'QString', 'QObject'])
S('qmap-with-pointer-key', '''
QMap<QObject *, int> a@; //!
QMap<int, QObject *> b@;
QHash<QObject *, int> c@;
''', inc=['QMap', 'QHash', 'QObject'])
S('qhash-with-char-pointer-key', '''
QHash<const char *, int> a@; //!
QHash<int, const char *> b@;
QHash<QByteArray, int> c@;
QMap<const char *, int> d@;
''', inc=['QMap', 'QHash', 'QByteArray'])
S('mutable-container-key', '''
QMap<QPointer<QObject>, int> a@; //!
QHash<QPersistentModelIndex, int> b@; //!
QMap<int, QPointer<QObject>> c@;
QMap<std::weak_ptr<int>, int, int> *d@ = nullptr; (void)d@;
''', inc=['QMap', 'QHash', 'QObject', 'QPointer', 'QPersistentModelIndex', '<memory>'], qt=())
S('mutable-container-key', '''
QMap<QPointer<QObject>, int> a@; //!
QHash<QPersistentModelIndex, int> b@; //!
QMap<int, QPointer<QObject>> c@;
''', inc=['QMap', 'QHash', 'QObject', 'QPointer', 'QPersistentModelIndex'])
S('qbytearray-conversion-to-c-style', '''
QByteArray ba@ = "some text";
takesCStr@(ba@); //!
takesCStr@(ba@.constData());
takesCStr@("literal");
const char *p@ = ba@; //!
(void)p@;
''', inc=['QByteArray'])
S('returning-data-from-temporary', '''
const char *c1@ = getBytes@(); //!
const char *c2@ = getString@().toUtf8().data(); //!
const char *c3@ = getString@().toUtf8().constData(); //!
QByteArray keep@ = getBytes@(); const char *c4@ = keep@.constData();
(void)c1@; (void)c2@; (void)c3@; (void)c4@;
''', inc=['QByteArray', 'QString'])
S('raw-environment-function', '''
qputenv("A@", "x");
const char *g@ = getenv("A@"); //!
(void)g@; (void)qgetenv("A@");
putenv(const_cast<char *>("A@=1")); //!
qunsetenv("A@");
''', inc=['QByteArray', '<stdlib.h>'])
S('modernize-list-initialization', '''
QStringList a@ = QStringList() << "abc" << "xyz"; //!
consume@(QStringList() << "consume" << "me"); //!
QStringList b@ = {"abc", "xyz"};
QStringList c@; c@ << "abc" << "xyz";
consume@({"x", "y"});
''', inc=['QStringList'])
S('post-event', '''
QEvent ev@(QEvent::User);
QCoreApplication::postEvent(nullptr, &ev@); //!
QCoreApplication::postEvent(nullptr, new QEvent(QEvent::User));
QCoreApplication::sendEvent(nullptr, &ev@);
''', inc=['QCoreApplication', 'QEvent'])
S('wrong-qevent-cast', '''
QEvent *ev@ = getEvent@();
switch (ev@->type()) {
case QEvent::MouseMove: {
    auto e@ = static_cast<QKeyEvent *>(ev@); //!
    (void)e@;
    break;
}
case QEvent::KeyPress: {
    auto e@ = static_cast<QKeyEvent *>(ev@);
    (void)e@;
    break;
}
case QEvent::Wheel: {
    auto e@ = static_cast<QWheelEvent *>(ev@);
    (void)e@;
    break;
}
default:
    break;
}
''', inc=['QEvent', 'QKeyEvent', 'QWheelEvent', 'QMouseEvent'])
S('connect-not-normalized', '''
QObject o@;
QObject::connect(&o@, SIGNAL(destroyed( QObject* )), &o@, SLOT(deleteLater())); //!
QObject::connect(&o@, SIGNAL(destroyed(QObject*)), &o@, SLOT(deleteLater( ))); //!
QObject::connect(&o@, SIGNAL(destroyed(QObject*)), &o@, SLOT(deleteLater()));
QObject::disconnect(&o@, SIGNAL(destroyed( QObject* )), &o@, SLOT(deleteLater()));
''', inc=['QObject'], noctx=('class template instance',))
S('old-style-connect', '''
QObject o@; QTimer t@;
QObject::connect(&t@, SIGNAL(timeout()), &o@, SLOT(deleteLater())); //!
QObject::connect(&t@, &QTimer::timeout, &o@, &QObject::deleteLater);
QObject::disconnect(&t@, SIGNAL(timeout()), &o@, SLOT(deleteLater())); //!
QTimer::singleShot(0, &o@, SLOT(deleteLater())); //!
''', inc=['QObject', 'QTimer'], noctx=('class template instance',))
S('old-style-connect', '''
QObject o@; QTimer t@;
QObject::connect(&t@, SIGNAL(timeout()), &o@, SLOT(noSuchSlot@())); //!2
QObject::connect(&t@, SIGNAL(timeout()), &o@, SLOT(deleteLater())); //!
QObject::connect(&t@, SIGNAL(timeout()), &t@, SLOT(otherSlot@())); //!2
''', inc=['QObject', 'QTimer'], noctx=('class template instance',))
S('connect-non-signal', '''
QObject o@; QTimer t@;
QObject::connect(&o@, &QObject::deleteLater, &t@, &QTimer::stop); //!
QObject::connect(&o@, &QObject::destroyed, &t@, &QTimer::stop);
''', inc=['QObject', 'QTimer'], noctx=('class template instance',))
S('lambda-in-connect', '''
QObject *o@ = new QObject; QObject l2@; int a@ = 0;
QObject::connect(o@, &QObject::destroyed, [&a@] { a@++; }); //!
QObject::connect(o@, &QObject::destroyed, [a@] { (void)a@; });
QObject::connect(o@, &QObject::destroyed, [o@, &a@]() { a@++; o@->deleteLater(); }); //!
QObject::connect(&l2@, &QObject::destroyed, [&a@] { a@++; });
auto l@ = [&a@] { a@++; }; (void)l@;
''', inc=['QObject'], noctx=TEMPLATES)
S('lambda-unique-connection', '''
QObject o@;
QObject::connect(&o@, &QObject::destroyed, &o@, [] {}, Qt::UniqueConnection); //!
QObject::connect(&o@, &QObject::destroyed, &o@, [] {}, Qt::QueuedConnection);
QObject::connect(&o@, &QObject::destroyed, &o@, &QObject::deleteLater, Qt::UniqueConnection);
''', inc=['QObject'], noctx=TEMPLATES)
S('connect-3arg-lambda', '''
QObject o@; QTimer t@;
QObject::connect(&o@, &QObject::destroyed, [&t@] { t@.stop(); }); //!
QObject::connect(&o@, &QObject::destroyed, &t@, [&t@] { t@.stop(); });
QObject::connect(&o@, &QObject::destroyed, [] {});
QTimer::singleShot(0, [&t@] { t@.stop(); }); //!
QTimer::singleShot(0, &t@, [&t@] { t@.stop(); });
''', inc=['QObject', 'QTimer'], noctx=TEMPLATES)
S('unneeded-cast', '''
Base@ *b@ = nullptr; Derived@ *d@ = nullptr;
(void)static_cast<Base@ *>(b@); //!
(void)static_cast<Base@ *>(d@); //!
(void)static_cast<Derived@ *>(b@);
(void)dynamic_cast<Derived@ *>(b@);
QObject *o@ = nullptr; (void)dynamic_cast<QTimer *>(o@); //!
(void)qobject_cast<QTimer *>(o@);
(void)qobject_cast<QObject *>(o@); //!
''', inc=['QObject', 'QTimer'])
S('lowercase-qml-type-name', '''
qmlRegisterType<QObject>("Foo", 1, 0, "lower@"); //!
qmlRegisterType<QObject>("Foo", 1, 0, "Upper@");
qmlRegisterUncreatableType<QObject>("Foo", 1, 0, "lower2@", "no"); //!
qmlRegisterUncreatableType<QObject>("Foo", 1, 0, "Upper2@", "no");
''', inc=['QObject', '<QtQml>'], qt=Q5)
S('tr-non-literal', '''
QString s@("x");
QString a@ = QObject::tr(s@.toUtf8()); //!
QString b@ = QObject::tr("literal");
const char *p@ = "x"; QString c@ = QObject::tr(p@); //!
''', inc=['QObject', 'QString'])
S('assert-with-side-effects', '''
QList<int> l@; int n@ = 0; QObject o@;
Q_ASSERT(n@++ == 0); //!
Q_ASSERT(--n@); //!
Q_ASSERT(n@ = 3); //!
Q_ASSERT((n@ += 2)); //!
Q_ASSERT(!n@ || true);
Q_ASSERT(&n@);
Q_ASSERT(l@.isEmpty());
Q_ASSERT(n@ == 1);
(void)n@;
''', inc=['QList', 'QObject'])
D('readlock-detaching', '''
class RL@ {
public:
    void f(const QString &k);
    QReadWriteLock lock; QMap<QString, QString> m; QHash<int, int> h;
};
void RL@::f(const QString &k)
{
    {
        QReadLocker locker(&lock);
        auto it = m.find(k); //!
        auto c = m.constFind(k);
        (void)c; (void)it; (void)m[k]; //!
        (void)h[3]; //!
        (void)h.value(3);
        locker.unlock();
        it = m.find(k);
    }
    {
        auto it = m.find(k);
        lock.lockForRead();
        it = m.find(k); //!
        (void)m.begin(); //!
        (void)m.cbegin();
        lock.unlock();
        it = m.find(k);
        (void)it;
    }
    {
        QWriteLocker locker(&lock);
        auto it = m.find(k);
        (void)it;
        (void)m[k];
    }
}
''', inc=['QReadWriteLock', 'QMap', 'QString', 'QHash'])
S('rule-of-two-soft', '''
HasAssign@ a@; HasAssign@ b@(a@); //!
HasCopy@ c@; HasCopy@ d@(c@);
d@ = c@; //!
b@ = a@;
''')
S('missing-typeinfo', '''
QVector<Small@> a@; //!
QList<Small@> b@; //!
QVector<int> c@;
QVector<Movable@> d@;
QList<Large@ *> e@;
QList<Large@> f@;
''', inc=['QVector', 'QList'], qt=Q5)
S('implicit-casts', '''
QObject *o@ = nullptr;
takesBool@(o@); //!
takesBool@(true);
takesBool@(o@ != nullptr);
''', inc=['QObject'])
SUPPORT = r'''
QList<int> getList@(); QHash<int, int> getHash@(); QString getString@(); QByteArray getBytes@(); QSize getSize@(); QRect getRect@(); QRect &getRectRef@(); QRect *getRectPtr@();
void use@(const QString &); void takesCStr@(const char *); void consume@(const QStringList &); QEvent *getEvent@(); void va@(const char *, ...);
void takesBool@(bool b, QObject *parent = nullptr);
struct Base@ { virtual ~Base@(); virtual void f(); }; struct Derived@ : public Base@ { void f() override; };
struct HasAssign@ { int v = 0; HasAssign@() = default; HasAssign@ &operator=(const HasAssign@ &); };
struct HasCopy@ { int v = 0; HasCopy@() = default; HasCopy@(const HasCopy@ &); };
struct Small@ { int a; }; struct Large@ { long a[4]; };
'''
SUPPORT_INC = ['QList', 'QHash', 'QString', 'QByteArray', 'QSize', 'QRect', 'QStringList', 'QEvent', 'QObject']
SUPPORT_GLOBAL = '''
struct Movable@ { int a; Movable@(); Movable@(const Movable@ &); };
QT_BEGIN_NAMESPACE
Q_DECLARE_TYPEINFO(Movable@, Q_MOVABLE_TYPE);
QT_END_NAMESPACE
'''


# ------------------------------------------------------------------ contexts
# name -> (lines before, lines after); the statements stand in between
CONTEXTS = {
    'free': (['void ctx@()', '{'], ['}']),
    'static': (['[[maybe_unused]] static int ctx@(int arg@)', '{', '(void)arg@;'], ['return 0; }']),
    'inline method': (['class Ctx@ { public: ', 'void m@() const', '{'], ['}', '};']),
    'method': (['class Ctx@ { public: void m@(); };', 'void Ctx@::m@()', '{'], ['}']),
    'object method': (['class Ctx@ : public QObject { public: void m@(); };', 'void Ctx@::m@()', '{'], ['}']),
    'constructor': (['class Ctx@ { public: explicit Ctx@(int); };', 'Ctx@::Ctx@(int)', '{'], ['}']),
    'destructor': (['class Ctx@ { public: ~Ctx@(); };', 'Ctx@::~Ctx@()', '{'], ['}']),
    'namespace': (['namespace ctx@ { namespace inner@ {', 'void f@()', '{'], ['}', '} }']),
    'anonymous namespace': (['namespace {', '[[maybe_unused]] void ctx@()', '{'], ['}', '}']),
    'block': (['void ctx@()', '{', '{', '{'], ['}', '}', '}']),
    'if': (['void ctx@(bool c@)', '{', 'if (c@) {'], ['}', '}']),
    'else': (['void ctx@(bool c@)', '{', 'if (c@) {', '} else {'], ['}', '}']),
    'else if': (['void ctx@(bool c@, bool e@@)', '{', 'if (c@) {', '} else if (e@@) {'], ['} else {', '}', '}']),
    'switch': (['void ctx@(int c@@)', '{', 'switch (c@@) {', 'case 1: {'], ['break; }', 'default: break;', '}', '}']),
    'try': (['void ctx@()', '{', 'try {'], ['} catch (...) {', '}', '}']),
    'catch': (['void ctx@()', '{', 'try { ctx@(); } catch (...) {'], ['}', '}']),
    'function try': (['void ctx@()', 'try {'], ['} catch (...) { }']),
    'do': (['void ctx@()', '{', 'do {'], ['} while (false);', '}']),
    'while': (['void ctx@(bool c@)', '{', 'while (c@) {'], ['}', '}']),
    'lambda': (['void ctx@()', '{', 'auto lam@ = [=]() {'], ['};', 'lam@();', '}']),
    'generic lambda': (['void ctx@()', '{', 'auto lam@ = [&](auto garg@) {', '(void)garg@;'], ['};', 'lam@(3);', '}']),
    'local class': (['void ctx@()', '{', 'struct Local@ { void m@()', '{'], ['}', '}; Local@ loc@; loc@.m@();', '}']),
    'template instance': (['template <typename T@> void ctx@(T@)', '{'], ['}', 'template void ctx@<int>(int);']),
    'class template instance': (['template <typename T@> struct Ctx@ { void m@()', '{'], ['}', '};', 'template struct Ctx@<int>;']),
    'operator': (['struct Ctx@ { void operator()(int)', '{'], ['}', '};']),
    'extern C': (['extern "C" void ctx@()', '{'], ['}']),
    'after macro': (['#define CTX@(x) ((x) + 1)', 'void ctx@()', '{', 'int mac@ = CTX@(3); (void)mac@;'], ['mac@ = CTX@(CTX@(1));', '}']),
    'inside macro guard': (['#define HAVE_CTX@ 1', '#if HAVE_CTX@', 'void ctx@()', '{'], ['}', '#endif']),
    'comments': (['/* a comment', '   of two lines */ void ctx@() // more', '{ /* here */'], ['/* there */ }']),
    'constexpr if': (['template <typename T@> void ctx@()', '{', 'if constexpr (sizeof(T@) > 0) {'], ['}', '}', 'template void ctx@<int>();']),
    'noexcept': (['void ctx@() noexcept', '{'], ['}']),
    'label': (['void ctx@()', '{', 'goto label@;', 'label@: {'], ['}', '}']),
    'range for': (['void ctx@()', '{', 'int arr@[2] = {1, 2};', 'for (int ctxi@ : arr@) {', '(void)ctxi@;'], ['}', '}']),
    'for': (['void ctx@()', '{', 'for (int ctxi@ = 0; ctxi@ < 3; ++ctxi@) {'], ['}', '}']),
}
MARK = re.compile(r'\s*//!(\d*)$')


class Placed:
    """A pattern in a generated unit: its line range and the lines to be reported."""

    def __init__(self, pat, ctx, first, last, want, start):
        self.pat, self.ctx, self.first, self.last, self.want, self.start = pat, ctx, first, last, want, start


class Unit:
    def __init__(self, qt):
        self.qt, self.lines, self.placed, self.includes, self.flags, self.checks, self.env, self.args = qt, [], [], [], [], [], {}, []

    @property
    def text(self):
        return '\n'.join(self.lines) + '\n'


def compatible(p, q):
    return p.flags == q.flags and p.env == q.env and p.args == q.args


def build_unit(items, qt, rng=None, order=None):
    """items: [(pattern, context name)]; all of them must be compatible()."""
    u = Unit(qt)
    inc = []
    for p, _ in items:
        for i in tuple(SUPPORT_INC) + p.inc:
            if i not in inc:
                inc.append(i)
        if p.check not in u.checks:
            u.checks.append(p.check)
    if rng:
        rng.shuffle(inc)
    L = u.lines
    for i in inc:
        L.append('#include %s' % (i if i[0] in '<"' else '<%s>' % i))
    once = set()
    for n, (p, ctx) in enumerate(items, 1):
        sup = (SUPPORT if p.kind == 'stmt' else '')
        if '@' in p.gsup or p.gsup not in once:
            sup += p.gsup
            once.add(p.gsup)
        if 'Movable@' in p.code:
            sup += SUPPORT_GLOBAL
        L += [x.replace('@', str(n)) for x in sup.strip('\n').split('\n') if x]
    for n, (p, ctx) in enumerate(items, 1):
        pre, post = CONTEXTS[ctx] if p.kind == 'stmt' else DECL_CONTEXTS[ctx]
        start = len(L) + 1
        L += [x.replace('@', str(n)) for x in pre]
        first = len(L) + 1
        want = collections.Counter()
        for x in p.code.split('\n'):
            mk = MARK.search(x)
            if mk:
                x = x[:mk.start()]
                want[len(L) + 1] = int(mk[1] or 1)
            L.append(x.replace('@', str(n)))
        u.placed.append(Placed(p, ctx, first, len(L), want, start))
        L += [x.replace('@', str(n)) for x in post]
    u.flags = list(items[0][0].flags)
    u.env = dict(items[0][0].env)
    u.args = list(items[0][0].args)
    return u


DECL_CONTEXTS = {
    'free': ([], []),
    'namespace': (['namespace ctx@ { namespace inner@ {'], ['} }']),
    'anonymous namespace': (['namespace {'], ['}']),
}


import patterns_decl  # noqa: E402 (registers more patterns)


def unit(items, qt):
    u = build_unit(items, qt)
    return u.text, {(p.pat.check, l): n for p in u.placed for l, n in p.want.items()}
