"""Programs of one line per use of a class: what checks know about classes by name."""
import re, subprocess
import build, work

# One line per use of a class: what a check knows about a class by name must not depend on the namespace.
CLASSES = """QString QByteArray QLatin1String QStringView QStringList QChar QVariant QUrl QDir QFile QFileInfo QDateTime QDate QTime QElapsedTimer QTimer QThread QMutex QMutexLocker<QMutex> QReadWriteLock
    QReadLocker QWriteLocker QSemaphore QObject QPointer<QObject> QSharedPointer<int> QSharedPointer<QObject> QWeakPointer<int> QScopedPointer<int> QScopedArrayPointer<int> QSharedDataPointer<SD> QExplicitlySharedDataPointer<SD>
    QList<int> QList<QString> QVector<int> QVector<QString> QLinkedList<int> QQueue<int> QStack<QString> QSet<int> QSet<QString> QMap<int,int> QMap<QString,QString> QMultiMap<int,QString> QHash<int,int>
    QHash<QString,int> QMultiHash<int,int> QVarLengthArray<int,4> QVarLengthArray<QString,40> QPair<int,int> QPair<QString,int> QBitArray QByteArrayList QJsonObject QJsonArray QJsonValue QJsonDocument QPoint QPointF
    QRect QRectF QSize QSizeF QLine QLineF QMargins QMarginsF QModelIndex QPersistentModelIndex QMetaObject::Connection QMetaMethod QMetaEnum QRegularExpression QRegularExpressionMatch QLocale QUuid QVersionNumber
    QEvent QTimerEvent QChildEvent QIODevice QBuffer QTextStream QDataStream QProcess QSettings QEasingCurve QItemSelection QItemSelectionRange QDeadlineTimer QBasicTimer Qt::Orientations Qt::Alignment QFlags<Qt::AlignmentFlag>
    QList<QObject*> QMap<QObject*,int> QHash<int,QObject*> QList<QList<int>> QList<QPair<int,int>> QHash<QString,QList<QString>> QMap<const,int> QColor QImage QPixmap QBrush QPen QKeySequence QPolygon QTransform QFont QIcon
    QMap<QString,QSharedPointer<int>> QStringMatcher QCache<int,int> QCollator QCommandLineOption QTimeZone QMimeType QStorageInfo QSysInfo QTemporaryFile QLockFile QThreadPool QRunnable QFuture<int> QUrlQuery QRandomGenerator""".split()
USES = ['inline int a@(T x) { return int(sizeof(x)); }', 'inline int b@(const T &x) { return int(sizeof(x)); }', 'inline int c@(const T x) { return int(sizeof(x)); }', 'inline int d@(T &x) { return int(sizeof(x)); }',
        'inline int e@(T *x) { return x ? 1 : 0; }', 'static T s@;', 'inline void f@(const QList<T> &l) { for (T x : l) (void)x; }', 'inline void g@(QList<T> &l) { for (const T &x : l) (void)x; }',
        'inline void h@(QList<T> l) { for (const T x : l) (void)x; }', 'inline void i@() { T x; }', 'inline void j@() { static const T x; (void)x; }', 'inline void k@(T x) { for (auto y : x) (void)y; }',
        'inline void k@(const T &x) { for (auto y : x) (void)y; }', 'inline void l@() { for (int i = 0; i < 3; ++i) { T x; x.append({}); } }', 'QMap<T *, int> m@;', 'QHash<T *, int> n@;', 'inline void o@(T x) { (void)(x.begin() == x.end()); }',
        'inline int at@(T x) { return *x; }', 'inline void au@(T x) { x.size(); x.data(); }', 'inline void av@(T x) { x->y(); }', 'struct P@ { T x; void f() { for (auto y : x) (void)y; } };', 'struct Q@ { T x; auto f() { return x.begin(); } };', 'struct R@ { T x; auto f() { return x[0]; } };', 'struct S@ : T { using T::T; void *y = nullptr; };',
        'struct U@ { T x() const; auto f() { return x().first(); } };', 'struct V@ { T x() const; auto f() { return x().data(); } };', 'struct X@ { static T x(); auto f() { return x()[0]; } };', 'inline auto w@(T x) { return [x] { return sizeof(x); }; }',
        'inline bool y@(const T &x) { return x.size() == 0; }', 'inline bool z@(const T &x) { return x.count(); }', 'inline bool aa@(const T &x) { return x.toList().contains({}); }', 'inline bool ab@(T x) { qDeleteAll(x.values()); return true; }',
        'inline auto ac@(const QVariant &v) { return v.value<T>(); }', 'inline T ad@() { return T(); }', 'inline const T ae@() { return {}; }', 'template <> struct QTypeInfo<T *>;', 'inline void af@(QReadWriteLock *l, T x) { QReadLocker k(l); (void)x.begin(); }',
        'struct B@ : QObject { void f(T x) { connect(this, &QObject::destroyed, [&x] { (void)x; }); } };', 'class G@ : public QObject { Q_OBJECT Q_PROPERTY(T x READ x) public: T x() const; Q_SIGNALS: void s(T x); void t(const T &x); void u() const; public Q_SLOTS: T v(T x); };',
        'struct H@ { T *x = new T; ~H@() { delete x; } };', 'inline QString qHash@(bool x) { return QString("%1").arg(x).arg(x, 4); }', 'inline void ag@(T *x) { (void)static_cast<QEvent *>((void *)x); }', 'inline void ah@(T x) { foreach (auto y, x) (void)y; }', 'inline void ai@(const T &x) { while (x.isEmpty()) { QList<T> y; y.append(x); } }',
        'inline bool aj@(QObject *o) { return qobject_cast<T *>(o); }', 'inline void ak@(QObject *p) { auto x = new T(p); x->setParent(p); }', 'inline T al@(const T &x) { T y = x; return std::move(y); }', 'inline void am@(T x) { QString("%1").arg(x).arg(x); }', 'Q_GLOBAL_STATIC(T, an@)', 'inline void ao@(T x, T y) { x = y; x += y; }',
        'inline void ap@(T x) { QObject::connect(&x, SIGNAL(destroyed(QObject*)), &x, SLOT(deleteLater())); }', 'inline bool aq@(const T &x) { return x == QString("abc"); }', 'inline void ar@(T x) { x = T::fromLatin1("abc"); }', 'inline void as@(T x) { for (auto it = x.begin(); it != x.end(); ++it) (void)*it; }']


def matrix(rng, qt, n):
    """A program of one line per use of a class, those that compile with the namespace and without"""
    lines = ['#include <QtCore>', '#include <QtGui>' if qt == 6 else '#include <QtGui>\n#include <QLinkedList>', 'class SD : public QSharedData { };', '']
    lines = '\n'.join(lines).split('\n')
    head = len(lines)
    pairs = [(c, u) for c in CLASSES for u in USES]
    for i, (c, u) in enumerate(rng.sample(pairs, n)):
        lines.append(re.sub(r'\bT\b', lambda _: c, u).replace('@', str(i)))
    return work.Prog('matrix', '\n'.join(lines) + '\n', qt, flags=['-Wno-everything'], env={'CLAZY_EXTRA_OPTIONS': rng.choice(['', 'qstring-arg-fillChar-overloads,qstring-allocations-no-msvc-compat,implicit-casts-bool-to-int,writing-to-temporary-widen-criteria'])}), head


def compiling(p, head, ns, wd):
    """p without the lines that take part in an error, with a plain clang"""
    lines = p.text.split('\n')
    for flags in ([], ['-DQT_NAMESPACE=' + ns]) * 3:
        src = p.with_text('\n'.join(lines)).put(wd)
        r = subprocess.run([build.LLVM + '/bin/clang++', '-fsyntax-only', '-ferror-limit=0', '-fno-caret-diagnostics', '-ftemplate-backtrace-limit=0'] + p.cflags(wd) + flags + [src],
                           capture_output=True, text=True, errors='replace', cwd=wd)
        bad, group, err = set(), set(), False
        for l in r.stderr.split('\n'):
            mm = re.match(r'(?:In file included from )?(\S+?):(\d+):(?:\d+:)? ?(fatal error|error|warning)?', l)
            if mm and mm.group(3):
                if err:
                    bad |= group
                group, err = set(), 'error' in mm.group(3)
            if mm and mm.group(1).endswith('x.cpp') and int(mm.group(2)) > head:
                group.add(int(mm.group(2)))
        if err:
            bad |= group
        if not bad and r.returncode == 0 and flags:
            break
        for l in bad:
            lines[l - 1] = ''
    return p.with_text('\n'.join(lines))


# Calls on what a call through something else than a name returns
VALUES = ['QString', 'QByteArray', 'QStringList', 'QList<int>', 'QList<QString>', 'QVector<int>', 'QSet<int>', 'QSet<QString>', 'QMap<int, int>', 'QMap<int, QString>', 'QHash<int, int>', 'QMultiMap<int, int>', 'QMultiHash<int, int>',
          'QVariant', 'QDateTime', 'QFileInfo', 'QUrl', 'QSharedPointer<QObject>', 'QJsonObject', 'QDir', 'QRegularExpression', 'QElapsedTimer', 'QVarLengthArray<int, 4>', 'QPointer<QObject>']
CALLS = ['f()', '(*f)()', '(o.*g)()', '(o->*g)()', 'h()', 'a[0]()', '[] { return R(); }()', 'std::invoke(f)', 'U<R>().t()', 'o.v', '(c ? f() : f())', 'R(f())', 'static_cast<R &&>(f())', 'std::move(x)', 'x', 'U<R>{}', '(*p)', 'z<R>()', 'O::s()', 'o[0]']
METHODS = ['isEmpty()', 'size()', 'count()', 'length()', 'first()', 'last()', 'begin()', 'end()', 'data()', 'values()', 'keys()', 'values().contains(1)', 'keys().contains(1)', 'values().size()', 'keys().isEmpty()', 'toList().first()', 'intersect(x).isEmpty()',
           'intersect(f()).isEmpty()', 'toList().isEmpty()', 'mid(1)', 'mid(1).toInt()', 'left(1)', 'left(0)', 'left(2) == x', 'toLower() == x', 'toUpper().compare(x)', 'arg(1).arg(2)', 'arg(x).arg(x)', 'toInt()', 'isNull()', 'toUtf8().data()', 'toLatin1().constData()',
           'value<int>()', 'value<QString>()', 'toUTC()', 'toUTC().toMSecsSinceEpoch()', 'exists()', 'data()->objectName()', 'constData()', 'operator[](0)', 'insert({}, {})', 'append({})', 'push_back({})', 'contains({})', 'find({})', 'constBegin()', 'take(1)', 'remove({})',
           'setHost("a")', 'clear()', 'swap(x)', 'fromLatin1("a")', 'split("a").first()', 'at(0)', 'indexOf({})', 'startsWith("a")', 'toMap().first()', 'match("a").captured()', 'restart()', 'toLocalFile()', 'unite(x).size()', 'mid(0, 1).isEmpty()', 'trimmed().toInt()', 'right(1).toDouble()',
           'simplified().split(QLatin1Char(32))', 'toSet().size()', 'toStdString()', 'reserve(3)', 'detach()', 'erase(x.begin())', 'capacity()', 'setValue(1)', 'connect(nullptr, nullptr)', 'get()', 'isValid()', 'operator=({})', 'operator+=(x)', 'operator==(x)', 'toTime_t()', 'addDays(1)']


def chains(rng, qt, n):
    head = ['#include <QtCore>', '#include <functional>', 'template <typename R> struct U { R t() const; operator R() const; }; template <typename R> R z();', 'template <typename R> struct OO { R f(); static R s(); R v; R operator[](int); OO *operator->(); };']
    lines = list(head)
    for i, (r, c, me) in enumerate(rng.sample([(r, c, me) for r in VALUES for c in CALLS for me in METHODS], n)):
        o = '*' if '->' in c else '&'
        lines.append('inline void w%d(%s (*f)(), %s (OO<%s>::*g)(), OO<%s> %so, std::function<%s()> h, %s (*a[2])(), bool c, %s x, %s *p) { using R = %s; using O = OO<R>; (void)(%s.%s); }' % (i, r, r, r, r, o, r, r, r, r, r, c, me))
    return work.Prog('chains', '\n'.join(lines) + '\n', qt, flags=['-Wno-everything']), len(head)
