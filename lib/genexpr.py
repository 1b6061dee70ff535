"""Random programs from a typed grammar: expressions and statements over Qt types that compile, in shapes the checks' authors may not have written down.

%T% stands for an expression of type T, %T&% for a modifiable one.
"""
import re

HEAD = '''#include <QtCore>
#include <algorithm>
#include <functional>
#include <memory>
struct O;
typedef QString (O::*PS)() const;
typedef QStringList (O::*PL)(int);
typedef int (O::*PI)(const QString &) const;
typedef void (O::*PV)(QStringList);
typedef QString (QString::*QS)() const;
typedef int (*FI)(int);
typedef QString (*FS)();
typedef QStringList (*FL)(int);
template <class T> T ident(T t) { return t; }
template <class T> T make() { return T(); }
template <class T> T *ptr() { static T t; return &t; }
template <class T> T &ref() { static T t; return t; }
template <class T> const T &cref() { static T t; return t; }
template <class T> void use(T &&) { }
template <class T, class... R> auto pick(T t, R...) { return t; }
template <class T> struct Box { T v; T get() const { return v; } T &r() { return v; } T *operator->() { return &v; } T &operator*() { return v; } operator T() const { return v; } T operator()() { return v; } T &operator[](int) { return v; } };
inline QString fstr() { return {}; }
inline QStringList flist(int = 0) { return {}; }
inline int fint(int i) { return i; }
static QStringList g_list; static const QStringList gc_list; static QString g_str; static QMap<int, QString> g_map; static int g_int;
namespace ns { inline QString str() { return {}; } inline QStringList list; struct S { static QStringList sl(); QStringList l; }; inline namespace in { inline QString istr() { return {}; } } }
#define ID(...) __VA_ARGS__
#define CALL(f, ...) f(__VA_ARGS__)
#define PAREN(...) (__VA_ARGS__)
#define FIRST(...) __VA_ARGS__.first()
#define DO(...) do { __VA_ARGS__; } while (0)
struct O : public QObject {
    Q_OBJECT
public:
    explicit O(QObject *parent = nullptr) : QObject(parent) { }
    QString m_s; QStringList m_l; QList<int> m_li; QVector<int> m_v; QMap<int, QString> m_m; QHash<QString, int> m_h; QSet<int> m_set; QByteArray m_b; QDateTime m_dt; QVariant m_var; O *m_o = nullptr; int m_i = 0; bool m_bool = false;
    PS m_ps = nullptr; PL m_pl = nullptr; PI m_pi = nullptr; PV m_pv = nullptr; QS m_qs = nullptr; FI m_fi = nullptr; FS m_fs = nullptr; FL m_fl = nullptr;
    std::function<QString(int)> m_fun; Box<QString> m_box; Box<QStringList> m_lbox; std::unique_ptr<O> m_up; QPointer<O> m_qp; QScopedPointer<O> m_sp; QString m_arr[3];
    QString str() const { return m_s; } QStringList list(int = 0) const { return m_l; } const QString &cstr() const { return m_s; } QStringList &rlist() { return m_l; } static QStringList slist(); O *self() { return this; } int num(const QString & = QString()) const { return 1; }
    O *operator->() { return this; } QString operator()(int) { return m_s; } QString &operator[](int i) { return m_arr[i]; } QStringList operator*() { return m_l; } explicit operator bool() const { return true; } operator QString() const { return m_s; }
    virtual int virt(const QString &) { return 0; } virtual void cb(QStringList) { }
Q_SIGNALS:
    void sig(int); void sig2(const QString &);
public Q_SLOTS:
    void slot(int) { } void slot2(const QString &) { }
};
struct P : O { using O::O; int virt(const QString &s) override { return %(pbody)s; } };
'''

E = {
    'QString': ['s', 'm_s', 'g_str', 'cs', 'QString()', 'QString("abc")', 'QStringLiteral("lit")', 'QString::fromLatin1(%cstr%)', 'QString::number(%int%)', 'QString(QLatin1String("l1"))', '%QStringList%.first()', '%QStringList%.at(%int%)',
                '%QStringList&%[%int%]', '%QString%.mid(%int%)', '%QString%.left(1)', '%QString%.trimmed()', '%QString%.toLower()', '(%QString% + %QString%)', '(%QString% + "x")', '("x" + %QString%)', '(this->*m_ps)()', '(%O*%->*m_ps)()', '(%QString%.*m_qs)()',
                '%QMap%.value(%int%)', '%QMap&%[%int%]', '[&] { return %QString%; }()', '[=](int) { return g_str; }(%int%)', '(%bool% ? %QString% : %QString%)', 'static_cast<QString>(%QString%)', 'QString(%QString%)', 'QString{%QString%}', '(%int%, %QString%)',
                'make<QString>()', 'ref<QString>()', 'cref<QString>()', '*ptr<QString>()', 'std::move(%QString&%)', 'std::as_const(%QString&%)', 'ident(%QString%)', '%O*%->str()', '%O*%->m_s', '%O*%->cstr()', 'ID(%QString%)', 'PAREN(%QString%)', 'FIRST(%QStringList%)',
                'CALL(ident, %QString%)', '%QString%.arg(%int%)', '%QString%.arg(%QString%)', '%QString%.arg(%QString%).arg(%QString%)', '%QStringList%.join(%QString%)', '%QByteArray%', '%QVariant%.toString()', '%QVariant%.value<QString>()', 'm_fun(%int%)', 'm_fs()', '(*m_fs)()',
                'm_box.get()', '*m_box', 'm_box()', 'm_box[0]', 'QString(m_box)', 'm_box->mid(1)', '(*this)(1)', '(*this)[1]', 'm_arr[%int%]', '*m_arr', 'fstr()', '::fstr()', 'ns::str()', 'ns::istr()', 'ns::in::istr()', '%QDateTime%.toString()', 'tr("text")', 'QObject::tr(%cstr%)',
                'O::tr("t")', 'pick(%QString%, %int%)', '[](QString x) { return x; }(%QString%)', '[x = %QString%] { return x; }()', '(s = %QString%)', '(s += %QString%)', 's.append(%QString%)', 'QString::fromUtf8(%QByteArray%)', '*%QMap%.begin()', '%QMap%.first()', '*%QStringList%.constBegin()',
                'QString(*this)', 'const_cast<QString &>(cs)', '(const QString &)s', 'QString(QChar(%int%))', 'QString(%int%, QLatin1Char(\' \'))', 'qgetenv("HOME")', 'QString::fromLocal8Bit(qgetenv(%cstr%))', 'm_o->m_o->m_s', 'reinterpret_cast<O *>(m_o)->m_s', 'dynamic_cast<P *>(m_o)->str()'],
    'QStringList': ['l', 'm_l', 'g_list', 'gc_list', 'cl', 'QStringList()', 'QStringList{%QString%}', 'QStringList({%QString%, %QString%})', '%QString%.split(%QString%)', '(this->*m_pl)(%int%)', '(%O*%->*m_pl)(1)', '%O*%->list()', '%O*%->rlist()', '%O*%->m_l', 'slist()', 'O::slist()', 'O::list(%int%)',
                    'make<QStringList>()', 'ref<QStringList>()', '*ptr<QStringList>()', 'cref<QStringList>()', '[&] { return %QStringList%; }()', '(%bool% ? %QStringList% : %QStringList%)', 'static_cast<QStringList>(%QStringList%)', 'std::move(%QStringList&%)', 'std::as_const(%QStringList&%)',
                    'ident(%QStringList%)', 'ID(%QStringList%)', '(%QStringList&% << %QString%)', '(%QStringList% + %QStringList%)', '%QStringList%.mid(%int%)', '%QStringList%.filter(%QString%)', '%QMap%.values()', '%QHash%.keys()', 'flist()', 'm_fl(%int%)', '(*m_fl)(1)', 'm_lbox()', 'm_lbox.r()', '*m_lbox', '**this',
                    'ns::list', 'ns::S::sl()', 'ns::S().l', 'ns::S{%QStringList%}.l', '(l = %QStringList%)', '(%int%, %QStringList%)', 'QStringList(%QStringList%)', '%QVariant%.toStringList()', '%QVariant%.value<QStringList>()', 'pick(%QStringList%)'],
    'QMap': ['m', 'm_m', 'g_map', 'QMap<int, QString>()', 'QMap<int, QString>{{1, %QString%}}', 'make<QMap<int, QString>>()', 'ref<QMap<int, QString>>()', '[&] { return %QMap%; }()', 'ident(%QMap%)', 'std::as_const(m)', '%O*%->m_m', '(%bool% ? %QMap% : %QMap%)'],
    'QHash': ['m_h', 'QHash<QString, int>()', 'make<QHash<QString, int>>()', 'ref<QHash<QString, int>>()', '%O*%->m_h', 'ident(%QHash%)'],
    'QListi': ['m_li', 'QList<int>()', 'QList<int>{1, int(%int%)}', 'make<QList<int>>()', '%QMap%.keys()', '%QHash%.values()', '%O*%->m_li', '(m_li << %int%)', '[&] { return m_li; }()', 'ref<QList<int>>()', 'm_set.values()', '%QListi%.mid(%int%)'],
    'QVector': ['m_v', 'QVector<int>()', 'QVector<int>{int(%int%)}', 'QVector<int>(%int%)', 'make<QVector<int>>()', '%O*%->m_v', 'ref<QVector<int>>()'],
    'QByteArray': ['m_b', 'b', 'QByteArray()', 'QByteArray("b")', '%QString%.toUtf8()', '%QString%.toLatin1()', '%QString%.toLocal8Bit()', 'qgetenv(%cstr%)', 'QByteArray::number(%int%)', '%QByteArray%.mid(1)', '%QByteArray%.toHex()', 'ident(%QByteArray%)', '(%QByteArray% + "x")', 'QByteArray(%cstr%)', '%O*%->m_b',
                   'QByteArrayLiteral("z")', '[&] { return %QByteArray%; }()', '%QVariant%.toByteArray()'],
    'cstr': ['"lit"', '"%1 %2"', '"é"', '""', '"a" "b"', 'm_b.constData()', 'b.data()', '%QByteArray%.constData()', '%QString%.toUtf8().constData()', 'qPrintable(%QString%)', '(%bool% ? "a" : "b")', '__func__', '(const char *)m_b', 'ident("x")', 'ID("y")', 'R"(raw)"', 'nullptr'],
    'int': ['i', 'm_i', 'g_int', '0', '1', '-1', '0x10', "'a'", 'sizeof(%QString%)', '%QString%.size()', '%QString%.length()', '%QStringList%.count()', '%QStringList%.size()', '%QListi%.first()', '%QListi%.at(0)', '%QVector%.last()', '%QVector&%[0]', '%QMap%.size()', '%QMap%.keys().first()', '%QHash%.value(%QString%)',
            '%QHash&%[%QString%]', '%QString%.toInt()', '%QString%.toUtf8().size()', '%QString%.indexOf(%QString%)', '%QString%.mid(1).toInt()', '(%int% + %int%)', '(%int% * %int%)', '(%bool% ? %int% : %int%)', 'int(%int%)', '(int)%int%', 'static_cast<int>(%int%)', '(i = %int%)', 'i++', '--m_i', '(this->*m_pi)(%QString%)',
            '(%O*%->*m_pi)(%QString%)', 'm_fi(%int%)', '(*m_fi)(%int%)', 'fint(%int%)', '[&] { return %int%; }()', '[](auto x) { return x; }(%int%)', '%QVariant%.toInt()', '%QVariant%.value<int>()', '%bool%', '%O*%->num()', '%O*%->num(%QString%)', 'virt(%QString%)', 'O::virt(%QString%)', '%O*%->virt(%QString%)', 'qMax(%int%, %int%)',
            'qBound(1, %int%, 3)', 'std::min<int>(1, %int%)', 'std::max(%QStringList%.size(), %QStringList%.size())', 'rand()', 'PAREN(%int%)', 'ident(%int%)', '*%QListi%.begin()', '*%QVector%.constBegin()', '*std::find(m_li.begin(), m_li.end(), %int%)', '%QDateTime%.time().hour()', '%QDateTime%.date().day()', '%QString%.at(0).unicode()',
            '%QString%.compare(%QString%)', '%QStringList%.indexOf(%QString%)', 'm_set.count()', '%QByteArray%.toInt()', 'qgetenv("X").toInt()', 'decltype(%int%)(0)', '~i', '(1 << %int%)', 'noexcept(%QString%)', 'alignof(QString)', 'm_up->m_i', 'm_qp->m_i', 'm_sp->m_i', '(*m_up).m_i', 'm_up.get()->m_i', '(&m_li)->first()', 'std::invoke(m_fi, %int%)'],
    'bool': ['true', 'false', 'm_bool', 'i', '!%bool%', '(%bool% && %bool%)', '(%bool% || %bool%)', '(%int% < %int%)', '(%int% == %int%)', '(%QString% == %QString%)', '(%QString% != "x")', '(%QString% < %QString%)', '%QString%.isEmpty()', '%QStringList%.isEmpty()', '%QMap%.contains(%int%)', '%QStringList%.contains(%QString%)',
             '%QMap%.keys().contains(%int%)', '%QMap%.values().contains(%QString%)', '(%QString%.size() == 0)', '%QString%.startsWith(%QString%)', '%QString%.contains("x")', 'qgetenv("A").isEmpty()', 'qgetenv(%cstr%).isNull()', '(%O*% != nullptr)', '(qobject_cast<O *>(%O*%) != nullptr)', 'dynamic_cast<P *>(%O*%)', 'bool(%int%)', 'QFile::exists(%QString%)',
             'QFile(%QString%).exists()', 'QFileInfo(%QString%).exists()', '%QVariant%.isValid()', '%QVariant%.toBool()', 'std::any_of(m_l.begin(), m_l.end(), [&](const QString &x) { return x == %QString%; })', 'QDateTime::currentDateTime().isValid()', '(m_li.begin() == m_li.end())', '(m_m.find(%int%) == m_m.end())', '(m_m.find(1) != m_m.constEnd())',
             '(%QDateTime% < QDateTime::currentDateTime())', 'm_set.contains(%int%)', 'QRegularExpression("a+").match(%QString%).hasMatch()', 'QRegularExpression(%QString%).isValid()', '%QString%.contains(QRegularExpression("b"))', 'bool(*this)', '(m_up ? true : false)', '(m_fun ? true : false)'],
    'O*': ['this', 'm_o', 'o', 'self()', 'm_o->self()', 'm_up.get()', 'm_qp.data()', 'm_sp.data()', 'ptr<O>()', '&ref<O>()', 'static_cast<O *>(parent())', 'qobject_cast<O *>(parent())', 'qobject_cast<O *>(%O*%)', 'dynamic_cast<O *>(%O*%)', 'findChild<O *>()', '(%bool% ? %O*% : %O*%)', 'ident(m_o)', '[this] { return this; }()', 'new O', 'new O(this)', 'new P(%O*%)',
           '(*this)->self()', 'const_cast<O *>(static_cast<const O *>(this))', '(O *)m_o', 'qobject_cast<P *>(%O*%)', 'findChildren<O *>().first()', 'findChildren<O *>()[0]'],
    'QVariant': ['m_var', 'QVariant()', 'QVariant(%int%)', 'QVariant(%QString%)', 'QVariant::fromValue(%QString%)', 'QVariant::fromValue<int>(%int%)', 'property("x")', '%O*%->property("y")', 'make<QVariant>()', 'ident(%QVariant%)'],
    'QDateTime': ['m_dt', 'QDateTime()', 'QDateTime::currentDateTime()', 'QDateTime::currentDateTimeUtc()', 'QDateTime::currentDateTime().toUTC()', '%QDateTime%.addDays(%int%)', 'make<QDateTime>()', 'QFileInfo(%QString%).lastModified()', '%QVariant%.toDateTime()'],
    'QString&': ['s', 'm_s', 'g_str', 'ref<QString>()', '*ptr<QString>()', 'm_arr[1]', '%O*%->m_s', 'm_box.r()', '*m_box', 'l[0]', 'm_m[%int%]', '(*this)[0]', '(s = %QString%)', 'l.first()', 'const_cast<QString &>(cs)'],
    'QStringList&': ['l', 'm_l', 'g_list', 'ref<QStringList>()', '%O*%->m_l', '%O*%->rlist()', 'rlist()', '(l << %QString%)', 'm_lbox.r()', '*m_lbox', '(l = %QStringList%)', 'ns::list'],
    'QMap&': ['m', 'm_m', 'g_map', 'ref<QMap<int, QString>>()', '%O*%->m_m'],
    'QHash&': ['m_h', 'ref<QHash<QString, int>>()', '%O*%->m_h'],
    'QVector&': ['m_v', 'ref<QVector<int>>()', '%O*%->m_v'],
    'any': ['%QString%', '%QStringList%', '%int%', '%bool%', '%QMap%', '%QByteArray%', '%QListi%', '%QVector%', '%QVariant%', '%QDateTime%'],
}

S = ['%any%;', '(void)%any%;', 'use(%any%);', 'auto a@ = %any%; use(a@);', 'const auto &a@ = %any%; use(a@);', 'auto &&a@ = %any%; use(a@);', 'QString x@ = %QString%; use(x@);', 'QString x@(%QString%); x@ = %QString%;', 'const QString x@ = %QString%;', 'static const QString x@ = %QString%;', 'QStringList x@ = %QStringList%; x@ << %QString%;',
     'const char *c@ = %cstr%; use(c@);', 'int n@ = %int%; use(n@);', 'bool b@ = %bool%; use(b@);', '%QString&% = %QString%;', '%QString&% += %QString%;', '%QString&% = "lit";', '%QStringList&% << %QString% << %QString%;', '%QStringList&%.append(%QString%);', '%QStringList&% += %QString%;', '%QMap&%.insert(%int%, %QString%);', '%QMap&%[%int%] = %QString%;',
     'm_v.append(%int%);', 'm_li << %int%;', 'm_i = %int%;', 'm_bool = %bool%;', 'm_o = %O*%;', 'm_var = %QVariant%;', 'm_dt = %QDateTime%;', 'if (%bool%) { %S% }', 'if (%bool%) { %S% } else { %S% }', 'if (auto y@ = %QStringList%; !y@.isEmpty()) { %S% }', 'if (O *y@ = %O*%) { y@->slot(1); %S% }', 'while (%bool%) { %S% break; }', 'do { %S% } while (%bool%);',
     'for (int k@ = 0; k@ < %int%; ++k@) { %S% }', 'for (int k@ = 0; k@ < %QStringList%.size(); ++k@) { m_v.append(k@); %S% }', 'for (auto y@ : %QStringList%) { use(y@); %S% }', 'for (const auto &y@ : %QStringList%) { %S% }', 'for (auto &y@ : %QStringList&%) { y@ = %QString%; }', 'for (QString y@ : std::as_const(%QStringList&%)) { %S% }', 'for (const QString y@ : %QStringList%) { use(y@); }',
     'for (auto y@ : %QMap%) { use(y@); }', 'for (int y@ : %QMap%.keys()) { use(y@); }', 'for (auto it@ = m_m.begin(); it@ != m_m.end(); ++it@) { %S% }', 'for (auto it@ = m_m.begin(); it@ != m_m.constEnd(); it@++) { use(it@.value()); }', 'for (QStringList::const_iterator it@ = %QStringList&%.begin(); it@ != %QStringList&%.end(); ++it@) { %S% }',
     'for (const QString &y@ : {%QString%, %QString%}) { use(y@); }', 'Q_FOREACH (const QString &y@, %QStringList%) { %S% }', 'Q_FOREACH (QString y@, %QStringList%) { use(y@); }', 'switch (%int%) { case 0: { %S% break; } case 1: default: break; }', '{ %S% %S% }', 'try { %S% } catch (const QString &) { %S% } catch (...) { }', 'throw %QString%;', 'return;', 'auto f@ = [&] { %S% }; f@();',
     'auto f@ = [=]() mutable { %S% }; f@();', 'auto f@ = [&](auto y@) { use(y@); %S% }; f@(%any%);', 'auto f@ = [&, z@ = %QString%](const QString &y@) -> QString { %S0% return y@ + z@; }; use(f@(%QString%));', 'm_fun = [&](int) { return %QString%; };', 'Q_EMIT sig(%int%);', 'emit sig2(%QString%);', 'sig(%int%);', '%O*%->sig2(%QString%);', 'emit %O*%->sig(%int%);', '%O*%->slot2(%QString%);',
     'connect(%O*%, &O::sig, this, &O::slot);', 'connect(%O*%, &O::sig, [&] { %S0% });', 'connect(this, &O::sig, this, [this](int y@) { use(y@); use(m_s); });', 'connect(m_o, SIGNAL(sig(int)), this, SLOT(slot(int)));', 'QObject::connect(%O*%, SIGNAL(sig2(QString)), %O*%, SLOT(slot2(const QString &)));', 'disconnect(%O*%, &O::sig, this, nullptr);', 'QTimer::singleShot(%int%, this, [&] { %S0% });',
     'QMetaObject::invokeMethod(%O*%, "slot", Q_ARG(int, %int%));', 'qDebug() << %any% << %any%;', 'qWarning() << %QString%;', 'qDebug("%s", %cstr%);', 'Q_ASSERT(%bool%);', 'Q_ASSERT(m_l.removeAll(%QString%) > 0);', 'Q_UNUSED(i);', '(this->*m_pv)(%QStringList%);', '(%O*%->*m_pv)(%QStringList%);', '%O*%->cb(%QStringList%);', 'cb(%QStringList%);', 'delete %O*%;', 'deleteLater();', 'm_o->deleteLater();',
     'std::sort(m_li.begin(), m_li.end());', 'std::for_each(m_l.begin(), m_l.end(), [&](const QString &y@) { use(y@); %S0% });', 'DO(%S%);', 'ID(%S%)', 'struct L@ { QString q; QString get() { return q.mid(1); } ~L@() { use(q); } } l@{%QString%}; use(l@.get());', 'struct M@ : O { void slot(int) { %S0% } }; M@ o@; o@.slot(%int%);', 'using T@ = std::remove_reference<decltype(%any%)>::type; use((T@ *)nullptr);', 'static_assert(sizeof(%QString%) > 0, "");',
     'QReadWriteLock rw@; QReadLocker rl@(&rw@); use(m_m.find(%int%)); %S%', 'QMutex mu@; QMutexLocker ml@(&mu@); %S%', 'QFile fi@(%QString%); fi@.open(QIODevice::ReadOnly); use(fi@.readAll());', 'QScopedPointer<O> sp@(%O*%); sp@->m_s = %QString%;', 'std::unique_ptr<O> up@(new O(%O*%)); up@->m_l.first(); use((*up@).m_l[0]);', 'auto [p@, q@] = std::make_pair(%QString%, %int%); use(p@); use(q@);',
     'QProcess pr@; pr@.start(%QString%, QStringList());', 'QThread *th@ = nullptr; th@->wait(); th@->terminate();', 'QVector<QString> vs@{%QString%}; vs@.push_back(%QString%); use(vs@.data()); use(vs@.first());', 'QList<O *> lo@{%O*%}; qDeleteAll(lo@); lo@.first()->slot(1); lo@[0]->m_s = %QString%;', 'QList<FI> fs@{m_fi}; use(fs@.first()(%int%)); use(fs@[0](1));',
     'QHash<int, FL> hs@; use(hs@[1](2).first()); use(hs@.value(1)(2).count());', 'FL fa@[2] = {flist, flist}; use(fa@[0](1).first()); use((*fa@)(1).begin());', 'std::function<QStringList()> sf@ = [&] { return %QStringList%; }; use(sf@().first()); for (auto y@ : sf@()) use(y@);', 's.QString::clear();', 'this->O::slot(%int%);', 'm_o->O::virt(%QString%);', 'goto end@; end@: %S%', 'QString u@; u@ = %QString%; u@.clear();', 'O o@; o@.m_s = %QString%; use(o@.m_l.first());',
     'QVariantMap vm@{{"k", %QVariant%}}; use(vm@.value("k").toString()); use(vm@["k"]);', 'QPair<QString, int> pp@(%QString%, %int%); use(pp@.first.mid(1));', 'QString ar@[] = {%QString%, %QString%}; for (auto y@ : ar@) use(y@); for (auto &y@ : ar@) y@.clear();', 'int *ip@ = new int[%int%]; delete[] ip@;', 'QString *qp@ = new QString(%QString%); use(qp@->mid(1)); delete qp@;', ';', ';;', 'asm("nop");']


class Gen:
    def __init__(self, rng):
        self.rng, self.n = rng, 0

    def expr(self, t, depth):
        alts = E[t]
        if depth <= 0:
            alts = [a for a in alts if '%' not in re.sub(r'"[^"]*"', '', a)] or alts
        a = self.rng.choice(alts)
        r = self.fill(a, depth - 1)
        if a[0] in '*&~!-' or re.match(r'new |\((const )?[A-Za-z]+ [*&]\)|\(int\)', a):
            r = '(' + r + ')'
        if self.rng.random() < .12 and t not in ('cstr', 'any') and '&' not in t:
            r = '(' + r + ')'
        return r

    def fill(self, text, depth):
        return re.sub(r'%([A-Za-z0*]+&?)%', lambda x: self.hole(x.group(1), depth), text)

    def hole(self, t, depth):
        if t == 'S':
            return self.stmt(depth)
        if t == 'S0':
            return self.stmt(min(depth, 1)) if self.rng.random() < .6 else ''
        return self.expr(t, depth)

    def stmt(self, depth):
        self.n += 1
        n = str(self.n)
        c = self.rng.choice(S)
        if depth <= 0:
            while '%S%' in c:
                c = self.rng.choice(S)
        if 'return' in c or 'throw' in c:
            c = 'if (%bool%) { ' + c + ' }' if c in ('return;', 'throw %QString%;') else c
        return self.fill(c.replace('@', n), depth - 1)

    def program(self, funcs=4, stmts=5, depth=4):
        """The text, and how many statements it holds."""
        rng = self.rng
        out = [HEAD.replace('%(pbody)s', '1')]
        for k in range(funcs):
            params = '(QString s, const QString &cs, QStringList l, const QStringList &cl, QMap<int, QString> m, QByteArray b, int i, O *o)'
            body = []
            for _ in range(stmts):
                body.append('    ' + self.stmt(rng.randrange(1, depth + 1)))
            kind = rng.choice(['member', 'member', 'derived', 'template', 'ctor', 'dtor', 'nested', 'lambda', 'const'])
            text = '\n'.join(body)
            decl = 'QString s; const QString cs; QStringList l; const QStringList cl; QMap<int, QString> m; QByteArray b; int i = 0; O *o = nullptr;'
            n = 'F%d' % k
            if kind in ('member', 'const'):
                out.append('struct %s : O { void run%s {\n%s\n} };' % (n, params, text))
            elif kind == 'derived':
                out.append('struct %s : P { void run%s; };\nvoid %s::run%s {\n%s\n}' % (n, params, n, params, text))
            elif kind == 'template':
                out.append('template <class T> struct %s : O { template <class U> void run%s {\n%s\n} };\ntemplate struct %s<int>; inline void inst%s(%s<QString> *p) { p->run<int>({}, {}, {}, {}, {}, {}, 1, nullptr); }' % (n, params, text, n, n, n))
            elif kind == 'ctor':
                out.append('struct %s : O { %s(QObject *parent = nullptr) : O(parent) { %s\n%s\n} };' % (n, n, decl, text))
            elif kind == 'dtor':
                out.append('struct %s : O { ~%s() { %s\n%s\n} };' % (n, n, decl, text.replace('throw ', 'use('[:0] + '(void)')))
            elif kind == 'nested':
                out.append('namespace n%d { namespace { struct %s : O { struct In : P { void run%s {\n%s\n} }; }; } }' % (k, n, params, text))
            else:
                out.append('struct %s : O { void run%s {\n auto lam = [&](auto zz) { use(zz);\n%s\n }; lam(1); lam(QString()); } };' % (n, params, text))
        t = '\n'.join(out) + '\n'
        return t.replace('rand()', 'rand()')
