"""Programs that run and print, full of code the checks offer edits for: every operand has a known value, every statement works on fresh data and prints
what it computed and what it left behind. {T} stands for an expression of type T, {T&} for a modifiable one, @ for the statement's number.
"""
import re

HEAD = r'''#include <QtCore>
#include <QtGui/QColor>
#include <cstdio>
#include <functional>
#include <memory>
static int evals;
static QByteArray show(const QString &s) { return s.isNull() ? QByteArray("null") : '"' + s.toUtf8() + '"'; }
static QByteArray show(const QByteArray &s) { return s.isNull() ? QByteArray("null") : '"' + s + '"'; }
static QByteArray show(qlonglong i) { return QByteArray::number(i); }
template <class T> static QByteArray show(const QList<T> &l) { QByteArray r = "["; for (int i = 0; i < l.size(); ++i) r += show(l.at(i)) + ","; return r + "]"; }
#if QT_VERSION < QT_VERSION_CHECK(6, 0, 0)
static QByteArray show(const QStringList &l) { return show<QString>(l); }
template <class T> static QByteArray show(const QVector<T> &l) { QByteArray r = "["; for (int i = 0; i < l.size(); ++i) r += show(l.at(i)) + ","; return r + "]"; }
#endif
template <class K, class V> static QByteArray show(const QMap<K, V> &m) { QByteArray r = "{"; for (auto it = m.constBegin(); it != m.constEnd(); ++it) r += show(it.key()) + ":" + show(it.value()) + ","; return r + "}"; }
template <class K, class V> static QByteArray show(const QHash<K, V> &m) { QByteArray r = "{"; for (auto it = m.constBegin(); it != m.constEnd(); ++it) r += show(it.key()) + ":" + show(it.value()) + ","; return r + "}"; }
static void put(int id, const char *what, const QByteArray &v) { std::printf("%d %s %s\n", id, what, v.constData()); std::fflush(stdout); }
static void outS(int id, const QString &s) { put(id, "S", show(s)); }
static void outL(int id, const QStringList &s) { put(id, "L", show(s)); }
static void outI(int id, qlonglong i) { put(id, "I", show(i)); }
static void outB(int id, bool b) { put(id, "B", b ? "true" : "false"); }
static void outA(int id, const QByteArray &b) { put(id, "A", show(b)); }
static void outD(int id, double d) { put(id, "D", QByteArray::number(d, 'g', 12)); }
static void outC(int id, const QColor &c) { put(id, "C", c.isValid() ? show(c.name(QColor::HexArgb)) : QByteArray("invalid")); }
static void outP(int id, const char *p) { put(id, "P", p ? QByteArray(p) : QByteArray("null")); }
static QString takeS(QString s) { return s; }
static QString takeCS(const QString &s) { return s; }
static QStringList takeL(const QStringList &l) { return l; }
static QString overS(const QString &) { return QLatin1String("QString"); }
static QString overS(QLatin1String) { return QLatin1String("latin1"); }
struct Item { int n = 0; QString t; int num() const { return n; } void set(int i) { n = i; } };
struct W;
class Obj : public QObject
{
    Q_OBJECT
public:
    QStringList log;
    Obj() { setObjectName(QString(QChar('o'))); }
    QString name() const { return objectName(); }
Q_SIGNALS:
    void one(int);
    void two(const QString &s);
    void over(int);
    void over(const QString &);
    void none();
public Q_SLOTS:
    void onInt(int i) { log << QString(QChar('i')) + QString::number(i); }
    void onStr(const QString &s) { log << s; }
    void onNone() { log << QString(QChar('n')); }
    void slot(int i) { log << QString(QChar('x')) + QString::number(i); }
    void slot(const QString &s) { log << QString(QChar('y')) + s; }
};
static QStringList glist() { ++evals; return QString::fromUtf8("x y z").split(QLatin1Char(' ')); }
static QString gstr() { ++evals; return QString::number(4711) + QLatin1Char('g'); }
static QMap<int, QString> gmap() { ++evals; QMap<int, QString> m; m.insert(1, QString::number(10)); m.insert(2, QString::number(20)); return m; }
static QVector<int> gvec() { ++evals; QVector<int> v; v.append(5); v.append(6); return v; }
static QList<Item> gitems() { ++evals; QList<Item> l; l.append(Item()); l.append(Item()); return l; }
static int gint() { ++evals; return 1; }
static QString gs = QString::number(77);
static const QStringList gcl = QString::fromUtf8("p q").split(QLatin1Char(' '));
namespace ns { static QStringList list() { ++evals; return glist(); } struct In { QStringList l = glist(); QStringList get() const { ++evals; return l; } }; }
#define SAME(...) __VA_ARGS__
'''

W = r'''
//@W
struct W {
    QString m_s = QString::fromUtf8("alpha 12 beta"); QStringList m_l = glist(); QList<int> m_li; QVector<int> m_v = gvec(); QMap<int, QString> m_m = gmap(); QHash<QString, int> m_h; QByteArray m_b = QByteArray::number(55); QList<Item> m_it = gitems(); QMultiMap<int, int> m_mm;
    int m_i = 1; bool m_t = true, m_f = false; QScopedPointer<Obj> m_sp{new Obj}; QSharedPointer<Obj> m_shp{new Obj}; QPointer<Obj> m_qp{m_sp.data()}; Obj *m_o = m_sp.data(); W *m_w = this; QString m_arr[2] = {gs, gs}; ns::In m_in; std::unique_ptr<ns::In> m_up{new ns::In};
    QList<QStringList> m_ll; QString *m_ps = &m_s; QMap<QString, QStringList> m_ml;
    W() { m_li.append(3); m_li.append(1); m_h.insert(m_s, 7); m_ll.append(m_l); m_ml.insert(m_s, m_l); m_mm.insert(1, 2); m_mm.insert(1, 3); evals = 0; }
    QStringList list() const { ++evals; return m_l; } QStringList &rlist() { ++evals; return m_l; } const QStringList &clist() const { ++evals; return m_l; } QString str() const { ++evals; return m_s; } W *self() { ++evals; return this; } QMap<int, QString> map() const { ++evals; return m_m; }
    QList<Item> items() const { ++evals; return m_it; } QVector<int> vec() const { ++evals; return m_v; } QHash<QString, int> hash() const { ++evals; return m_h; } QStringList operator()() const { ++evals; return m_l; } QStringList operator[](int) const { ++evals; return m_l; }
    void dump(int id) { put(id, "=", show(m_s) + show(m_l) + show(m_li) + show(m_v) + show(m_m) + show(m_h) + show(m_b) + show(m_ll.value(0)) + show(m_it.size() ? m_it.at(0).n : -1) + show(m_in.l) + show(m_up->l) + show(m_arr[0]) + show(m_i) + (m_o ? show(m_o->log) + show(m_o->objectName()) : QByteArray()) + show(evals)); }
'''

E = {
    'S': ['s', 'm_s', 'gs', 'gstr()', 'str()', 'this->m_s', 'm_w->m_s', 'm_w->str()', 'self()->m_s', '(*m_w).m_s', 'm_l.at(0)', 'm_m.value(1)', 'm_arr[1]', '(*m_ps)', '({S})', '{S}.mid(1)', '{S}.toUpper()', '({S} + QLatin1Char(\'c\'))', '(m_t ? {S} : {S})', 'QString({S})', 'takeS({S})',
          'ident({S})', '[&] { return {S}; }()', 'QString::number({I})', 'static_cast<QString>({S})', 'SAME({S})', 'm_sp->objectName()', 'm_qp->name()', 'std::move(QString({S}))', '(m_i, {S})', 'lref', 'cref', '(s = {S})', 'u8s', 'm_up->l.at(1)'],
    'S&': ['s', 'm_s', 'this->m_s', 'm_w->m_s', 'self()->m_s', '(*m_w).m_s', 'm_arr[0]', '(*m_ps)', '(m_s)', 'm_arr[m_i]'],
    'L': ['l', 'm_l', 'gcl', 'glist()', 'list()', 'clist()', 'rlist()', 'm_w->m_l', 'm_w->list()', 'self()->list()', '(*m_w).m_l', '({L})', 'ns::list()', 'm_in.get()', 'm_up->get()', 'ident({L})', '[&] { return {L}; }()', '(m_t ? {L} : {L})', '{S}.split(QLatin1Char(\'1\'))', '({L} + {L})', 'm_ll.at(0)', 'ns::In().l', 'ns::In().get()', '(*this)()', '(*m_w)[0]', 'QStringList({L})'],
    'L&': ['l', 'm_l', 'this->m_l', 'm_w->m_l', '(*m_w).m_l', 'self()->m_l', 'rlist()', 'm_in.l', 'm_up->l', '(*m_up).l', '(m_l)', '(*m_w) . m_l', 'm_ll[0]', 'm_ml[m_s]'],
    'ML': ['m_l', 'this->m_l', 'm_w->m_l', '(*m_w).m_l', 'self()->m_l', 'm_in.l', 'm_up->l', '(*m_up).l', '(m_l)', '(*this).m_l', 'm_w -> m_l', '(m_w)->m_l', 'm_up.get()->l', 'm_w->m_w->m_l', '((m_l))', 'W::m_l', 'this->W::m_l', 'wr.m_l'],      # member containers
    'TL': ['glist()', 'list()', 'm_w->list()', 'self()->list()', '(*m_w).list()', 'ns::list()', 'm_in.get()', 'm_up->get()', '(list())', '::glist()', '(*this)()', 'ident(l)', 'm_w->m_w->list()', 'W::list()', 'ns :: list()', 'takeL(m_l)', '[&] { return m_l; }()', 'm_ll.at(0)', 'm_ll.value(0)'],   # temporary lists
    'I': ['m_i', '1', 'gint()', '(m_i)', '0', 'int(m_t)', '0x1', '(1 - m_i)', '(m_t ? 1 : 0)', "('b' - 'a')"],
    'B': ['m_t', 'm_f', '!{B}', '({B} && {B})', '({B} || {B})', '{S}.isEmpty()', '({I} == {I})', '{L}.contains({S})'],
    'lit': ['"abc"', '"12"', '"a b"', '"x%"', '"é"', '"\\n"', '"\\x41\\x42"', '"a" "b"', '""', '"\\"q\\""', 'R"(raw)"', '"\\u00e9"', '"\\0z"', '"// no"', '"QString"', '"QLatin1String(\\"a\\")"'],
    'ascii': ['"abc"', '"12"', '"a b"', '"x/y"', '"\\n"', '"a" "b"', '"\\"q\\""', 'R"(raw)"', '"\\x41"'],
}

# (check, statement, Qt versions) -- everything declared is local to the statement
S = [
    # detaching-temporary
    ('detaching-temporary', 'outS(@, {TL}.first());'), ('detaching-temporary', 'outS(@, {TL}.last());'), ('detaching-temporary', 'outS(@, {TL}[{I}]);'), ('detaching-temporary', 'outS(@, *{TL}.begin());'), ('detaching-temporary', 'outS(@, *({TL}.end() - 1));', 5), ('detaching-temporary', 'outS(@, {TL}.front());'),
    ('detaching-temporary', 'outS(@, {TL}.back().mid({I}));'), ('detaching-temporary', '{TL}[{I}] = {S};'), ('detaching-temporary', 'outS(@, ({TL})[{I}]);'), ('detaching-temporary', 'outS(@, map()[{I}]);'), ('detaching-temporary', 'outS(@, gmap() [1]);'), ('detaching-temporary', 'outS(@, gmap().first());'),
    ('detaching-temporary', 'outS(@, m_w->map()[2].mid(1));'), ('detaching-temporary', 'gmap()[1] = {S};'), ('detaching-temporary', 'outI(@, vec()[{I}]);'), ('detaching-temporary', 'outI(@, gvec().first());'), ('detaching-temporary', 'outI(@, *gvec().data());'), ('detaching-temporary', 'outI(@, hash()[m_s]);'), ('detaching-temporary', 'outI(@, items()[{I}].num());'),
    ('detaching-temporary', 'items()[0].set(4);'), ('detaching-temporary', 'items().first().set(4);'), ('detaching-temporary', 'gitems()[0].n = 3;'), ('detaching-temporary', 'gvec()[0]++;'), ('detaching-temporary', 'outI(@, (items()[0].n = 5));'), ('detaching-temporary', 'gvec().insert(0, 1);'), ('detaching-temporary', 'auto q@ = glist().takeFirst(); outS(@, q@);'),
    ('detaching-temporary', 'QString q@ = {TL}[0] + {TL}.first(); outS(@, q@);'), ('detaching-temporary', 'outS(@, map().find(1).value());'), ('detaching-temporary', 'outB(@, {TL}.begin() == {TL}.end());'),
    # detaching-member
    ('detaching-member', 'outS(@, {ML}.first());'), ('detaching-member', 'outS(@, {ML}.last());'), ('detaching-member', 'outS(@, {ML}[{I}]);'), ('detaching-member', 'outS(@, *{ML}.begin());'), ('detaching-member', 'outS(@, ({ML}[{I}]).mid(1));'), ('detaching-member', '{ML}[{I}] = {S};'), ('detaching-member', '{ML}.first() = {S};'), ('detaching-member', '{ML}[0].append({S});'),
    ('detaching-member', '{ML}.first().clear();'), ('detaching-member', '{ML}[{I}] += {S};'), ('detaching-member', 'QString &r@ = {ML}[0]; r@ = {S};'), ('detaching-member', 'QString &r@ = {ML}.first(); r@ = {S};'), ('detaching-member', 'auto &r@ = {ML}.last(); r@ = {S};'), ('detaching-member', 'const QString r@ = {ML}[{I}]; outS(@, r@);'), ('detaching-member', 'auto r@ = {ML}.first(); r@ += {S}; outS(@, r@);'),
    ('detaching-member', 'outS(@, m_m[1]);'), ('detaching-member', 'outS(@, m_m[{I} * 0 + 2].mid(1));'), ('detaching-member', 'm_m[{I}] = {S};'), ('detaching-member', 'outI(@, m_h[m_s]);'), ('detaching-member', 'outI(@, m_w->m_h [ m_s ]);'), ('detaching-member', 'm_h[m_s]++;'), ('detaching-member', 'm_h[m_s] += 2;'), ('detaching-member', 'outI(@, m_v[{I}]);'), ('detaching-member', 'm_v[{I}] = {I};'),
    ('detaching-member', 'outI(@, m_v.first() + m_v[1]);'), ('detaching-member', 'outI(@, m_it[{I}].num());'), ('detaching-member', 'm_it[0].set(9);'), ('detaching-member', 'm_it[0].n = 9;'), ('detaching-member', 'm_it.first().n++;'), ('detaching-member', 'outI(@, m_it.first().n);'), ('detaching-member', 'Item *p@ = &m_it[0]; p@->n = 3;'), ('detaching-member', 'std::swap({ML}[0], {ML}[1]);'),
    ('detaching-member', 'for (auto it = {ML}.begin(); it != {=}.end(); ++it) outS(@, *it);'), ('detaching-member', 'for (auto it = {ML}.begin(); it != {=}.end(); ++it) *it = {S};'), ('detaching-member', 'auto it@ = {ML}.begin(); *it@ = {S};'), ('detaching-member', 'QStringList::iterator it@ = {ML}.begin(); *it@ = {S};'), ('detaching-member', 'QStringList::const_iterator it@ = {ML}.begin(); outS(@, *it@);'),
    ('detaching-member', 'std::sort({ML}.begin(), {=}.end());'), ('detaching-member', 'outI(@, std::count({ML}.begin(), {=}.end(), {S}));'), ('detaching-member', 'auto it@ = m_m.find(1); outS(@, it@.value());'), ('detaching-member', 'auto it@ = m_m.find(1); it@.value() = {S};'), ('detaching-member', 'outB(@, m_m.find({I}) == m_m.end());'), ('detaching-member', 'outS(@, {ML}.front() + {ML}.back());'),
    ('detaching-member', 'char *p@ = m_b.data(); p@[0] = 65;'), ('detaching-member', 'outP(@, m_b.data());'), ('detaching-member', 'outI(@, m_ll[0][1].size());'), ('detaching-member', 'm_ll[0][1] = {S};'), ('detaching-member', 'outI(@, m_b[0]);'), ('detaching-member', 'm_b[0] = 66;'), ('detaching-member', 'outI(@, m_ll.first().first().size());'), ('detaching-member', 'm_ll.first().first() = {S};'),
    ('detaching-member', 'outS(@, m_m.first());'), ('detaching-member', '{ML}.erase({=}.begin());'), ('detaching-member', 'm_ml[m_s].append({S});'), ('detaching-member', 'm_ml[m_s] << {S};'), ('detaching-member', 'outS(@, m_ml[m_s][1]);'), ('detaching-member', 'outI(@, -m_v[0]);'), ('detaching-member', 'outB(@, !m_v.first());'), ('detaching-member', 'takeS({ML}[0]).clear();'),
    ('detaching-member', 'auto f@ = [](QString &x) { x.clear(); }; f@({ML}[0]);'), ('detaching-member', 'auto f@ = [](QString *x) { x->clear(); }; f@(&{ML}.first());'), ('detaching-member', 'outS(@, m_t ? {ML}[0] : {ML}.last());'), ('detaching-member', '(m_t ? {ML}[0] : {ML}.last()) = {S};'), ('detaching-member', 'const auto &r@ = {ML}[1]; outS(@, r@);'), ('detaching-member', 'm_in.l.first().remove(0, 1);'),
    # qstring-allocations
    ('qstring-allocations', 'QString q@ = {lit}; outS(@, q@);'), ('qstring-allocations', 'QString q@({lit}); outS(@, q@);'), ('qstring-allocations', 'QString q@{{lit}}; outS(@, q@);'), ('qstring-allocations', 'outS(@, QString({lit}));'), ('qstring-allocations', 'outS(@, {lit});'), ('qstring-allocations', 'outS(@, QString({lit}).mid({I}));'), ('qstring-allocations', '{S&} = {lit};'), ('qstring-allocations', '{S&} += {lit};'),
    ('qstring-allocations', '{S&}.append({lit});'), ('qstring-allocations', 'outB(@, {S} == {lit});'), ('qstring-allocations', 'outB(@, {S}.startsWith({lit}));'), ('qstring-allocations', 'outB(@, {S}.contains({lit}));'), ('qstring-allocations', 'outI(@, {S}.indexOf({lit}));'), ('qstring-allocations', 'outS(@, takeS({S}).remove({lit}));'), ('qstring-allocations', 'outS(@, QString({S}).replace({lit}, {lit}));'), ('qstring-allocations', 'outS(@, {S} + {lit});'),
    ('qstring-allocations', 'outS(@, {lit} + {S});'), ('qstring-allocations', 'outS(@, {S} + {lit} + {S});'), ('qstring-allocations', 'outS(@, QString::fromLatin1({ascii}));'), ('qstring-allocations', 'outS(@, QString::fromUtf8({lit}));'), ('qstring-allocations', 'QString q@ = QString::fromLatin1({ascii}); outS(@, q@);'), ('qstring-allocations', 'outS(@, QString::fromUtf8({lit}).arg({I}));'), ('qstring-allocations', 'outS(@, QString::fromLatin1({ascii}, 1));'),
    ('qstring-allocations', 'outS(@, QString(QLatin1String({ascii})));'), ('qstring-allocations', 'QString q@ = QLatin1String({ascii}); outS(@, q@);'), ('qstring-allocations', 'QString q@(QLatin1String({ascii})); outS(@, q@);'), ('qstring-allocations', 'outS(@, QLatin1String({ascii}));'), ('qstring-allocations', '{S&} = QLatin1String({ascii});'), ('qstring-allocations', '{S&} = m_t ? QLatin1String({ascii}) : QLatin1String({ascii});'), ('qstring-allocations', 'QString q@ = m_f ? QLatin1String({ascii}) : QLatin1String({ascii}); outS(@, q@);'),
    ('qstring-allocations', 'outS(@, QLatin1String({ascii}) + {S});'), ('qstring-allocations', 'outS(@, m_t ? QString({lit}) : {S});'), ('qstring-allocations', 'outS(@, m_f ? {S} : {lit});', 0), ('qstring-allocations', 'QStringList q@ = {{lit}, {lit}}; outL(@, q@);'), ('qstring-allocations', 'QStringList q@({lit}); outL(@, q@);'), ('qstring-allocations', 'outL(@, QStringList() << {lit} << {S} << {lit});'), ('qstring-allocations', '{L&} << {lit};'), ('qstring-allocations', '{L&}.append({lit});'),
    ('qstring-allocations', 'outS(@, takeS({lit}));'), ('qstring-allocations', 'outS(@, takeCS(QLatin1String({ascii})));'), ('qstring-allocations', 'outS(@, overS({lit}));'), ('qstring-allocations', 'outS(@, overS(QString({lit})));'), ('qstring-allocations', 'outS(@, overS(QLatin1String({ascii})));'), ('qstring-allocations', 'outS(@, {S}.isEmpty() ? QString() : QString({lit}));'), ('qstring-allocations', 'outS(@, [] { return QString({lit}); }());'),
    ('qstring-allocations', 'auto f@ = []() -> QString { return {lit}; }; outS(@, f@());'), ('qstring-allocations', 'auto f@ = [](const QString &x = {lit}) { return x; }; outS(@, f@());'), ('qstring-allocations', 'const char *c@ = {lit}; outS(@, QString(c@));'), ('qstring-allocations', 'static const QString q@ = QString({lit}); outS(@, q@);'), ('qstring-allocations', 'outI(@, sizeof(QString({lit})));'), ('qstring-allocations', 'outS(@, QString({lit}) + QString({lit}));'),
    ('qstring-allocations', 'm_h.insert({lit}, 3); outI(@, m_h.value({lit}));'), ('qstring-allocations', 'outI(@, m_h[{lit}]);'), ('qstring-allocations', 'outS(@, {S}.arg({lit}));'), ('qstring-allocations', 'outS(@, QString({lit}).arg({S}));'), ('qstring-allocations', 'outB(@, {L}.contains({lit}));'), ('qstring-allocations', 'outI(@, QString({lit}).size());'), ('qstring-allocations', 'outB(@, QString({lit}).isNull());'), ('qstring-allocations', 'outB(@, QString({lit}) == QString({lit}));'),
    ('qstring-allocations', 'QVariant v@ = QString({lit}); outS(@, v@.toString());'), ('qstring-allocations', 'm_o->setObjectName({lit});'), ('qstring-allocations', 'm_o->setObjectName(QLatin1String({ascii}));'), ('qstring-allocations', 'outS(@, ("a" + QString({lit})));'), ('qstring-allocations', 'QString *p@ = new QString({lit}); outS(@, *p@); delete p@;'), ('qstring-allocations', 'QString q@[] = {QString({lit}), {lit}}; outS(@, q@[0] + q@[1]);'),
    ('qstring-allocations', 'outS(@, QStringList({lit}).join({lit}));'), ('qstring-allocations', 'outS(@, {L}.join({lit}));'), ('qstring-allocations', 'struct T@ { QString t; }; T@ t@ = {QString({lit})}; outS(@, t@.t);'), ('qstring-allocations', 'struct T@ { QString t = {lit}; T@() : t({lit}) { } }; outS(@, T@().t);'), ('qstring-allocations', 'if ({S} == QLatin1String({ascii}) || {S} == {lit}) outI(@, 1);'), ('qstring-allocations', 'switch (QString({lit}).size()) { case 3: outI(@, 3); break; default: outI(@, 0); }'),
    ('qstring-allocations', 'outS(@, (QString)QLatin1String({ascii}));'), ('qstring-allocations', 'outS(@, static_cast<QString>({lit}));'), ('qstring-allocations', 'outS(@, (QString){lit});'), ('qstring-allocations', 'QString q@; q@ = QString({lit}); outS(@, q@);'), ('qstring-allocations', 'QString q@ = QString({lit}); outS(@, q@);'), ('qstring-allocations', 'QString q@ = QString::fromUtf8({lit}).trimmed(); outS(@, q@);'), ('qstring-allocations', 'outS(@, QString::fromLatin1({ascii}) + {S});'),
    # qstring-ref (Qt 5)
    ('qstring-ref', 'outI(@, {S}.mid({I}).toInt());', 5), ('qstring-ref', 'outI(@, {S}.left(3).length());', 5), ('qstring-ref', 'outB(@, {S}.right(2).isEmpty());', 5), ('qstring-ref', 'outB(@, {S}.mid(1, 2).contains({S}));', 5), ('qstring-ref', 'outI(@, {S}.mid(1, 2).indexOf(QLatin1Char(\'1\')));', 5), ('qstring-ref', '{S&}.append({S}.mid(1));', 5), ('qstring-ref', '{S&} += {S}.left({I});', 5), ('qstring-ref', 'outI(@, {S}.compare({S}.mid(1)));', 5),
    ('qstring-ref', 'outB(@, {S}.left(2).isNull());', 5), ('qstring-ref', 'outB(@, {S}.mid(20).isNull());', 5), ('qstring-ref', 'bool ok@; outI(@, {S}.mid(6, 2).toInt(&ok@)); outB(@, ok@);', 5), ('qstring-ref', 'outD(@, {S} .mid ( 6, 2 ) .toDouble());', 5), ('qstring-ref', 'outB(@, {S}.mid(2).startsWith({S}));', 5), ('qstring-ref', 'outI(@, {S}.count({S}.left(1)));', 5), ('qstring-ref', 'outB(@, {S}.endsWith({S}.right(1)));', 5), ('qstring-ref', 'outI(@, {S}.mid(1).mid(1).size());', 5),
    # qgetenv
    ('qgetenv', 'outB(@, qgetenv("VP_SET").isEmpty());'), ('qgetenv', 'outB(@, qgetenv("VP_UNSET").isEmpty());'), ('qgetenv', 'outB(@, qgetenv("VP_SET").isNull());'), ('qgetenv', 'outB(@, !qgetenv("VP_UNSET").isNull());'), ('qgetenv', 'outI(@, qgetenv("VP_NUM").toInt());'), ('qgetenv', 'bool ok@ = false; outI(@, qgetenv("VP_SET").toInt(&ok@)); outB(@, ok@);'), ('qgetenv', 'bool ok@ = true; outI(@, qgetenv("VP_NUM").toInt(&ok@, 0)); outB(@, ok@);'),
    ('qgetenv', 'outI(@, qgetenv("VP_OCT").toInt(nullptr, 10));'), ('qgetenv', 'bool ok@ = false; outI(@, qgetenv("VP_OCT").toInt(&ok@, 10)); outB(@, ok@);'), ('qgetenv', 'outI(@, qgetenv("VP_OCT").toInt(nullptr, 8));'), ('qgetenv', 'outI(@, qgetenv("VP_OCT").toInt(nullptr, 0));'), ('qgetenv', 'outI(@, qgetenv("VP_OCT").toInt(nullptr, 2));'), ('qgetenv', 'const int base@ = 10; outI(@, qgetenv("VP_OCT").toInt(nullptr, base@));'),
    ('qgetenv', 'outI(@, qgetenv("VP_HEX").toInt(nullptr, 16));'), ('qgetenv', 'outB(@, qgetenv("VP_EMPTY").isEmpty());'), ('qgetenv', 'outB(@, (qgetenv)("VP_EMPTY").isNull());'), ('qgetenv', 'const char *n@ = "VP_SET"; if (!qgetenv(n@).isEmpty()) outI(@, 1);'), ('qgetenv', 'outB(@, ::qgetenv(m_t ? "VP_SET" : "VP_UNSET").isEmpty());'), ('qgetenv', 'outI(@, qgetenv("VP_NUM").toInt(m_t ? nullptr : &m_f));'), ('qgetenv', 'outI(@, 2 * qgetenv("VP_NUM") . toInt() + 1);'),
    # qdatetime-utc
    ('qdatetime-utc', 'outB(@, qAbs(QDateTime::currentDateTime().toUTC().secsTo(QDateTime::currentDateTimeUtc())) < 30);'), ('qdatetime-utc', 'outI(@, QDateTime::currentDateTime().toUTC().timeSpec());'), ('qdatetime-utc', 'outB(@, QDateTime::currentDateTime().toMSecsSinceEpoch() > 1000000000000LL);'), ('qdatetime-utc', 'outB(@, QDateTime::currentDateTimeUtc().toSecsSinceEpoch() > 1000000000LL);'), ('qdatetime-utc', 'QDateTime d@ = ::QDateTime::currentDateTime() . toUTC(); outB(@, d@.isValid());'),
    # qfileinfo-exists
    ('qfileinfo-exists', 'outB(@, QFileInfo("/dev/null").exists());'), ('qfileinfo-exists', 'outB(@, QFileInfo({S}).exists());'), ('qfileinfo-exists', 'outB(@, !QFileInfo(QString("/") + QLatin1String("dev")).exists());'), ('qfileinfo-exists', 'outB(@, QFileInfo { {S} } . exists());'), ('qfileinfo-exists', 'outB(@, (QFileInfo({S})).exists() && {B});'), ('qfileinfo-exists', 'if (QFileInfo(QLatin1String("/dev/null")).exists()) outI(@, 1);'), ('qfileinfo-exists', 'QFileInfo f@({S}); outB(@, f@.exists());'), ('qfileinfo-exists', 'outB(@, QFileInfo(QFile({S})).exists());'), ('qfileinfo-exists', 'outB(@, QFileInfo(QDir("/dev"), "null").exists());'),
    # qcolor-from-literal
    ('qcolor-from-literal', 'outC(@, QColor("#102030"));'), ('qcolor-from-literal', 'outC(@, QColor("#123"));'), ('qcolor-from-literal', 'outC(@, QColor("#80ff0010"));'), ('qcolor-from-literal', 'QColor c@("#0a0b0c"); outC(@, c@);'), ('qcolor-from-literal', 'QColor c@ = QColor{"#00000000"}; outC(@, c@);'), ('qcolor-from-literal', 'QColor c@; c@.setNamedColor("#ff0011"); outC(@, c@);'), ('qcolor-from-literal', 'QColor c@ = "#abcdef"; outC(@, c@);'), ('qcolor-from-literal', 'outC(@, m_t ? QColor("#fff") : QColor("#000"));'), ('qcolor-from-literal', 'outC(@, "#12345678");'),
    # auto-unexpected-qstringbuilder
    ('auto-unexpected-qstringbuilder', 'const auto q@ = "a" + s; outS(@, q@);'), ('auto-unexpected-qstringbuilder', 'auto q@ = s + m_s + QLatin1Char(\'z\'); outS(@, q@);'), ('auto-unexpected-qstringbuilder', 'auto  const  q@ = m_s + "b"; outS(@, q@);'), ('auto-unexpected-qstringbuilder', 'static auto q@ = s + m_s; outS(@, q@);'), ('auto-unexpected-qstringbuilder', 'auto q@ = s + m_s, p@ = m_s + s; outS(@, q@); outS(@, p@);'), ('auto-unexpected-qstringbuilder', 'if (auto q@ = s + m_s; true) outS(@, q@);'), ('auto-unexpected-qstringbuilder', 'auto q@{s + m_s}; outS(@, q@);'), ('auto-unexpected-qstringbuilder', 'auto q@(m_s + s); outS(@, q@);'),
    # range-loop-detach, range-loop-reference
    ('range-loop-detach', 'for (auto y : {ML}) outS(@, y);'), ('range-loop-detach', 'for (const QString &y : {ML}) outS(@, y);'), ('range-loop-detach', 'for (QString y : {L&}) outS(@, y);'), ('range-loop-detach', 'for (auto &y : {ML}) y += {S};'), ('range-loop-detach', 'for (auto y : m_v) outI(@, y);'), ('range-loop-detach', 'for (const auto y : {ML}) outS(@, y);'), ('range-loop-detach', 'for (auto y : m_m) outS(@, y);'), ('range-loop-detach', 'for (auto y : glist()) outS(@, y);'), ('range-loop-detach', 'for (auto &&y : {ML}) y = {S};'),
    ('range-loop-reference', 'for (QString y : {L}) { y += {S}; outS(@, y); }'), ('range-loop-reference', 'for (const QString y : {L}) outS(@, y);'), ('range-loop-reference', 'for (auto y : {L}) { outS(@, y); }'), ('range-loop-reference', 'for (auto y : {L}) { QString &z = y; z.clear(); outS(@, y); }'), ('range-loop-reference', 'for (Item y : m_it) { y.n++; outI(@, y.n); }'), ('range-loop-reference', 'for (Item y : m_it) outI(@, y.num());'), ('range-loop-reference', 'for (Item y : m_it) y.set(3);'), ('range-loop-reference', 'for (auto y : m_ll) { y.append({S}); outL(@, y); }'),
    ('range-loop-reference', 'for (auto y : m_it) { auto f = [y]() mutable { y.n = 1; return y.n; }; outI(@, f()); }'), ('range-loop-reference', 'for (QString y : {L}) { m_s = std::move(y); }'), ('range-loop-reference', 'for (auto y : {L}) { for (auto z : {L}) outS(@, y + z); }'), ('range-loop-reference', 'for (auto y : m_it) { y = Item(); outI(@, y.n); }'), ('range-loop-reference', 'for (QString y : m_l) { m_l.clear(); outS(@, y); }'), ('range-loop-reference', 'for (QString y : l) { l[0] = {S}; outS(@, y); }'),
    ('range-loop-reference', 'QString a@[2] = {{S}, {S}}; for (QString y : a@) outS(@, y);'), ('range-loop-reference', 'for (QString y : {L}) { [&] { y.clear(); }(); outS(@, y); }'), ('range-loop-reference', 'for (QString y : {L}) { std::swap(y, m_s); }'), ('range-loop-reference', 'for (Item y : m_it) { int *p = &y.n; *p = 4; outI(@, y.n); }'), ('range-loop-reference', 'for (Item y : m_it) { Item *p = &y; p->n = 4; outI(@, y.n); }'), ('range-loop-reference', 'for (QString y : {L}) { y[0] = QLatin1Char(\'k\'); outS(@, y); }'), ('range-loop-reference', 'for (Item y : m_it) { y.t[0] = QLatin1Char(\'k\'); outS(@, y.t); }'),
    ('range-loop-reference', 'for (Item y : m_it) { y.t += {S}; outS(@, y.t); }'), ('range-loop-reference', 'for (Item y : m_it) { y.t.append({S}); outS(@, y.t); }'), ('range-loop-reference', 'for (Item y : m_it) { ++y.n; outI(@, y.n); }'), ('range-loop-reference', 'for (QString y : {L}) { (m_t ? y : m_s) = {S}; outS(@, y); }'), ('range-loop-reference', 'for (QString y : {L}) { (y) = {S}; outS(@, y); }'), ('range-loop-reference', 'for (QStringList y : m_ll) { y << {S}; outL(@, y); }'), ('range-loop-reference', 'for (QStringList y : m_ll) { for (QString &z : y) z.clear(); outL(@, y); }'),
    # function arguments
    ('function-args-by-ref', 'auto f@ = [](QString x) { return x.size(); }; outI(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](QString x) { x += QLatin1Char(\'q\'); return x; }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](const QString x) { return x; }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](QStringList x, QString y) { x << y; return x; }; outL(@, f@({L}, {S}));'), ('function-args-by-ref', 'auto f@ = [](QString x) { QString &r = x; r.clear(); return x; }; outS(@, f@({S}));'),
    ('function-args-by-ref', 'auto f@ = [](Item x) { x.n = 3; return x.n; }; outI(@, f@(Item()));'), ('function-args-by-ref', 'auto f@ = [](Item x) { return x.num(); }; outI(@, f@(Item()));'), ('function-args-by-ref', 'auto f@ = [](QString x) { return [&x] { x = QString(); return x; }(); }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](QString x) { return [x]() mutable { x.clear(); return x; }(); }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](QString x, QString y) { return (x += y); }; outS(@, f@({S}, {S}));'),
    ('function-args-by-ref', 'auto f@ = [](QString x) { QString y; y = (x += QLatin1Char(\'1\')); return y; }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [this](QString x) { m_s.clear(); return x; }; outS(@, f@(m_s));'), ('function-args-by-ref', 'auto f@ = [](Item x) { x.t += QLatin1Char(\'a\'); return x.t; }; outS(@, f@(Item()));'), ('function-args-by-ref', 'auto f@ = [](Item x) { x.t.append(QLatin1Char(\'a\')); return x.t; }; outS(@, f@(Item()));'), ('function-args-by-ref', 'auto f@ = [](Item x) { Item *p = &x; p->set(2); return x.n; }; outI(@, f@(Item()));'),
    ('function-args-by-ref', 'auto f@ = [](QString x) { std::swap(x, gs); return x; }; outS(@, f@({S})); std::swap(gs, s);'), ('function-args-by-ref', 'auto f@ = [](QString x) { QString y = std::move(x); return y; }; outS(@, f@({S}));'), ('function-args-by-ref', 'struct T@ { QString t; T@(QString x) : t(x) { } void set(QString x) { t = x; } QString cat(QString x) const { return t + x; } }; T@ t@({S}); t@.set({S}); outS(@, t@.cat({S}));'), ('function-args-by-ref', 'struct T@ { QString t; T@(QString x) : t(std::move(x)) { } }; outS(@, T@({S}).t);'),
    ('function-args-by-ref', 'struct T@ { QString operator()(QString x, QString) const { return x; } bool operator==(T@) const { return true; } }; outS(@, T@()({S}, {S}));'), ('function-args-by-ref', 'auto f@ = [](QString x) { x[0] = QLatin1Char(\'k\'); return x; }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](QString x) { for (QChar &c : x) c = QLatin1Char(\'k\'); return x; }; outS(@, f@({S}));'), ('function-args-by-ref', 'auto f@ = [](QString x) { (m_tt ? x : gs) += QLatin1Char(\'1\'); return x; }; outS(@, f@({S}));'),
    ('function-args-by-value', 'auto f@ = [](const int &x, const QPoint &p) { return x + p.x(); }; outI(@, f@({I}, QPoint(1, 2)));'), ('function-args-by-value', 'auto f@ = [](const bool &x = true) { return x; }; outB(@, f@());'), ('function-args-by-value', 'auto f@ = [](const QPoint &p) -> const QPoint & { return p; }; QPoint p@(3, 4); outB(@, &f@(p@) == &p@);'), ('function-args-by-value', 'struct T@ { const int &r; T@(const int &x) : r(x) { } }; T@ t@(m_i); m_i = 5; outI(@, t@.r);'), ('function-args-by-value', 'struct T@ { int r; T@(const int &x) : r(x) { } int get(const int & x = 3) const { return x + r; } }; outI(@, T@(m_i).get());'),
    ('function-args-by-value', 'auto f@ = [](const int &x) { return &x; }; outB(@, f@(m_i) == &m_i);'), ('function-args-by-value', 'auto f@ = [](const int &x) { gi = 9; return x; }; gi = 1; outI(@, f@(gi));'), ('function-args-by-value', 'auto f@ = [](const QChar& c, const qreal &d, const char &e, QChar const &g) { return c.unicode() + int(d) + e + g.unicode(); }; outI(@, f@(QLatin1Char(\'a\'), 1.0, 2, QLatin1Char(\'b\')));'), ('function-args-by-value', 'auto f@ = [](const int &) { return 1; }; outI(@, f@(2));'),
    # qt-keyword-emit, qt-keywords
    ('qt-keyword-emit', 'emit m_o->one({I});'), ('qt-keyword-emit', 'if ({B}) emit m_o->none(); else emit m_o->two({S});'), ('qt-keywords', 'foreach (const QString &y, {L}) outS(@, y);'), ('qt-keywords', 'foreach(QString y, m_l) { if (y.isEmpty()) break; outS(@, y); }'), ('qt-keywords', 'foreach (auto y, m_v) { if (y == 5) continue; outI(@, y); }'), ('qt-keywords', 'forever { outI(@, 1); break; }'), ('qt-keyword-emit', '(emit m_o->none());'),
    # connects
    ('old-style-connect', 'QObject::connect(m_o, SIGNAL(one(int)), m_o, SLOT(onInt(int))); Q_EMIT m_o->one(7);'), ('old-style-connect', 'QObject::connect(m_sp.data(), SIGNAL(two(QString)), m_o, SLOT(onStr(QString))); Q_EMIT m_o->two({S});'), ('old-style-connect', 'QObject::connect(m_o, SIGNAL(none()), m_shp.data(), SLOT(onNone())); Q_EMIT m_o->none(); outL(@, m_shp->log);'), ('old-style-connect', 'm_o->connect(m_o, SIGNAL(one(int)), SLOT(onInt(int))); Q_EMIT m_o->one(3);'), ('old-style-connect', 'QObject::connect(m_o, SIGNAL(one(int)), m_o, SIGNAL(none())); QObject::connect(m_o, SIGNAL(none()), m_o, SLOT(onNone())); Q_EMIT m_o->one(2);'),
    ('old-style-connect', 'Obj a@; QObject::connect(&a@, SIGNAL( one( int ) ), &a@, SLOT(onInt(int))); Q_EMIT a@.one(4); outL(@, a@.log);'), ('old-style-connect', 'QObject::connect(m_o, SIGNAL(one(int)), m_o, SLOT(onNone())); QObject::disconnect(m_o, SIGNAL(one(int)), m_o, SLOT(onNone())); Q_EMIT m_o->one(2);'), ('old-style-connect', 'QTimer::singleShot(0, m_o, SLOT(onNone())); pump();'), ('old-style-connect', 'QObject::connect(m_o, SIGNAL(over(int)), m_o, SLOT(slot(int))); Q_EMIT m_o->over(2);'),
    ('old-style-connect', 'QObject::connect(m_o, SIGNAL(over(QString)), m_o, SLOT(slot(QString))); Q_EMIT m_o->over({S});'), ('old-style-connect', 'QObject::connect(m_o, SIGNAL(two(const QString &)), m_o, SLOT(onStr(const QString &)), Qt::QueuedConnection); Q_EMIT m_o->two({S}); pump();'), ('old-style-connect', 'QObject *q@ = m_o; QObject::connect(q@, SIGNAL(one(int)), q@, SLOT(onInt(int))); Q_EMIT m_o->one(7);'), ('old-style-connect', 'QObject::connect(m_qp, SIGNAL(one(int)), m_qp, SLOT(onInt(int))); Q_EMIT m_o->one(7);', 5), ('old-style-connect', 'QObject::connect(m_w->m_o, SIGNAL(one(int)), self()->m_o, SLOT(onInt(int))); Q_EMIT m_o->one(7);'),
    ('old-style-connect', 'QTimer t@; QObject::connect(&t@, SIGNAL(timeout()), m_o, SLOT(onNone())); t@.setSingleShot(true); t@.start(0); pump();'), ('old-style-connect', 'Obj *a@ = new Obj; QObject::connect(a@, SIGNAL(destroyed(QObject*)), m_o, SLOT(onNone())); delete a@;'), ('old-style-connect', 'QObject::connect(m_o, SIGNAL(destroyed()), m_shp.data(), SLOT(onNone())); m_w->m_sp.reset(new Obj); m_o = m_sp.data(); outL(@, m_shp->log);'),
    ('modernize-overloaded-connects', 'QObject::connect(m_o, QOverload<int>::of(&Obj::one), m_o, &Obj::onInt); Q_EMIT m_o->one(1);'), ('modernize-overloaded-connects', 'QObject::connect(m_o, QOverload<int>::of(&Obj::over), m_o, &Obj::onInt); Q_EMIT m_o->over(1);'), ('modernize-overloaded-connects', 'QObject::connect(m_o, qOverload<int>(&Obj::one), m_o, &Obj::onInt); Q_EMIT m_o->one(1);'), ('modernize-overloaded-connects', 'QObject::connect(m_o, static_cast<void (Obj::*)(int)>(&Obj::over), m_o, &Obj::onInt); Q_EMIT m_o->over(1);'),
    ('modernize-overloaded-connects', 'QObject::connect(m_o, static_cast<void (Obj::*)(const QString &)>(&Obj::over), m_o, static_cast<void (Obj::*)(const QString &)>(&Obj::slot)); Q_EMIT m_o->over({S});'), ('modernize-overloaded-connects', 'QObject::connect(m_o, static_cast<void (Obj::*)(int)>(&Obj::one), m_o, static_cast<void (Obj::*)(int)>(&Obj::slot)); Q_EMIT m_o->one(1);'), ('modernize-overloaded-connects', 'QObject::connect(m_o, QOverload< int >::of( &Obj::over ), m_o, QOverload<int> :: of(&Obj::slot)); Q_EMIT m_o->over(1);'),
    ('modernize-overloaded-connects', 'QObject::connect(m_o, QOverload<>::of(&Obj::none), m_o, QOverload<>::of(&Obj::onNone)); Q_EMIT m_o->none();'), ('modernize-overloaded-connects', 'QObject::connect(m_o, QOverload<const QString &>::of(&Obj::two), m_o, [=](const QString &x) { m_o->onStr(x); }); Q_EMIT m_o->two({S});'), ('modernize-overloaded-connects', 'QObject::connect(m_o, static_cast<void (Obj::*)()>(&Obj::none), m_o, &Obj::onNone); Q_EMIT m_o->none();'),
    # qbytearray-conversion-to-c-style
    ('qbytearray-conversion-to-c-style', 'outP(@, m_b);'), ('qbytearray-conversion-to-c-style', 'const char *p@ = m_b; outP(@, p@);'), ('qbytearray-conversion-to-c-style', 'outP(@, {S}.toUtf8());'), ('qbytearray-conversion-to-c-style', 'outP(@, QByteArray("x"));'), ('qbytearray-conversion-to-c-style', 'outP(@, QByteArrayLiteral("x"));'), ('qbytearray-conversion-to-c-style', 'outP(@, m_b + "x");'), ('qbytearray-conversion-to-c-style', 'outP(@, (m_b));'), ('qbytearray-conversion-to-c-style', 'outP(@, m_t ? m_b : QByteArray("z"));'), ('qbytearray-conversion-to-c-style', 'outP(@, (const char *)m_b);'),
    ('qbytearray-conversion-to-c-style', 'outP(@, *&m_b);'), ('qbytearray-conversion-to-c-style', 'QByteArray *p@ = &m_b; outP(@, *p@);'), ('qbytearray-conversion-to-c-style', 'outP(@, [&] { return m_b; }());'), ('qbytearray-conversion-to-c-style', 'outP(@, QByteArray("a") + m_b);'), ('qbytearray-conversion-to-c-style', 'outI(@, qstrlen(m_b));'), ('qbytearray-conversion-to-c-style', 'outP(@, static_cast<const char *>(m_b));'), ('qbytearray-conversion-to-c-style', 'outP(@, m_w->m_b);'), ('qbytearray-conversion-to-c-style', 'outP(@, (m_b = QByteArray::number(3)));'),
    ('qbytearray-conversion-to-c-style', 'outP(@, QByteArray("x", 1));'), ('qbytearray-conversion-to-c-style', 'outP(@, m_b += "k");'), ('qbytearray-conversion-to-c-style', 'outI(@, m_b[1] + qstrcmp(m_b, "55"));'), ('qbytearray-conversion-to-c-style', 'outP(@, QByteArray::number({I}));'), ('qbytearray-conversion-to-c-style', 'outB(@, !qstrncmp(QByteArray("abc"), m_b, 2));'), ('qbytearray-conversion-to-c-style', 'outP(@, QByteArray(3, \'c\'));'),
    # modernize-list-initialization
    ('modernize-list-initialization', 'QStringList q@ = QStringList() << {S} << {S}; outL(@, q@);'), ('modernize-list-initialization', 'QList<int> q@ = QList<int>() << {I} << 2; outL(@, ints(q@));'), ('modernize-list-initialization', 'outL(@, QStringList() << {S});'), ('modernize-list-initialization', 'outL(@, takeL(QStringList() << {S} << {S}));'), ('modernize-list-initialization', 'outL(@, l << {S});'), ('modernize-list-initialization', 'QStringList q@ = m_l << {S}; outL(@, q@);'), ('modernize-list-initialization', 'QStringList q@ = QStringList(m_l) << {S}; outL(@, q@);'),
    ('modernize-list-initialization', 'QStringList q@ = (QStringList() << {S}); outL(@, q@);'), ('modernize-list-initialization', 'QStringList q@(QStringList() << {S} << {S}); outL(@, q@);'), ('modernize-list-initialization', 'const QStringList q@ = QStringList({S}) << {S}; outL(@, q@);'), ('modernize-list-initialization', 'QStringList q@ = QStringList{{S}} << {S}; outL(@, q@);'), ('modernize-list-initialization', 'QStringList q@ = glist() << {S}; outL(@, q@);'), ('modernize-list-initialization', 'm_l = QStringList() << {S};'), ('modernize-list-initialization', 'm_l << {S} << {S};'), ('modernize-list-initialization', 'QStringList q@ = QStringList() << m_l << {S}; outL(@, q@);'),
    ('modernize-list-initialization', 'auto q@ = QStringList() << {S}; outL(@, q@);'), ('modernize-list-initialization', 'QStringList q@ = QStringList() << {S} /* c */ << {S} // d\n; outL(@, q@);'), ('modernize-list-initialization', 'QVector<int> q@ = QVector<int>() << 1 << 2; outI(@, q@.size());'), ('modernize-list-initialization', 'QList<int> q@ = QList<int>() << 1.5 << 2; outI(@, q@.size());'), ('modernize-list-initialization', 'QList<qlonglong> q@ = QList<qlonglong>() << m_i << m_s.size(); outI(@, q@.size());'), ('modernize-list-initialization', 'outL(@, [&]() -> QStringList { return QStringList() << {S}; }());'),
    ('modernize-list-initialization', 'outI(@, (QStringList() << {S}).size());'), ('modernize-list-initialization', 'outL(@, takeL(m_l << {S}));'), ('modernize-list-initialization', 'm_ll << (QStringList() << {S});'), ('modernize-list-initialization', 'QList<QStringList> q@ = QList<QStringList>() << m_l << l; outL(@, q@.at(1));'), ('modernize-list-initialization', 'QList<QStringList> q@ = QList<QStringList>() << (QStringList() << {S}) << l; outL(@, q@.at(0));'), ('modernize-list-initialization', 'QList<double> q@ = QList<double>() << 1 << m_i; outI(@, q@.size());'),
    # use-arrow-operator-instead-of-data
    ('use-arrow-operator-instead-of-data', 'outS(@, m_sp.data()->name());'), ('use-arrow-operator-instead-of-data', 'outS(@, m_shp.data()->objectName());'), ('use-arrow-operator-instead-of-data', 'm_qp.data()->onInt({I});'), ('use-arrow-operator-instead-of-data', 'outS(@, m_w->m_sp.data()->name());'), ('use-arrow-operator-instead-of-data', 'outS(@, m_w->m_sp . data() -> name());'), ('use-arrow-operator-instead-of-data', 'outS(@, (*m_w).m_qp.data()->name());'), ('use-arrow-operator-instead-of-data', 'QString (Obj::*f@)() const = &Obj::name; outS(@, (m_sp.data()->*f@)());'),
    ('use-arrow-operator-instead-of-data', 'QSharedPointer<Obj> *p@ = &m_shp; outS(@, p@->data()->name());'), ('use-arrow-operator-instead-of-data', 'outS(@, (*m_sp.data()).name());'), ('use-arrow-operator-instead-of-data', 'outS(@, (m_shp.data())->name());'), ('use-arrow-operator-instead-of-data', 'outS(@, m_sp.data()->Obj::name());'), ('use-arrow-operator-instead-of-data', 'outS(@, static_cast<QObject *>(m_sp.data())->objectName());'), ('use-arrow-operator-instead-of-data', 'const auto &c@ = m_sp; outS(@, c@.data()->name());'), ('use-arrow-operator-instead-of-data', 'outI(@, m_sp.data()->log.size());'), ('use-arrow-operator-instead-of-data', 'QPointer<Obj> a@[1] = {m_o}; outS(@, a@[0].data()->name());'),
    # use-chrono-in-qtimer
    ('use-chrono-in-qtimer', 'QTimer t@; t@.setInterval({ms}); outI(@, t@.interval());'), ('use-chrono-in-qtimer', 'QTimer t@; t@.start({ms}); outI(@, t@.interval());'), ('use-chrono-in-qtimer', 'QTimer *t@ = new QTimer; t@->setInterval({ms}); outI(@, t@->interval()); delete t@;'), ('use-chrono-in-qtimer', 'QTimer t@; int i@ = 3; t@.setInterval(i@ * 1000); outI(@, t@.interval());'), ('use-chrono-in-qtimer', 'QTimer::singleShot(1, m_o, &Obj::onNone); QThread::msleep(5); pump();'), ('use-chrono-in-qtimer', 'QTimer::singleShot({ms}, m_o, &Obj::onNone);'), ('use-chrono-in-qtimer', 'QTimer::singleShot({ms}, [] { });'),
    # isempty-vs-count
    ('isempty-vs-count', 'outB(@, {L}.size());'), ('isempty-vs-count', 'outB(@, !{L}.count());'), ('isempty-vs-count', 'outB(@, {L}.size() > 0);'), ('isempty-vs-count', 'outB(@, {L}.size() == 0);'), ('isempty-vs-count', 'outB(@, {ML}.count() < 1);'), ('isempty-vs-count', 'if ({L}.length()) outI(@, 1); else outI(@, 0);'), ('isempty-vs-count', 'outB(@, m_m.size() && {B});'), ('isempty-vs-count', 'outI(@, m_t && m_h.count());'), ('isempty-vs-count', 'outI(@, m_m.count({I}) ? 1 : 2);'), ('isempty-vs-count', 'outB(@, m_mm.count(1, {I}));'), ('isempty-vs-count', 'while (!m_v.size()) { m_v.append(1); }'),
    ('isempty-vs-count', 'QStringList *p@ = &m_l; outB(@, p@->size());'), ('isempty-vs-count', 'QStringList *p@ = &m_l; if (p@->count() && {B}) outI(@, 1);'), ('isempty-vs-count', 'QStringList *p@ = &m_l; if (!p@->count()) outI(@, 1); else outI(@, 2);'), ('isempty-vs-count', 'bool b@ = {L}.count(); outB(@, b@);'), ('isempty-vs-count', 'outB(@, ({L} + {L}).size());'), ('isempty-vs-count', 'outB(@, (m_t ? m_l : l).size() > 0);'), ('isempty-vs-count', 'outB(@, bool(m_li.size()));'), ('isempty-vs-count', 'outB(@, !!m_li.size());'), ('isempty-vs-count', 'outI(@, m_li.size() ? 1 : 0);'), ('isempty-vs-count', 'outB(@, glist().size() > 0);'),
    ('isempty-vs-count', 'outB(@, (*m_w).m_l.size());'), ('isempty-vs-count', 'outB(@, static_cast<bool>(m_w->m_li.length()));'), ('isempty-vs-count', 'outB(@, m_mm.size() == 0);'), ('isempty-vs-count', 'struct D@ : QStringList { bool f() const { return size(); } }; D@ d@; outB(@, d@.f());'), ('isempty-vs-count', 'struct D@ : QStringList { bool f() const { return this->size(); } }; D@ d@; outB(@, d@.f());'), ('isempty-vs-count', 'QMultiMap<int, int> *p@ = &m_mm; outB(@, p@->count(1, 2));'), ('isempty-vs-count', 'outB(@, QList<int>({I}, 0).size() > 0);', 6), ('isempty-vs-count', 'outB(@, (*&m_l).size());'),
    # qstring-arg
    ('qstring-arg', 'outS(@, QString::fromLatin1("%1 %2").arg({A}).arg({A}));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%2 %1 %3").arg({A}, {A}).arg({A}));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1-%2-%3").arg({A}).arg({A}).arg({A}));'), ('qstring-arg', 'QString f@ = QString::fromLatin1("%1:%2"); outS(@, f@.arg({A}).arg({I}));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1 %2 %3").arg({A}).arg({I}).arg({A}));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1 %1 %2").arg({A}).arg({A}, 8));'),
    ('qstring-arg', 'outS(@, QString::fromLatin1("%2%1") . arg ( {A} ) . arg({A}).toUpper());'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1").arg(QString::fromLatin1("%1_%2").arg({A}).arg({A})));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1 %2").arg({A}).arg(QLatin1Char(\'c\')));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1 %3").arg({A}).arg({A}));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%5 %9").arg({A}).arg({A}));'), ('qstring-arg', 'outS(@, QString::fromLatin1("%1 %2").arg((s, {A})).arg({A}));'),
]
# (check, declarations, statement)
D = [
    ('function-args-by-ref', 'static QString d@(QString x, QString = QString()) { return x; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(QString x);\nstatic QString d@(QString y) { return y; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'template <class T> static T d@(T t, QString x) { return t + x; }', 'outS(@, d@({S}, {S}));'), ('function-args-by-ref', 'struct D@ { virtual QString f(QString x) { return x; } virtual ~D@() { } }; struct E@ : D@ { QString f(QString y) override { return y.mid(1); } };', 'E@ e@; D@ *p@ = &e@; outS(@, p@->f({S}));'),
    ('function-args-by-ref', 'static QString d@(QString x) { return x; }\nstatic QString (*p@)(QString) = d@;', 'outS(@, p@({S}));'), ('function-args-by-ref', 'struct D@ { QString x; explicit D@(QString a, int b = 2); QString f(QString) const; }; D@::D@(QString a, int) : x(a) { } QString D@::f(QString y) const { return x + y; }', 'outS(@, D@({S}).f({S}));'), ('function-args-by-ref', 'static QString d@(QString x, int i = 1) { if (i) x = x.mid(1); return x; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(QString x[2], QString (&y)[2]) { return x[0] + y[1]; }', 'outS(@, d@(m_arr, m_arr));'),
    ('function-args-by-ref', 'static QString d@(QString) { return QString(); }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(const QString) { return QString(); }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(QString const x) { return x; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(::QString x) { return x; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(QString\nx) { return x; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(std::pair<QString, int> p) { return p.first; }', 'outS(@, d@({{S}, 1}));'), ('function-args-by-ref', '#define PAR@ QString x\nstatic QString d@(PAR@) { return x; }', 'outS(@, d@({S}));'),
    ('function-args-by-ref', 'static QString d@(QString x) try { return x; } catch (...) { return x; }', 'outS(@, d@({S}));'), ('function-args-by-ref', 'static QString d@(QString x = QString(QLatin1Char(\'d\'))) { return x; }', 'outS(@, d@());'), ('function-args-by-ref', 'static QString d@(struct Item x) { return x.t; }', 'outS(@, d@(Item()));'), ('function-args-by-ref', 'static QString d@(QString x, ...) { return x; }', 'outS(@, d@({S}));'),
    ('function-args-by-value', 'static int d@(const int &x, const QPoint & = QPoint()) { return x; }', 'outI(@, d@({I}));'), ('function-args-by-value', 'static int d@(const int &x);\nstatic int d@(const int &y) { return y; }', 'outI(@, d@({I}));'), ('function-args-by-value', 'static int d@(const int &x = 4);\nstatic int d@(const int &y) { return y; }', 'outI(@, d@());'), ('function-args-by-value', 'static int d@(int const &x) { return x; }', 'outI(@, d@({I}));'), ('function-args-by-value', 'struct D@ { int f(const QSize &s, const Qt::Orientation &o = Qt::Vertical) const; }; int D@::f(const QSize &s, const Qt::Orientation &) const { return s.width(); }', 'outI(@, D@().f(QSize(1, 2)));'),
    ('function-args-by-value', 'struct D@ { enum E { A, B }; int f(const E &e) const { return e; } int g(const D@::E &e = A) const { return e; } };', 'outI(@, D@().f(D@::B) + D@().g());'), ('function-args-by-value', 'namespace n@ { struct P { int a; }; static int d(const P &p) { return p.a; } }', 'outI(@, n@::d(n@::P{3}));'), ('function-args-by-value', 'static int d@(const int &x) { return x; }\nstatic int (*p@)(const int &) = d@;', 'outI(@, p@(4));'), ('function-args-by-value', 'template <class T> static int d@(const T &t, const int &x) { return int(t) + x; }', 'outI(@, d@(1, 2));'),
    ('function-args-by-value', 'struct D@ { virtual int f(const int &x) { return x; } virtual ~D@() { } }; struct E@ : D@ { int f(const int &y) override { return y + 1; } };', 'E@ e@; D@ *p@ = &e@; outI(@, p@->f({I}));'), ('function-args-by-value', 'static int d@(const int *const &p) { return *p; }', 'outI(@, d@(&m_i));'), ('function-args-by-value', 'static int d@(int (*const &f)()) { return f(); }', 'outI(@, d@(gint));'), ('function-args-by-value', 'typedef int (&R@)[2]; static int d@(const std::nullptr_t &, const double&x, const long long  &  y) { return x + y; }', 'outI(@, d@(nullptr, 1.5, 2));'), ('function-args-by-value', 'static int d@(const unsigned &x, const unsigned char &c, const std::size_t &s) { return x + c + s; }', 'outI(@, d@(1, 2, 3));'),
    ('copyable-polymorphic', 'struct D@ { virtual ~D@() { } virtual int f() const { return 1; } int a = 2; };', 'D@ d@; outI(@, d@.f() + d@.a);'), ('copyable-polymorphic', 'class D@ { public: virtual ~D@() { } int f() const { return a; } private: int a = 2; };', 'D@ d@; outI(@, d@.f());'), ('copyable-polymorphic', 'class D@ { public: D@(int i) : a(i) { } virtual ~D@() { } int a; };', 'D@ d@(3); outI(@, d@.a);'), ('copyable-polymorphic', 'class D@ { public: D@() : a(4) { } virtual ~D@() { } int a; };', 'D@ d@; outI(@, d@.a);'),
    ('copyable-polymorphic', 'class D@ { public: explicit D@(int i = 5) : a(i) { } virtual ~D@() { } int a; };', 'D@ d@; outI(@, d@.a);'), ('copyable-polymorphic', 'struct D@ : Item { virtual int v() { return 1; } };', 'D@ d@; outI(@, d@.v());'), ('copyable-polymorphic', 'class D@ { int a; public: D@() = default; virtual ~D@() = default; protected: int b = 2; public: int g() { return b; } };', 'D@ d@; outI(@, d@.g());'),
    ('missing-qobject-macro', 'class D@ : public QObject { public: int f() { return 1; } };', 'D@ d@; outI(@, d@.f());'), ('missing-qobject-macro', 'class D@ : public QObject\n{\npublic:\n    int f() { return 1; }\n};', 'D@ d@; outI(@, d@.f());'), ('missing-qobject-macro', 'struct D@ : QObject { int f() { return 1; } };', 'D@ d@; outI(@, d@.f());'), ('missing-qobject-macro', 'class D@ : public Obj {public: int f() { return 1; }};', 'D@ d@; outI(@, d@.f());'), ('missing-qobject-macro', 'struct D@ : public Obj {int f() { return 1; }};', 'D@ d@; outI(@, d@.f());'), ('missing-qobject-macro', 'struct D@ : public Obj { int f() { return 1; } D@() : i(2) { } private: int i; };', 'D@ d@; outI(@, d@.f());'), ('missing-qobject-macro', 'class D@ : public QObject {};', 'D@ d@; outB(@, d@.parent());'), ('missing-qobject-macro', 'struct D@ : public QObject {int a = 1; virtual int f() { return a; }};', 'D@ d@; outI(@, d@.f());'),
    ('sanitize-inline-keyword', 'struct D@ { int f() const; static int g(); }; inline int D@::f() const { return 1; } inline int D@::g() { return 2; }', 'outI(@, D@().f() + D@::g());'), ('sanitize-inline-keyword', 'struct D@ { int f() const; int operator()(int) const; D@(); ~D@(); template <class T> T t(T); }; int inline D@::f() const { return 1; } inline int D@::operator()(int i) const { return i; } inline D@::D@() { } inline D@::~D@() { } template <class T> inline T D@::t(T x) { return x; }', 'outI(@, D@().f() + D@()(2) + D@().t(3));'), ('sanitize-inline-keyword', 'struct D@ { const QString &f() const; virtual int v(); QString s; }; inline const QString &D@::f() const { return s; } [[nodiscard]] inline int D@::v() { return 3; }', 'D@ d@; outS(@, d@.f()); outI(@, d@.v());'),
    ('qt-keywords', 'class D@ : public QObject { Q_OBJECT public: QStringList log; signals: void go(int); void go2(); public slots: void on(int i) { log << QString::number(i); } protected slots: void prot() { } };', 'D@ d@; QObject::connect(&d@, &D@::go, &d@, &D@::on); emit d@.go(3); outL(@, d@.log);'),
    ('fully-qualified-moc-types', 'namespace n@ { struct T { int i = 1; }; class D@ : public QObject { Q_OBJECT public: int r = 0; Q_SIGNALS: void go(T t, const T &u); public Q_SLOTS: void on(T t, const T &u) { r = t.i + u.i; } }; }', 'n@::D@ d@; QObject::connect(&d@, &n@::D@::go, &d@, &n@::D@::on); Q_EMIT d@.go(n@::T(), n@::T()); outI(@, d@.r);'),
    ('fully-qualified-moc-types', 'class D@ : public QObject { Q_OBJECT public: enum E { A, B }; int r = 0; Q_INVOKABLE int inv(E e, QList<E> l = QList<E>()) { return e + l.size(); } Q_SIGNALS: void go(E, const QList<E> &); void go2(D@::E e = A); public Q_SLOTS: void on(E e) { r = e; } E ret() { return B; } };', 'D@ d@; QObject::connect(&d@, SIGNAL(go2(D@::E)), &d@, SLOT(on(D@::E))); QObject::connect(&d@, &D@::go2, &d@, &D@::on); Q_EMIT d@.go2(D@::B); outI(@, d@.r + d@.inv(D@::B) + d@.ret());'),
    ('qstring-allocations', 'static QString d@ = {lit};', 'outS(@, d@);'), ('qstring-allocations', 'static QString d@(const QString &x = {lit}) { return x; }', 'outS(@, d@());'), ('qstring-allocations', '#define LIT@ {lit}\n', 'outS(@, QString(LIT@)); {S&} = LIT@;'), ('qstring-allocations', '#define MK@(x) QString(x)\n', 'outS(@, MK@({lit}));'), ('qstring-allocations', 'template <class T> static T d@() { return QString({lit}); }', 'outS(@, d@<QString>());'), ('qstring-allocations', 'struct D@ { QString a = {lit}, b{{lit}}; static QString f() { return {lit}; } };', 'outS(@, D@().a + D@().b + D@::f());'),
    ('qstring-allocations', 'static const QString d@[] = {{lit}, QString({lit}), QLatin1String({ascii})};', 'outS(@, d@[0] + d@[1] + d@[2]);'),
    ('range-loop-reference', 'template <class T> static int d@(T l) { int n = 0; for (QString y : l) n += y.size(); return n; }', 'outI(@, d@({L}));'), ('modernize-list-initialization', 'static QStringList d@() { return QStringList() << gs << gs; }', 'outL(@, d@());'), ('modernize-list-initialization', 'struct D@ { QStringList l = QStringList() << gs; D@(const QStringList &x = QStringList() << gs << gs) : l(x) { } };', 'outL(@, D@().l);'),
]

TAIL = '''
int main(int argc, char **argv)
{
    QCoreApplication app(argc, argv);
    qputenv("VP_SET", "yes"); qputenv("VP_NUM", "42"); qputenv("VP_HEX", "0x1f"); qputenv("VP_OCT", "010"); qputenv("VP_EMPTY", ""); qunsetenv("VP_UNSET");
%s
    std::printf("end\\n");
    return 0;
}
#include "x.moc"
'''
MID = r'''template <class T> static T ident(T t) { return t; }
static const bool m_tt = true;
static int gi = 1;
static void pump() { for (int i = 0; i < 3; ++i) { QCoreApplication::sendPostedEvents(); QCoreApplication::processEvents(); } }
static QStringList ints(const QList<int> &l) { QStringList r; for (int i = 0; i < l.size(); ++i) r.append(QString::number(l.at(i))); return r; }
'''
MS = ['1000', '500', '60000', '3600000', '2 * 1000', '60 * 1000', '1500', '0', '10 / 2', '7200000', '(3 * 1000)', '90 * 60 * 1000', "1'000", '0x10', '100u', '1000L']
A = ['m_s', 's', 'gs', 'gstr()', 'm_l.at(0)', 'QString::number(3)', 'm_w->str()', '"l1"', 'QString("q")', 'm_arr[1]', '(s + s)', 'm_m.value(1)']
CTX = ['%s', '%s', '%s', '[&] { %s }();', 'auto ff@ = [=]() mutable { %s }; ff@();', 'if (m_t) { %s }', 'if (m_f) { } else { %s }', 'for (int k = 0; k < 2; ++k) { %s }', 'do { %s } while (false);', 'switch (m_i) { case 1: { %s break; } default: break; }', 'try { %s } catch (int) { }', '{ { %s } }', 'if (m_t) %s', 'SAME(%s)', 'while (true) { %s break; }']
TOK = re.compile(r'//[^\n]*|/\*.*?\*/|R"\(.*?\)"|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|#[^\n]*(?:\\\n[^\n]*)*|[A-Za-z_]\w*|\d[\w\'.]*|->\*|->|::|<<=|>>=|<<|[-+*/%&|^!=<>]=|\+\+|--|&&|\|\||\.\.\.|\s+|.', re.S)


REGION = re.compile(rb'\n//@D(\d+)\n|\n    void f(\d+)\(\)|\n//@(W)\n|\n(};)\nint main|\nint (main)')
PLAIN = ('modernize-overloaded-connects',)      # blanks break the edits (known)
KNOWN = []      # templates whose edits are known to be wrong: only as the directed programs of the checks


def listed(t):
    return any(t[0] == k[0] and k[1] in ' ## '.join(x for x in t[1:] if isinstance(x, str)) for k in KNOWN)


def region(text, offset):
    """The number of the statement (or of its declarations) at that offset of a program."""
    last = None
    for mo in REGION.finditer(text[:offset]):
        last = mo
    return int(last[1] or last[2]) if last and (last[1] or last[2]) else None


class Gen:
    def __init__(self, rng, qt, checks=None):
        self.rng, self.qt, self.n = rng, qt, 0
        self.S = [t for t in S if (len(t) < 3 or t[2] in (0, qt)) and not listed(t)]
        self.D = [t for t in D if not listed(t)]
        if checks:
            self.S = [t for t in self.S if t[0] in checks]
            self.D = [t for t in self.D if t[0] in checks]

    def fill(self, text, depth=2):
        def one(mo):
            k = mo.group(1)
            if k == 'ms':
                return self.rng.choice(MS)
            if k == 'A':
                return self.rng.choice(A)
            if k == '=':        # the same container again
                return self.last
            alts = E[k]
            if depth <= 0 or self.rng.random() < 0.4:
                alts = [a for a in alts if not re.search(r'\{(S|L|I|B)\}', a)]
            r = self.fill(self.rng.choice(alts), depth - 1)
            if k == 'ML':
                self.last = r
            return r
        return re.sub(r'\{(=|S&|L&|ML|TL|S|L|I|B|lit|ascii|ms|A)\}', one, text)

    def noise(self, text, p):
        """White space and comments between tokens; nothing inside of SIGNAL(), macros' definitions and literals."""
        if self.rng.random() > 0.5:
            return text
        out, prev, macro = [], '', 0
        toks = TOK.findall(text)
        for i, t in enumerate(toks):
            if t in ('SIGNAL', 'SLOT'):
                macro = 1
            if macro:
                if t == '(':
                    macro += 1
                elif t == ')':
                    macro -= 1
                    if macro == 1:
                        macro = 0
            elif prev and not t.startswith('#') and not prev.startswith(('#', '//')) and t != '::' and prev != '::' and not (t.startswith(('"', "'")) and re.match(r'\w', prev)) and self.rng.random() < p:
                out.append(self.rng.choice([' ', '  ', '\n        ', ' /*c*/ ', '\t', ' ']))
            out.append(t)
            prev = t
        return ''.join(out)

    def program(self, count):
        """(text, {id: (check, statement)})"""
        rng = self.rng
        decls, meths, calls, ids = [], [], [], {}
        for _ in range(count):
            self.n += 1
            i = self.n
            dec = ''
            t = rng.choice(self.S + self.D) if self.D and rng.random() < 0.9 else rng.choice(self.S or self.D)
            if t in self.D:
                chk, dec, st = t
                dec = self.fill(dec, 0).replace('@', str(i))
                if not dec.startswith('#'):
                    dec = self.noise(dec, 0.08)
            else:
                chk, st = t[:2]
            st = self.fill(st)
            ctx = rng.choice(CTX)
            if ctx == 'if (m_t) %s' and st.count(';') != 1 or ctx == 'SAME(%s)' and ('//' in st or 'struct' in st):
                ctx = '%s'
            st = (ctx % st if '%s' in ctx else st).replace('@', str(i))
            if chk not in PLAIN:
                st = self.noise(st, 0.06)
            ids[i] = (chk, (dec + ' ## ' if dec else '') + st)
            if dec:
                decls.append('//@D%d\n%s' % (i, dec))
            loc = 'QString s = m_s.mid(6, 2); QStringList l = m_l; QString &lref = m_s; const QString &cref = m_s; const QString u8s = QString::number(8); W &wr = *this; Q_UNUSED(s) Q_UNUSED(l) Q_UNUSED(lref) Q_UNUSED(cref) Q_UNUSED(u8s) Q_UNUSED(wr)'
            meths.append('    void f%d() { %s\n        %s\n    }' % (i, loc, st))
            calls.append('    { W w; w.f%d(); w.dump(%d); }' % (i, i))
        return HEAD + MID + '\n'.join(decls) + W + '\n'.join(meths) + '\n};\n' + TAIL % '\n'.join(calls), ids
