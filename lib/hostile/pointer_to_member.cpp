#include <QtCore>
#include <algorithm>
struct O;
typedef void (O::*PM)();
typedef QString (O::*PS)() const;
typedef QList<int> (O::*PL)();
typedef QMap<int,QString> (O::*PMap)(int) const;
typedef bool (O::*PI)(QList<int>::const_iterator, QMap<int,int>::const_iterator, QString, const char *, QVector<int>::const_iterator);
typedef QDateTime (O::*PD)();
typedef QString (QString::*QS)() const;
typedef int (QString::*QI)() const;
typedef int (QList<int>::*LI)() const;
typedef int &(QList<int>::*LF)();
typedef QString &(QString::*QA)(const QString &);
typedef QDateTime (QDateTime::*QD)() const;
struct O : QObject { PM pm; PS ps; PL pl; PMap pmap; PI pi; PD pd; QList<int> m_l; QMap<int,int> m_m; QVector<int> m_v; QString m_s; QReadWriteLock lk; QS qs; O *o; QS m_arr[3]; static QList<int> sl();
  O() { (this->*pm)(); (o->*pm)(); }
  ~O() { (this->*pm)(); }
  QVariant v; QTimer *t; QThread *th; QFile f;
  void a(QS q, QI qi, LI li, LF lf, QA qa, QD qd, QString (*fp)(), void (*vf)(QString), QList<int> (*lfp)()) {
    (m_s.*q)(); (void)(m_s.*qi)(); (m_l.*li)(); (m_l.*lf)(); (m_s.*qa)("foo"); (m_s.*qa)(QString::fromLatin1("abc"));
    (void)(this->*ps)(); for (auto x : (this->*pl)()) { (void)x; } (this->*pl)().first(); (this->*pl)().begin(); (this->*pl)()[0];
    (this->*pmap)(1).keys(); (void)(this->*pmap)(1).values().count(); for (auto k : (this->*pmap)(1).keys()) (void)k;
    (this->*pi)(m_l.begin(), m_m.begin(), "x", "y", m_v.begin());
    (this->*pi)(m_l.cbegin(), m_m.cbegin(), QString("x"), QString("y").toUtf8().constData(), m_v.cbegin());
    (this->*pd)().toUTC(); (QDateTime::currentDateTime().*qd)().toUTC();
    const char *c = (this->*ps)().toUtf8().constData(); (void)c; const char *c2 = (this->*ps)().toLatin1(); (void)c2;
    if ((m_l.*li)() > 0) { } if ((m_l.*li)()) { } if (!(m_s.*qi)()) {}
    while ((m_l.*li)() > 0) { m_l << 1; m_l.append((m_l.*li)()); }
    for (int i = 0; i < (m_l.*li)(); ++i) { m_l.append(i); m_v.push_back((m_l.*li)()); }
    (m_s.*q)().mid(1).toInt(); (m_s.*q)().left(1).toInt(); m_s.mid(1).toInt(); ((m_s.*q)().*qi)();
    fp().mid(1); fp().toUtf8().data(); vf("a"); vf(QStringLiteral("a")); vf(fp()); lfp().first(); lfp().begin(); for (auto x : lfp()) (void)x;
    (*fp)().mid(1); (*lfp)()[0]; (fp ? fp() : fp()).mid(1);
    QObject::connect(t, &QTimer::timeout, this, &QObject::deleteLater); 
    v.value<QString>(); (this->*ps)().arg(1).arg(2); (m_s.*q)().arg("a").arg("b"); (this->*ps)() == ""; (this->*ps)() + "x"; ((this->*ps)() + "x").isEmpty();
    QReadLocker k(&lk); (m_l.*li)(); (m_l.*lf)(); (m_arr[0]); (m_s.*m_arr[1])(); (o->m_s.*(o->m_arr[1]))();
    Q_ASSERT((m_l.*li)()); Q_ASSERT((this->*pd)().isValid()); auto l = [this] { (this->*pm)(); (m_s.*m_arr[1])(); }; l(); [this]{ return m_l; }().first();
    connect(t, &QTimer::timeout, [this] { (this->*pm)(); }); connect(t, &QTimer::timeout, this, [&] { (this->*pm)(); fp(); });
    f.setFileName((this->*ps)()); QFile((this->*ps)()).exists(); QFile(fp()).open(QIODevice::ReadOnly);
    qobject_cast<QTimer*>((QObject*)o); o->~O(); (o->*(&QObject::deleteLater))(); (this->*(&O::objectName))(); emit (this->*pm)();
    th->wait(); QRegularExpression re((this->*ps)()); re.match((this->*ps)()); m_s.contains(QRegularExpression("a")); (void)QRegularExpression("a").match(fp());
    qDebug() << (this->*ps)() << fp(); m_s = (this->*ps)() + fp() + "a"; return (this->*pm)();
  }
  int (O::*rr)() ; int z() { return (this->*rr)(); } const char *zz() { return (this->*ps)().toUtf8(); } const char *z3() { return (this->*ps)().toLatin1().constData(); }
  QString get() const { return (this->*ps)(); }
  template <class T> void tm(T t) { (this->*t)(); (t.*(&QString::size))(); t().first(); for (auto x : t()) (void)x; t->foo(); (t->*pm)(); }
};
struct B { virtual int vv(); }; struct C : B { int vv() override { int (B::*p)() = &B::vv; return (this->*p)() + B::vv(); } }; struct D : C { int vv() override { return B::vv() + (this->*(&C::vv))(); } };
void f0(QList<int> l, int (QList<int>::*p)() const) { (l.*p)(); }
void f1(const QString &s, int (QString::*p)() const, O o) { (s.*p)(); (o.*o.pm)(); }
void f2(QPoint p, int (QPoint::*m)() const) { (p.*m)(); std::mem_fn(m)(p); std::invoke(m, p); }
