#include <QtCore>
#include <algorithm>
#include <numeric>
// rarely seen language forms around everything the checks look at
struct O; O operator""_o(const char *, std::size_t);
namespace n { template<class...T> struct V : T... { using T::operator()...; }; template<class...T> V(T...) -> V<T...>; }
template<class... A> auto fold(A &&...a) { return (QString() + ... + QString(a)); }
template<class C> struct Der : C { using C::C; auto f() { return this->first(); } auto g() { return C::first(); } };
template<class T> concept Cc = true;
struct alignas(16) Al { int x; };
struct O : QObject { Q_OBJECT
public:
  QString s[3]; QList<QString> l; union { int u; float f; }; QMap<QString, QList<int>> m; QHash<int, QString> h; static inline QStringList sl{"a", "b"};
  Q_PROPERTY(int p READ p)
  int p() const { return l[0].size(); }
  O *operator->() { return this; } operator QString() const { return s[0]; } explicit operator bool() const { return true; } QString operator()(int) { return s[1]; } QString &operator[](int i) { return s[i]; }
  QString operator,(int) const { return {}; } O &operator=(const char *) { return *this; } operator const char *() { return ""; } QList<int> operator*() { return {}; }
  friend O operator""_o(const char *, std::size_t);
  friend bool operator==(const O &, const O &) { return true; }
  O() = default; O(const O &) {} O(int) : O() { l[0] = "x"; }
  void k() { (*this)[1].mid(1).toInt(); (*this)(1).mid(1); (**this).first(); for (auto x : **this) (void)x; (*this, 1).mid(2); "x"_o(1).mid(1); this->operator()(1).toUtf8().data(); operator*().first(); operator[](1).size(); this->operator->()->k(); (*this)->k(); }
  ~O() try { l.first(); } catch (...) { }
};

struct Bits { unsigned a : 3, : 0, b : 2; QString operator<<(int) const { return {}; } };
auto lam = [](auto &&...x) -> decltype(auto) { return (x, ...); };
auto lam2 = [v = QStringList{"a"}, w = QString("b")]() mutable { return v.first() + w; };
n::V v{[](int) { return QString(); }, [](QString) { return QStringList(); }};
void foo(...); void bar(QString = QString("x"), QStringList = {"a"}, QList<int> = [] { return QList<int>{1}; }());
#define M1(x) x.first()
#define M2 QString("a") +
#define M3(...) __VA_ARGS__
#define M4(a, b) a##b
int main(int argc, char **argv) {
  O o; QStringList sl; QString s; QMap<int, QString> m; QVector<int> v1{1, 2}; auto *po = &o;
  fold("a", "b"); v(1).mid(1).toInt(); v(s).first(); lam(1, 2); lam2().mid(1); lam(sl).first(); lam(s).mid(1).toInt();
  if (auto x = sl.first(); !x.isEmpty()) { } else if (QString y = s; y.size()) { } switch (auto z = s.size(); z) { case 0: s.clear(); [[fallthrough]]; default: break; }
  for (auto [k, val] : QMap<int, QString>().toStdMap()) (void)k; for (int i = 0, e = v1.size(); i < e; ++i) v1.append(i);
  for (auto it = m.begin(), e = m.end(); it != e; ++it) ; for (;;) { s += "a"; break; } do { sl << s; } while (sl.count() < 3);
  goto lab; lab: s.arg(s).arg("b"); M1(sl); M1(QStringList()); M3(sl.first(), M1(sl)); M4(s, l).first(); (void)(M2 "b"); 
  new QString[2]{"a", "b"}; new (po) O; delete[] new QString[3]; auto p1 = new auto(QString("x")); delete p1; 
  s = true ? s : s, s = "a" "b", s = QString::fromWCharArray(L"a"); s = {"a"}; s = QString{}; 
  struct L : O { using O::O; void k() { O::k(); l.first(); } } ll; ll.k(); ll.O::k(); (&ll)->O::k(); (ll.*(&L::k))(); (ll.*static_cast<void (O::*)()>(&O::k))();
  [&]() -> QStringList { return sl; }().first(); [=] { return sl; }().begin(); ([] { return QStringList(); })().first(); (sl).first(); ((sl)).begin(); (argc ? sl : sl).first(); (argc, sl).first(); (&sl)->first(); (*&sl)[0];
  static_cast<QStringList>(sl).first(); QStringList(sl).first(); std::move(sl).first(); std::as_const(sl).first(); const_cast<const QStringList &>(sl).first(); reinterpret_cast<QStringList &>(sl)[0];
  foo(1); bar(); bar({}); bar({}, {}); bar(s = "a", sl = QStringList()); std::for_each(sl.begin(), sl.end(), [](auto &x) { x.mid(1); }); std::sort(v1.begin(), v1.end()); std::accumulate(v1.cbegin(), v1.cend(), 0);
  decltype(sl.first()) d = sl.first(); (void)typeid(sl.first()); (void)sizeof(sl.first()); (void)noexcept(sl.first()); (void)alignof(QString); __builtin_expect(s.size(), 1); ({ s.mid(1); }); ({ QStringList x; x; }).first();
  thread_local static QStringList tl{"q"}; static const QString cs = "x"; extern int ex; asm("nop"); static_assert(sizeof(s) > 0); using namespace n; enum { E1 = sizeof(s) }; typedef QStringList TL; TL{}.first(); TL().first(); TL{"a"}[0]; (TL)sl; QT_TRANSLATE_NOOP("a", "b");
  QObject::connect(&o, SIGNAL(destroyed()), &o, SLOT(deleteLater())); QObject::connect(&o, &QObject::destroyed, lam2); QObject::connect(&o, &QObject::destroyed, [] {}); QObject::connect(&o, static_cast<void (QObject::*)(QObject *)>(&QObject::destroyed), &o, &QObject::deleteLater); QMetaObject::invokeMethod(&o, "k"); QTimer::singleShot(0, &o, [&] { s = "a"; }); QTimer::singleShot(0, &o, SLOT(k()));
  try { throw s; } catch (QString e) { throw; } catch (const QString &e) { e.mid(1); } catch (...) { }
  qDebug() << s << sl.first() << [] { return 1; }(); qDebug("x"); QT_TRY { } QT_CATCH(...) { } Q_UNUSED(s) Q_FOREACH (auto x, sl) x.mid(1); Q_FOREVER { break; } forever { break; }
  _Generic(1, int: s.size(), default: 0); s.operator+=("x"); s.QString::size(); s.~QString(); po->O::~O(); int i; using I = int; i.~I(); (&i)->~I(); QPointer<O> qp; qp->k(); (*qp).k(); QSharedPointer<O> sp; sp->l.first(); sp.data()->l[0]; std::unique_ptr<O> up; up->k(); up->l.first();
  QList<void (*)(int)> fl; fl.first()(1); fl[0](1); fl.at(0)(1); std::function<QStringList()> sf; sf().first(); (*fl.begin())(1); QHash<int, QStringList (*)()> hf; hf[1]().first(); hf.value(2)().first(); QStringList (*fa[2])(); fa[0]().first(); (*fa)().begin();
  return s.isEmpty() ? sl.count() : sl.first().toInt();
}
