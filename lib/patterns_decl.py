"""Declaration-level patterns (see patterns.py)."""
from patterns import D, S, TEMPLATES, LOOPS

QO = ['QObject']
# ------------------------------------------------------------------ special members
D('rule-of-three', '''
struct R3Dtor@ { int *p; ~R3Dtor@() { delete p; } }; //!
struct R3Empty@ { int *p; ~R3Empty@() {} };
struct R3Copy@ { int *p; R3Copy@(const R3Copy@ &o); }; //!
struct R3Assign@ { int *p; R3Assign@ &operator=(const R3Assign@ &); }; //!
struct R3CopyAssign@ { int *p; R3CopyAssign@(const R3CopyAssign@ &); R3CopyAssign@ &operator=(const R3CopyAssign@ &); }; //!
struct R3All@ { int *p; ~R3All@() { delete p; } R3All@(const R3All@ &); R3All@ &operator=(const R3All@ &); };
struct R3None@ { int *p; };
struct R3Default@ { int *p; ~R3Default@() = default; };
struct R3Deleted@ { int *p; ~R3Deleted@() { delete p; } R3Deleted@(const R3Deleted@ &) = delete; };
class R3Disable@ { int *p; public: ~R3Disable@() { delete p; } Q_DISABLE_COPY(R3Disable@) };
class R3Prot@ { int *p; protected: ~R3Prot@() { delete p; } };
class R3Shared@ { QSharedDataPointer<QSharedData> d; public: R3Shared@(const R3Shared@ &); ~R3Shared@(); };
class R3SharedData@ : public QSharedData { public: int *p; R3SharedData@(const R3SharedData@ &); };
class R3Pod@Private { int *p; public: ~R3Pod@Private() { delete p; } };
struct R3Poly@ { int *p; virtual ~R3Poly@() { delete p; } };
struct R3Dtor2@ { int *p; ~R3Dtor2@(); }; R3Dtor2@::~R3Dtor2@() { delete p; } //!
union R3Un@ { int *p; float f; };
''', inc=['QSharedData', 'QSharedDataPointer', 'QObject'])
D('copyable-polymorphic', '''
struct CPBase@ { virtual void f(); virtual ~CPBase@(); }; //!
struct CPDerived@ : public CPBase@ { void f() override; }; //!
class CPDisabled@ { Q_DISABLE_COPY(CPDisabled@) public: CPDisabled@(); virtual ~CPDisabled@(); };
struct CPDeleted@ { virtual ~CPDeleted@(); CPDeleted@(const CPDeleted@ &) = delete; CPDeleted@ &operator=(const CPDeleted@ &) = delete; };
class CPPrivate@ { CPPrivate@(const CPPrivate@ &); CPPrivate@ &operator=(const CPPrivate@ &); public: virtual ~CPPrivate@(); };
class CPProt@ { protected: CPProt@(const CPProt@ &); CPProt@ &operator=(const CPProt@ &); public: virtual ~CPProt@(); };
struct CPFinal@ final : public CPProt@ { CPFinal@(const CPFinal@ &) = default; void f(); };
struct CPNotFinal@ : public CPProt@ { CPNotFinal@(const CPNotFinal@ &) = default; void f(); }; //!
struct CPFinalOfCopyable@ final : public CPBase@ { }; //!
struct CPPlain@ { void f(); };
struct CPHalf@ { virtual ~CPHalf@(); CPHalf@(const CPHalf@ &) = delete; CPHalf@ &operator=(const CPHalf@ &); }; //!
''', inc=QO)
D('virtual-call-ctor', '''
struct VC@ {
    VC@() { f(); } //!2
    explicit VC@(int) { h(); } //!2
    explicit VC@(char) { g(); }
    explicit VC@(long) { auto l = [this] { f(); }; l(); }
    explicit VC@(VC@ *o) { o->f(); }
    ~VC@() { if (b) f(); } //!2
    virtual void f() = 0;
    virtual void g();
    void h() { k(); }
    void k() { f(); }
    bool b = false;
};
struct VCDerived@ : public VC@ { VCDerived@() { f(); } void f() override; };
''', inc=QO)
D('skipped-base-method', '''
struct SBA@ { virtual void f(); virtual void g(); void h(); virtual ~SBA@(); };
struct SBB@ : public SBA@ { void f() override; };
struct SBC@ : public SBB@ {
    void f() override { SBA@::f(); } //!
    void g() override { SBA@::g(); }
    void i() { SBA@::h(); SBB@::f(); }
};
struct SBD@ : public SBC@ {
    void f() override { SBA@::f(); } //!2
    void j() { SBB@::f(); } //!
    void k() { SBC@::f(); }
    void l(SBD@ *o) { o->SBA@::f(); }
};
''', inc=QO)
D('unused-result-check', '''
struct UR@ {
    int c() const; void v() const; int n();
    void t() const {
        c(); //!
        v();
        int a = c(); (void)a;
        if (c()) { c(); } //!
        while (c() > 0) { }
        for (int i = c(); i < c(); ++i) { }
        (void)c();
    }
    int u() { n(); return c(); }
};
''', inc=QO)
D('used-qunused-variable', '''
int uq1@(int a, int b) {
    Q_UNUSED(a) //!
    (void)b;
    return a;
}
int uq2@(int a, int b) {
    (void)a; //!
    Q_UNUSED(b)
    if (a > 3) { return 1; }
    return 0;
}
void uq3@(int a) { Q_UNUSED(a) }
''', inc=QO)
D('compare-member-check', '''
struct CM@ {
    int a; int b; int c;
    bool operator>(const CM@ &o) const { return a > o.a || b > o.b; }
    bool operator==(const CM@ &o) const { return a == o.a && b == o.b && c == o.c; }
    bool operator<(const CM@ &o) const { return std::tie(a, b, c) < std::tie(o.a, o.b, o.c); }
    bool operator<=(const CM@ &o) const { return std::tie(a, b) <= std::tie(o.a, o.b); }
};
bool cmf@(const CM@ &x, const CM@ &y) {
    bool p = x > y; //!
    p = x == y;
    p = x < y;
    p = x <= y; //!
    return p;
}
''', inc=['QObject', '<tuple>'])
D('returning-void-expression', '''
void rv1@(); void *rv4@();
void rv2@(bool c) {
    if (c)
        return rv1@(); //!
    rv1@();
    return;
}
int rv3@() { return 3; }
void *rv5@() { return rv4@(); }
''', inc=QO)

# ------------------------------------------------------------------ globals
D('global-const-char-pointer', '''
const char *gc1@ = "a"; //!
const char *const gc2@ = "a";
const char gc3@[] = "a";
char *gc4@ = nullptr; //!
static const char *gc5@ = "a";
extern const char *gc6@;
struct GC@ { static const char *m; };
const char *GC@::m = "x";
inline const char *gcf@() { static const char *l = "x"; return l; }
''', noctx=('anonymous namespace',))
D('non-pod-global-static', '''
static QString np1@; //!
static int np2@ = 3;
static const QString np3@("x"); //!
static std::vector<int> np4@ = {1, 2}; //!
struct NPPod@ { int a; }; static NPPod@ np5@;
struct NPCe@ { constexpr NPCe@(int v) : a(v) {} int a; }; static NPCe@ np6@(3);
struct NPDyn@ { NPDyn@(int v); int a; }; static NPDyn@ np7@(3); //!
struct NPDtor@ { ~NPDtor@(); }; static NPDtor@ np8@; //!
inline void npf@() { static QString local; (void)local; }
static const char *np9@ = "x";
static QString *np10@ = nullptr;
''', inc=['QString', '<vector>'])
D('wrong-qglobalstatic', '''
struct WGTrivial@ { int v; };
struct WGCtor@ { WGCtor@(); int v; };
struct WGDtor@ { ~WGDtor@(); int v; };
Q_GLOBAL_STATIC(WGTrivial@, wg1@) //!
Q_GLOBAL_STATIC(WGCtor@, wg2@)
Q_GLOBAL_STATIC(WGDtor@, wg3@)
Q_GLOBAL_STATIC(QString, wg4@)
Q_GLOBAL_STATIC(int, wg5@) //!
''', inc=['QGlobalStatic', 'QString'], noctx=('anonymous namespace',))
D('static-pmf', '''
void sp@() {
    static auto pmf = &QObject::destroyed; //!
    static void (QObject::*p2)(QObject *) = &QObject::destroyed; //!
    auto p3 = &QObject::destroyed;
    static int x = 3;
    (void)pmf; (void)p2; (void)p3; (void)x;
}
struct SPPlain@ { void f(); };
void sp2@() { static auto q = &SPPlain@::f; (void)q; }
''', inc=QO)
D('unexpected-flag-enumerator-value', '''
enum UFA@ {
    UFA1@ = 0x1,
    UFA2@ = 0x2,
    UFA3@ = 0x4,
    UFA4@ = 0x9, //!
};
enum UFB@ { UFB1@ = 1, UFB2@ = 2, UFB3@ = 4, UFB4@ = 8 };
enum UFC@ { UFC1@, UFC2@, UFC3@, UFC4@, UFC5@ };
enum UFD@ { UFD1@ = 1, UFD2@ = 2, UFD3@ = 3, UFD4@ = 4 };
enum UFE@ { UFE1@ = 1, UFE2@ = 2, UFE3@ = 4, UFE4@ = UFE1@ | UFE3@ };
enum UFF@ { UFF1@ = 1, UFF2@ = 2, UFF3@ = 4, UFFMask@ = 0x15 };
enum UFG@ { UFG1@ = 1, UFG2@ = 2, UFG3@ = 4, UFG4@ = 0x7 };
enum class UFH@ { A = 0x10, B = 0x20, C = 0x41, //!
    D = 0x80, E = 0 };
''')

# ------------------------------------------------------------------ QObject classes
D('overloaded-signal', '''
class OS@ : public QObject {
    Q_OBJECT
public:
    void plain(); void plain(int);
Q_SIGNALS:
    void a(); //!
    void a(int); //!
    void b(int);
    void b2(int, int);
public Q_SLOTS:
    void c(); void c(int);
};
class OSD@ : public OS@ {
    Q_OBJECT
Q_SIGNALS:
    void b(const QString &); //!
    void b2(int, int);
};
''', inc=['QObject', 'QString'])
D('connect-by-name', '''
class CBN@ : public QObject {
    Q_OBJECT
public:
    void on_plain_method();
public Q_SLOTS:
    void on_button_clicked(); //!
    void on_button();
    void on_a_b_c();
    void onButtonClicked();
Q_SIGNALS:
    void on_foo_changed();
private Q_SLOTS:
    void on_other_triggered(bool); //!
};
''', inc=QO)
D('const-signal-or-slot', '''
class CSS@ : public QObject {
    Q_OBJECT
public:
    int getter() const;
    void doer() const;
Q_SIGNALS:
    void sig();
    void csig() const; //!
public Q_SLOTS:
    int cslot() const; //!
    void vslot() const;
    int slot2();
    Q_SCRIPTABLE int sslot() const;
};
void css@(CSS@ *o) {
    QObject::connect(o, &CSS@::sig, o, &CSS@::getter); //!
    QObject::connect(o, &CSS@::sig, o, &CSS@::doer);
    QObject::connect(o, &CSS@::sig, o, &CSS@::slot2);
}
''', inc=QO)
D('incorrect-emit', '''
class IE@ : public QObject {
    Q_OBJECT
public:
    IE@();
    void m();
    void plain();
Q_SIGNALS:
    void sig();
    void sig2(int);
public Q_SLOTS:
    void slt();
};
void IE@::m() {
    emit sig();
    Q_EMIT sig2(3);
    sig(); //!
    sig2(1); //!
    emit plain(); //!
    emit slt(); //!
    plain(); slt();
    emit (sig());
    emit this->sig();
    Q_EMIT
        sig();
    IE@ o; emit o.sig();
    o.sig(); //!
    auto l = [this] { emit sig(); sig2(3); }; //!
    l();
}
IE@::IE@() {
    emit sig(); //!
    IE@ *o = nullptr;
    emit o->sig();
    connect(this, &IE@::sig, this, [this] { emit sig2(3); });
}
''', inc=QO)
D('qproperty-without-notify', '''
class QN@ : public QObject {
    Q_OBJECT
    Q_PROPERTY(int a READ a) //!
    Q_PROPERTY(int b READ b CONSTANT)
    Q_PROPERTY(int c READ c WRITE setC NOTIFY cChanged)
    Q_PROPERTY(int d READ d WRITE setD) //!
    Q_PROPERTY(int e READ e CONSTANT FINAL)
public:
    int a() const; int b() const; int c() const; int d() const; int e() const; void setC(int); void setD(int);
Q_SIGNALS:
    void cChanged();
};
struct QNG@ {
    Q_GADGET
    Q_PROPERTY(int a READ a)
public:
    int a() const;
};
''', inc=QO)
D('qproperty-type-mismatch', '''
class QT@ : public QObject {
    Q_OBJECT
    Q_PROPERTY(bool foo READ foo WRITE setFoo NOTIFY fooChanged)
    Q_PROPERTY(bool bar READ bar WRITE setBar NOTIFY barChanged)
    Q_PROPERTY(QString str READ str WRITE setStr NOTIFY strChanged)
    Q_PROPERTY(int mem MEMBER m_mem)
    Q_PROPERTY(int mem2 MEMBER m_mem2)
public:
    int foo() const; //!
    void setFoo(float); //!
    bool bar() const;
    void setBar(bool);
    QString str() const;
    void setStr(const QString &);
    float m_mem; //!
    int m_mem2;
Q_SIGNALS:
    void fooChanged(int); //!
    void barChanged(bool);
    void strChanged();
};
''', inc=['QObject', 'QString'])
D('qproperty-type-mismatch', '''
class QU@ : public QObject {
    Q_OBJECT
    Q_PROPERTY(QMap<int, QString> map READ map WRITE setMap)
    Q_PROPERTY(unsigned int num /* READ map */ READ num)
    Q_PROPERTY(const char *str READ str) // WRITE setMap
    Q_PROPERTY(QVector<int> vec READ vec
        // MEMBER inner
        )
    Q_PROPERTY(long long big READ big)
    Q_PROPERTY(QMap<int, QString> other READ other)
    Q_PROPERTY(unsigned int neg READ neg)
public:
    QMap<int, QString> map() const;
    void setMap(const QMap<int, QString> &);
    unsigned int num() const;
    const char *str() const;
    QVector<int> vec() const;
    long long big() const;
    QMap<int, int> other() const; //!
    long neg() const; //!
    class Nested : public QObject { public: int both() const; Q_PROPERTY(int both READ both) };
    QString both() const;
};
''', inc=['QObject', 'QString', 'QMap', 'QVector'])
D('qproperty-without-notify', '''
class QW@ : public QObject {
    Q_OBJECT
    Q_PROPERTY(int a READ a) //!
    Q_PROPERTY(int b READ b /* no NOTIFY */) //!
    Q_PROPERTY(int c READ c/**/CONSTANT)
    Q_PROPERTY(int d READ d NOTIFY/*d*/dChanged)
public:
    int a(), b(), c(), d();
    Q_SIGNAL void dChanged();
};
''', inc=['QObject'])
D('fully-qualified-moc-types', '''
namespace FQ@ {
struct Type { int a; };
enum En { A };
class Obj : public QObject {
    Q_OBJECT
Q_SIGNALS:
    void sig1(Type); //!
    void sig2(FQ@::Type);
    void sig3(int, const QString &);
    void sig4(const Type &); //!
    void sig5(En); //!
public Q_SLOTS:
    void slot1(Type *); //!
    Type slot2(); //!
    FQ@::Type slot3();
    void slot4(QVector<Type>); //!
    void slot5(QVector<FQ@::Type>);
public:
    Q_INVOKABLE void inv(Type); //!
    void plain(Type);
};
}
''', inc=['QObject', 'QString', 'QVector'], noctx=('namespace', 'anonymous namespace'))
D('missing-qobject-macro', '''
class MQ1@ : public QObject { int a; }; //!
class MQ2@ : public QObject { Q_OBJECT int a; };
class MQ3@ { int a; };
template <typename T> class MQ4@ : public QObject { T a; };
class MQ5@ : public MQ2@ { public: int b; }; //!
class MQ6@ : public QObject { Q_OBJECT class Nested : public QObject { int a; }; };
class MQ7@;
''', inc=QO)
D('virtual-signal', '''
class VS@ : public QObject {
    Q_OBJECT
public:
    virtual void m();
Q_SIGNALS:
    virtual void a(); //!
    void b();
public Q_SLOTS:
    virtual void c();
};
struct VSIface@ { virtual void d() = 0; };
class VSD@ : public QObject, public VSIface@ {
    Q_OBJECT
Q_SIGNALS:
    void d() override;
};
class VSE@ : public VS@ {
    Q_OBJECT
Q_SIGNALS:
    void a() override; //!
};
''', inc=QO)
D('overridden-signal', '''
class OV@ : public QObject {
    Q_OBJECT
public:
    void plain(); void plain2();
Q_SIGNALS:
    void sig(); void sig2(int); void sig3();
};
class OVD@ : public OV@ {
    Q_OBJECT
public:
    void sig2(int); //!
    void plain2();
    void sig3(int);
Q_SIGNALS:
    void sig(); //!
    void plain(); //!
};
class OVE@ : public OVD@ {
    Q_OBJECT
public Q_SLOTS:
    void sig3(); //!
};
''', inc=QO)
D('signal-with-return-value', '''
class SR@ : public QObject {
    Q_OBJECT
public:
    int plain(int &);
Q_SIGNALS:
    int a(); //!
    void b();
    void c(int &); //!
    void d(const QString &);
    Q_SCRIPTABLE int e();
    QString f(QString &); //!2
public Q_SLOTS:
    int g();
};
''', inc=['QObject', 'QString'])
D('thread-with-slots', '''
class TS@ : public QThread {
    Q_OBJECT
public:
    int v = 0; QMutex mutex;
public Q_SLOTS:
    void a() { v = 3; } //!
    void b() { QMutexLocker l(&mutex); v = 3; }
    void c() { }
public:
    void d() { v = 4; }
    void e(); //!
};
class TSN@ : public QObject { Q_OBJECT public: int v; public Q_SLOTS: void a() { v = 3; } };
void ts@(QObject *o, TS@ *t) {
    QObject::connect(o, &QObject::destroyed, t, &TS@::e);
    QObject::connect(o, &QObject::destroyed, t, &QThread::quit);
}
''', inc=['QObject', 'QThread', 'QMutex', 'QMutexLocker'])
D('qhash-namespace', '''
namespace QH@ { struct A { int a; }; struct B { int a; }; size_t qHash(const A &); }
size_t qHash(QH@::B); //!
struct QHG@ { int a; };
size_t qHash(const QHG@ &);
namespace QHO@ { size_t qHash(QHG@); //!
size_t qHash(const QH@::B &, int); } //!
''', inc=['<cstddef>'], noctx=('namespace', 'anonymous namespace'))
D('base-class-event', '''
class BE@ : public QTimer {
    Q_OBJECT
public:
    bool event(QEvent *e) override {
        if (e->type() == QEvent::Timer) return true;
        if (e->type() == QEvent::User) return false; //!
        return QTimer::event(e);
    }
    bool eventFilter(QObject *o, QEvent *e) override {
        if (o) return false; //!
        return QTimer::eventFilter(o, e);
    }
    bool other() { return false; }
};
class BEO@ : public QObject {
    Q_OBJECT
public:
    bool event(QEvent *) override {
        return false; //!
    }
    bool eventFilter(QObject *, QEvent *) override { return false; }
};
struct BEP@ { bool event(QEvent *) { return false; } };
''', inc=['QObject', 'QTimer', 'QEvent'])
D('child-event-qobject-cast', '''
class CE@ : public QObject {
    Q_OBJECT
protected:
    void childEvent(QChildEvent *e) override {
        (void)qobject_cast<QTimer *>(e->child()); //!
        (void)e->child()->inherits("QTimer");
    }
    bool event(QEvent *e) override {
        (void)qobject_cast<QTimer *>(static_cast<QChildEvent *>(e)->child()); //!
        return QObject::event(e);
    }
    bool eventFilter(QObject *o, QEvent *e) override {
        auto ce = static_cast<QChildEvent *>(e);
        QTimer *t = qobject_cast<QTimer *>(ce->child()); //!
        (void)qobject_cast<QTimer *>(o);
        return t;
    }
    void other(QChildEvent *e) { (void)qobject_cast<QTimer *>(e->child()); }
};
''', inc=['QObject', 'QTimer', 'QChildEvent'])
D('install-event-filter', '''
class IF@ : public QObject {
    Q_OBJECT
public:
    void f(QObject *o) {
        installEventFilter(o); //!
        o->installEventFilter(this);
        this->installEventFilter(new QTimer); //!
        installEventFilter(new IFF@);
    }
};
''', inc=['QObject', 'QTimer', 'QEvent'], gsup='class IFF@ : public QObject { public: bool eventFilter(QObject *, QEvent *) override; };\n')
D('ctor-missing-parent-argument', '''
class CP1@ : public QObject { //!
    Q_OBJECT
public:
    CP1@();
};
class CP2@ : public QObject {
    Q_OBJECT
public:
    explicit CP2@(QObject *parent = nullptr);
};
class CP3@ : public QObject {
    Q_OBJECT
public:
    CP3@(); explicit CP3@(QObject *parent);
};
class CP4@ : public QObject {
    Q_OBJECT
    using QObject::QObject;
};
class CP5@ : public QObject { //!
    Q_OBJECT
public:
    explicit CP5@(int, QString);
};
class CP6@ : public QObject { Q_OBJECT };
class CP7@ { public: CP7@(); };
class CP8@ : public QWidget { //!
    Q_OBJECT
public:
    explicit CP8@(QObject *p);
};
class CP9@ : public QWidget { Q_OBJECT public: explicit CP9@(QWidget *p); };
''', inc=['QObject', 'QString', 'QWidget'])
D('sanitize-inline-keyword', '''
class __attribute__((visibility("default"))) SI@ {
public:
    int a() const; //!
    inline int b() const;
    int c() const { return 3; }
    int d() const;
};
inline int SI@::a() const { return 1; }
int SI@::b() const { return 2; }
int SI@::d() const { return 4; }
class __attribute__((visibility("hidden"))) SIH@ { int a() const; };
inline int SIH@::a() const { return 1; }
''', noctx=('anonymous namespace',))
D('qrequiredresult-candidates', '''
class RR@ {
public:
    RR@ intersected(const RR@ &o) const; //!
    RR@ toSorted() const;
    RR@ sorted(); int added() const; static RR@ created();
    Q_REQUIRED_RESULT RR@ moved() const;
    [[nodiscard]] RR@ resized() const;
private:
    RR@ hidden2ed() const;
};
''', inc=QO)
D('qt-keywords', '''
class QK@ : public QObject {
    Q_OBJECT
signals: //!
    void a();
public slots: //!
    void b() {
        emit a(); //!
        Q_EMIT a();
        QList<int> l;
        foreach (int i, l) { (void)i; } //!
        Q_FOREACH (int i, l) { (void)i; }
    }
Q_SIGNALS:
    void c();
public Q_SLOTS:
    void d();
};
''', inc=['QObject', 'QList'])
D('qt-keyword-emit', '''
class QE@ : public QObject {
    Q_OBJECT
signals:
    void a();
public slots:
    void b() {
        emit a(); //!
        Q_EMIT a();
    }
};
''', inc=QO)
D('qenums', '''
class QM@ : public QObject {
    Q_OBJECT
    Q_ENUMS(Foo) //!
public:
    enum Foo { A@, B@ };
    enum Bar { C@ };
    Q_ENUM(Bar)
};
''', inc=QO)
D('ifndef-define-typo', '''
#ifndef IDT_FRAMEBUFFER_SRG@
#define IDT_FRAMEBUFFER_SRGB@ 1 //!
#endif
#ifndef IDT_OK@
#define IDT_OK@ 1
#endif
#ifndef IDT_COMPLETELY@
#define OTHER_NAME_ENTIRELY@ 1
#endif
''')
D('detaching-member', '''
class DM@ {
public:
    int f() {
        int a = m_list.first(); //!
        a += m_list.at(0) + m_list.constFirst();
        a += m_hash[3]; //!
        a += m_hash.value(3);
        auto it = m_list.begin(); //!
        auto cit = m_list.cbegin();
        (void)it; (void)cit;
        QList<int> local; local.append(1); a += local.first();
        return a;
    }
    int g() const { return m_list.first() + m_hash[3]; }
    void w() { m_list[0] = 3; }
    QList<int> m_list; QHash<int, int> m_hash;
};
''', inc=['QList', 'QHash'])
D('modernize-overloaded-connects', '''
class MO@ : public QObject {
    Q_OBJECT
public:
    void f() {
        connect(this, &MO@::sig, this, QOverload<int>::of(&MO@::over)); //!
        connect(this, &MO@::sig, this, static_cast<void (MO@::*)(int)>(&MO@::over)); //!
        connect(this, &MO@::sig, this, qOverload<int>(&MO@::over));
        connect(this, &MO@::sig, this, qOverload<int>(&MO@::single)); //!
        connect(this, &MO@::sig, this, &MO@::single);
    }
    void over(int); void over(const QString &); void single(int);
Q_SIGNALS:
    void sig(int);
};
''', inc=['QObject', 'QString'])
D('function-args-by-ref', '''
struct FABig@ { int v[8]; FABig@(); };
struct FANon@ { FANon@(const FANon@ &); int v; };
struct FASmall@ { int v; };
int fa1@(FABig@ a) { return a.v[0]; } //!
int fa2@(const FABig@ a) { return a.v[0]; } //!
int fa3@(const FABig@ &a) { return a.v[0]; }
int fa4@(FANon@ a) { return a.v; } //!
int fa5@(FASmall@ a) { return a.v; }
int fa6@(QString a) { return a.size(); } //!
int fa7@(std::shared_ptr<int> a) { return *a; }
int fa8@(FABig@ *a) { return a->v[0]; }
int fa9@(FABig@ a);
''', inc=['QString', '<memory>'])
D('function-args-by-value', '''
struct FVBig@ { int v[8]; };
struct FVNon@ { FVNon@(const FVNon@ &); int v; };
struct FVSmall@ { int v; };
int fv1@(const FVSmall@ &a) { return a.v; } //!
int fv2@(const FVBig@ &a) { return a.v[0]; }
int fv3@(const FVNon@ &a) { return a.v; }
int fv4@(const int &a) { return a; } //!
int fv5@(FVSmall@ &a) { return a.v; }
int fv6@(const QPoint &a) { return a.x(); } //!
int fv7@(FVSmall@ &&a) { return a.v; }
struct FVCls@ { FVCls@(const FVSmall@ &a) : ref(a) {} const FVSmall@ &ref; FVCls@(const FVCls@ &o) = default; };
''', inc=['QPoint'])
D('no-module-include', '''
''', qt=())
D('jni-signatures', '''
void jni@() {
    QAndroidJniObject::callStaticMethod<int>("java/lang/Foo", "toString", "()Ljava/lang/String"); //!
    QAndroidJniObject::callStaticMethod<int>("java/lang/Foo", "toString", "()Ljava/lang/String;");
    QAndroidJniObject::callStaticMethod<int>("java/lang/Foo", "to String", "()V"); //!
    QAndroidJniObject::callStaticMethod<int>("java.lang.Foo", "toString", "()V"); //!
    QAndroidJniObject o("java/lang/Foo", "(I)V");
    QAndroidJniObject o2("java/lang/Foo", "(I"); //!
    o.callMethod<int>("size", "([BJ)I");
    o.callMethod<int>("size", "(X)I"); //!
    o.callObjectMethod("get", "(ILjava/lang/String;)Ljava/lang/Object;");
}
''', gsup='''class QAndroidJniObject { public: QAndroidJniObject(const char *, const char *);
template <typename T> static T callStaticMethod(const char *, const char *, const char *);
template <typename T> T callMethod(const char *, const char *); QAndroidJniObject callObjectMethod(const char *, const char *); };
''')
