"""Corpus of real programs and mutations of them, for the robustness workloads."""
import os, re, subprocess
import build

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'|//[^\n]*|/\*.*?\*/|[A-Za-z_]\w*|\d[\w.]*|::|->\*?|<<=?|>>=?|[-+*/%&|^=!<>]=|&&|\|\||\+\+|--|\s+|.', re.S)


def corpus():
    """(name, text, folder) of every source file of clazy's own tests: programs its checks have something to say about."""
    root = os.path.join(build.REPO, 'tests')
    out = []
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith('.cpp') and '.fixed' not in f:
                p = os.path.join(d, f)
                try:
                    out.append((os.path.relpath(p, root), open(p, encoding='utf-8', errors='replace').read(), d))
                except OSError:
                    pass
    return out


def hostile():
    """Rarely written language forms around what the checks look at."""
    d = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hostile')
    return [('hostile/' + f, open(os.path.join(d, f)).read(), d) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]


def split_head(text):
    """The leading block of includes and defines, and the rest."""
    lines = text.split('\n')
    last = 0
    for i, l in enumerate(lines):
        if l.startswith('#include') and i < 60:
            last = i + 1
    return '\n'.join(lines[:last]) + '\n', '\n'.join(lines[last:])


DECL_ODD = r'''
struct { int a : 3; int : 0; union { int x; float y; }; } anonObj@;
enum class E@ : unsigned char { A = 1, B = 2, C = 4, D = 9 };
enum { Un@A, Un@B = 7 };
template <typename T> struct Tm@ { T t; void f() { t.begin(); for (auto x : t) { (void)x; } t.left(1); emitted(); } void emitted(); };
template <typename... Ts> auto fold@(Ts... ts) { return (ts + ... + 0); }
template <typename T> auto gen@ = [](auto x) { return x; };
struct Conv@ { operator bool() const; explicit operator int(); template <class T> operator T*() const; int operator%(int) const; bool operator<=(const Conv@ &o) const { return &o != this; } };
inline int operator"" _u@(unsigned long long v) { return int(v); }
struct Fr@ { friend bool operator==(const Fr@ &a, const Fr@ &b) { return &a == &b; } friend class Unknown@; int m = 3, *p = &m; Fr@() = default; ~Fr@(); Fr@(const Fr@ &) = delete; };
template <typename T> struct Guide@ { Guide@(T); }; template <typename T> Guide@(T) -> Guide@<T>;
auto Tr@(int i) -> decltype(i) { return i; }
void Kr@(int (*fp)(int), int (&arr)[3], int &&r, const int &c, ...) { int a, b = fp(arr[0]), *q = nullptr; (void)a; (void)b; (void)q; (void)r; (void)c; }
namespace A@ { namespace { int hidden; } inline namespace V { struct S {}; } } using namespace A@; namespace B@ = A@;
extern "C" { int cfun@(const char *fmt, ...); static const char *gcp@ = "x"; }
template <> struct Missing@<int>;
int arr@[] = { 1, 2, [3] = 4 };
class Fwd@; void useFwd@(Fwd@ &f, Fwd@ *p, const Fwd@ byval);
struct Virt@ { Virt@() { pv(); } virtual ~Virt@() { pv(); } virtual void pv() = 0; virtual int q() { pv(); return 0; } };
struct Self@ { Self@ *next; Self@(Self@ *n = nullptr) : next(n) {} void f() { this->next->next->f(); delete this; } };
static_assert(sizeof(int) == 4, "100% sure");
template <template <typename> class C, int N> struct TT@ { C<int> c[N]; };
using Fn@ = void (Self@::*)(int) const; typedef int Arr@[4]; typedef struct { int z; } TS@, *PTS@;
constexpr int cx@(int n) { return n <= 1 ? 1 : n * cx@(n - 1); }
struct Big@ { char c[17]; }; void big@(Big@ b, const Big@ cb, Big@ &r, const Big@ &cr, Big@ *p) { Big@ x = b; (void)x; (void)cb; (void)r; (void)cr; (void)p; }
union Un2@ { int a; double d; ~Un2@(); };
struct Lit@ { static constexpr const char *s = "é%s%1"; static inline int n = 0; thread_local static int tl; };
[[deprecated("x")]] [[nodiscard]] int attr@([[maybe_unused]] int u = [] { return 3; }());
'''.strip().split('\n')

STMT_ODD = r'''
int a@ = 1, b@ = 2, *c@ = nullptr;
if (int k@ = 3; k@ > 2) { } else if (auto p@ = nullptr; true) ;
for (;;) break;
for (int i@ = 0, j@ = 1; i@ < j@; ++i@, --j@) continue;
switch (1) default: case 2: ;
switch (int s@ = 3; s@) { case 1: case 2: break; }
do ; while (0);
while (false) { goto out@; } out@: ;
auto l@ = [=, x = 3, this_ = 0]() mutable -> int { x++; return x; }; l@();
auto g@ = [](auto &&...v) { return sizeof...(v); }; g@(1, "two", 3.0);
struct Local@ { int m; void f() { m = 1; } } loc@{1}, *pl@ = &loc@; pl@->f();
auto [u@, v@] = Pair@{1, 2};
(void)(1, 2, "x"[0]);
int arr@[3] = {}; for (auto &e@ : arr@) e@++; for (int z@ : {1, 2, 3}) (void)z@;
static const char *sp@ = "a" "b" R"(c\n%1)" u8"é"; (void)sp@;
({ int se@ = 1; se@; });
new int; delete new int[3]; new (nullptr) int(3);
try { throw 1; } catch (...) { } catch (int) { }
void (*fp@)() = nullptr; (*fp@)(); fp@();
QString s@ = QString("%1 %2").arg("a").arg(1); s@.left(1); s@ == 'c'; s@ = s@ + "x" + s@;
QString t@("x"), w@ = "y", *pt@ = &t@; pt@->left(1).isEmpty(); (*pt@)[0];
QList<int> q@; q@ << 1 << 2; q@.first(); for (auto i@ : q@) q@ << i@; for (int i@ : QList<int>() << 1) (void)i@;
QList<QString> ql@ = QList<QString>() << "a" << ("b") << QString(); ql@[0].chop(1);
auto au@ = q@.begin(), ae@ = q@.end(); au@ == ae@;
foreach (int f@, q@) { q@.clear(); }
QMap<int, QString> m@; m@[1]; m@.values().first(); m@.find(1) == m@.cend(); for (auto &mv@ : m@.keys()) mv@++;
QObject::connect(nullptr, nullptr, nullptr, nullptr); QObject::connect(this, SIGNAL(a( int )), SLOT(b()));
QObject o@; o@.connect(&o@, &QObject::destroyed, [&] { o@.deleteLater(); });
emit foo@(); Q_EMIT this->destroyed();
return; 
co_return 1;
QLatin1String la@("é"), lb@; QStringLiteral(""); QColor col@("#12"), cc@("#12345678"), ce@("");
QByteArray ba@ = "x"; const char *bc@ = ba@; const char *bd@ = ba@.toHex().data(); return bd@;
qgetenv("X").isEmpty(); qgetenv("").toInt(nullptr, 0); qgetenv(bc@);
QDateTime::currentDateTime().toUTC().toMSecsSinceEpoch(); QFileInfo("a").exists(); QTimer::singleShot(0, [] {});
static_cast<QObject *>(nullptr); dynamic_cast<QObject *>(this); qobject_cast<QObject *>((QObject *)0);
Q_ASSERT(q@.takeFirst()); Q_UNUSED(q@); (void)q@;
int vla@[a@]; sizeof(vla@); typeid(int);
if constexpr (true) { } else { undefined@(); }
lambda@: [&]() -> QString { return QString() + "x"; }().left(1);
requires@(requires(int x) { x + 1; });
'''.strip().split('\n')


class Mutator:
    def __init__(self, rng, files):
        self.rng = rng
        self.files = files
        self.n = 0

    def fresh(self, text):
        self.n += 1
        return text.replace('@', str(self.n))

    def tokens(self, t):
        return TOK.findall(t)

    def pick_tok(self, toks):
        idx = [i for i, t in enumerate(toks) if not t.isspace() and not t.startswith(('//', '/*'))]
        return self.rng.choice(idx) if idx else None

    def mutate(self, name, text):
        """(new text, list of the mutations applied)"""
        head, bodyt = split_head(text)
        ops = []
        for _ in range(self.rng.choice([1, 1, 2, 2, 3, 5, 8])):
            op = self.rng.choice(self.OPS)
            r = op(self, bodyt)
            if r is not None and len(r) < 200000:
                bodyt = r
                ops.append(op.__name__)
        if self.rng.random() < 0.03:
            head, ops = '', ops + ['no_includes']
        return head + bodyt, ops

    # -- operators on the text below the includes
    def del_tokens(self, t):
        toks = self.tokens(t)
        i = self.pick_tok(toks)
        if i is None:
            return None
        del toks[i:i + self.rng.choice([1, 1, 2, 4])]
        return ''.join(toks)

    def del_line(self, t):
        l = t.split('\n')
        i = self.rng.randrange(len(l))
        del l[i:i + self.rng.choice([1, 1, 3])]
        return '\n'.join(l)

    def dup_line(self, t):
        l = t.split('\n')
        i = self.rng.randrange(len(l))
        l.insert(self.rng.randrange(len(l) + 1), l[i])
        return '\n'.join(l)

    def swap_tokens(self, t):
        toks = self.tokens(t)
        i, j = self.pick_tok(toks), self.pick_tok(toks)
        if i is None:
            return None
        toks[i], toks[j] = toks[j], toks[i]
        return ''.join(toks)

    def subst_ident(self, t):
        toks = self.tokens(t)
        ids = [i for i, x in enumerate(toks) if re.match(r'[A-Za-z_]', x)]
        if len(ids) < 2:
            return None
        toks[self.rng.choice(ids)] = toks[self.rng.choice(ids)]
        return ''.join(toks)

    def rename_everywhere(self, t):
        toks = self.tokens(t)
        ids = sorted({x for x in toks if re.match(r'[A-Za-z_]\w*$', x)})
        if len(ids) < 2:
            return None
        a, b = self.rng.choice(ids), self.rng.choice(ids)
        return ''.join(b if x == a else x for x in toks)

    def truncate(self, t):
        return t[:self.rng.randrange(len(t) + 1)]

    def literal(self, t):
        toks = self.tokens(t)
        lits = [i for i, x in enumerate(toks) if x[0] in '"\'' or x[0].isdigit()]
        if not lits:
            return None
        toks[self.rng.choice(lits)] = self.rng.choice(['""', '"%"', '"%n%s%1%99"', '"é\\u00e9"', 'u"x"', 'R"(\n)"', "'x'", '0', '-1', '0x7fffffffffffffffLL',
                                                       '18446744073709551615ULL', 'nullptr', '"a" "b"', '"#"', '"(,<>::"', 'L""', '1.5f', "'\\''", '"' + 'x' * 300 + '"'])
        return ''.join(toks)

    def wrap_template(self, t):
        l = t.split('\n')
        idx = [i for i, x in enumerate(l) if re.match(r'(void|int|bool|struct|class|QString|static|inline)\b.*[{(]', x)]
        if not idx:
            return None
        i = self.rng.choice(idx)
        l[i] = self.rng.choice(['template <typename T> ', 'template <typename... T> ', 'template <int N = 1> ', 'constexpr ', '[[nodiscard]] ', 'extern ']) + l[i]
        return '\n'.join(l)

    def wrap_all(self, t):
        k = self.rng.randrange(6)
        self.n += 1
        if k == 0:
            return 'namespace W%d {\n%s\n}\n' % (self.n, t)
        if k == 1:
            return 'template <typename TT> struct W%d {\n%s\n};\n' % (self.n, t)
        if k == 2:
            return 'void w%d() {\n%s\n}\n' % (self.n, t)
        if k == 3:
            return '#define W%d(...) __VA_ARGS__\nW%d(\n%s\n)\n' % (self.n, self.n, re.sub(r'(?m)^#.*$', '', t))
        if k == 4:
            return 'extern "C" {\n%s\n}\n' % t
        return '#line 7 "virtual%d.cpp"\n%s' % (self.n, t)

    def odd_decl(self, t):
        l = t.split('\n')
        l.insert(self.rng.randrange(len(l) + 1), self.fresh(self.rng.choice(DECL_ODD)))
        return '\n'.join(l)

    def odd_stmt(self, t):
        l = t.split('\n')
        idx = [i for i, x in enumerate(l) if x.rstrip().endswith(('{', ';'))]
        for _ in range(self.rng.choice([1, 2, 4])):
            if not idx:
                return None
            l.insert(self.rng.choice(idx) + 1, self.fresh(self.rng.choice(STMT_ODD)))
        return '\n'.join(l)

    def odd_expr(self, t):
        """A statement of the corpus in an unusual place: global initializer, member initializer, default argument, lambda body."""
        l = [x.strip() for x in t.split('\n') if x.strip().endswith(';') and '#' not in x and '{' not in x]
        if not l:
            return None
        s = self.rng.choice(l)
        self.n += 1
        e = s.rstrip(';')
        if re.match(r'return\b', e):
            e = e[6:].strip() or '0'
        form = self.rng.choice(['auto ge%d = %s;', 'struct GE%d { decltype(%s) m; };', 'struct GM%d { int m = (%s, 1); };', 'int gd%d(int a = (%s, 1));',
                                'auto gl%d = [] { %s; };', 'template <typename T> void gt%d() { %s; }', 'static_assert((%s, 1), "%d");',
                                'template <typename T> struct GT%d { void f() { %s; } }; template struct GT%d<int>;', 'int gs%d = ({ %s; 1; });', 'auto gn%d = noexcept(%s);'])
        if form.startswith('static_assert'):
            d = form % (e, self.n)
        elif form.count('%d') == 2:
            d = form % (self.n, e, self.n)
        else:
            d = form % (self.n, e)
        return t + '\n' + d + '\n'

    def splice(self, t):
        n, other, _ = self.rng.choice(self.files)
        _, ob = split_head(other)
        l = ob.split('\n')
        if len(l) < 3:
            return None
        i = self.rng.randrange(len(l))
        k = self.rng.randrange(1, 40)
        m = t.split('\n')
        p = self.rng.randrange(len(m) + 1)
        return '\n'.join(m[:p] + l[i:i + k] + m[p:])

    def preproc(self, t):
        l = t.split('\n')
        self.n += 1
        l.insert(self.rng.randrange(len(l) + 1), self.rng.choice([
            '#if 0', '#endif', '#else', '#define emit', '#undef signals', '#define QT_NAMESPACE Foo', '#define QT_NAMESPACE', '#ifndef X%d\n#define X%d1\n#endif' % (self.n, self.n),
            '#include "nonexistent.h"', '#pragma once', '#define X%d(a) a##a #a' % self.n, '#define slots Q_SLOTS private', '#line 1', '#line 99999 "x%y.cpp"', '#define Q_OBJECT',
            '#ifdef Q_OS_WINDOWS\n#endif', '#if defined(Q_OS_LINUX)\n#endif', 'Q_PROPERTY(int x READ x WRITE)', 'Q_PROPERTY(', 'Q_ENUMS(A)', 'signals:', 'public Q_SLOTS:', 'Q_SIGNAL', 'Q_INVOKABLE',
            '_Pragma("once")', '// clazy:excludeall=', '// clazy:exclude=,', '// NOLINTBEGIN', '// NOLINTEND', '// NOLINT(clazy-*)', '// NOLINTNEXTLINE(clazy-[', '/* clazy:skip', '#define const', '#define private public']))
        return '\n'.join(l)

    def crlf(self, t):
        return t.replace('\n', '\r\n')

    def bytes_(self, t):
        i = self.rng.randrange(len(t) + 1)
        return t[:i] + self.rng.choice(['\x00', '\xff', '\x1a', '\\\n', '\ufeff', '\u202e', '??/', '@', '`', '$x']) + t[i:]

    OPS = [del_tokens, del_tokens, del_line, dup_line, swap_tokens, subst_ident, subst_ident, rename_everywhere, truncate, literal, literal, wrap_template,
           wrap_template, wrap_all, odd_decl, odd_decl, odd_stmt, odd_stmt, odd_stmt, odd_expr, odd_expr, odd_expr, splice, splice, preproc, crlf, bytes_]
