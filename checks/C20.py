"""C20: special members, polymorphic classes, static objects and virtual calls against a model of the language and running programs."""
from common import *
import subprocess, work

m = Monitor('C20', "A case is one generated class, one use of its copy operations, one static object of it, or one constructor or destructor with its calls. What rule-of-three, rule-of-two-soft, copyable-polymorphic, "
                   "non-pod-global-static and wrong-qglobalstatic report is compared with a model of the class, which must itself agree with the type traits another compiler evaluates; what virtual-call-ctor reports is "
                   "compared with whether running the constructor or destructor reaches a pure virtual function. Non-trivial when the class declares a special member, has a base or a virtual function; distinct by the description of the class")
CHECKS = ['rule-of-three', 'rule-of-two-soft', 'copyable-polymorphic', 'non-pod-global-static', 'wrong-qglobalstatic']


class K:
    pass


def gen_class(rng, k, known):
    c = K()
    ch = rng.choice
    c.kw = ch(['struct', 'class'])
    c.name = 'K%d' % k + ('Private' if rng.random() < .04 else '')
    c.ns = ch([''] * 6 + ['ns', 'a::b'])
    special = rng.random() < .8
    acc = lambda: ch(['public'] * 6 + ['protected', 'private'])
    st = ['none', 'none', 'none', 'default', 'user', 'user', 'delete', 'default_out']
    c.cc, c.cca = (ch(st), acc()) if special else ('none', 'public')
    c.ca, c.caa = (ch(st), acc()) if special else ('none', 'public')
    c.dt, c.dta = (ch(['none', 'none', 'none', 'default', 'user_empty', 'user_body', 'user_body', 'user_body', 'user_decl', 'default_out']), ch(['public'] * 7 + ['protected'])) if special else ('none', 'public')
    c.mv = ch(['none'] * 8 + ['default', 'user', 'assign'])
    c.dc = ch(['none', 'default', 'user', 'constexpr', 'none'])
    c.virt = ch(['none', 'none', 'none', 'fn', 'pure', 'dtor'])
    c.base = ch(known) if known and rng.random() < .35 else None
    if c.base and (c.base.final or c.base.ns or c.base.dta == 'private'):
        c.base = None
    c.basekw = ch(['public ', 'public ', '']) if c.base else ''
    c.final = rng.random() < .15
    c.fields = []
    for i in range(ch([0, 0, 1, 1, 2])):
        c.fields.append(ch(['int f%d;', 'int f%d = 3;', 'QString f%d;', 'const int f%d = 1;', 'void *f%d;', 'char f%d[4] = {};', 'QSharedDataPointer<SD> f%d;', 'static int f%d;']) % i)
    c.shared = not c.base and rng.random() < .05
    if c.virt == 'dtor' and c.dt == 'none':
        c.dt = 'default'
    has_const = any('const int' in f for f in c.fields)
    if 'default_out' in (c.cc, c.ca, c.dt) and (c.base or has_const or c.mv != 'none' or c.shared or any('QShared' in f for f in c.fields)):
        for a in ('cc', 'ca', 'dt'):
            if getattr(c, a) == 'default_out':
                setattr(c, a, 'user')
    if c.dt == 'user':
        c.dt = 'user_decl'
    if c.dc == 'default' and c.base and (c.base.dc_ok is False):
        c.dc = 'user'
    if c.dc == 'constexpr' and (c.base or c.shared or any('QS' in f or f == 'int f%d;' % i or 'void' in f for i, f in enumerate(c.fields)) or c.virt != 'none'):
        c.dc = 'user'
    # ---- the model
    b = c.base
    own_virt = c.virt in ('fn', 'pure', 'dtor')
    c.poly = own_virt or bool(b and b.poly)
    c.abstract = c.virt == 'pure' or bool(b and b.abstract)
    qs, sdp = any(f.startswith('QString') for f in c.fields), any('QShared' in f for f in c.fields)
    moved = c.mv != 'none'
    bdt_ok = not b or b.dta != 'private'
    c.cc_del = c.cc == 'delete' or (c.cc == 'none' and moved) or (c.cc in ('none', 'default') and bool(b) and (b.cc_del or b.cca_eff == 'private'))
    c.ca_del = c.ca == 'delete' or (c.ca == 'none' and moved) or (c.ca in ('none', 'default') and (has_const or c.shared or (bool(b) and (b.ca_del or b.caa_eff == 'private'))))
    c.cca_eff = c.cca if c.cc != 'none' else 'public'
    c.caa_eff = c.caa if c.ca != 'none' else 'public'
    c.cc_user, c.ca_user, c.dt_user = c.cc in ('user', 'default_out'), c.ca in ('user', 'default_out'), c.dt in ('user_empty', 'user_body', 'user_decl', 'default_out')
    c.cc_triv = not c.cc_user and not c.poly and (not b or b.cc_triv) and not qs and not sdp and not c.shared
    c.ca_triv = not c.ca_user and not c.poly and (not b or b.ca_triv) and not qs and not sdp and not c.shared
    c.dt_triv = not c.dt_user and c.virt != 'dtor' and (not b or (b.dt_triv and not b.dt_virtual)) and not qs and not sdp
    c.dt_virtual = c.virt == 'dtor' or bool(b and b.dt_virtual)
    user_ctor = c.cc != 'none' or c.mv in ('default', 'user')
    c.dc_ok = (c.dc != 'none' or not user_ctor) and not (c.dc in ('none', 'default') and b and not b.dc_ok)
    init = any('=' in f for f in c.fields if not f.startswith('static'))
    c.dc_triv = c.dc_ok and c.dc in ('none', 'default') and not c.poly and (not b or b.dc_triv) and not qs and not sdp and not init and not c.shared
    uninit = any(re.match(r'(int|void \*)\s*f\d;', f) for f in c.fields)
    c.dc_constexpr = c.dc == 'constexpr' or (c.dc_ok and c.dc in ('none', 'default') and not uninit and (not b or b.dc_constexpr) and not qs and not sdp and not c.shared)
    # ---- the text
    L = []
    n = c.name
    A = lambda a, t: L.append((a, t))
    tail = {'default': ' = default;', 'user': ';', 'delete': ' = delete;', 'default_out': ';'}
    out = []
    if c.cc != 'none':
        A(c.cca, '%s(const %s &%s)%s' % (n, n, ch(['', 'o']), tail[c.cc]))
        if c.cc == 'default_out':
            out.append('inline %s::%s(const %s &) = default;' % (n, n, n))
    if c.ca != 'none':
        A(c.caa, '%s &operator=(const %s &)%s' % (n, n, tail[c.ca]))
        if c.ca == 'default_out':
            out.append('inline %s &%s::operator=(const %s &) = default;' % (n, n, n))
    v = 'virtual ' if c.virt == 'dtor' else ''
    if c.dt != 'none':
        A(c.dta, v + '~%s()%s' % (n, {'default': ' = default;', 'user_empty': ' {}', 'user_body': ' { extern int counter; ++counter; }', 'user_decl': ';', 'default_out': ';'}[c.dt]))
        if c.dt == 'default_out':
            out.append('inline %s::~%s() = default;' % (n, n))
    if c.mv in ('default', 'user'):
        A('public', '%s(%s &&)%s' % (n, n, tail[c.mv]))
    if c.mv in ('default', 'assign'):
        A('public', '%s &operator=(%s &&) = default;' % (n, n))
    if c.dc != 'none':
        A('public', {'default': '%s() = default;', 'user': '%s();', 'constexpr': 'constexpr %s() {}'}[c.dc] % n)
    if c.virt == 'fn':
        A('public', 'virtual void vf%d();' % k)
    if c.virt == 'pure':
        A('public', 'virtual void pf%d() = 0;' % k)
    A('public', 'void plain();')
    rng.shuffle(L)
    for f in c.fields:
        A('public', f)
    lines = ['%s %s%s%s {' % (c.kw, n, ' final' if c.final else '', ' : ' + c.basekw + b.name if b else ' : public QSharedData' if c.shared else '')]
    cur = None
    for a, t in L:
        if a != cur:
            lines.append(a + ':')
            cur = a
        lines.append('    ' + t)
    lines.append('};')
    if c.base and c.basekw == '' and c.kw == 'class':
        pass
    c.text = lines + out
    c.desc = (c.kw, c.cc, c.cca, c.ca, c.caa, c.dt, c.dta, c.mv, c.dc, c.virt, c.final, bool(b), tuple(f.split()[0] for f in c.fields), c.shared)
    c.q = (c.ns + '::' if c.ns else '') + n
    return c


def pub_copy(c):
    return (not c.cc_del and c.cca_eff == 'public') or (not c.ca_del and c.caa_eff == 'public')


def expect_class(c):
    exp = set()
    # rule of three
    num = c.cc_user + c.ca_user + c.dt_user
    skip = c.poly or num in (0, 3)
    has_const = any('const int' in f for f in c.fields)
    if c.dt_user and (c.cc_del or c.ca_del or (has_const and c.ca == 'none')):
        skip = True
    if c.dt_user and num == 1 and (c.dta == 'protected' or c.dt in ('user_empty', 'default_out', 'user_decl')):   # (a body elsewhere may be empty)
        skip = True
    if not c.dt_user and (c.shared or c.dt == 'default' or bool(c.base and derives_shared(c))):
        skip = True
    if any('QSharedDataPointer' in f for f in c.fields) or c.name.endswith('Private'):
        skip = True
    if not skip:
        has = [t for t, u in (('dtor', c.dt_user), ('copy-ctor', c.cc_user), ('copy-assignment', c.ca_user)) if u]
        no = [t for t, u in (('dtor', c.dt_user), ('copy-ctor', c.cc_user), ('copy-assignment', c.ca_user)) if not u]
        exp.add(('rule-of-three', '%s has %s but not %s' % (c.q, ', '.join(has), ', '.join(no))))
    if c.poly and pub_copy(c):
        anc, b = False, c.base
        while b:
            anc = anc or pub_copy(b)
            if b.shared:
                anc = True
            b = b.base
        if not (c.final and not anc and not c.shared):
            exp.add(('copyable-polymorphic', 'Polymorphic class %s is copyable. Potential slicing.' % c.q))
    return exp


def derives_shared(c):
    while c:
        if c.shared:
            return True
        c = c.base
    return False


HEAD = ['#include <QString>', '#include <QSharedData>', '#include <QGlobalStatic>', '#include <utility>', 'struct SD : public QSharedData { int x; };']


def classes(rng):
    known, all_ = [], []
    lines = list(HEAD)
    cases = {}
    for k in range(m.n(26, 34)):
        c = gen_class(rng, k, known)
        if c.base and c.kw == 'class' and c.basekw == '':
            c.basekw = 'public '
            c.text[0] = c.text[0].replace(' : ', ' : public ')
        if c.ns:
            lines.append('namespace %s {' % c.ns)
        at = len(lines) + 1
        lines += c.text
        cases[at] = ('class', c)
        if c.ns:
            lines.append('}')
        known.append(c)
        all_.append(c)
        usable = c.dta == 'public'
        if not c.ca_del and c.caa_eff == 'public' and rng.random() < .8:
            lines.append('void assign%d(%s &x, const %s &y) { x = y; }' % (k, c.q, c.q))
            cases[len(lines)] = ('assign', c)
        if not c.cc_del and c.cca_eff == 'public' and usable and not c.abstract and rng.random() < .8:
            lines.append(rng.choice(['void copy%d(const %s &x) { %s y(x); (void)y; }', 'void copy%d(const %s &x) { %s y = x; (void)y; }', 'void copy%d(const %s &x) { new %s(x); }']) % (k, c.q, c.q))
            cases[len(lines)] = ('copy', c)
        if c.dc_ok and usable and not c.abstract and not bdt_bad(c):
            form = rng.choice(['static %s g%d;', 'static %s g%d;', 'namespace { %s g%d; }', 'static %s g%d[2];', 'extern %s g%d;', 'void fn%d() { static %s g%d; }', '%s g%d;', 'static %s *g%d;', 'static %s &g%d();'])
            lines.append(form % ((k, c.q, k) if form.startswith('void') else (c.q, k)))
            cases[len(lines)] = ('static' if form in ('static %s g%d;', 'namespace { %s g%d; }', 'static %s g%d[2];') else 'nostatic', c)
            if rng.random() < .6:
                lines.append('Q_GLOBAL_STATIC(%s, qg%d)' % (c.q, k))
                cases[len(lines)] = ('qgs', c)
    lines.append('Q_GLOBAL_STATIC(int, qgi)')
    cases[len(lines)] = ('qgsint', None)
    text = '\n'.join(lines) + '\n'
    orc = '\n'.join(HEAD) + '\n#include <cstdio>\n#include <type_traits>\n' + '\n'.join(('namespace %s {\n%s\n}' % (c.ns, '\n'.join(c.text)) if c.ns else '\n'.join(c.text)) for c in all_) + '\nint counter;\nint main() {\n'
    for i, c in enumerate(all_):
        orc += '    printf("%d %%d %%d %%d %%d %%d %%d %%d %%d\\n", %s);\n' % (i, ', '.join('(int)std::%s<%s>::value' % (t, c.q) for t in (
            'is_polymorphic', 'is_abstract', 'is_copy_constructible', 'is_copy_assignable', 'is_trivially_destructible', 'is_trivially_copy_constructible', 'is_trivially_copy_assignable', 'is_trivially_default_constructible')))
    return text, orc + '}\n', cases, all_


def bdt_bad(c):
    return False


def model_agrees(c, f):
    poly, abstract, cc, ca, td, tcc, tca, tdc = f
    ok = [poly == c.poly, abstract == c.abstract, ca == (not c.ca_del and c.caa_eff == 'public')]
    if c.dta == 'public':
        ok.append(td == c.dt_triv)
        if not c.abstract:
            ok.append(cc == (not c.cc_del and c.cca_eff == 'public'))
            if cc and c.dt_triv:
                ok.append(tcc == c.cc_triv)
            if c.dt_triv:
                ok.append(tdc == c.dc_triv)
    if ca:
        ok.append(tca == c.ca_triv)
    return all(ok)


# ------------------------------------------------------------------ virtual calls
def vcalls(rng):
    """Classes whose constructors and destructors call members that call further ones, always; running them shows which reach a pure virtual function."""
    lines = ['#include <cstdio>', '#include <cstdlib>', '#include <csetjmp>', 'static std::jmp_buf jb;', 'extern "C" void __cxa_pure_virtual() { std::longjmp(jb, 1); }', 'static int depth = 0;']
    cases, mains, defs = {}, [], []
    for k in range(m.n(30, 60)):
        n = 'V%d' % k
        ms = ['m%d' % i for i in range(rng.randrange(1, 7))]
        pure = ['p%d' % i for i in range(rng.choice([1, 1, 2]))]
        virt = {x: rng.random() < .3 for x in ms}
        static = {x: not virt[x] and rng.random() < .1 for x in ms}

        def stmts(frm):
            o = []
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                r = rng.random()
                t = rng.choice(ms)
                if r < .5:
                    o.append((t, rng.choice(['%s();', 'this->%s();', '{ %s(); }', 'if (depth >= 0) %s();', '(void)depth, %s();', 'do { %s(); } while (0);', 'try { %s(); } catch (...) { }', 'switch (depth) { default: %s(); }', 'for (int i = 0; i < 1; ++i) this->%s();']) % t))
                elif r < .62:
                    o.append((rng.choice(pure), '%s();'))
                    o[-1] = (o[-1][0], rng.choice(['%s();', 'this->%s();', 'callit: this->%s();']).replace('callit: ', '') % o[-1][0])
                elif r < .7:
                    o.append((None, 'if (other) other->%s();' % rng.choice(pure)))
                elif r < .76:
                    o.append((None, '{ auto l = [this] { this->%s(); }; (void)l; }' % rng.choice(pure)))
                elif r < .8:
                    o.append((None, '{ struct L { void z(%s *q) { q->%s(); } }; }' % (n, rng.choice(pure))))
                else:
                    o.append((None, 'std::abs(depth);'))
            return o
        body = {x: stmts(x) for x in ms}
        for x in ms:
            if static[x]:
                body[x] = [(None, 'std::abs(depth);')]
        body['C'], body['D'] = stmts('C'), stmts('D')
        wrap = lambda ss: '{ ' + ' '.join(t for _, t in ss) + ' }'
        # each member runs its body once: what else it calls does not depend on how often it ran
        guard = lambda x: '{ if (depth & %d) return; depth |= %d; ' % (1 << ms.index(x), 1 << ms.index(x)) + ' '.join(t for _, t in body[x]) + ' }'
        out = []
        lines.append('struct %s {' % n)
        start = len(lines)
        lines.append('    static %s *other;' % n)
        decl = []
        for p in pure:
            decl.append('virtual void %s() = 0;' % p)
        outs = set()
        for x in ms:
            sp = 'virtual ' if virt[x] else 'static ' if static[x] else ''
            if rng.random() < .5:
                decl.append('%svoid %s()%s %s' % (sp, x, rng.choice(['', ' const'])[:0], guard(x)))
            else:
                decl.append('%svoid %s();' % (sp, x))
                out.append('inline void %s::%s() %s' % (n, x, guard(x)))
        cout, dout = rng.random() < .3, rng.random() < .3
        body['I'] = rng.choice([None, None, None, rng.choice(ms), rng.choice(pure)])
        wrapc = (' : mi((%s%s(), 0)) ' % (rng.choice(['', 'this->']), body['I']) if body['I'] else ' ') + wrap(body['C'])
        decl.append('%s()%s' % (n, ';' if cout else wrapc))
        decl.append('int mi;')
        decl.append('virtual ~%s()%s' % (n, ';' if dout else ' ' + wrap(body['D'])))
        if cout:
            out.append('inline %s::%s()%s' % (n, n, wrapc))
        if dout:
            out.append('inline %s::~%s() %s' % (n, n, wrap(body['D'])))
        rng.shuffle(decl)
        lines += ['    ' + d for d in decl] + ['};'] + out + ['%s *%s::other = nullptr;' % (n, n)]
        cases[n] = (start, len(lines), dict(body=body))
        defs += ['void %s::%s() { std::longjmp(jb, 1); }' % (n, p) for p in pure]
        impl = ' '.join('void %s() override { }' % p for p in pure)
        mains += ['    { struct I : %s { %s };' % (n, impl), '      alignas(I) static char buf[sizeof(I)]; int c = 0, d = 0; depth = 0;',
                  '      if (setjmp(jb)) c = 1; else ::new (buf) I;', '      depth = 0;',
                  '      if (!c) { if (setjmp(jb)) d = 1; else reinterpret_cast<I *>(buf)->~I(); }',
                  '      else { d = 2; }', '      printf("%s %%d %%d\\n", c, d); }' % n]
    # a constructor that never finishes hides the destructor: a second program leaves the constructors' calls out
    text = '\n'.join(lines) + '\n'
    return text, (defs, mains), cases


def body():
    rng = m.rng
    units = []
    for i in range(m.n(24, 400)):
        if i % 4 == 3:
            units.append((i, 'v', rng.choice([5, 6]), vcalls(rng), rng.choice(['standalone', 'plugin', 'tidy'])))
        else:
            units.append((i, 'c', rng.choice([5, 6]), classes(rng), rng.choice(['standalone', 'standalone', 'plugin', 'tidy'])))

    def gxx(wd, text, name, qt):
        open('%s/%s.cpp' % (wd, name), 'w').write(text)
        q = '/usr/include/x86_64-linux-gnu/qt%d' % qt
        r = subprocess.run(['g++', '-w', '-O0', '-std=c++17', '-fPIC', '-isystem', q, '-isystem', q + '/QtCore', '%s/%s.cpp' % (wd, name), '-o', '%s/%s' % (wd, name), '-lQt%dCore' % qt], capture_output=True, text=True)
        if r.returncode:
            return None, r.stderr
        o = subprocess.run(['%s/%s' % (wd, name)], capture_output=True, text=True, timeout=60)
        return o.stdout, o.stderr + str(o.returncode)

    def one(u):
        i, kind, qt, data, fe = u
        wd = os.path.join(m.work, 'u%d' % i)
        os.makedirs(wd)
        if kind == 'c':
            text, orc, cases, all_ = data
            o, err = gxx(wd, orc, 'o', qt)
            if o is None:
                return None, err
            facts = [tuple(map(int, l.split()[1:])) for l in o.split('\n')[:-1]]
            return facts, work.analyse(m, work.Prog('u%d' % i, text, qt, flags=['-w']), CHECKS, fe)
        text, (defs, mains), cases = data
        facts = {}
        for which in ('C', 'D'):
            t = text
            if which == 'D':
                # constructors without their calls, so that the object gets built
                t = re.sub(r'(?m)^(    |inline V\d+::)(V\d+)\(\) [:{].*$', r'\1\2() { }', text)
            o, err = gxx(wd, t.replace('#include <cstdio>', '#include <cstdio>\n#include <new>', 1) + '\n'.join(defs) + '\nint main() {\n' + '\n'.join(mains) + '\n}\n', 'o' + which, qt)
            if o is None:
                raise HarnessError('oracle: ' + err[:1500])
            for l in o.split('\n')[:-1]:
                n, c, d = l.split()
                facts.setdefault(n, {})[which] = int(c) if which == 'C' else int(d)
            if len(facts) != len(cases):
                raise HarnessError('the oracle program stopped: ' + err[-500:])
        return facts, work.analyse(m, work.Prog('u%d' % i, text, 0, flags=['-w']), ['virtual-call-ctor'], fe)

    for (i, kind, qt, data, fe), (facts, r) in zip(units, m.parallel(one, units)):
        if facts is None:
            m.count('units whose random classes do not compile')
            m.last = r
            continue
        src = {'x.cpp': data[0]}
        if m.check_crash(r.r, kind, src):
            continue
        if r.errs:
            m.count('units whose random classes do not compile')
            m.last = r.errs[:2]
            continue
        lines = data[0].split('\n')
        if kind == 'v':
            text, mains, cases = data
            for n, (a, b, d) in cases.items():
                got = {e.msg for e in r.ev if a <= e.line <= b}
                exp = set()
                if facts[n]['C'] == 1:
                    exp.add('Calling pure virtual function in CTOR')
                if facts[n]['D'] == 1:
                    exp.add('Calling pure virtual function in DTOR')
                m.count('constructors and destructors that %s a pure virtual' % 'reach', len(exp))
                m.count('constructors and destructors that do not', 2 - len(exp))
                m.case((n, str(d['body'])) if len(str(d['body'])) > 60 else None, {'class': n, 'calls': str(d['body'])[:200], 'ran into': sorted(exp)})
                g = {x for x in got if x != 'Called here'}
                if g != exp or ('Called here' in got) != bool(exp):
                    m.violation('virtual-call-%s' % ('missing' if exp - g else 'additional'), '%s: running the constructor and destructor: %s\n%s\nreported: %s\nexpected: %s' % (fe, facts[n], '\n'.join(lines[a - 1:b]), sorted(got), sorted(exp)), src, [r.r])
            continue
        text, orc, cases, all_ = data
        src['oracle.cpp'] = orc
        bad = {id(c) for c, f in zip(all_, facts) if not model_agrees(c, f)}
        for c in all_:
            if c.base and id(c.base) in bad:
                bad.add(id(c))
        m.count('classes whose model and compiler disagree', len(bad))
        if bad and os.environ.get('DEBUG'):
            for c, f in zip(all_, facts):
                if not model_agrees(c, f):
                    print('MODEL', f, c.poly, c.abstract, not c.cc_del and c.cca_eff == 'public', not c.ca_del and c.caa_eff == 'public', c.dt_triv, c.cc_triv, c.ca_triv, c.dc_triv, '\n'.join(c.text), '\nbase:', c.base and '\n'.join(c.base.text))
        got = {}
        starts = sorted(cases)
        for e in r.ev:
            at = max((s for s in starts if s <= e.line), default=0)
            got.setdefault(at, set()).add((e.check, e.msg))
        for at, (what, c) in cases.items():
            if c is not None and id(c) in bad:
                got.pop(at, None)
                continue
            exp = set()
            if what == 'class':
                exp = expect_class(c)
            elif what == 'assign' and not c.cc_triv and c.ca_triv and c.ca != 'default':
                exp.add(('rule-of-two-soft', 'Using assign operator but class %s has copy-ctor but no assign operator' % c.q))
            elif what == 'copy' and c.cc_triv and c.cc != 'default' and not c.ca_triv:
                exp.add(('rule-of-two-soft', 'Using copy-ctor but class %s has a trivial copy-ctor but non trivial assign operator' % c.q))
            elif what == 'static' and not (c.dt_triv and (c.dc_triv or c.dc_constexpr)):
                exp.add(('non-pod-global-static', 'static'))
            elif what == 'qgs' and c.dc_triv and c.dt_triv:
                exp.add(('wrong-qglobalstatic', "Don't use Q_GLOBAL_STATIC with trivial type (%s)" % c.name))
            elif what == 'qgsint':
                exp.add(('wrong-qglobalstatic', "Don't use Q_GLOBAL_STATIC with non-class type (int)"))
            g = {(x, 'static' if x == 'non-pod-global-static' else y) for x, y in got.pop(at, set())}
            m.count('judged: ' + what)
            m.count('expected reports', len(exp))
            m.case((what, c.desc) if c and (c.base or c.poly or c.cc != 'none' or c.ca != 'none' or c.dt != 'none') else None, {'what': what, 'class': c.desc if c else None, 'reported': sorted(g)[:2]})
            if g != exp:
                k = sorted(g ^ exp)[0][0]
                m.violation('%s-%s-%s' % (what, k, 'missing' if not g else 'additional' if not exp else 'other'), 'Qt %d, %s: %s\n%s\n%s\nbase: %s\nreported: %s\nexpected: %s'
                            % (qt, fe, what, '\n'.join(c.text) if c else '', lines[at - 1], '\n'.join(c.base.text) if c and c.base else None, sorted(g), sorted(exp)), src, [r.r])
        if got:
            m.violation('elsewhere', 'reports elsewhere: %s' % got, src, [r.r])
    if m.counts.get('classes whose model and compiler disagree', 0) > m.evaluations / 20:
        raise HarnessError('the model of the classes disagrees with the compiler too often')
    if m.counts.get('units whose random classes do not compile', 0) > len(units) // 2:
        raise HarnessError('units do not compile: %s' % (m.last,))
    return m.finish({'judged: class': m.n(100, 1500), 'judged: assign': 40, 'judged: copy': 40, 'judged: static': 15, 'judged: qgs': 15, 'expected reports': m.n(40, 600), 'constructors and destructors that reach a pure virtual': m.n(20, 300),
                     'constructors and destructors that do not': 20})


main(body)
