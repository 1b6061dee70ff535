"""C15: signals, slots and invokables as moc sees them."""
from common import *
import subprocess, json, work

m = Monitor('C15', "A case is one method of a class generated with a random layout of sections, macros, comments and neighbours; moc of the unit's own Qt, run on the same text, says whether it "
                   "is a signal, slot or invokable, and the reports of every check that depends on it, at its declaration and at the places it is emitted, called and connected, must be the ones that follow. "
                   "Non-trivial when the method is in a Qt section or has a Qt macro; distinct by declaration and section")
CHECKS = ['connect-non-signal', 'incorrect-emit', 'const-signal-or-slot', 'fully-qualified-moc-types', 'signal-with-return-value', 'virtual-signal']
MOC = {5: '/usr/lib/qt5/bin/moc', 6: '/usr/lib/qt6/libexec/moc'}


def ret_ok(d):
    return d['ret'][-1] != '&'     # Qt itself refuses to connect those


class Gen:
    def __init__(self, rng, mixed):
        self.r, self.n, self.k, self.mixed = rng, 0, 0, mixed
        self.meth = {}       # name -> dict
        self.known = []      # classes that may be derived from

    def c(self, *a):
        return self.r.choice(a)

    def ws(self):
        return self.c(' ', ' ', ' ', ' ', '  ', '\t', ' /* x */ ', ' /* signals: */ ', '\n        ', '\n    // public slots:\n    ')

    def label(self):
        r = self.r
        kind = self.c('plain', 'plain', 'slots', 'signals', 'signals', 'slots')
        sp = lambda: self.c('', '', '', ' ', ' /* : */')
        if kind == 'plain':
            return kind, self.c('public', 'protected', 'private', 'public') + sp() + ':'
        if kind == 'slots':
            return kind, self.c('public', 'protected', 'private') + self.c(' ', '  ', '\t', ' /* a */ ', '\n') + self.c('slots', 'Q_SLOTS', 'Q_SLOTS') + sp() + ':'
        return kind, self.c('signals', 'Q_SIGNALS', 'Q_SIGNALS') + sp() + ':'

    def method(self, sec, cls, gadget):
        r = self.r
        self.n += 1
        name = self.c('m%d', 'm%d', 'signals%d', 'emit%d', 'slots_%d', 'constM%d') % self.n
        pre = []
        d = {'cls': cls, 'name': name, 'sec': sec, 'static': False, 'mac': (), 'gadget': gadget}
        macs = []
        if sec == 'plain' and r.random() < .45:
            macs = [self.c('Q_SIGNAL', 'Q_SLOT', 'Q_INVOKABLE')] if not gadget else ['Q_INVOKABLE']
        elif self.mixed and sec == 'slots' and r.random() < .15:
            macs = ['Q_INVOKABLE']
        if r.random() < .08 and (macs or sec != 'plain'):
            macs.append('Q_SCRIPTABLE')     # alone it is an invokable for moc, and nothing for clazy
        if sec == 'plain' and r.random() < .05 and 'Q_INVOKABLE' in macs:
            macs.append('Q_REVISION(1)')
        r.shuffle(macs)
        d['mac'] = tuple(macs)
        ret = self.c('void', 'void', 'void', 'int', 'Inner', 'const QString', 'const Inner &', 'Inner *', 'QList<int>')
        spec = []
        sig = sec == 'signals' or 'Q_SIGNAL' in macs
        body = 'decl' if sig else self.c('decl', 'decl', 'inline', 'outside')
        if ret.endswith('&') and body != 'decl':
            ret = 'int'
        if sec != 'signals':
            spec = [self.c('', '', '', '', '', 'virtual', 'static' if not sig else '', 'inline' if body == 'inline' else '')]
        elif r.random() < .06:
            spec = ['virtual']
        spec = [x for x in spec if x]
        if r.random() < .08 and ret != 'void':
            spec.append('[[nodiscard]]')
            if spec[0] == 'virtual' or spec[0] in ('static', 'inline'):
                spec.reverse()
        d['static'] = 'static' in spec
        d['virtual'] = 'virtual' in spec
        # attributes go before the other specifiers, macros anywhere among them
        parts = list(spec)
        for x in macs:
            parts.insert(r.randrange(len(parts) + 1), x)
        if '[[nodiscard]]' in parts and parts[0] != '[[nodiscard]]':
            i = parts.index('[[nodiscard]]')
            if any(p in ('virtual', 'static', 'inline') for p in parts[:i]):
                parts.remove('[[nodiscard]]')
        np = r.choice([0, 0, 1, 1, 1, 2, 3])
        params = []
        d['inner'] = 0
        for i in range(np):
            t = self.c('int', 'const QString &', 'Inner', 'Inner', 'const Inner &', 'Inner *', 'QObject *', cls + '::Inner')
            d['inner'] += t in ('Inner', 'const Inner &', 'Inner *') or (t[0] == 'K' and self.ns != '')
            params.append(t)
        d['params'] = params
        d['ret'] = ret
        d['const'] = not d['static'] and r.random() < .2
        plist = ', '.join(t + (' ' if t[-1] not in '&*' else '') + ('p%d' % i if r.random() < .6 else '') for i, t in enumerate(params))
        tail = ' const' if d['const'] else ''
        text = self.ws().join(parts + ['']) + ret + (self.ws() if ret[-1] not in '&*' else '') + name + self.c('', '', '', ' ') + '(' + plist + ')' + tail
        rv = {'void': '', 'int': 'return 0;', 'Inner': 'return Inner();', 'const QString': 'return QString();', 'Inner *': 'return nullptr;', 'QList<int>': 'return {};'}.get(ret, '')
        d['out'] = None
        if body == 'inline':
            text += self.c(' {', '\n    {') + ' ' + rv + ' }' + self.c('', ';')
        else:
            text += ';'
            if body == 'outside':
                oret = ret.replace('Inner', cls + '::Inner')
                d['out'] = '%s%s::%s(%s)%s\n{\n    %s\n}' % (oret + ('' if oret[-1] in '&*' else ' '), cls, name, ', '.join(t if t.startswith(cls) else t.replace('Inner', cls + '::Inner') for t in params), tail, rv)
        self.meth[name] = d
        return text

    def filler(self, sec):
        self.k += 1
        plain = ['typedef int T%d;' % self.k, 'enum E%d { A%d, B%d };' % (self.k, self.k, self.k), 'enum F%d { C%d };\n    Q_ENUM(F%d)' % (self.k, self.k, self.k),
                 'friend class Z%d;' % self.k, 'int v%d = 0;' % self.k, 'struct N%d { int q; void m(); private: int w; public: void mm(); };' % self.k,
                 'struct O%d : QObject { O%d(); void x(); };' % (self.k, self.k), 'Q_PROPERTY(int prop%d MEMBER v0 CONSTANT)' % self.k, 'using U%d = void (*)(int);' % self.k,
                 'template <class T> void tm%d(T);' % self.k, '// signals:', '/* public slots: */', '#if 0\nsignals:\n#endif', '#if 1\n#else\npublic Q_SLOTS:\n#endif', 'static const char *s%d() { return "signals:"; }' % self.k]
        anyw = ['// signals:', '/* public slots: */', '/// \\brief emit', '#if 0\nprivate:\n#endif']
        return self.c(*(plain if sec == 'plain' else anyw))

    def mixin(self):
        """A class that is no QObject, so that moc does not look at it."""
        self.k += 1
        return 'struct Mixin%d {\n%s\n    %s\n    void note%d();\n%s};' % (self.k, self.c('public Q_SLOTS:', 'Q_SIGNALS:', 'public slots:', 'signals:', 'public:'), self.c('', '', 'Q_INVOKABLE', 'Q_SLOT', 'Q_SIGNAL'), self.k,
                                                                      self.c('', '', 'protected:\n    int z;\n', 'public Q_SLOTS:\n    int zz();\n'))

    def cls(self):
        r = self.r
        self.k += 1
        name = 'K%d' % self.k
        ns = self.ns = self.c(*([''] * 5 + ['NS', 'a::b']))
        base = self.c('QObject', 'QObject', 'QObject', *self.known[-3:])
        gadget = r.random() < .15
        h = ['class ' + name + (self.c(' final', '', '') + ' : public ' + base if not gadget else '') + self.c(' {', '\n{')]
        if 'final' not in h[0] and not ns and not gadget:
            self.known.append(name)
        h.append('    Q_GADGET' if gadget else '    Q_OBJECT')
        h.append('public:')
        h.append('    struct Inner { int i = 0; };')
        h.append('    int v0 = 0;')
        sec = 'plain'
        outs, mine = [], []
        n0 = set(self.meth)
        for _ in range(r.randrange(2, 7)):
            if r.random() < .8:
                sec, l = self.label()
                while gadget and sec != 'plain':
                    sec, l = self.label()
                h.append(self.c('', '', '  ') + l)
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                if r.random() < .3:
                    h.append('    ' + self.filler(sec))
                t = self.method(sec, name, gadget)
                if r.random() < .12 and not h[-1].lstrip().startswith(('//', '#')) and '//' not in h[-1]:
                    h[-1] += ' ' + t
                else:
                    h.append('    ' + t)
        # the sections decide about access alone: uses go in a static member of the class
        us = []
        mine = [self.meth[x] for x in self.meth if x not in n0]
        for d in mine:
            args = ', '.join({'int': '1', 'const QString &': 's'}.get(t, 'nullptr' if t[-1] == '*' else 'in') for t in d['params'])
            call = 'k->%s(%s);' % (d['name'], args)
            us.append(('call', d, '        ' + call))
            us.append(('emit', d, '        ' + self.c('emit', 'Q_EMIT') + self.c(' ', '  ', '\t', ' /* a */ ', '\n            ') + call))
            if not d['static'] and ret_ok(d) and not gadget:
                us.append(('connect', d, '        QObject::connect(k, &%s::%s, k, &QObject::deleteLater);' % (name, d['name'])))
        r.shuffle(us)
        h.append(self.c('public:', 'private:'))
        h.append('    static void use(%s *k, Inner in, QString s) {' % name)
        for kind, d, t in us:
            h.append(t + ' // @%s %s' % (kind, d['name']))
        h.append('        (void)k; (void)in; (void)s;')
        h.append('    }')
        h.append('};')
        o = [d['out'] for d in mine if d['out']]
        text = '\n'.join(h + o)
        if ns:
            text = 'namespace %s {\n%s\n}' % (ns, text)
        return text


def body():
    rng = m.rng
    units = []
    for i in range(m.n(48, 400)):
        g = Gen(rng, False)
        inc = ['#include <QObject>', '#include <QString>', '#include <QList>']
        t = []
        if rng.random() < .3:
            t += ['class Fwd;', 'struct Plain { void signalsX(); private: int z; };']
        for _ in range(rng.randrange(2, 6)):
            t.append(g.cls())
            if rng.random() < .2:
                t.append('struct After%d { private: int a; public: int b; };' % rng.randrange(10 ** 6))
        h = []
        if rng.random() < .35:
            k = rng.randrange(1, len(t) + 1)
            h, t = t[:k], t[k:]
        mix = [g.mixin() for _ in range(rng.choice([0, 0, 1, 2]))]     # not for moc, which refuses them
        top = inc + ['#include "mix.h"'] * bool(mix)
        files = {'x.cpp': '\n'.join(top + (['#include "x.h"'] if h else []) + t) + '\n'}
        if mix:
            files['mix.h'] = '\n'.join(['#pragma once'] + inc + mix) + '\n'
            m.count('units with Qt sections in other classes')
        if h:
            files['x.h'] = '\n'.join(['#pragma once'] + top + h) + '\n'
            m.count('units with classes in a header')
        units.append((i, rng.choice([5, 6]), files, g.meth, rng.choice(['standalone', 'standalone', 'plugin', 'tidy'])))

    def one(u):
        i, qt, files, meth, fe = u
        wd = os.path.join(m.work, 'u%d' % i)
        os.makedirs(wd)
        kinds, err = {}, ''
        for n, text in files.items():
            open(wd + '/' + n, 'w').write(text)
            if n == 'mix.h':
                continue
            r = subprocess.run([MOC[qt], '--output-json', '-o', wd + '/moc.cpp', wd + '/' + n], capture_output=True, text=True)
            err += r.stderr
            if r.returncode:
                kinds = None
                break
            if not os.path.exists(wd + '/moc.cpp.json') or not os.path.getsize(wd + '/moc.cpp.json'):
                continue        # nothing in it for moc
            for c in json.load(open(wd + '/moc.cpp.json')).get('classes', []):
                for k, x in (('signals', 'signal'), ('slots', 'slot'), ('methods', 'invokable')):
                    for y in c.get(k, []):
                        kinds.setdefault(y['name'], x)
            os.unlink(wd + '/moc.cpp.json')
        return kinds, err, work.analyse(m, work.Prog('u%d' % i, files['x.cpp'], qt, flags=['-w'], files={n: t for n, t in files.items() if n != 'x.cpp'}), CHECKS, fe)

    bad, mocs = 0, []
    for (i, qt, src, meth, fe), (kinds, mocerr, r) in zip(units, m.parallel(one, units)):
        if m.check_crash(r.r, 'layout', src):
            continue
        if r.errs:
            raise HarnessError('a unit does not compile: %s\n%s' % (r.errs[:3], src))
        if kinds is None:
            bad += 1
            m.count('units moc refuses')
            mocs.append(mocerr[-300:])
            continue
        text = {n: t.split('\n') for n, t in src.items()}
        decl = {n: {} for n in meth}
        use = {}
        junk = []
        for e in r.ev:
            lines = text.get(e.file, [])
            if e.line > len(lines):
                junk.append(e)
                continue
            l = lines[e.line - 1]
            # a use: the marker on its line, or on the following one for an emit over two lines
            mk = re.search(r'// @(\w+) (\w+)$', l) or (re.search(r'// @(\w+) (\w+)$', lines[e.line]) if e.line < len(lines) and re.match(r'\s+(emit|Q_EMIT)\s*$', l) else None)
            if mk and e.check in ('incorrect-emit', 'connect-non-signal'):
                use.setdefault((mk.group(1), mk.group(2)), []).append(e)
                continue
            # a declaration: the first generated name from the reported place on
            rest = l[e.col - 1:] + '\n' + '\n'.join(lines[e.line:e.line + 8])
            own = re.findall(r'\b(?:m|signals|emit|slots_|constM)\d+\b(?=\s*\()', '\n'.join(lines[:e.line - 1] + [l[:e.col - 1]])[-1500:])
            nx = re.search(r'\b(?:m|signals|emit|slots_|constM)\d+\b(?=\s*\()', rest)
            if e.check == 'fully-qualified-moc-types' and 'arguments' in e.msg:
                n = own[-1] if own else None
            else:
                n = nx.group(0) if nx else None
            if n in decl:
                decl[n].setdefault(e.check, []).append(e)
            else:
                junk.append(e)
        probs = []
        for n, d in meth.items():
            k = kinds.get(n)
            m.case(((d['sec'], d['mac'], d['ret'], d['const'], len(d['params']), d['virtual'], d['static'])) if d['sec'] != 'plain' or d['mac'] else None,
                   {'method': n, 'section': d['sec'], 'macros': d['mac'], 'moc': k})
            m.count('methods moc calls %s' % (k or 'plain'))
            scriptable = 'Q_SCRIPTABLE' in d['mac']
            exp = {}
            if k and d['inner']:
                exp['fully-qualified-moc-types'] = ['%s arguments need to be fully-qualified' % k] * d['inner']
            if k in ('slot', 'invokable') and 'Inner' in d['ret']:
                exp.setdefault('fully-qualified-moc-types', []).append('%s return types need to be fully-qualified' % k)
            if d['const'] and not scriptable:
                if k == 'signal':
                    exp['const-signal-or-slot'] = ["signal . shouldn't be const"]
                elif k == 'slot' and d['ret'] != 'void':
                    exp['const-signal-or-slot'] = ['getter . possibly mismarked as a slot']
            if k == 'signal' and d['virtual']:
                exp['virtual-signal'] = ['signal is virtual']
            if k == 'signal' and not scriptable:
                w = []
                if d['ret'] != 'void':
                    w.append("%s() should return void. For a clean design signals shouldn't assume a single slot are connected to them." % n)
                if w:
                    exp['signal-with-return-value'] = w
            got = {c: sorted(re.sub(r'\S*\b%s\b(?!\()' % n, '.', e.msg) for e in es) for c, es in decl[n].items()}
            exp = {c: sorted(v) for c, v in exp.items()}
            if got != exp:
                c = next(c for c in CHECKS if got.get(c) != exp.get(c))
                probs.append(('%s-%s' % (c, k or 'plain'), n, k, got.get(c), exp.get(c)))
            for what in ('call', 'emit', 'connect'):
                if what == 'connect' and (not ret_ok(d) or d['gadget']):
                    continue
                e = []
                if what == 'call' and k == 'signal' and not d['static']:
                    e = ['Missing emit keyword on signal call .']
                if what == 'emit' and k != 'signal' and not d['static']:
                    e = ['Emit keyword being used with non-signal .']
                if what == 'connect' and k != 'signal':
                    e = ['. is not a signal']
                g = [re.sub(r'\S*\b%s\b' % n, '.', x.msg) for x in use.get((what, n), [])]
                m.count('uses judged')
                if d['static']:
                    continue    # a call of a static member is no signal, whatever is written before it
                if g != e:
                    probs.append(('%s-%s' % (what, k or 'plain'), n, k, g, e))
        if junk:
            probs.append(('elsewhere', '', '', junk[:3], []))
        for key, n, k, g, e in probs[:2]:
            lines = next((t for t in text.values() if any(re.search(r'\b%s\s*\(' % n, x) for x in t)), [''])
            at = next((j for j, x in enumerate(lines) if re.search(r'\b%s\s*\(' % n, x)), 0) if n else 0
            ln = '\n'.join(lines[max(0, at - 4):at + 1])
            m.violation(key, 'Qt %d, %s: %s, which moc takes as %s\n%s\nreported: %s\nexpected: %s' % (qt, fe, n, k or 'plain', ln, g, e), src, [r.r])
    if bad > len(units) // 3:
        raise HarnessError('moc refuses most units: %s' % set(mocs))
    return m.finish({'methods moc calls signal': m.n(100, 1200), 'methods moc calls slot': m.n(100, 1200), 'methods moc calls invokable': m.n(30, 400), 'uses judged': m.n(800, 10000)})


main(body)
