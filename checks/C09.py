"""C09: exported fix files against what the same run printed: its diagnostics and the compiler's own parseable fix-its."""
from common import *
import collections, fixes, meta as metamod, work, genexpr, patterns

m = Monitor('C09', "A case is one exported diagnostic (or one printed one): the exported file must hold each diagnostic the run printed, at the same place, with exactly the edits the compiler's printer "
                   'gives for it. Programs: generated units, generated programs, the test programs, several translation units sharing a header, over both front ends that export, macros and severities. '
                   'Non-trivial when the diagnostic carries edits; distinct by check, shape of the edits and kind of run')
Ent = collections.namedtuple('Ent', 'file offset check msg edits')


def linetab(data):
    tab = [0]
    for i, b in enumerate(data):
        if b == 10:
            tab.append(i + 1)
    return tab


class Files:
    def __init__(self, wd):
        self.wd, self.c = wd, {}

    def get(self, p):
        p = p if os.path.isabs(p) else os.path.join(self.wd, p)
        if p not in self.c:
            d = open(p, 'rb').read()
            self.c[p] = (d, linetab(d))
        return self.c[p]

    def off(self, p, line, col):
        d, t = self.get(p)
        return t[line - 1] + col - 1


FIX = re.compile(r'^fix-it:"((?:[^"\\]|\\.)*)":\{(\d+):(\d+)-(\d+):(\d+)\}:"((?:[^"\\]|\\.)*)"$')


def printed(text, fs):
    """Diagnostics of clazy with the edits printed below them."""
    out, cur = [], None
    text = re.sub(r'\n (\[-W[\w-]*clazy-)', r' \1', text)        # a message of old-style-connect ends in a newline
    for l in text.split('\n'):
        x = run.DIAG_RE.match(l)
        if x:
            d = run.parse(l)[0]
            n = run.clazy_name(d.tag)
            cur = None
            if d.sev != 'note' and n is not None:
                cur = [d, n, []]
                out.append(cur)
            continue
        if run.NOLOC_RE.match(l):
            cur = None
            continue
        f = FIX.match(l)
        if f and cur is not None:
            p = fixes.unescape(f[1]).decode('utf-8', 'surrogateescape')
            a, b = fs.off(p, int(f[2]), int(f[3])), fs.off(p, int(f[4]), int(f[5]))
            cur[2].append((os.path.normpath(p), a, b - a, fixes.unescape(f[6]).decode('utf-8', 'surrogateescape')))
    return [Ent(os.path.normpath(d.file), fs.off(d.file, d.line, d.col), n, d.msg.strip(), tuple(sorted(set(e)))) for d, n, e in out if d.file]


def exported(text, fs):
    out = []
    for f in fixes.clazy_only(fixes.load(text, all_=True)):
        out.append(Ent(os.path.normpath(f.file) if f.file else '', f.offset, fixes.name(f.check), f.msg.strip(), tuple(sorted(set((os.path.normpath(a), o, n, t) for a, o, n, t in f.edits)))))
    return out


def positions(text):
    """positions of the printed text that the presumed locations (line directives) would change"""
    return re.search(rb'^\s*#\s*(line\b|\d)', text, re.M) is None


def merged(es, fs):
    """adjacent edits as one: the exporter may join them; blanks around a pure removal are the printer's choice"""
    out = []
    for f, o, n, t in sorted(es):
        if not t and n:
            d = fs.get(f)[0]
            while n > 1 and d[o + n - 1:o + n] == b' ':
                n -= 1
            while n > 1 and d[o:o + 1] == b' ':
                o, n = o + 1, n - 1
        if out and out[-1][0] == f and out[-1][1] + out[-1][2] == o:
            out[-1] = (f, out[-1][1], out[-1][2] + n, out[-1][3] + t)
        else:
            out.append((f, o, n, t))
    return out


def body():
    meta = metamod.Meta()
    rng = m.rng
    checks = ','.join(meta.names)
    haz = [p for p in patterns.PATTERNS]
    jobs = []
    for k in range(m.n(14, 160)):
        p = work.unit_prog(work.random_unit(rng, 5 + k % 2, rng.randrange(20, 50)), 'u%d' % k)
        if rng.random() < .4:
            p = work.wrapped(rng, p)
            m.count('units with statements in macro arguments')
        jobs.append(('units', [p]))
    for q in (5, 6):
        cs = work.corpus_progs(q)
        rng.shuffle(cs)
        for p in cs[:m.n(16, 1000)]:
            jobs.append(('corpus', [p]))
    for k in range(m.n(6, 120)):
        q = rng.choice((5, 6))
        jobs.append(('generated', [work.Prog('g%d' % k, genexpr.Gen(rng).program(4, 5, 3), q, flags=['-w'])]))
    for k in range(m.n(6, 80)):        # several translation units, with a common header
        q = rng.choice((5, 6))
        n = rng.randrange(2, 4)
        h = work.unit_prog(work.random_unit(rng, q, 12), 'h')
        us = []
        for i in range(n):
            u = work.unit_prog(work.random_unit(rng, q, 12), 't')
            us.append(u)
        hdr = '#pragma once\nnamespace hdr {\nstruct InHeader : public QObject { QStringList m_l; void f(QString big) const; void g() { for (auto x : m_l) m_l.first(); } QString s() { return QString::fromLatin1("x"); } };\n}\n'
        progs = []
        for i, u in enumerate(us):
            progs.append(u.with_text('#include <QtCore>\n#include "common.h"\n' + u.text, files={'common.h': hdr}, main='x%d.cpp' % i))
        jobs.append(('several', progs))
    for k in range(m.n(6, 60)):        # macros around fixable code
        q = rng.choice((5, 6))
        jobs.append(('macros', [work.Prog('m%d' % k, macro_prog(rng), q, flags=['-w'])]))
    print('%d runs' % len(jobs), flush=True)

    def one(ij):
        i, (kind, progs) = ij
        wd = os.path.join(m.work, 'j%d' % i)
        srcs = [p.put(wd) for p in progs]
        fe = 'standalone' if kind == 'several' or i % 2 else 'plugin'
        p = progs[0]
        env = dict(p.env)
        if i % 3 == 0:
            env['CLAZY_CHECKS_AS_ERRORS'] = 'range-loop-detach,qgetenv,qstring-allocations,function-args-by-ref,detaching-temporary'
        fl = p.cflags(wd) + ['-fdiagnostics-parseable-fixits', '-ferror-limit=0']
        if i % 4 == 1 and kind != 'corpus':
            fl.append('-Wall')
        y = os.path.join(wd, 'fixes.yaml')
        if fe == 'standalone':
            r = m.clazy.standalone(srcs if len(srcs) > 1 else srcs[0], checks, flags=fl, args=list(p.args) + ['-export-fixes=' + y], env=env, cwd=wd)
        else:
            y = srcs[0] + '.clazy.yaml'
            r = m.clazy.plugin(srcs[0], checks, flags=fl, args=[x.lstrip('-') for x in p.args] + ['export-fixes'], env=env, cwd=wd)
        res = dict(kind=kind, fe=fe, r=r, wd=wd, err=None, a=[], b=[], src={os.path.relpath(s, wd): open(s, encoding='utf-8', errors='surrogateescape').read() for s in srcs})
        if r.crash():
            return res
        fs = Files(wd)
        try:
            if any(not positions(fs.get(s)[0]) for s in srcs):
                return None
            res['a'] = [e._replace(edits=tuple(merged(e.edits, fs))) for e in printed(r.err, fs) + printed(r.out, fs)]
            text = open(y, encoding='utf-8', errors='surrogateescape').read() if os.path.exists(y) else None
            if text is None:
                res['err'] = None if not res['a'] else 'no file was exported although %d diagnostics were printed' % len(res['a'])
            else:
                res['yaml'] = text
                res['b'] = exported(text, fs)
                for e in res['b']:
                    for f, o, n, t in e.edits:
                        if not os.path.isabs(f) or not os.path.exists(f):
                            res['err'] = 'an edit names a file that does not exist: %r' % f
                        elif o + n > len(fs.get(f)[0]):
                            res['err'] = 'an edit lies outside of %s: offset %d, length %d' % (f, o, n)
                    last = {}
                    for f, o, n, t in e.edits:
                        if o < last.get(f, 0):
                            res['err'] = 'the edits of one diagnostic overlap: %s' % (e,)
                        last[f] = o + n
                if not res['err']:
                    res['b'] = [e._replace(edits=tuple(merged(e.edits, fs))) for e in res['b']]
        except fixes.Malformed as ex:
            res['err'] = str(ex)
        # a second run over a program without anything to report must not leave the old edits behind
        if i % 5 == 0 and res['a'] and kind != 'several':
            open(srcs[0], 'w').write('int main() { return 0; }\n')
            if fe == 'standalone':
                m.clazy.standalone(srcs[0], checks, flags=fl, args=['-export-fixes=' + y], env=env, cwd=wd)
            else:
                m.clazy.plugin(srcs[0], checks, flags=fl, args=['export-fixes'], env=env, cwd=wd)
            res['again'] = fixes.load(open(y, encoding='utf-8', errors='surrogateescape').read(), all_=True) if os.path.exists(y) else []
        shutil.rmtree(wd, ignore_errors=True)
        return res

    for job, res in zip(jobs, m.parallel(one, list(enumerate(jobs)))):
        if res is None:
            continue
        kind, fe, r, wd = res['kind'], res['fe'], res['r'], res['wd']
        src = dict(res['src'])
        if 'yaml' in res:
            src['exported.yaml'] = res['yaml']
        if m.check_crash(r, kind, src):
            continue
        if res['err']:
            m.violation('malformed-' + re.sub(r'[^a-z]+', '-', res['err'].lower())[:40], '%s, %s: %s' % (kind, fe, res['err'].replace(wd + '/', '')), src, [r])
            continue
        m.count('runs judged')
        m.seen('kinds of run', (kind, fe))
        A = collections.Counter((e.file, e.offset, e.check, e.msg) for e in res['a'])
        B = collections.Counter((e.file, e.offset, e.check, e.msg) for e in res['b'])
        for k in sorted(k for k in set(A) ^ set(B) if 'regexp failed for' not in k[3]):  # quotes source text, on several lines
            m.violation('%s-%s' % ('not-exported' if k in A else 'only-exported', k[2]), '%s, %s: %s %s: %s' % (kind, fe, 'printed but not exported' if k in A else 'exported but not printed', (os.path.relpath(k[0] or '/no file', wd), k[1]), k[2:]), src, [r])
        ea, eb = collections.defaultdict(set), collections.defaultdict(set)
        for e in res['a']:
            ea[e[:4]].add(e.edits)
        for e in res['b']:
            eb[e[:4]].add(e.edits)
        for k in sorted(set(ea) & set(eb)):
            a, b = ea[k], eb[k]
            nontriv = any(a) or any(b)
            m.case((k[2], fe, kind, tuple(sorted((len(x) for x in b)))) if nontriv else None, {'check': k[2], 'message': k[3], 'edits': [[(o, n, t) for f, o, n, t in y] for y in b][:2], 'front end': fe, 'run': kind})
            if nontriv:
                m.count('diagnostics with edits compared')
            if a != b:
                m.violation('edits-%s' % k[2], '%s, %s: edits of %s at %s\nprinted by the compiler: %s\nexported: %s' % (kind, fe, k[2:], (os.path.relpath(k[0], wd), k[1]), sorted(a), sorted(b)), src, [r])
        if 'again' in res:
            m.count('second runs without diagnostics')
            if res['again']:
                m.violation('stale', '%s: after a run without diagnostics the file still holds %d of an earlier run' % (fe, len(res['again'])), src, [r])
    return m.finish({'runs judged': m.n(30, 300), 'diagnostics with edits compared': m.n(250, 4000), 'second runs without diagnostics': 2})


def macro_prog(rng):
    L = ['#include <QtCore>', '#define ID(x) x', '#define STR "macro"', '#define CALL(f) f()', '#define LOOP(v, c) for (auto v : c)', '#define LIST m_list', '#define ENVOF(x) qgetenv(x)', '#define BODY(...) __VA_ARGS__', '#define DECL(t, n) t n',
         'struct S : public QObject { QStringList m_list; QMap<int, QString> m_map; QString m_s; QStringList list() const; void sig(); void slot();', 'void run();', 'void byv(QString a, DECL(QString, b)) const { (void)a; (void)b; } };', 'void S::run() {']
    st = ['for (auto x : m_list) { (void)x; }', 'for (auto x : LIST) { (void)x; }', 'ID(for (auto x : m_list) { (void)x; })', 'LOOP(x, m_list) { (void)x; }', 'for (auto x : ID(m_list)) { (void)x; }', 'QString a = QString::fromLatin1("x");', 'QString a = QString::fromLatin1(STR);', 'ID(QString a = QString::fromLatin1("x"));',
          'm_s = ID(QString("y"));', 'm_s = QString(ID("y"));', 'm_s = QString(QLatin1String(STR));', 'bool b = qgetenv("A").isEmpty();', 'bool b = ENVOF("A").isEmpty();', 'bool b = ID(qgetenv("A").isEmpty());', 'bool b = qgetenv(ID("A")).toInt();', 'list().first();', 'ID(list()).first();', 'ID(list().first());', 'CALL(list).first();',
          'LIST.first();', 'm_list.ID(first)();', 'm_list[ID(0)];', 'ID(m_list)[0];', 'BODY(m_list.first(); list().last(); for (auto y : m_list) { (void)y; })', 'bool b = QFile(STR).exists();', 'bool b = ID(QFileInfo(m_s).exists());', 'int n = ID(m_s.mid(1).toInt());', 'int n = m_s.ID(mid)(1).toInt();', 'auto d = ID(QDateTime::currentDateTime().toUTC());',
          'emit sig();', 'ID(emit sig());', 'connect(this, SIGNAL(sig()), this, SLOT(slot()));', 'ID(connect(this, SIGNAL(sig()), this, SLOT(slot())));', 'm_s == STR;', 'm_s.startsWith("x" STR);', 'm_s = "é";', 'm_s += STR;']
    for i in range(rng.randrange(15, 40)):
        L.append('    { %s }' % rng.choice(st))
    return '\n'.join(L + ['}']) + '\n'


main(body)
