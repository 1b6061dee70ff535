"""C16: rewritings that keep the meaning of a program move diagnostics along and change nothing else."""
from common import *
import collections, meta as metamod, patterns, rewrite, work

m = Monitor('C16', 'A case is one program (generated unit or test program of clazy) and one rewriting of it that keeps its meaning; the reports, mapped through the '
                   'positions the rewriting moved, must be the same. Non-trivial when the original has reports and the text changed; distinct by program and rewriting')
NUMID = re.compile(r'[a-z_]\w*?[a-z_]\d+$')
# names ending in digits that are not those of a unit's own items
FOREIGN = {n for q in patterns.PATTERNS for n in re.findall(r'\b\w*\d\b(?!@)', q.code)} | set(re.findall(r'\w*\d\b', patterns.SUPPORT + patterns.SUPPORT_GLOBAL + str(patterns.CONTEXTS) + str(patterns.DECL_CONTEXTS)))
# documented support for "ignore includes" and checks about the main file or about the place of a declaration
WS = re.compile(r'\s+|/\*.*?\*/|//[^\n]*\n?')
FILLERS = ['struct Unrelated@ { int a; double b; int sum() const { return a + int(b); } };', 'enum class UnrelatedE@ { One, Two };', 'using UnrelatedT@ = unsigned long;',
           'inline int unrelatedF@(int x) { int y = x; for (int i = 0; i < x; ++i) y += i; return y; }', 'namespace unrelatedN@ { inline void g() {} }',
           'template <typename T> T unrelatedM@(T a, T b) { return a < b ? b : a; }', '#define UNRELATED@(x) ((x) * 2)', 'class UnrelatedFwd@; extern int unrelatedI@;',
           'static_assert(sizeof(char) == 1, "text @");', 'struct UnrelatedB@ { UnrelatedB@() = default; UnrelatedB@ &self() { return *this; } };', ';', '/* just a comment */']


def norm(msg):
    return WS.sub('', re.sub(r'(x\.cpp|code\.h):\d+(:\d+)?', 'POS', msg))


def quoting(e):
    """A message with source text in it, on several lines when the source is"""
    return 'regexp failed for' in e.msg


def place(mp, e):
    """Where a position went; inside of a token (a directive) columns stay relative to its start."""
    if (e.line, e.col) in mp:
        return mp[e.line, e.col]
    cs = [c for l, c in mp if l == e.line and c < e.col]
    if not cs:
        return -e.line, e.col
    l, c = mp[e.line, max(cs)]
    return l, c + e.col - max(cs)


def trivia(rng, p, style):
    if not rewrite.usable(p.text):
        return None
    t, mp = rewrite.trivia(rng, p.text, style)
    return p.with_text(t), lambda e: (e.file,) + place(mp, e) if e.file == 'x.cpp' else (e.file, e.line, e.col), norm


def crlf(rng, p):
    if '\r' in p.text or re.search(r'R"', p.text):
        return None
    return p.with_text(p.text.replace('\n', '\r\n')), lambda e: (e.file, e.line, e.col), norm


def bom(rng, p):
    return p.with_text('\ufeff' + p.text), lambda e: (e.file, e.line, e.col + (3 if e.line == 1 and e.file == 'x.cpp' else 0)), norm


def renaming(rng, p):
    if p.unit is None or not rewrite.usable(p.text):
        return None
    t, mp, names = rewrite.rename(rng, p.text, lambda n: NUMID.match(n) and n not in FOREIGN and rng.random() < .8)
    rx = re.compile(r'\b(%s)\b' % '|'.join(map(re.escape, sorted(names, key=len, reverse=True)))) if names else None
    # literals and texts of macro arguments are not renamed where they are strings
    return p.with_text(t), lambda e: (e.file,) + place(mp, e) if e.file == 'x.cpp' else (e.file, e.line, e.col), \
        lambda s, new=False: norm(s if new or not rx else rx.sub(lambda x: names[x[0]], s))


def insertion(rng, p):
    """Unrelated declarations between the parts of a unit."""
    if p.unit is None:
        return None
    lines = p.text.split('\n')
    out, mp = [], {}
    starts = sorted(p.cuts)
    n = 0
    for i, l in enumerate(lines, 1):
        if i in starts and rng.random() < .7:
            for _ in range(rng.randrange(1, 4)):
                n += 1
                out.append(rng.choice(FILLERS).replace('@', str(n)))
        out.append(l)
        mp[i] = len(out)
    return p.with_text('\n'.join(out)), lambda e: (e.file, mp[e.line] if e.file == 'x.cpp' else e.line, e.col), norm


def header(rng, p):
    q = p.with_text('#include "code.h"\nint main() { return 0; }\n')
    q.files = dict(p.files)
    q.files['code.h'] = '#pragma once\n' + p.text
    return q, lambda e: ('code.h', e.line + 1, e.col) if e.file == 'x.cpp' else (e.file, e.line, e.col), norm


def blocks(rng, p):
    """Lines of the code of a unit shifted by empty lines and indented."""
    lines = p.text.split('\n')
    if not rewrite.usable(p.text) or re.search(r'/\*[^*]*\n', p.text):
        return None
    out, mp, sh = [], {}, {}
    for i, l in enumerate(lines, 1):
        while rng.random() < .15:
            out.append('' if rng.random() < .5 else '    // nothing')
        w = 0 if l.startswith('#') else rng.choice([0, 1, 4, 9])
        out.append(' ' * w + l)
        mp[i], sh[i] = len(out), w
    return p.with_text('\n'.join(out)), lambda e: (e.file, mp[e.line], e.col + sh[e.line]) if e.file == 'x.cpp' else (e.file, e.line, e.col), norm


KINDS = {'trivia': lambda r, p: trivia(r, p, 'any'), 'trivia light': lambda r, p: trivia(r, p, 'light'), 'newlines': lambda r, p: trivia(r, p, 'newlines'),
         'joined lines': lambda r, p: trivia(r, p, 'joined'), 'comments': lambda r, p: trivia(r, p, 'comments'), 'trivia heavy': lambda r, p: trivia(r, p, 'heavy'), 'crlf': crlf, 'bom': bom,
         'renaming': renaming, 'insertion': insertion, 'header': header, 'blocks': blocks}
only = os.environ.get('C16_ONLY')


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    jobs = []
    for i in range(m.n(14, 300)):
        qt = rng.choice([5, 6])
        if rng.random() < .6:
            u = work.random_unit(rng, qt, rng.choice([10, 25, 45]))
            p = work.unit_prog(u)
            if rng.random() < .4:
                p = work.wrapped(rng, p)
                m.count('units with statements in macro arguments')
            p.cuts = [q.start for q in u.placed]
        else:
            p = rng.choice(corpus[qt])
        ks = [only] if only else rng.sample(sorted(KINDS), m.n(5, 7))
        vs = []
        for k in ks:
            v = KINDS[k](rng, p)
            if v is not None and (v[0].text != p.text):
                vs.append((k,) + v)
        jobs.append((p, vs))
    print('%d programs' % len(jobs), flush=True)

    def one(j):
        p, vs = j
        r = work.analyse(m, p, names)
        if r.errs or r.r.crash():
            return r, []
        return r, [work.analyse(m, v[1], names) for v in vs]

    for (p, vs), (r, rs) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(r.r, p.name, p.replay()):
            continue
        if r.errs:
            m.count('programs that do not compile with this Qt (left out)')
            continue
        for (k, q, pos, nm), r2 in zip(vs, rs):
            if m.check_crash(r2.r, p.name + ' ' + k, q.replay()):
                continue
            if r2.errs:
                if p.unit is not None:
                    raise HarnessError('the rewriting %s does not compile: %s' % (k, r2.errs[:2]))
                m.count('rewritings that do not compile (left out)')
                continue
            want = collections.Counter((pos(e), e.check, e.sev, nm(e.msg)) for e in r.ev if not quoting(e))
            got = collections.Counter(((e.file, e.line, e.col), e.check, e.sev, nm(e.msg, True) if k == 'renaming' else nm(e.msg)) for e in r2.ev if not quoting(e))
            m.case((q.text, str(q.files)) if r.ev else None, {'program': p.name, 'qt': p.qt, 'rewriting': k, 'reports': len(r.ev)})
            m.seen('rewritings', k)
            m.count('reports compared', len(r.ev))
            for e in r.ev:
                m.seen('checks that reported', e.check)
            if k == 'header':      # documented: a Private class is trusted in a source file only
                want, got = (collections.Counter({e: n for e, n in c.items() if not (e[1] == 'rule-of-three' and 'Private' in e[3])}) for c in (want, got))
            if want == got:
                continue
            lost, extra = list((want - got).elements()), list((got - want).elements())
            for t in sorted({e[1] for e in lost + extra}):
                l, x = [e for e in lost if e[1] == t], [e for e in extra if e[1] == t]
                m.violation('%s:%s' % (k.split()[0], t), '%s, %s (Qt %d): after this rewriting, with positions mapped,\nmissing: %s\nadditional: %s' % (
                    t, k, p.qt, l[:4], x[:4]), dict(list(q.replay().items()) + [('original.cpp', p.text)]), [r2.r])
    return m.finish({'rewritings': 8 if not only else 1, 'reports compared': m.n(2000, 30000), 'checks that reported': 60})


main(body)
