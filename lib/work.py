"""Workloads shared by the checks: generated units of patterns, the programs of clazy's own tests, and one way to run them."""
import collections, os, re, shutil, itertools, threading
import build, mutate, patterns, run

_seq = itertools.count()

Ev = collections.namedtuple('Ev', 'file line col check sev msg')


class Prog:
    """A program: main text, other files (relative name -> text), Qt version (0: none) and flags."""

    def __init__(self, name, text, qt, flags=(), env=None, args=(), files=None, main='x.cpp', incdir=None, unit=None, checks=None):
        self.name, self.text, self.qt, self.flags, self.env, self.args = name, text, qt, list(flags), dict(env or {}), list(args)
        self.files, self.main, self.incdir, self.unit, self.checks = dict(files or {}), main, incdir, unit, checks

    def cflags(self, wd):
        return (run.qtflags(self.qt) if self.qt else ['-fPIC', '-std=c++17']) + ['-I' + wd] + (['-I' + self.incdir] if self.incdir else []) + self.flags

    def put(self, wd):
        os.makedirs(wd, exist_ok=True)
        for n, t in list(self.files.items()) + [(self.main, self.text)]:
            p = os.path.join(wd, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode('utf-8', 'surrogateescape'))
        return os.path.join(wd, self.main)

    def replay(self):
        d = {self.main: self.text}
        d.update(self.files)
        return d

    def with_text(self, text, **kw):
        p = Prog(self.name, text, self.qt, self.flags, self.env, self.args, self.files, self.main, self.incdir, self.unit, self.checks)
        for k, v in kw.items():
            setattr(p, k, v)
        return p


def events(r, wd):
    out = []
    for f, l, c, n, s, msg in r.clazy():
        if f.startswith(wd + '/'):
            f = f[len(wd) + 1:]
        out.append(Ev(os.path.normpath(f) if f else f, l, c, n, s, msg.replace(wd + '/', '')))
    return out


def errors(r):
    """The compiler's own errors (not warnings of clazy promoted to errors)."""
    return [d for d in r.diags if d.sev in ('error', 'fatal error') and run.clazy_name(d.tag) is None]


class Run:
    def __init__(self, r, ev, errs, extra):
        self.r, self.ev, self.errs, self.extra = r, ev, errs, extra

    def set(self):
        return set(self.ev)

    def counter(self):
        return collections.Counter(self.ev)


def analyse(m, prog, checks, fe='standalone', args=(), env=None, flags=(), export=False, wd=None, keep=False, **kw):
    own = wd is None
    if own:
        wd = os.path.join(m.work, 'w%d' % next(_seq))
    src = prog.put(wd)
    fl = prog.cflags(wd) + list(flags)
    e = dict(prog.env)
    e.update(env or {})
    a = list(prog.args) + list(args)
    y = os.path.join(wd, 'fixes.yaml')
    if fe == 'standalone':
        r = m.clazy.standalone(src, checks, flags=fl, args=a + (['-export-fixes=' + y] if export else []), env=e, cwd=wd, **kw)
    elif fe == 'plugin':
        r = m.clazy.plugin(src, checks, flags=fl, args=[x.lstrip('-') for x in a] + (['export-fixes'] if export else []), env=e, cwd=wd, **kw)
        y = src + '.clazy.yaml'
    else:
        r = m.clazy.tidy(src, checks, flags=fl, args=['-header-filter=.*', '--system-headers'] + (['-export-fixes=' + y] if export else []), env=e, cwd=wd, **kw)
    extra = None
    if export and os.path.exists(y):
        extra = open(y, encoding='utf-8', errors='surrogateescape').read()
    res = Run(r, events(r, wd), errors(r), extra)
    res.wd = wd
    if own and not keep:
        shutil.rmtree(wd, ignore_errors=True)
    return res


# ------------------------------------------------------------------ generated units
def pool(qt, pred=None, plain=False):
    return [p for p in patterns.PATTERNS if qt in p.qt and (not plain or not (p.flags or p.env or p.args)) and (pred is None or pred(p))]


def contexts_of(p):
    names = patterns.CONTEXTS if p.kind == 'stmt' else patterns.DECL_CONTEXTS
    return [c for c in names if c not in p.noctx]


def cover(rng, qt, size, rounds=1, pred=None):
    """Units that together hold every pattern for qt 'rounds' times, each time in a fresh random context."""
    groups = collections.defaultdict(list)
    for p in pool(qt, pred):
        cs = contexts_of(p)
        if not cs:
            continue
        for c in (rng.sample(cs, rounds) if rounds <= len(cs) else [rng.choice(cs) for _ in range(rounds)]):
            groups[(p.flags, tuple(sorted(p.env.items())), p.args)].append((p, c))
    units = []
    for k, g in sorted(groups.items(), key=str):
        rng.shuffle(g)
        for i in range(0, len(g), size):
            units.append(patterns.build_unit(g[i:i + size], qt, rng))
    rng.shuffle(units)
    return units


def unit_prog(u, name='unit'):
    return Prog(name, u.text, u.qt, u.flags, u.env, u.args, unit=u, checks=list(u.checks))


def random_unit(rng, qt, size, plain=True, pred=None):
    ps = pool(qt, pred, plain)
    items = []
    for p in (rng.sample(ps, size) if size <= len(ps) else ps):
        items.append((p, rng.choice(contexts_of(p))))
    return patterns.build_unit(items, qt, rng)


def corpus_progs(qt):
    """clazy's own test programs; some of them do not compile with a given Qt version."""
    out = []
    for name, text, d in mutate.corpus():
        out.append(Prog('tests/' + name, text, qt, flags=['-Wno-everything'], incdir=d))
    return out


def wrapped(rng, p):
    """A unit with most of its statements in the arguments of macros."""
    lines = p.text.split('\n')
    for q in p.unit.placed:
        body = lines[q.first - 1:q.last]
        if q.pat.kind == 'stmt' and rng.random() < .8 and not any('//' in l or l.lstrip().startswith('#') for l in body):
            lines[q.first - 1] = 'VP_RUN(' + lines[q.first - 1]
            lines[q.last - 1] += ')'
    w = p.with_text('\n'.join(lines))
    w.flags.append('-DVP_RUN(...)=__VA_ARGS__')
    return w
