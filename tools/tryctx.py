"""All patterns in all contexts: where marks and reports differ. usage: tryctx.py [check...]"""
import os, sys, re, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, run, patterns
from concurrent.futures import ThreadPoolExecutor
clz = run.Clazy(build.ensure('mon'))
sel = sys.argv[1:]
jobs = []
for q in (5, 6):
    for p in patterns.PATTERNS:
        if q not in p.qt or sel and p.check not in sel: continue
        cs = [c for c in (patterns.CONTEXTS if p.kind == 'stmt' else patterns.DECL_CONTEXTS) if c not in p.noctx]
        for i in range(0, len(cs), 5):
            jobs.append((q, [(p, c) for c in cs[i:i+5]]))
wd = tempfile.mkdtemp()
def one(a):
    i, (q, items) = a
    u = patterns.build_unit(items, q)
    f = os.path.join(wd, 'p%d.cpp' % i)
    open(f, 'w').write(u.text)
    r = clz.standalone(f, u.checks, flags=run.qtflags(q) + u.flags, env=u.env, args=u.args)
    return q, f, u, r
bad = 0
import collections
with ThreadPoolExecutor(8) as ex:
    for q, f, u, r in ex.map(one, enumerate(jobs)):
        for e in r.diags:
            if e.sev in ('error', 'fatal error'):
                print('error %s:%d: %s | %s' % (e.file, e.line, e.msg, u.lines[e.line - 1] if e.file == f else ''))
        if r.crash(): print('   CRASH ' + r.crash(), f)
        got = collections.Counter((c[3], c[1]) for c in r.clazy() if c[0] == f)
        for pl in u.placed:
            for l in range(pl.first, pl.last + 1):
                g, w = got[(pl.pat.check, l)], pl.want.get(l, 0)
                if g != w:
                    bad += 1
                    print('%s qt%d [%s] want %d got %d %s:%d: %s' % (pl.pat.id, q, pl.ctx, w, g, f, l, u.lines[l - 1].strip()))
print('%d differences in %d units' % (bad, len(jobs)))
