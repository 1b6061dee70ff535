"""Runs the pattern library against the monitored build and prints where marks and reports differ.
usage: trypat.py [check...]"""
import os, sys, re, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build, run, patterns
from concurrent.futures import ThreadPoolExecutor
clz = run.Clazy(build.ensure('mon'))
sel = sys.argv[1:]
jobs = [(p, q) for p in patterns.PATTERNS for q in p.qt if not sel or p.check in sel]
wd = tempfile.mkdtemp()
def one(a):
    i, (p, q) = a
    text, marks = patterns.unit([(p, 'free')], q)
    f = os.path.join(wd, 'p%d.cpp' % i)
    open(f, 'w').write(text)
    r = clz.standalone(f, p.check, flags=run.qtflags(q) + list(p.flags), env=dict(p.env), args=list(p.args))
    return p, q, f, text, marks, r
bad = 0
with ThreadPoolExecutor(8) as ex:
    for p, q, f, text, marks, r in ex.map(one, enumerate(jobs)):
        lines = text.split('\n')
        errs = [d for d in r.diags if d.sev in ('error', 'fatal error')]
        got = {}
        for c in r.clazy():
            k = (c[3], c[1]) if c[0] == f else (c[3], c[0] + ':%d' % c[1])
            got[k] = got.get(k, 0) + 1
        out = []
        for e in errs:
            out.append('   error %d: %s | %s' % (e.line, e.msg, lines[e.line - 1].strip()))
        if r.crash(): out.append('   CRASH ' + r.crash())
        for k in sorted(set(got) | set(marks), key=str):
            if got.get(k, 0) != marks.get(k, 0):
                l = k[1]
                out.append('   %s want %d got %d: %s %s' % (l, marks.get(k, 0), got.get(k, 0), lines[l - 1].strip() if isinstance(l, int) else '',
                    '; '.join(c[5] for c in r.clazy() if c[1] == l)))
        if out:
            bad += 1
            print('%s qt%d %s' % (p.id, q, f)); print('\n'.join(out))
print('%d of %d patterns differ' % (bad, len(jobs)))
