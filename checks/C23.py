"""C23: diagnostics are well formed, owned by a check in force and placed on the program."""
from common import *
import collections, fixes, meta as metamod, rewrite, work

m = Monitor('C23', 'A case is one run of a front end on a program (generated units, test programs, both with hostile literals and identifiers, spread over files); every '
                   'diagnostic of the run that the same compilation without clazy does not show is judged. Non-trivial when it has reports; distinct by program, checks and front end')
HOST = ['%0', '%1 %2', '%s%n', '100%', '%%', '%select{a|b}0', 'x [-Wclazy-foreach]', 'a: warning: b', '[x]', 'é€😀', "it's", '#12', 'tr%1', '%', '{}', '<T>', '..', '\\\\', '\\"q\\"', '',
        'long' * 400, '%10', '%plural{1:a|:b}0', '%diff{x|y}0,1', '[clazy-foo]', '%99']
FORMAT = re.compile(r'%(\d|select|plural|diff|ordinal|s\b|q\d)|\(null\)|0x[0-9a-f]{6,}|<invalid|<unknown>|<null>')


def hostile(rng, text, p):
    tk = rewrite.Tokens(text)
    out = []
    names = {}
    for i, (k, t) in enumerate(tk.toks):
        if k == 'str' and t.startswith('"') and t.endswith('"') and i not in tk.textual and rng.random() < p:
            prev = [x for x in tk.toks[max(0, i - 3):i] if x[0] not in ('ws', 'comment')]
            if prev and prev[-1] == ('id', 'extern'):
                pass
            else:
                h = rng.choice(HOST)
                t = rng.choice(['"%s"' % h, '"%s%s"' % (t[1:-1], h), '"%s%s"' % (h, t[1:-1])])
        out.append((k, t))
    return ''.join(t for _, t in out)


def body():
    names = metamod.Meta().names
    rng = m.rng
    corpus = {q: work.corpus_progs(q) for q in (5, 6)}
    jobs = []
    for i in range(m.n(48, 900)):
        qt = rng.choice([5, 6])
        u = None
        if rng.random() < .6:
            u = work.random_unit(rng, qt, rng.choice([10, 30, 50]))
            p = work.unit_prog(u)
        else:
            p = rng.choice(corpus[qt])
        what = 'as is'
        if rng.random() < .7 and rewrite.usable(p.text):
            p = p.with_text(hostile(rng, p.text, rng.choice([.2, .6, 1])))
            what = 'hostile literals'
        if rng.random() < .3 and u is not None:
            t, _, _ = rewrite.rename(rng, p.text, lambda n: re.match(r'[a-z]+\d+$', n) and n not in ('toUtf8', 'fromUtf8', 'toLatin1', 'fromLatin1') and rng.random() < .5)
            p = p.with_text(t)
            what += ', renamed'
        if rng.random() < .25:
            q = p.with_text('#include "%s"\n' % rng.choice(['code.h', 'sub dir/code.h', 'süb/code.h']))
            q.files = dict(p.files)
            q.files[re.search(r'"(.*)"', q.text)[1]] = p.text
            p = q
            what += ', in a header'
        cs = names if rng.random() < .7 else rng.sample(names, rng.choice([1, 10, 40]))
        jobs.append((p, cs, rng.choice(['standalone', 'standalone', 'plugin', 'tidy']), what))
    for q in (5, 6):        # a recorded finding
        jobs += [(p, names, 'plugin', 'as is') for p in corpus[q] if p.name.endswith('old-style-connect/q_private_slot.cpp')]
    print('%d runs' % len(jobs), flush=True)

    def one(j):
        p, cs, fe, what = j
        wd = os.path.join(m.work, 'w%d' % next(work._seq))
        r = work.analyse(m, p, cs, fe, export=True, wd=wd, flags=['-ferror-limit=0'])
        src = os.path.join(wd, p.main)
        base = run.execute([run.CLANG, '-fsyntax-only', '-ferror-limit=0', '-x', 'c++', src] + p.cflags(wd), wd)
        return wd, r, base

    for (p, cs, fe, what), (wd, r, base) in zip(jobs, m.parallel(one, jobs)):
        if m.check_crash(r.r, p.name, p.replay()):
            continue
        def bad(key, msg):
            m.violation(key, '%s, %s (%s):\n%s' % (fe, p.name, what, msg), p.replay(), [r.r])
        texts = {}
        for n in [p.main] + list(p.files):
            texts[os.path.join(wd, n)] = open(os.path.join(wd, n), 'rb').read()
        if p.incdir:            # test programs include files beside them
            for d0, _, fs in os.walk(p.incdir):
                for n in fs:
                    texts[os.path.join(d0, n)] = open(os.path.join(d0, n), 'rb').read()
        plain = collections.Counter((d.file, d.line, d.col, d.msg) for d in base.diags if d.sev != 'note')
        mine = 0
        seen = collections.Counter()
        user = b''.join(texts.values()).decode('utf-8', 'replace')
        for d in r.r.diags:
            if d.sev in ('note', 'remark'):
                continue
            tags = re.findall(r'clazy-[\w-]+', d.tag)
            if not tags and plain[d.file, d.line, d.col, d.msg]:
                continue
            if not tags and fe == 'tidy' and (d.tag.startswith('clang-diagnostic') or d.sev == 'error'):
                continue
            if d.msg.startswith('Type declared here:'):     # a line that belongs to the one above
                continue
            if not tags and d.tag.startswith('-W') and not d.tag.startswith('-Wclazy'):
                continue           # the compiler's, worded differently or not repeated
            mine += 1
            m.count('diagnostics judged')
            s = '%s:%d:%d: %s: %s [%s]' % (d.file, d.line, d.col, d.sev, d.msg[:300], d.tag)
            if not tags:
                bad('no tag:' + re.sub(r"[^A-Za-z_]+", '-', d.msg)[:90].strip('-'), s)
                continue
            for t in tags:
                m.seen('checks that reported', t[6:])
                if t[6:] not in cs:
                    bad('not in force', s)
            if fe != 'tidy' and not re.fullmatch(r'-Wclazy-[a-z0-9-]+', d.tag):
                bad('tag', s)
            if not d.msg.strip():
                bad('empty', s)
            f = FORMAT.search(d.msg)
            if f and f[0] not in user:
                bad('format:' + tags[0], s)
            if d.sev not in ('warning',):
                bad('severity', s)
            if d.file not in texts:
                bad('file', s)
                continue
            lines = texts[d.file].split(b'\n')
            if not (1 <= d.line <= len(lines)) or not (1 <= d.col <= len(lines[d.line - 1]) + 1):
                bad('place', s)
            seen[d] += 1
        for d, n in seen.items():
            if n > 1:
                bad('repeated:' + d.tag.split(',')[0], '%d times: %s' % (n, d))
        if r.extra:
            for f in fixes.clazy_only(fixes.load(r.extra, '', True)):
                if fixes.name(f.check.split(',')[0]) not in cs and fe != 'tidy':
                    bad('export tag', str(f)[:400])
                for path, off, ln, new in f.edits:
                    m.count('edits judged')
                    path = os.path.normpath(path if os.path.isabs(path) else os.path.join(wd, path))
                    if path not in texts:
                        bad('edit elsewhere:' + fixes.name(f.check), str(f)[:400])
                    elif off < 0 or ln < 0 or off + ln > len(texts[path]):
                        bad('edit outside:' + fixes.name(f.check), str(f)[:400])
        m.case((p.text, str(cs), fe) if mine else None, {'program': p.name, 'qt': p.qt, 'front end': fe, 'what': what, 'diagnostics': mine})
        m.seen('kinds of programs', what)
        shutil.rmtree(wd, ignore_errors=True)
    return m.finish({'diagnostics judged': m.n(2000, 40000), 'edits judged': m.n(800, 10000), 'checks that reported': 80})


main(body)
