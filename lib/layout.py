"""Spreads a generated unit over a main file and headers, and edits files line by line keeping track of where lines went."""
import re
import rewrite


def split(rng, p, cuts, name='code.h', guard=True):
    """The first parts of a unit go to a header. None when there is nothing to split."""
    cuts = [c for c in cuts if c > 1]
    if not cuts:
        return None
    c = rng.choice(cuts)
    lines = p.text.split('\n')
    q = p.with_text('#include "%s"\n%s' % (name, '\n'.join(lines[c - 1:])))
    q.files = dict(p.files)
    q.files[name] = ('#pragma once\n' if guard else '') + '\n'.join(lines[:c - 1]) + '\n'
    return q


def free_lines(text):
    """(lines at whose end a comment may be added, lines before which a line of its own may be added), 1-based."""
    tk = rewrite.Tokens(text)
    pos = tk.positions()
    n = text.count('\n') + 1
    tail, own = set(range(1, n)), set(range(1, n + 1))
    lines = text.split('\n')
    for i, l in enumerate(lines, 1):
        if l.rstrip().endswith('\\'):
            tail.discard(i)
            own.discard(i)
            own.discard(i + 1)
        if '//' in l and '//!' not in l:
            pass
    for (k, t), (line, col) in zip(tk.toks, pos):
        c = t.count('\n')
        if c and k != 'ws':
            for j in range(line, line + c):
                tail.discard(j)
            for j in range(line + 1, line + c + 1):
                own.discard(j)
        if k == 'comment' and t.startswith('//'):
            tail.discard(line)
        if k == 'dir' and ('//' in t or '/*' in t):
            tail.discard(line)
    return tail, own


class Edits:
    """Comments to add to one file: at the end of a line, or on a line of their own before it."""

    def __init__(self, text):
        self.lines = text.split('\n')
        self.tail, self.own = {}, {}

    def result(self):
        out, mp = [], {}
        for i, l in enumerate(self.lines, 1):
            out += self.own.get(i, [])
            out.append(l + self.tail.get(i, ''))
            mp[i] = len(out)
        return '\n'.join(out), mp
