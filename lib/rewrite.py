"""Meaning-preserving rewritings of programs, with the map of the positions they move."""
import re

TOK = re.compile(r'''
  (?P<ws>(?:\s|\\\n)+)
 |(?P<comment>//[^\n]*|/\*.*?\*/)
 |(?P<str>(?:u8|u|U|L)?R"(?P<delim>[^()\s\\]*)\(.*?\)(?P=delim)"|(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*"(?:[A-Za-z_]\w*)?|(?:u8|u|U|L)?'(?:\\.|[^'\\\n])*')
 |(?P<id>[A-Za-z_]\w*)
 |(?P<num>\.?\d(?:[eEpP][+-]|[\w.])*)
 |(?P<op>\.\.\.|<=>|->\*|<<=|>>=|::|->|\.\*|<<|[-+*/%&|^=!<>]=|&&|\|\||\+\+|--|.)
''', re.S | re.X)

# The texts of these macro arguments are significant as they are.
TEXTUAL = {'SIGNAL', 'SLOT', 'METHOD', 'Q_ARG', 'Q_RETURN_ARG', 'Q_PROPERTY', 'Q_ENUMS', 'Q_FLAGS', 'Q_STRINGIFY', 'QT_STRINGIFY'}


def usable(text):
    """False for texts this simple tokenizer is not made for, and for those with comments that mean something to clazy."""
    return not re.search(r'\d\'\d|clazy:|NOLINT|\?\?|__LINE__|\\\n', text)


class Tokens:
    """Tokens of a text; preprocessor directives stay whole, with the line ends around them."""

    def __init__(self, text):
        self.text = text
        self.toks = []          # (kind, text)
        pos = 0
        bol = True
        while pos < len(text):
            if bol and re.compile(r'[ \t]*#').match(text, pos):
                e = text.find('\n', pos)
                # block comments in directives do not occur in our programs
                e = len(text) if e < 0 else e
                self.toks.append(('dir', text[pos:e]))
                pos = e
                bol = False
                continue
            m = TOK.match(text, pos)
            k = m.lastgroup
            t = m.group(0)
            if k == 'ws' and '\n' in t:
                # stop behind the last line end, so that a directive is seen at the start of its line
                n = t.rfind('\n') + 1
                if re.compile(r'[ \t]*#').match(text, pos + n):
                    t = t[:n]
                bol = True
            elif k != 'ws':
                bol = False
            self.toks.append((k, t))
            pos += len(t)
        self.textual = self._textual()

    def _textual(self):
        """Indices of tokens inside of arguments whose text is significant."""
        out, depth, armed = set(), 0, False
        for i, (k, t) in enumerate(self.toks):
            if depth:
                out.add(i)
                if t == '(':
                    depth += 1
                elif t == ')':
                    depth -= 1
            elif armed and t == '(':
                depth = 1
                out.add(i)
            elif k not in ('ws', 'comment'):
                armed = k == 'id' and t in TEXTUAL
                if armed:
                    out.add(i)
        return out

    def positions(self, toks=None):
        """[(line, col)] of each token."""
        out = []
        line, col = 1, 1
        for k, t in (toks or self.toks):
            out.append((line, col))
            b = t
            n = b.count('\n')
            if n:
                line += n
                col = len(b[b.rfind('\n') + 1:].encode('utf-8', 'surrogateescape')) + 1
            else:
                col += len(b.encode('utf-8', 'surrogateescape'))
        return out


def trivia(rng, text, style):
    """Changes white space, line ends and comments between tokens. Returns (new text, {old (line, col): new (line, col)})."""
    tk = Tokens(text)
    new, src = [], []
    toks = tk.toks
    p = {'light': .06, 'heavy': .5}.get(style, .3)

    def filler(wide):
        r = rng.random()
        if style == 'newlines':
            return '\n' + ' ' * rng.randrange(6)
        if style == 'comments':
            return rng.choice([' /* c */ ', '/**/', ' // c\n', ' /* a\n b */ ', '/*emit signals: "*/'])
        if r < .35:
            return ' ' * rng.randrange(1, 5)
        if r < .55:
            return '\n' + '\t' * rng.randrange(3)
        if r < .65:
            return '\t'
        if r < .8:
            return rng.choice([' /* c */ ', '/**/', ' /* two\n lines */ '])
        if r < .9:
            return ' // end\n'
        return '\n\n'
    for i, (k, t) in enumerate(toks):
        prev = toks[i - 1] if i else None
        near_dir = k == 'dir' or (prev and prev[0] == 'dir') or (prev and prev[0] == 'ws' and i > 1 and toks[i - 2][0] == 'dir')
        nxt_dir = i + 1 < len(toks) and toks[i + 1][0] == 'dir'
        if i in tk.textual and i - 1 in tk.textual:
            new.append((k, t))
            src.append(i)
            continue
        if style == 'joined':
            if k == 'ws' and '\n' in t and not nxt_dir and not near_dir and rng.random() < .9:
                t = ' '
            elif k == 'comment' and t.startswith('//'):
                t = '/* %s */' % t[2:].replace('*/', '')
            new.append((k, t))
            src.append(i)
            continue
        if k == 'ws' and not nxt_dir and not near_dir and not (prev and prev[0] == 'comment' and prev[1].startswith('//')) and rng.random() < p:
            f = filler(True)
            new.append(('ws', f))
            src.append(None)
            continue
        if k not in ('ws', 'comment', 'dir') and prev and prev[0] not in ('ws', 'dir', 'comment') and rng.random() < p:
            new.append(('ws', filler(False)))
            src.append(None)
        new.append((k, t))
        src.append(i)
    old = tk.positions()
    npos = tk.positions(new)
    mp = {}
    for j, i in enumerate(src):
        if i is not None:
            mp[old[i]] = npos[j]
    return ''.join(t for _, t in new), mp


def rename(rng, text, pick):
    """Renames the identifiers that pick(name) accepts, to a name of another length with the same first characters."""
    tk = Tokens(text)
    names = {}
    for k, t in tk.toks:
        if k == 'id' and t not in names and pick(t):
            names[t] = t + rng.choice(['_r', 'Xx', '_other_name', 'z7'])
    out = []
    for k, t in tk.toks:
        if k == 'dir':
            t = re.sub(r'[A-Za-z_]\w*', lambda m: names.get(m[0], m[0]), t)
        elif k == 'str':
            t = re.sub(r'[A-Za-z_]\w*', lambda m: names.get(m[0], m[0]), t) if False else t
        elif k == 'id':
            t = names.get(t, t)
        out.append((k, t))
    old, new = tk.positions(), tk.positions(out)
    return ''.join(t for _, t in out), dict(zip(old, new)), names
