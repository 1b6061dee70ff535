"""Exported fix files (YAML) and the compiler's parseable fix-its, in one form."""
import collections, os, re
import yaml

Loader = getattr(yaml, 'CSafeLoader', yaml.SafeLoader)
Fix = collections.namedtuple('Fix', 'check msg file offset edits')     # edits: tuple of (file, offset, length, text)


class Malformed(Exception):
    pass


def load(text, strip='', all_=False):
    """Exported diagnostics; strip: folder removed from the paths. all_: with those that carry no edits."""
    try:
        d = yaml.load(text, Loader=Loader)
    except yaml.YAMLError as e:
        raise Malformed('not YAML: %s' % str(e)[:300])
    if not isinstance(d, dict) or not isinstance(d.get('Diagnostics'), list):
        raise Malformed('no Diagnostics list')

    def rel(p):
        return os.path.normpath(p[len(strip) + 1:] if strip and p.startswith(strip + '/') else p) if p else p
    out = []
    for e in d['Diagnostics']:
        try:
            dm = e['DiagnosticMessage']
            edits = tuple(sorted((rel(r['FilePath']), int(r['Offset']), int(r['Length']), r['ReplacementText'] or '') for r in dm.get('Replacements') or []))
            out.append(Fix(e['DiagnosticName'] or '', dm['Message'].replace(strip + '/', '') if strip else dm['Message'], rel(dm['FilePath']), int(dm['FileOffset']), edits))
        except (KeyError, TypeError, ValueError) as ex:
            raise Malformed('entry %r: %r' % (e, ex))
    return out if all_ else [f for f in out if f.edits]


def clazy_only(fs):
    return [f for f in fs if 'clazy-' in f.check]


def name(check):
    c = check
    for pre in ('-W', 'W'):
        if c.startswith(pre):
            c = c[len(pre):]
    return c[len('clazy-'):] if c.startswith('clazy-') else c


def apply(text, edits):
    """text: bytes. edits: (offset, length, bytes); None when two of them overlap (identical ones count once)."""
    es = sorted(set(edits), key=lambda e: (e[0], e[1]))
    out, pos = [], 0
    last = None
    for o, l, t in es:
        if o < pos or (last is not None and last[0] == o and l == 0 and last[1] == 0):
            return None
        if o + l > len(text):
            raise Malformed('edit outside of the file')
        out.append(text[pos:o])
        out.append(t)
        pos = o + l
        last = (o, l)
    out.append(text[pos:])
    return b''.join(out)


PARSEABLE = re.compile(r'^fix-it:"((?:[^"\\]|\\.)*)":\{(\d+):(\d+)-(\d+):(\d+)\}:"((?:[^"\\]|\\.)*)"$', re.M)


def unescape(s):
    b = s.encode('utf-8', 'surrogateescape')
    b = re.sub(rb'\\([0-7]{1,3}|.)', lambda m: bytes([int(m[1], 8)]) if m[1][:1].isdigit() else {b'n': b'\n', b't': b'\t'}.get(m[1], m[1]), b)
    return b
