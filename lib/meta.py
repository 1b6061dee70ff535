"""What the documentation (checks.json, which README and the website are generated from) says about the checks."""
import json, os
import build


class Meta:
    def __init__(self, text=None):
        if text is None:
            text = open(os.path.join(build.REPO, 'checks.json')).read()
        d = json.loads(text)
        self.checks = {c['name']: c for c in d['checks']}
        self.level = {c['name']: c['level'] for c in d['checks']}
        # Documented fixits; the name that is registered, and that the help prints, carries a 'fix-' prefix.
        self.fixits = {}
        for c in d['checks']:
            for f in c.get('fixits') or []:
                self.fixits['fix-' + f['name']] = c['name']
        self.names = sorted(self.checks)

    def at_level(self, n):
        return {c for c, l in self.level.items() if 0 <= l <= n}


class Request:
    """The documented meaning of a selection: README 'Selecting which checks to enable' and the plugin's help."""

    def __init__(self, meta):
        self.m = meta

    def parse(self, text):
        on, off, bad = set(), set(), []
        for t in text.split(','):
            if t in self.m.checks:
                on.add(t)
            elif t in self.m.fixits:
                on.add(self.m.fixits[t])
            elif t in ('level0', 'level1', 'level2'):
                on |= self.m.at_level(int(t[-1]))
            elif t.startswith('no-') and t[3:] in self.m.checks:
                off.add(t[3:])
            else:
                bad.append(t)
        return on, off, bad

    def resolve(self, level, text, env):
        """(set of checks in force, rejected names, refused): refused when the argument names nothing that exists.
        The set is None where the documentation does not say (everything that was switched on was switched off again)."""
        on, off, bad = set(), set(), []
        net = set()
        if text is not None:
            on, off, bad = self.parse(text)
            if not on and not off:
                return set(), bad, True
            net |= on - off
        if env is not None:
            if env == 'all_checks':
                o2, f2, b2 = self.m.at_level(2), set(), []
            else:
                o2, f2, b2 = self.parse(env)
            on, off, bad = on | o2, off | f2, bad + b2
            net |= o2 - f2
        if level is not None:
            on |= self.m.at_level(int(level[-1]))
        elif not on:
            on = self.m.at_level(1)
        elif not net:
            return None, bad, False
        return on - off, bad, False
