"""Verdicts, evidence, replays and known findings."""
import concurrent.futures, hashlib, json, os, random, re, shutil, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build, run

KNOWN = os.path.join(VERIF, 'known_findings.txt')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


def load_known(prop):
    """Lines 'known: property=<id> key=<key> <text>'; lines starting 'fixed:' suppress nothing."""
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l.strip())
            if m and m[1] == prop:
                out[m[2]] = m[3]
    return out


class HarnessError(Exception):
    pass


class Monitor:
    def __init__(self, prop, rule, level='exploration', assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.rng = random.Random('%s/%d' % (prop, self.seed))
        self.t0 = time.time()
        self.evaluations = 0
        self.keys = set()
        self.counts = {}
        self.sets = {}
        self.samples = []
        self.violations = []
        self.assumptions = list(assumptions)
        self.known = load_known(prop)
        self.known_seen = {}
        self.work = tempfile.mkdtemp(prefix='clazy-%s-' % prop)
        self.replays = os.path.join(VERIF, 'replays', prop)
        self._clz = None
        self._lock = threading.Lock()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    @property
    def clazy(self):
        with self._lock:
            if self._clz is None:
                try:
                    p = build.ensure('mon')
                except build.BuildError as e:
                    raise HarnessError(str(e))
                print('monitored build ready (%.1fs)' % p.seconds, flush=True)
                self._clz = run.Clazy(p)
            return self._clz

    # -- observations
    def case(self, key=None, sample=None):
        """One evaluation; key identifies it when it was non-trivial."""
        self.evaluations += 1
        if key is not None:
            h = hashlib.sha1(repr(key).encode()).hexdigest()
            new = h not in self.keys
            self.keys.add(h)
            if new and sample is not None and len(self.samples) < 6:
                self.samples.append(sample)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, name, value):
        self.sets.setdefault(name, set()).add(value)

    # -- verdicts
    def violation(self, key, message, files=None, results=()):
        """key: a stable name for what fails (matched against the known findings); files: {name: text} for the replay."""
        key = re.sub(r'\s+', '_', key)
        if key in self.known:
            self.known_seen.setdefault(key, message)
            return
        if any(v[0] == key for v in self.violations):
            self.count('further violations with a key already reported')
            return
        d = os.path.join(self.replays, re.sub(r'[^A-Za-z0-9_.-]', '_', key)[:80])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'README.txt'), 'w') as f:
            f.write('property %s, seed %d, tier %s\nkey: %s\n\n%s\n' % (self.prop, self.seed, self.tier, key, message))
            for r in results:
                f.write('\n$ %s\nexit code %s\n--- stdout\n%s\n--- stderr\n%s\n' % (r.shell(), r.rc, r.out[:20000], r.err[:20000]))
        for n, t in (files or {}).items():
            with open(os.path.join(d, os.path.basename(n)), 'wb') as f:
                f.write(t if isinstance(t, bytes) else t.encode('utf-8', 'replace'))
        self.violations.append((key, message, d))
        print('violation %s: %s' % (key, message[:1500]), flush=True)

    def check_crash(self, r, key, files=None):
        """Reports a monitor alarm on a run; True when there was one."""
        c = r.crash()
        if c is None:
            return False
        self.violation('crash:' + crash_key(c), 'the analysis did not run to its end: %s (%s)' % (c, key), files, [r])
        return True

    def parallel(self, fn, items, jobs=None):
        """fn(item) in worker threads; results in the order of items. Exceptions propagate."""
        with concurrent.futures.ThreadPoolExecutor(jobs or JOBS) as ex:
            return list(ex.map(fn, items))

    def evidence(self):
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.keys), 'rule': self.rule,
               'samples': self.samples or ['(none)']}
        for k, v in self.counts.items():
            cov[k] = v
        for k, v in self.sets.items():
            cov['distinct ' + k] = len(v)
            if len(v) <= 150:
                cov[k] = sorted(map(str, v))
        cov['known findings seen'] = len(self.known_seen)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=False)
            f.write('\n')
        return ev

    def finish(self, minimum=None):
        """minimum: {count or set name: least value}; a run that observed less decides nothing."""
        ev = self.evidence()
        shutil.rmtree(self.work, ignore_errors=True)
        for k, msg in sorted(self.known_seen.items()):
            print('KNOWN-FINDING: property=%s %s (%s)' % (self.prop, self.known[k], k))
        for key, msg, d in self.violations:
            print('VIOLATION property=%s replay=%s' % (self.prop, d))
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %s in %.1fs' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.keys),
            ', '.join('%s=%s' % kv for kv in sorted(self.counts.items())), time.time() - self.t0))
        for k, v in sorted(self.sets.items()):
            print('  distinct %s: %d' % (k, len(v)))
        if self.violations:
            return 1
        for k, least in (minimum or {}).items():
            got = self.evaluations if k == 'evaluations' else self.counts[k] if k in self.counts else len(self.sets.get(k, ()))
            if got < least:
                print('ERROR: observed only %d of %r, at least %d are needed for a verdict' % (got, k, least))
                return 3
        return 0


def crash_key(c):
    c = re.sub(r'0x[0-9a-f]+', 'ADDR', c)
    c = re.sub(r'==\d+==', '', c)
    c = re.sub(r'[^ ]*/src/', '', c)
    c = re.sub(r':\d+(:\d+)?', '', c)
    c = re.sub(r'(pc|bp|sp|T\d+) ?\S*', '', c)
    return re.sub(r'[^A-Za-z0-9_.-]+', '_', c)[:100]


def main(fn):
    """Runs a check body; anything unexpected is an error of the check, never a verdict."""
    try:
        rc = fn()
    except HarnessError as e:
        print('ERROR: %s' % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
