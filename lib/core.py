"""What every check shares: seeds, parallel execution, counting, evidence, verdict."""
import collections, hashlib, importlib, json, multiprocessing, os, random, shutil, signal, sys, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, os.path.join(VERIF, 'checks'))
import build  # noqa

NPROC = int(os.environ.get('VERIF_JOBS', os.cpu_count() or 4))


class Case:
    """what one case reports back"""

    def __init__(self, label):
        self.label = label
        self.violations = []      # (sig, message, files{name:content})
        self.counts = collections.Counter()
        self.nontrivial = None    # a key making it distinct, or None
        self.sample = None
        self.inconclusive = []

    def violation(self, sig, msg, **files):
        self.violations.append((sig, msg, {k: v for k, v in files.items()}))

    def count(self, **kw):
        for k, v in kw.items():
            self.counts[k] += int(v)


def case_rng(seed, *label):
    h = hashlib.sha256(repr((seed,) + label).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


_FN = None


class Slow(BaseException):
    pass


def _slow(*a):
    raise Slow()


def _call(item):
    fn, args = item
    for again in (1, 0):
        try:
            # no single case may keep the check from answering
            signal.signal(signal.SIGALRM, _slow)
            signal.alarm(200)
            try:
                return fn(*args)
            finally:
                signal.alarm(0)
        except Slow:
            c = Case(str(args)[:200])
            c.inconclusive.append('slow')
            return c
        except Exception as e:
            if again:
                continue
            c = Case(str(args)[:200])
            if isinstance(e, (ValueError, IndexError, KeyError, TypeError, FileNotFoundError, ZeroDivisionError, AssertionError)):
                # twice the same: what the program left behind is not what it leaves behind when it works
                c.violation('unexpected-output:%s' % type(e).__name__, 'case %s: the output could not be judged:\n%s' % (c.label, traceback.format_exc()))
            else:
                c.error = traceback.format_exc()
            return c


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.level = 'exploration'
        self.evaluations = 0
        self.keys = set()
        self.counts = collections.Counter()
        self.samples = []
        self.violations = []
        self.known_hits = collections.OrderedDict()
        self.inconclusive = collections.Counter()
        self.undecided = []
        self.errors = []
        self.rule = ''
        self.assumptions = []
        self.extra = {}
        self.known = load_known(pid)
        self.work = os.path.join(VERIF, 'work', pid)
        self.stop = False

    thorough = property(lambda self: self.tier == 'thorough')

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def budget_left(self, quick=240, thorough=3000):
        return self.n(quick, thorough) - (time.time() - self.t0)

    def take(self, c):
        self.evaluations += 1
        if getattr(c, 'error', None):
            self.errors.append(c.error)
            return
        self.counts.update(c.counts)
        for i in c.inconclusive:
            self.inconclusive[i] += 1
            self.undecided.append('%s: %s' % (c.label, i))
        if c.nontrivial is not None:
            self.keys.add(hashlib.sha256(repr(c.nontrivial).encode()).hexdigest()[:16])
        if c.sample is not None and len(self.samples) < 4:
            self.samples.append(c.sample)
        for sig, msg, files in c.violations:
            self.report(sig, msg, files, c.label)

    def report(self, sig, msg, files=None, label=''):
        for k in self.known:
            if k['signature'] == sig:
                self.known_hits[sig] = k
                return
        self.violations.append((sig, msg, label))
        if len(self.violations) <= 8:
            d = os.path.join(self.work, 'replay-%s-%d' % (self.tier, len(self.violations)))
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, 'README'), 'w') as f:
                f.write('property: %s\nseed: %s\ncase: %s\nsignature: %s\n\n%s\n' % (self.pid, self.seed, label, sig, msg))
            for k, v in (files or {}).items():
                with open(os.path.join(d, k), 'wb' if isinstance(v, bytes) else 'w') as f:
                    f.write(v if isinstance(v, (str, bytes)) else json.dumps(v, indent=1, default=str))
            print('VIOLATION property=%s replay=%s' % (self.pid, d), flush=True)
            print('  [%s] %s' % (sig, msg.strip()[:600]), flush=True)
        self.stop = len(self.violations) >= 25

    def pmap(self, fn, argslist, jobs=None, chunk=1, quick_s=240, thorough_s=3000):
        """fn(*args) -> Case, over worker processes; stops handing out work when the time is used"""
        jobs = jobs or NPROC
        deadline = time.time() + self.n(quick_s, thorough_s)
        items = ((fn, a) for a in argslist)
        done = 0
        sem = threading.Semaphore(jobs * 2 * chunk)
        with multiprocessing.get_context('fork').Pool(jobs) as pool:
            it = pool.imap_unordered(_call, _until(items, lambda: self.stop or time.time() > deadline, sem), chunksize=chunk)
            for c in it:
                sem.release()
                self.take(c)
                done += 1
                if self.stop:
                    pool.terminate()
                    break
        return done

    def finish(self):
        wall = time.time() - self.t0
        for sig, k in self.known_hits.items():
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        # a listed finding is announced whether or not this run's cases met it
        for k in self.known:
            if k['signature'] not in self.known_hits:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.keys), rule=self.rule,
                   samples=self.samples or ['none'])
        cov['observed'] = dict(self.counts)
        if self.inconclusive:
            cov['inconclusive'] = dict(self.inconclusive)
        if self.errors:
            cov['harness_errors'] = len(self.errors)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)
        print('%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d violations, %.1f s; %s' %
              (self.pid, self.tier, self.seed, self.evaluations, len(self.keys), len(self.violations), wall,
               dict(self.counts)))
        if self.inconclusive:
            print('  inconclusive:', dict(self.inconclusive), self.undecided[:5])
        if self.violations:
            for sig, k in collections.Counter(v[0] for v in self.violations).most_common():
                print('  %d x %s' % (k, sig))
            return 1
        if self.errors:
            print('harness error:', self.errors[0], file=sys.stderr)
            return 2
        return 0


def _until(items, stop, sem):
    for i in items:
        # hand out work only as it is used up, so that the clock is looked at in between
        while not sem.acquire(timeout=1):
            if stop():
                return
        if stop():
            return
        yield i


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        return [k for k in json.load(open(p))['findings'] if k['property'] == pid]
    except OSError:
        return []


def main(argv):
    # a job in the background inherits ignored signals, which its children would ignore too
    for s in (signal.SIGINT, signal.SIGQUIT, signal.SIGTERM, signal.SIGHUP, signal.SIGVTALRM, signal.SIGALRM):
        signal.signal(s, signal.SIG_DFL)
    signal.pthread_sigmask(signal.SIG_SETMASK, [])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    chk = Check(pid, tier, seed)
    mod = importlib.import_module(pid.lower())
    try:
        mod.run(chk)
    except build.BuildError as e:
        print('build failed: %s' % e, file=sys.stderr)
        return 3
    finally:
        shutil.rmtree(os.path.join(os.environ.get('VERIF_SCRATCH', '/tmp/verif-scratch'), 'none'), ignore_errors=True)
    return chk.finish()
