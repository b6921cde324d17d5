"""C33: the model library loads MDPs too, any number of models in turn, and writes what it can read back."""
import os, re
import numpy as np
import build, c06, run as R, syntax
from core import Case, case_rng

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PER = 8


class MDPFile(syntax.File):
    """a file without observations: a start state instead of a belief, rewards by action, state and next state"""
    is_mdp = True

    def preamble(self):
        self.startstate = -1
        return [x for x in super().preamble() if x[0] != 'observations']

    def start_stmt(self):
        if self.rng.random() < 0.5:
            return []
        i = self.rng.randrange(self.nS)
        self.startstate = i
        self.start = np.eye(self.nS)[i]
        return [['start', ':', self.sn[i] if self.sn and self.rng.random() < 0.5 else str(i)]]

    def prob_group(self, kw, *a, **k):
        while True:
            save = self.T.copy()
            g = super().prob_group(kw, *a, **k)
            if self.startstate >= 0 or not any(x[-1] == 'reset' for x in g):
                return g
            self.T[:] = save

    def reward_group(self):
        rng = self.rng
        k = rng.choice(['single', 'single', 'row', 'matrix'])
        a, s, t = self.pick(self.nA, .4), self.pick(self.nS, .4), self.pick(self.nS, .5)
        ra, rs, rt = self.rg(a, self.nA), self.rg(s, self.nS), self.rg(t, self.nS)
        if k == 'single':
            tk, v = self.rnum()
            self.R[ra, rs, rt] = v
            return [['R', ':', self.A(a), ':', self.S(s), ':', self.S(t)] + [x for x in tk if x]]
        if k == 'row':
            out = ['R', ':', self.A(a), ':', self.S(s)]
            for j in range(self.nS):
                tk, v = self.rnum()
                self.R[ra, rs, j] = v
                out += [x for x in tk if x]
            return [out]
        out = ['R', ':', self.A(a)]
        for i in range(self.nS):
            for j in range(self.nS):
                tk, v = self.rnum(0.4)
                self.R[ra, i, j] = v
                out += [x for x in tk if x]
        return [out]

    def statements(self):
        rng = self.rng
        self.O = np.ones((self.nA, self.nS, 1))
        self.R = np.zeros((self.nA, self.nS, self.nS, 1))
        self.nZ = 1
        out = []
        for _ in range(rng.choice([2, 4, 8, 16])):
            out += self.prob_group('T') if rng.random() < 0.5 else self.reward_group()
        fix = [(a, s) for a in range(self.nA) for s in range(self.nS) if abs(self.T[a, s].sum() - 1) > 4e-6]
        rng.shuffle(fix)
        for a, s in fix:
            if abs(self.T[a, s].sum() - 1) > 4e-6:
                out += self.prob_group('T', a=a, s=s)
            if rng.random() < 0.15:
                out += self.reward_group()
        return out


def parse(path):
    d = {}
    for line in open(path):
        p = line.split()
        if p:
            d[p[0]] = p[1:]
    d['sizes'] = tuple(int(x) for x in d['sizes'])
    for k in ('start', 'T', 'O', 'R', 'Q', 'rows', 'discount'):
        if k in d:
            d[k] = np.array([float(x) for x in d[k]])
    return d


def differs(x, y, tol):
    y = np.asarray(y, dtype=float).ravel()
    if x.shape != y.shape:
        return 'as many as %d, meant %d' % (x.size, y.size)
    bad = np.abs(x - y) > tol * np.maximum(1, np.abs(y))
    if bad.any():
        k = int(np.argmax(bad))
        return 'entry %d is %.12g, meant %.12g (%d such)' % (k, x[k], y[k], bad.sum())


def meaning(f, d):
    mdp = getattr(f, 'is_mdp', False)
    if d['type'] != ['mdp' if mdp else 'pomdp']:
        return 'type', 'taken for a %s' % d['type'][0]
    if d['sizes'] != (f.nS, f.nA, 0 if mdp else f.nZ):
        return 'sizes', 'sizes %s' % (d['sizes'],)
    if d['discount'][0] != f.disc:
        return 'discount', 'discount %.17g, meant %.17g' % (d['discount'][0], f.disc)
    if (d['values'][0] == 'cost') != f.cost:
        return 'values', 'the other value sense'
    for k, want in (('start', [f.startstate] if mdp else f.start), ('T', f.T), ('R', f.R)) + ((('O', f.O),) if not mdp else ()):
        e = differs(d[k], want, 1e-12)
        if e:
            return k, '%s: %s' % (k, e)
    e = differs(d['Q'], f.q(), 1e-9 * (1 + np.abs(f.R).max()))
    if e:
        return 'Q', 'expected rewards: %s' % e
    return None


def slices(f, name, out):
    """what the library shows of each state: every entry it shows is right, and none but zeroes are left out"""
    mdp = getattr(f, 'is_mdp', False)
    q = f.q()
    for i in range(-1, f.nS + 1):
        t = out[out.index('## %s %d\n' % (name, i)):]
        t = t[t.index('\n') + 1:]
        t = t[:t.index('## ')]
        if not 0 <= i < f.nS:
            if t.strip():
                return 'something is shown of state %d of %d' % (i, f.nS)
            continue
        got = {}
        for k, j, s, a, v in re.findall(r'^\tP\( ([so])=(\d+) \| s=(\d+), a=(\d+) \) = (\S+)$', t, re.M):
            got[k, int(a), int(j)] = float(v)
            if int(s) != i:
                return 'state %s is shown for state %d' % (s, i)
        want = {('s', a, j): f.T[a, i, j] for a in range(f.nA) for j in range(f.nS)}
        if not mdp:
            want.update({('o', a, z): f.O[a, i, z] for a in range(f.nA) for z in range(f.nZ)})
        for s, a, v in re.findall(r'^\tQ\( s=(\d+), a=(\d+) \) = (\S+)$', t, re.M):
            got['q', int(a), int(s)] = float(v)
        want.update({('q', a, i): q[a, i] for a in range(f.nA)})
        if len(t.strip().split('\n')) != len(got) + 1 or not set(got) <= set(want):
            return 'state %d: lines that say nothing of the model: %s' % (i, t[:300])
        for k, v in want.items():
            if abs(got.get(k, 0.0) - v) > 6e-7 * max(1, abs(v) * 1e-3) + 1e-12 * abs(v) + (1e-9 * np.abs(f.R).max() if k[0] == 'q' else 0):
                return 'state %d: %s is shown as %s, meant %.12g' % (i, k, got.get(k), v)
    return None


def broken(rng):
    """a file that is refused, or what is left of one"""
    if rng.random() < 0.3:
        t = (MDPFile if rng.random() < 0.5 else syntax.File)(rng).text()
        return t[:rng.randint(0, len(t) - 1)]
    while True:
        f = syntax.File(rng, nS=rng.choice([1, 2, 3]))
        kind = rng.choice(c06.KINDS)
        b = c06.breakage(f, kind)
        if b and b[0]:
            return syntax.layout(rng, [[t for t in s if t != ''] for s in b[0]])


def case(exe, seed, i):
    c = Case('%d' % i)
    rng = case_rng(seed, 'c33', i)
    files = [(MDPFile if rng.random() < 0.6 else syntax.File)(rng) for _ in range(PER)]
    keys = []
    exe, plain = exe
    with R.Scratch('c33') as d:
        texts = []
        for k, f in enumerate(files):
            if rng.random() < 0.15:
                files[k] = None
                texts.append(broken(rng))
            else:
                texts.append(f.text())
            open('%s/f%d' % (d, k), 'wb').write(texts[-1].encode('latin-1'))
        r = R.run([exe] + ['f%d' % k for k in range(PER)], d, timeout=30)
        if r.timeout:
            c.inconclusive.append('timeout')
            return c
        if r.rc != 0 or r.crashed:
            c.violation('failed:' + r.signature(), r.brief(1500), **{'file%d' % k: t for k, t in enumerate(texts)})
            return c
        for k, f in enumerate(files):
            if f is None:
                c.counts['refused' if 'refused f%d\n' % k in r.out else 'cut files accepted'] += 1
                continue
            mdp = isinstance(f, MDPFile)
            kw = dict(model=texts[k], before='\n----\n'.join(texts[:k]))
            say = 'model %d of a sequence, %s %s' % (k, 'MDP' if mdp else 'POMDP', f.summary())
            c.counts['mdps' if mdp else 'pomdps'] += 1
            if 'refused f%d\n' % k in r.out:
                c.violation('refused', '%s: a valid file is refused\n%s' % (say, r.text[-600:]), **kw)
                return c
            x = parse('%s/f%d.dump' % (d, k))
            e = meaning(f, x)
            if e:
                c.violation('meaning:' + e[0], '%s: %s' % (say, e[1]), **kw)
                return c
            c.count(entries=x['T'].size + x['R'].size)
            if f.nS <= 8:
                e = slices(f, 'f%d' % k, r.out)
                if e:
                    c.violation('slice', '%s: %s' % (say, e), **kw)
                    return c
                c.count(slices=f.nS)
            text = open('%s/f%d.out' % (d, k)).read()
            if 'refused f%d.out' % k in r.out:
                # six decimals may not leave a distribution of many small entries
                n = max(f.nS, f.nZ)
                if n <= 8:
                    c.violation('written-refused', '%s: what the library writes it does not read\n%s' % (say, r.text[-600:]), written=text, **kw)
                    return c
                c.count(rounded_away=1)
                continue
            y = parse('%s/f%d.back' % (d, k))
            if y['type'] != x['type'] or y['sizes'] != x['sizes'] or y['values'] != x['values']:
                c.violation('written:preamble', '%s: the model written has another preamble\n%s' % (say, text[:300]), written=text, **kw)
                return c
            for n in ('T', 'O', 'Q', 'discount'):
                if n in x and np.abs(x[n] - y[n]).max() > 6e-7 + 1e-12 * np.abs(x[n]).max() + (3e-5 * (1 + np.abs(x['Q']).max()) if n == 'Q' else 0):
                    c.violation('written:' + n, '%s: %s differs in the model written: %s' % (say, n, differs(y[n], x[n], 6e-7)), written=text, **kw)
                    return c
            c.count(written=1)
            keys.append(hash(texts[k]))
        if rng.random() < 0.2:
            # what a model needed is given back with it
            use = [k for k, f in enumerate(files) if f is not None]
            r = R.run([plain] + ['f%d' % k for k in use for _ in range(5)], d, timeout=30, env={'GLIBC_TUNABLES': 'glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0'})
            live = {}
            for l in r.out.split('\n'):
                if l.startswith('done '):
                    live.setdefault(l.split()[1], []).append(int(l.split()[2]))
            for k in use:
                v = live.get('f%d' % k, [])
                if len(v) == 5:
                    c.count(heaps=1)
                    if all(y > x for x, y in zip(v[1:], v[2:])):
                        c.violation('heap', 'loading, writing and giving back the same model again leaves %d bytes more allocated (%s)' % (v[4] - v[3], v), model=texts[k])
                        return c
    c.nontrivial = tuple(keys)
    c.sample = {'models': ['%s %s' % ('MDP' if isinstance(f, MDPFile) else 'POMDP', f.summary()) for f in files if f], 'first': texts[0][:300]}
    return c


def exes():
    return tuple(build.build(v, 'pomdp-solve', extra_src=[HERE + '/harness/mdpmon.c'], drop=['main.c'], out='mdpmon') for v in ('asan', 'plain'))


def run(chk):
    exe = exes()
    chk.rule = 'sequences of %d models, MDPs and POMDPs in every syntax, loaded, written and read back in one process; non-trivial: distinct sequences' % PER
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(1500, 20000))], quick_s=60, thorough_s=1200)
