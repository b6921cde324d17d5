"""C05: a model file means what the format says it means."""
import numpy as np
import build, run as R, load as L, syntax
from core import Case, case_rng

PER = 12


def compare(f, d):
    """-> list of what differs"""
    out = []
    if (d.nS, d.nA, d.nZ) != (f.nS, f.nA, f.nZ):
        return ['sizes %s, meant %s' % ((d.nS, d.nA, d.nZ), (f.nS, f.nA, f.nZ))]
    if d.discount != f.disc:
        out.append('discount %.17g, meant %.17g' % (d.discount, f.disc))
    if d.cost != f.cost:
        out.append('value sense')
    for name in ('T', 'O', 'R', 'start'):
        x, y = getattr(d, name), getattr(f, name)
        bad = np.abs(x - y) > 1e-12 * np.maximum(1, np.abs(y))
        if bad.any():
            k = tuple(int(i) for i in np.argwhere(bad)[0])
            out.append('%s%s is %.12g, meant %.12g (%d such)' % (name, list(k), x[k], y[k], bad.sum()))
    q = f.q()
    bad = np.abs(d.Q - q) > 1e-9 * (1 + np.abs(f.R).max())
    if bad.any():
        k = tuple(int(i) for i in np.argwhere(bad)[0])
        out.append('expected immediate reward %s is %.12g, meant %.12g' % (list(k), d.Q[k], q[k]))
    if (np.abs(d.A - (-d.Q if f.cost else d.Q)) > 1e-12).any():
        out.append('reward to maximize has the wrong sign')
    reach = f.T.max(axis=1) > 1e-10
    poss = ((f.O > 1e-9) & reach[:, :, None]).any(axis=1)
    if (d.possible.astype(bool) != poss).any() or (d.npossible != poss.sum(axis=1)).any():
        out.append('possible observations')
    return out


def case(exe, seed, i):
    c = Case('%d' % i)
    rng = case_rng(seed, 'c05', i)
    files = [syntax.File(rng) for _ in range(PER)]
    texts = [f.text() for f in files]
    keys = []
    with R.Scratch('c05') as d:
        for f, x in zip(files, L.load(exe, d, texts)):
            c.count(files=1, statements=len(f.body))
            if x.dump is None or x.rc != 0:
                if x.res.timeout:
                    c.inconclusive.append('timeout')
                    continue
                c.violation('refused:' + x.res.signature(), 'a valid file is not loaded: %s\n%s' % (f.summary(), x.log[-600:]), model=x.text)
                continue
            bad = compare(f, x.dump)
            c.count(entries=f.T.size + f.O.size + f.R.size + f.nS)
            if bad:
                c.violation('meaning:' + bad[0].split('[')[0].split(' ')[0], '%s: %s' % (f.summary(), '; '.join(bad)), model=x.text)
            keys.append(hash(x.text))
    c.nontrivial = tuple(keys)
    c.sample = {'file': texts[0][:300], 'statements': len(files[0].body)}
    return c


def run(chk):
    exe = L.exe('asan')
    chk.rule = ('random files in every documented syntax (names, numbers, wildcards, rows, matrices, keywords, start lists, comments, layouts), '
                'loaded by the real loader and every probability and reward read back through its accessors; non-trivial: distinct groups of %d files' % PER)
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(800, 10000))], quick_s=120, thorough_s=1500)
