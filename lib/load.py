"""Loading model files with the real loader (harness/loadmon.c) and reading what it made of them."""
import os
import numpy as np
import build, run as R

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def exe(variant='asan'):
    return build.build(variant, 'pomdp-solve', extra_src=[HERE + '/harness/loadmon.c'], drop=['main.c'], out='loadmon')


class Loaded:
    pass


def load(exe_, d, texts, secs=10, prefix='f'):
    """texts: list of file contents (str or bytes) -> list of Loaded (rc, signal, log, dump or None)"""
    names = []
    for i, t in enumerate(texts):
        n = '%s%d' % (prefix, i)
        with open(os.path.join(d, n), 'wb') as f:
            f.write(t if isinstance(t, bytes) else t.encode('latin-1'))
        names.append(n)
    r = R.run([exe_, str(secs)] + names, d, timeout=(10 * secs + 30) * max(1, len(names) // 4 + 1), retry=False)
    st = {}
    for line in r.out.split('\n'):
        p = line.split()
        if len(p) == 3:
            st[p[0]] = (int(p[1]), int(p[2]))
    out = []
    for n, t in zip(names, texts):
        x = Loaded()
        x.text = t
        x.rc, x.signal = st.get(n, (None, None))
        try:
            x.log = open(os.path.join(d, n + '.log'), 'rb').read().decode('latin-1')
        except OSError:
            x.log = ''
        x.dump = None
        try:
            x.dump = parse(open(os.path.join(d, n + '.dump')).read())
        except OSError:
            pass
        res = R.Result()
        res.args, res.out, res.err, res.cwd, res.wall = [n], '', x.log, d, 0
        res.rc = x.rc if not x.signal else -x.signal
        res.timeout = x.signal in (24, 9, 14)       # out of time
        x.res = res
        out.append(x)
    return out


def parse(t):
    d = {}
    for line in t.split('\n'):
        p = line.split()
        if p:
            d[p[0]] = p[1:]
    nS, nA, nZ = (int(x) for x in d['sizes'])
    o = Loaded()
    o.nS, o.nA, o.nZ = nS, nA, nZ
    o.discount = float(d['discount'][0])
    o.cost = d['values'][0] == 'cost'
    arr = lambda k, *s: np.array([float(x) for x in d[k]]).reshape(*s)
    o.start = arr('start', nS)
    o.T = arr('T', nA, nS, nS)
    o.O = arr('O', nA, nS, nZ)
    o.R = arr('R', nA, nS, nS, nZ)
    o.Q = arr('Q', nA, nS)
    o.A = arr('A', nA, nS)
    o.possible = arr('possible', nA, nZ)
    o.npossible = arr('npossible', nA)
    return o
