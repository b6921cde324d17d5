"""Running pomdp-tools and reading its reports."""
import os, re
import numpy as np
import run as R


def tool(exe, name, cwd, timeout=15, stdin=None, **opts):
    args = [exe, '-tool', name]
    for k, v in opts.items():
        args += ['-' + k, str(v)]
    r = R.run(args, cwd, timeout=timeout, stdin=stdin)
    return r


def write_beliefs(path, B, digits=25):
    with open(path, 'w') as f:
        for b in B:
            f.write(' '.join('%.*f' % (digits, x) for x in b) + '\n')


def separated(rng, k, n, span=10.0, gap=0.05, dec=3):
    """k random vectors no two of which are nearly equal (and with values of few decimals)"""
    out = []
    for _ in range(k * 20):
        v = np.array([round(rng.uniform(-span, span), dec) for _ in range(n)])
        if rng.random() < 0.2 and out:
            w = out[rng.randrange(len(out))]
            v = w.copy()
            j = rng.randrange(n)
            v[j] = round(v[j] + rng.choice([-1, 1]) * rng.uniform(2 * gap, 1), dec)
        if all(np.abs(v - w).max() >= gap for w in out):
            out.append(v)
            if len(out) == k:
                break
    return np.array(out).reshape(len(out), n)


def dominated_mix(rng, V, k, dec=3):
    """V and k further vectors lying clearly below its surface, shuffled -> (array, is_extra)"""
    W = [(v, False) for v in V]
    n = V.shape[1]
    for _ in range(k):
        idx = [rng.randrange(len(V)) for _ in range(rng.randint(1, 3))]
        w = np.array([rng.expovariate(1) for _ in idx])
        w /= w.sum()
        v = (w[:, None] * V[idx]).sum(axis=0) - rng.uniform(0.05, 2)
        W.append((np.round(v - np.array([rng.uniform(0, 1) if rng.random() < .5 else 0 for _ in range(n)]), dec), True))
    rng.shuffle(W)
    return np.array([v for v, _ in W]), [e for _, e in W]
