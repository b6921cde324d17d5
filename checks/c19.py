"""C19: sorting and purging value-function files preserves what they represent."""
import os
import numpy as np
import build, fmt, model as Mo, run as R, tools
from core import Case, case_rng


def layout(rng, path, acts, V, dec):
    """the file in one of the layouts its reader takes"""
    with open(path, 'w') as f:
        st = rng.randrange(4)
        for a, v in zip(acts, V):
            nums = [('%.25f' % x) if st == 0 else ('%.*f' % (dec, x)) if st < 3 else repr(float(x)) for x in v]
            if st == 2:
                f.write('%d %s\n' % (a, ' '.join(nums)))
            elif st == 3:
                f.write('%d\n%s\n' % (a, '\n'.join(nums)))
            else:
                f.write('%d\n%s \n\n' % (a, ' '.join(nums)))


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C19', i)
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 9])
    k = rng.choice([1, 2, 3, 5, 8, 12, 20, 40])
    dec = rng.choice([0, 1, 3])
    gap = {0: 1.0, 1: 0.1, 3: 0.05}[dec]
    V = tools.separated(rng, k, n, gap=gap, dec=dec) if rng.random() < 0.8 else \
        np.array([[round(rng.choice([-1, 0, 1, 2, 5]), dec) for _ in range(n)] for _ in range(k)], float)
    if rng.random() < 0.5:
        V, _ = tools.dominated_mix(rng, V, rng.randint(1, 15), dec)
    if rng.random() < 0.3:
        V = np.vstack([V] + [V[rng.randrange(len(V))][None, :] for _ in range(rng.randint(1, 5))])
    big = rng.random() < 0.2
    if big:
        V = V * rng.choice([1e-2, 1e3, 1e5])
    acts = [rng.randrange(5) for _ in V]
    # beliefs differing only in their last component, or in the first: order must be the lexicographic one
    if rng.random() < 0.3 and len(V) > 1:
        for j in range(1, len(V)):
            if rng.random() < 0.5:
                V[j] = V[j - 1]
                V[j, rng.choice([0, -1])] += rng.choice([-1, 1]) * rng.choice([0.5, 1, 2])
    # no two components that differ by rounding alone: order is decided to 1e-15
    V = np.array([[float('%.6f' % x) for x in v] for v in V])
    with R.Scratch('c19') as d:
        layout(rng, d + '/in.alpha', acts, V, dec)
        text = open(d + '/in.alpha').read()
        a0, V0 = [int(x) for x in acts], np.array([[float(x) for x in ('%.25f' % y for y in v)] for v in V])
        # what the file says, at the digits it has
        toks = text.split()
        V0 = np.array([[float(x) for x in toks[r * (n + 1) + 1:(r + 1) * (n + 1)]] for r in range(len(V))])
        bad = lambda sig, msg, **kw: c.violation(sig, msg, input=text, **kw)
        outs = {}
        for name in ('sort_alphas', 'purge_alphas'):
            r1 = tools.tool(exe, name, d, alpha1='in.alpha', o=name + '.1', states=n)
            if r1.timeout:
                c.inconclusive.append('timeout')
                return c
            if r1.rc != 0 or r1.crashed:
                bad('tool-failed:' + r1.signature(), '%s: %s' % (name, r1.brief()))
                return c
            outs[name] = fmt.read_alpha(d + '/%s.1' % name, n)
            r2 = tools.tool(exe, name, d, alpha1=name + '.1', o=name + '.2', states=n)
            # equal vectors with different actions have no order among themselves
            x, y = outs[name], fmt.read_alpha(d + '/%s.2' % name, n)
            same = np.array_equal(x[1], y[1]) and sorted(zip(x[1].tolist(), x[0])) == sorted(zip(y[1].tolist(), y[0]))
            if name == 'purge_alphas':
                # nor is a vector needed that is ahead of the others by less than the linear programs resolve
                rows = [(p, tuple(q)) for p, q in zip(x[0], x[1].tolist())]
                kept = [(p, tuple(q)) for p, q in zip(y[0], y[1].tolist())]
                lost = [j for j, r in enumerate(rows) if r not in kept]
                same = all(r in rows for r in kept) and len(kept) + len(lost) == len(rows) and \
                    all((Mo.envelope_margin(x[1], j) or 0) < 1e-6 * max(1, np.abs(x[1]).max()) for j in lost)
            if not same:
                bad('not-idempotent:' + name, '%s of its own output changes it' % name, first=open(d + '/%s.1' % name).read(), second=open(d + '/%s.2' % name).read())
                return c
            if open(d + '/in.alpha').read() != text:
                bad('input-changed', '%s rewrote its input' % name)
                return c
        c.count(vectors=len(V), files=4)
        tol = 1e-12 * max(1, np.abs(V0).max())
        # sorting: the same rows, ordered
        a, W = outs['sort_alphas']
        if len(W) != len(V0):
            bad('sort-count', '%d vectors in, %d out' % (len(V0), len(W)))
            return c
        left = list(range(len(V0)))
        for x, w in zip(a, W):
            m = next((j for j in left if a0[j] == x and np.abs(V0[j] - w).max() <= tol), None)
            if m is None:
                bad('sort-content', 'vector %s with action %d is not one of the input' % (w.tolist(), x))
                return c
            left.remove(m)
        for j in range(len(W) - 1):
            if not _le(W[j], W[j + 1], 1e-9):
                bad('sort-order', 'vectors %d and %d of the sorted file are out of order: %s %s' % (j, j + 1, W[j].tolist(), W[j + 1].tolist()))
                return c
        # purging: a subset, the same surface, nothing superfluous
        a, W = outs['purge_alphas']
        left = list(range(len(V0)))
        for x, w in zip(a, W):
            m = next((j for j in left if a0[j] == x and np.abs(V0[j] - w).max() <= tol), None)
            if m is None:
                bad('purge-content', 'vector %s with action %d is not one of the input' % (w.tolist(), x))
                return c
            left.remove(m)
        scale = max(1.0, np.abs(V0).max())
        pts = np.vstack([np.eye(n), np.full((1, n), 1.0 / n), Mo.surface_vertices(V0), Mo.simplex_points(rng, n, 100)])
        diff = np.abs(Mo.surface(V0, pts) - Mo.surface(W, pts)) if len(W) else np.array([np.inf])
        c.count(beliefs=len(pts), kept=len(W), dropped=len(V0) - len(W))
        if diff.max() > 1e-6 * scale:
            j = int(diff.argmax())
            bad('purge-surface', 'at belief %s the purged file has value %.9g, the input %.9g (%d of %d vectors kept)' %
                (pts[j].tolist() if len(W) else None, Mo.surface(W, pts[j:j + 1])[0] if len(W) else -np.inf, Mo.surface(V0, pts[j:j + 1])[0], len(W), len(V0)))
            return c
        for j in range(len(W)):
            g = Mo.envelope_margin(W, j)
            if g is not None and g < -1e-6 * scale:
                bad('purge-superfluous', 'vector %s of the purged file is nowhere needed (margin %g)' % (W[j].tolist(), g))
                return c
        for j in range(len(W)):
            for k2 in range(j):
                if np.abs(W[j] - W[k2]).max() <= 1e-12 * scale:
                    bad('purge-duplicate', 'vector %s is twice in the purged file' % W[j].tolist())
                    return c
        for l in range(len(W) - 1):
            if not _le(W[l], W[l + 1], 1e-9):
                # order is not promised for purging; only counted
                c.count(purged_unsorted=1)
                break
    if len(V0) > 1:
        c.nontrivial = (n, text)
    c.sample = dict(states=n, vectors=len(V0), kept=len(W))
    return c


def _le(v, w, tol):
    for x, y in zip(v, w):
        if x < y - tol:
            return True
        if x > y + tol:
            return False
    return True


def run(chk):
    exe = build.build('asan', 'pomdp-tools')
    chk.rule = ('random value-function files (duplicates, dominated vectors, ties in leading components, several layouts) sorted and purged twice; '
                'multisets, order and surfaces compared at surface vertices and random beliefs; non-trivial: distinct files of at least 2 vectors')
    chk.assumptions = ['vectors of a file are equal or differ by 0.05 of their span in some component, or are well below the surface: differences at the precision of the linear programs are not judged']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(700, 10000))], quick_s=90, thorough_s=1500)
