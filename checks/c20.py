"""C20: value-function comparison tools report true maxima and distances."""
import re
import numpy as np
import build, fmt, model as Mo, run as R, tools
from core import Case, case_rng

NUM = r'(-?(?:\d[\d.]*(?:e[+-]\d+)?|inf|nan))'


def ints(s):
    return [] if 'NONE' in s else [int(x) for x in re.findall(r'\d+', s.split('(')[0])]


def lists(rng):
    """-> (V1, a1, V2, a2, B, eps, exact): values whose ties are exact or none"""
    n = rng.choice([1, 2, 2, 3, 3, 4, 6])
    k1, k2 = rng.choice([1, 2, 4, 9, 30, 110, 150]), rng.choice([1, 2, 4, 9, 30, 110, 150])
    nb = rng.choice([1, 3, 10, 40, 99, 130, 250])
    exact = rng.random() < 0.6
    if exact:
        q = lambda: rng.randint(-20, 20) / 4.0
        V1 = np.array([[q() for _ in range(n)] for _ in range(k1)])
        V2 = np.array([[q() for _ in range(n)] for _ in range(k2)])
        B = []
        for _ in range(nb):
            cuts = sorted(rng.randint(0, 8) for _ in range(n - 1))
            B.append([(b - a) / 8.0 for a, b in zip([0] + cuts, cuts + [8])])
        B = np.array(B)
    else:
        sc = rng.choice([1e-3, 1, 1e4])
        V1 = np.array([[rng.uniform(-1, 1) * sc for _ in range(n)] for _ in range(k1)])
        V2 = np.array([[rng.uniform(-1, 1) * sc for _ in range(n)] for _ in range(k2)])
        B = Mo.simplex_points(rng, n, nb)
    if rng.random() < 0.6:
        # lists with much in common
        for j in range(len(V2)):
            if rng.random() < 0.6:
                V2[j] = V1[rng.randrange(len(V1))]
                if rng.random() < 0.4:
                    V2[j, rng.randrange(n)] += rng.choice([-1, 1]) * (0.25 if exact else 0.1 * np.abs(V1).max())
    a1 = [rng.randrange(4) for _ in V1]
    a2 = [rng.randrange(4) for _ in V2]
    eps = rng.choice([None, None, 0.01, 0.02]) if exact else None
    return V1, a1, V2, a2, B, eps, exact


def mapping(text, V, B, eps, exact):
    """judges one mapping report -> message or None"""
    vals = B @ V.T
    best = vals.max(axis=1)
    tol = 1e-9 * max(1, np.abs(V).max())
    got = {int(i): (ints(l), float(v)) for i, l, v in re.findall(r'Belief\[(\d+)\]:\n +Best Alpha Indices: ([^\n]*)\n *Best Alpha Value: ' + NUM, text)}
    if sorted(got) != list(range(len(B))):
        return 'map-beliefs', 'beliefs reported: %d of %d' % (len(got), len(B))
    ties = []
    for i in range(len(B)):
        idx, v = got[i]
        true = [j for j in range(len(V)) if vals[i, j] >= best[i] - (1e-12 if exact else 0)]
        if abs(v - best[i]) > tol:
            return 'map-value', 'belief %d: value %.12g, the maximum is %.12g' % (i, v, best[i])
        if not idx or any(j < 0 or j >= len(V) for j in idx) or len(set(idx)) != len(idx):
            return 'map-index', 'belief %d: indices %s' % (i, idx)
        if any(vals[i, j] < best[i] - (tol + eps) for j in idx):
            return 'map-not-best', 'belief %d: vector %s is not a best one' % (i, idx)
        if exact and sorted(idx) != true:
            return 'map-ties', 'belief %d: best vectors %s, reported %s' % (i, true, idx)
        if not set(true) <= set(idx):
            return 'map-ties', 'belief %d: best vectors %s, reported %s' % (i, true, idx)
        ties.append(idx)
    al = {int(j): (ints(u), ints(w)) for j, u, w in re.findall(r'Alpha\[(\d+)\]:\n +Uniquely best: ([^\n]*)\n +Non-uniquely best: ([^\n]*)', text)}
    if sorted(al) != list(range(len(V))):
        return 'map-alphas', 'vectors reported: %d of %d' % (len(al), len(V))
    for j in range(len(V)):
        u = [i for i in range(len(B)) if ties[i] == [j]]
        w = [i for i in range(len(B)) if j in ties[i] and len(ties[i]) > 1]
        if sorted(al[j][0]) != u or sorted(al[j][1]) != w:
            return 'map-vector-beliefs', 'vector %d: best alone at %s and together at %s, reported %s %s' % (j, u, w, al[j][0], al[j][1])
    return None


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C20', i)
    V1, a1, V2, a2, B, eps, exact = lists(rng)
    n = V1.shape[1]
    o = {'states': n}
    if eps is not None:
        o['epsilon'] = eps
    e = eps or 1e-9
    with R.Scratch('c20') as d:
        fmt.write_alpha(d + '/one', a1, V1)
        fmt.write_alpha(d + '/two', a2, V2)
        tools.write_beliefs(d + '/bel', B)
        files = {k: open(d + '/' + k).read() for k in ('one', 'two', 'bel')}
        # what the files say
        a1, V1 = fmt.read_alpha(d + '/one', n)
        a2, V2 = fmt.read_alpha(d + '/two', n)
        B = np.array([[float(x) for x in l.split()] for l in files['bel'].split('\n') if l.strip()])
        out = {}
        for name, kw in (('map_beliefs', dict(belief='bel', alpha1='one')), ('belief_alpha_compare', dict(belief='bel', alpha1='one', alpha2='two')),
                         ('compare_alphas', dict(alpha1='one', alpha2='two'))):
            r = tools.tool(exe, name, d, o='out.' + name, **kw, **o)
            if r.timeout:
                c.inconclusive.append('timeout')
                return c
            if r.rc != 0 or r.crashed:
                c.violation('tool-failed:' + r.signature(), '%s: %s' % (name, r.brief()), **files)
                return c
            out[name] = open(d + '/out.' + name).read()
    bad = lambda sig, msg, name: c.violation(sig, name + ': ' + msg, report=out[name], **files)
    c.count(beliefs=len(B), vectors=len(V1) + len(V2), reports=3)
    x = mapping(out['map_beliefs'], V1, B, e, exact)
    if x:
        bad(x[0], x[1], 'map_beliefs')
        return c
    t = out['belief_alpha_compare']
    parts = re.split(r'==============\nBelief Mapping\n==============\n', t)
    if len(parts) != 3:
        bad('compare-layout', '%d mapping reports' % (len(parts) - 1), 'belief_alpha_compare')
        return c
    second, _, rest = parts[2].partition('  [0] Best Alpha1')
    rest = '  [0] Best Alpha1' + rest
    for p, V in ((parts[1], V1), (second, V2)):
        x = mapping(p, V, B, e, exact)
        if x:
            bad(x[0], x[1], 'belief_alpha_compare')
            return c
    v1, v2 = Mo.surface(V1, B), Mo.surface(V2, B)
    tol = 1e-9 * max(1, np.abs(V1).max(), np.abs(V2).max())
    diffs = []
    for j in range(len(B)):
        g = re.findall(r'^ *\[%d\] (Best Alpha1 Value|Best Alpha2 Value|Difference): %s(.*)$' % (j, NUM), rest, re.M)
        g = {k: (float(v), f) for k, v, f in g}
        if len(g) != 3:
            bad('compare-layout', 'belief %d is not reported' % j, 'belief_alpha_compare')
            return c
        df = v2[j] - v1[j]
        if abs(g['Best Alpha1 Value'][0] - v1[j]) > tol or abs(g['Best Alpha2 Value'][0] - v2[j]) > tol or abs(abs(g['Difference'][0]) - abs(df)) > 2 * tol:
            bad('compare-value', 'belief %d: values %.12g %.12g, reported %s' % (j, v1[j], v2[j], g), 'belief_alpha_compare')
            return c
        if abs(df) > e + 2 * tol or abs(df) < e - 2 * tol or (exact and df == 0):
            if (abs(df) > e) != ('non-zero' in g['Difference'][1]):
                bad('compare-nonzero', 'belief %d: difference %.12g, reported %s' % (j, df, g['Difference']), 'belief_alpha_compare')
                return c
        if abs(df) > e:
            diffs.append(j)
    sure = exact or all(abs(abs(a - b) - e) > 2 * tol for a, b in zip(v1, v2))
    g = re.search(r'Number of beliefs with value difference: (\d+)\nBelief indices with diffs: ?([\d ]*)\nMaximal difference: +(\S+) \((\d+) points?\)\nBelief indices with maximal diffs: ?([\d ]*)', rest)
    if not g and diffs:
        bad('compare-summary', 'no summary', 'belief_alpha_compare')
        return c
    if g and sure:
        if int(g.group(1)) != len(diffs) or ints(g.group(2)) != diffs:
            bad('compare-summary', '%d beliefs differ, %s; reported %s' % (len(diffs), diffs[:20], g.group(0)[:300]), 'belief_alpha_compare')
            return c
        if diffs:
            ad = np.abs(v2 - v1)
            mx = ad.max()
            if abs(float(g.group(3)) - mx) > 1e-6 + tol:
                bad('compare-maximum', 'largest difference %.9g, reported %s' % (mx, g.group(3)), 'belief_alpha_compare')
                return c
            where = ints(g.group(5))
            must = [int(j) for j in np.flatnonzero(ad >= mx - (1e-12 if exact else 0))]
            if len(where) != int(g.group(4)) or (exact and where != must) or any(ad[j] < mx - 2 * tol - 2 * e for j in where) or not set(must) <= set(where):
                bad('compare-maximum', 'largest difference at %s, reported %s' % (must, where), 'belief_alpha_compare')
                return c
    # the vector comparison
    D = np.abs(V1[:, None, :] - V2[None, :, :]).max(axis=2)
    lines = re.findall(r'^Index (\d+) \[action=(\d+)\](.*)$', out['compare_alphas'], re.M)
    if [int(l[0]) for l in lines] != list(range(len(V1))):
        bad('vectors-missing', '%d of %d vectors reported' % (len(lines), len(V1)), 'compare_alphas')
        return c
    for j, (_, act, rest) in enumerate(lines):
        found = [(int(k), float(x), int(a)) for k, x, a in re.findall(r'(\d+) \[diff=(\S+), action=(\d+)\]', rest)]
        none = 'NONE' in rest
        near = D[j].min()
        if not found or any(k >= len(V2) for k, _, _ in found) or int(act) != a1[j]:
            bad('vectors-layout', 'vector %d: %r' % (j, rest[:200]), 'compare_alphas')
            return c
        if D[j, found[0][0]] > near + tol:
            bad('vectors-nearest', 'vector %d: nearest is %d at %.9g, reported %d at %.9g' % (j, int(D[j].argmin()), near, found[0][0], D[j, found[0][0]]), 'compare_alphas')
            return c
        for k, x, a in found:
            if abs(x - D[j, k]) > 1e-6 * max(1e-3, D[j, k]) + tol or a != a2[k]:
                bad('vectors-distance', 'vector %d: distance to %d is %.9g with action %d, reported %.9g %d' % (j, k, D[j, k], a2[k], x, a), 'compare_alphas')
                return c
        if abs(near - e) > 2 * tol or near == 0:
            if none != (near > e):
                bad('vectors-match', 'vector %d: nearest at %.9g, reported %s' % (j, near, rest[:100]), 'compare_alphas')
                return c
            if exact and not none and sorted(k for k, _, _ in found) != [int(k) for k in np.flatnonzero(D[j] <= e)]:
                bad('vectors-all', 'vector %d: all within the tolerance are %s, reported %s' % (j, np.flatnonzero(D[j] <= e).tolist(), found), 'compare_alphas')
                return c
        if ('DIFFERS' in rest) != (found[0][2] != a1[j]):
            bad('vectors-action', 'vector %d with action %d: %s' % (j, a1[j], rest[:200]), 'compare_alphas')
            return c
    c.nontrivial = (files['one'], files['bel']) if len(V1) > 1 else None
    c.sample = dict(states=n, vectors=[len(V1), len(V2)], beliefs=len(B), differing=len(diffs))
    return c


def run(chk):
    exe = build.build('asan', 'pomdp-tools')
    chk.rule = ('random pairs of value functions and belief lists (up to 150 vectors and 250 beliefs, exact ties in dyadic numbers); every number of the three reports '
                'recomputed; non-trivial: distinct inputs with at least 2 vectors')
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(600, 8000))], quick_s=60, thorough_s=1200)
