"""C01: the surfaces of all epochs equal the optimal finite-horizon value functions.

Oracle: the one-step Bellman operator evaluated, from its definition, at every vertex of the surface
the solver wrote (where a missing vector must show, the difference being convex over each linear
region), at the corners, the initial belief and random beliefs; plus, by recursion from the horizon,
without using anything the solver wrote."""
import itertools
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S


def recursive_value(m, b, n):
    """optimal n-step value at beliefs (rows of b, unnormalized), straight from the definition"""
    if n == 0:
        return np.zeros(len(b))
    best = None
    for a in range(m.nA):
        v = b @ m.r[a]
        for z in range(m.nZ):
            v = v + m.disc * recursive_value(m, b @ m.M[a, z], n - 1)
        best = v if best is None else np.maximum(best, v)
    return best


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C01', i)
    m = Mo.pick(rng)
    opts = S.exact_options(rng, m)
    h = S.pick_horizon(rng, m)
    h = S.blowup_limit(opts, h, m)
    with R.Scratch('c01') as d:
        s = S.solve(exe, m, opts, d, horizon=h)
        if s.res.timeout:
            c.inconclusive.append('timeout')
            c.count(timeouts=1)
            return c
        if not s.ok:
            S.failure(c, s, m)
            return c
        text = open(d + '/m.POMDP').read()
        prev = np.zeros((1, m.nS))
        worst = 0.0
        last = s.epochs[-1][0] if s.epochs else 0
        for n in range(1, last + 1):
            try:
                acts, V = S.alpha(s, m, n)
            except (OSError, fmt.FormatError) as e:
                c.violation('alpha-file', 'epoch %d: %s (%s)' % (n, e, s.cmd), model=text)
                return c
            if not len(V) or not np.isfinite(V).all():
                c.violation('alpha-file', 'epoch %d: %d vectors, finite: %s (%s)' % (n, len(V), np.isfinite(V).all(), s.cmd), model=text)
                return c
            B = Mo.test_points(rng, m, V if len(V) < 400 else V[rng.sample(range(len(V)), 400)])
            ref = Mo.backup_at(m, prev, B)
            got = Mo.surface(V, B)
            tol = S.tolerance(m, V)
            k = np.abs(ref - got).argmax()
            worst = max(worst, abs(ref[k] - got[k]) / tol)
            c.count(points=len(B), epochs=1, vectors=len(V))
            if abs(ref[k] - got[k]) > tol:
                c.violation('surface', 'epoch %d of %s: at belief %s the surface is %.10g, the optimal one-step '
                            'backup of epoch %d is %.10g (difference %.3g, tolerance %.2g)\nmodel %s' %
                            (n, s.cmd, np.round(B[k], 8).tolist(), got[k], n - 1, ref[k], got[k] - ref[k], tol, m.tag),
                            model=text)
                return c
            if (m.nA * m.nZ) ** n <= 3000:
                P = B[rng.sample(range(len(B)), min(len(B), 40))]
                rv = recursive_value(m, P, n)
                gv = Mo.surface(V, P)
                k = np.abs(rv - gv).argmax()
                c.count(recursion_points=len(P))
                if abs(rv[k] - gv[k]) > tol * (n + 1):
                    c.violation('recursion', 'epoch %d of %s: at belief %s the surface is %.10g, the value by recursion %.10g'
                                % (n, s.cmd, P[k].tolist(), gv[k], rv[k]), model=text)
                    return c
            prev = V
        if len(prev) > 1:
            c.nontrivial = (m.tag, tuple(opts), np.round(prev, 6).tobytes())
        c.counts['method_' + S.opt(opts, '-method')] += 1
        c.sample = {'model': m.tag, 'options': opts, 'horizon': h, 'vectors per epoch': [e[1] for e in s.epochs],
                    'worst deviation / tolerance': round(worst, 6)}
    return c


NEAR_TIE = '''discount: 0.3
values: cost
states: 3
actions: 2
observations: 2
T: 0
0.2 0 0.8
0.2 0.6 0.2
0.4 0.2 0.4
T: 1
0.4 0.1 0.5
0.7 0.3 0
0.6 0.3 0.1
O: 0
0.1 0.9
0.2 0.8
0.4 0.6
O: 1
0.1 0.9
0.6 0.4
0.1 0.9
R: 0 : 0 : * : * 0.009765625
R: 0 : 1 : * : * -0.013671875
R: 0 : 2 : * : * -0.005859375
R: 1 : 0 : * : * -0.0078125
R: 1 : 1 : * : * 0.013671875
R: 1 : 2 : * : * -0.01953125
'''


LARGE = '''discount: 0.3
values: reward
states: 3
actions: 2
observations: 2
start: 0.629 0.165 0.206
T: 0
0.0 0.909 0.091
1.0 0.0 0.0
0.738 0.262 0.0

T: 1
0.0 0.708 0.292
0.217 0.783 0.0
1.0 0.0 0.0

O: 0
0.755 0.245
0.736 0.264
0.27 0.73

O: 1
0.0 1.0
0.0 1.0
0.0 1.0

R: 0 : 0 : 0 : * 3250000.0
R: 0 : 0 : 1 : * -60470000.0
R: 0 : 0 : 2 : * 4560000.0
R: 0 : 1 : 0 : * 67670000.0
R: 0 : 1 : 1 : * -63710000.00000001
R: 0 : 1 : 2 : * 58320000.0
R: 0 : 2 : 0 : * 36230000.0
R: 0 : 2 : 1 : * 10200000.0
R: 0 : 2 : 2 : * -48290000.0
R: 1 : 0 : 0 : * 19270000.0
R: 1 : 0 : 1 : * 6000000.0
R: 1 : 0 : 2 : * -84320000.0
R: 1 : 1 : 0 : * -77180000.0
R: 1 : 1 : 1 : * -72350000.0
R: 1 : 1 : 2 : * 7590000.0
R: 1 : 2 : 0 : * 70420000.0
R: 1 : 2 : 1 : * -96110000.0
R: 1 : 2 : 2 : * 45100000.0
'''


def large():
    """the model LARGE"""
    T = np.array([[[0, .909, .091], [1, 0, 0], [.738, .262, 0]], [[0, .708, .292], [.217, .783, 0], [1, 0, 0]]])
    O = np.array([[[.755, .245], [.736, .264], [.27, .73]], [[0, 1]] * 3])
    r = np.zeros((2, 3, 3, 2))
    for l in LARGE.split('\n'):
        if l.startswith('R:'):
            w = l.replace(':', ' ').split()
            r[int(w[1]), int(w[2]), int(w[3])] = float(w[5])
    return Mo.Model(T, O, r, 0.3)


def pinned(chk, exe):
    """sums of vectors that agree to six digits where they matter, and rewards around 1e8 (see known_findings.json)"""
    c = core.Case('pinned')
    with R.Scratch('c01') as d:
        with open(d + '/m.POMDP', 'w') as f:
            f.write(LARGE)
        V = {}
        for n in (1, 2):
            r = R.run([exe, '-pomdp', 'm.POMDP', '-method', 'enum', '-alg_rand', '5', '-rand_seed', '1:2:3', '-horizon', str(n), '-o', 'h%d' % n], d, timeout=20)
            V[n] = fmt.read_alpha(d + '/h%d.alpha' % n, 3)[1]
        c.count(pinned_runs=2)
        m = large()
        P = np.random.default_rng(1).dirichlet([1, 1, 1], 20000)
        x = Mo.backup_at(m, V[1], P) - Mo.surface(V[2], P)
        k = np.abs(x).argmax()
        if abs(x[k]) > 1e-5 * np.abs(V[2]).max():
            c.violation('pinned:large-rewards', '-method enum -horizon 2: at belief %s the surface is off by %.10g' % (P[k].tolist(), x[k]), model=LARGE)
    chk.take(c)
    c = core.Case('pinned')
    with R.Scratch('c01') as d:
        with open(d + '/m.POMDP', 'w') as f:
            f.write(NEAR_TIE)
        P = np.random.default_rng(1).dirichlet([1, 1, 1], 20000)
        got = {}
        for how in ('normal', 'restricted_region', 'generalized'):
            r = R.run([exe, '-pomdp', 'm.POMDP', '-method', 'incprune', '-inc_prune', how, '-horizon', '4', '-o', how], d, timeout=20)
            got[how] = Mo.surface(fmt.read_alpha(d + '/%s.alpha' % how, 3)[1], P)
            c.count(pinned_runs=1)
        for how in ('restricted_region', 'generalized'):
            x = got['normal'] - got[how]
            k = np.abs(x).argmax()
            if abs(x[k]) > 1e-5:
                c.violation('pinned:near-tie', '-inc_prune %s -horizon 4: at belief %s the surface is %.10g, that of -inc_prune normal is %.10g' % (how, P[k].tolist(), got[how][k], got['normal'][k]), model=NEAR_TIE)
    chk.take(c)


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    pinned(chk, exe)
    chk.rule = ('random valid models (1-4 states, 1-3 actions, 1-3 observations, and one in eight large in one direction: up to 40 states, 65 actions, 33 observations, 130 epochs, or rewards scaled by 0.01-10000; dense, sparse, deterministic, impossible '
                'observations, tied rationals and generic numbers) solved with a random exact method and options, '
                'every epoch saved and compared; non-trivial: distinct and the last epoch has at least two vectors')
    chk.assumptions = ['models of the generated sizes; value tolerance 1e-5 of the largest value']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(8000, 120000))], quick_s=100, thorough_s=1500)
