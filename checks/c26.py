"""C26: linear programs solved during pruning are solved correctly."""
import os
import numpy as np
import build, fmt, lp, model as Mo, run as R, solve as S, tools
from core import Case, case_rng

MON = '/harness/lpmon.c'
FIND = 'near-duplicate'
NAMES = {0: 'optimal', 1: 'infeasible', 2: 'unbounded'}


def scale(p):
    return max(1.0, np.abs(p.A).max() if p.A.size else 1.0)


def well_posed(p):
    """no entries and no two rows that differ by something of the order of the solver's roundings"""
    s = np.abs(p.A).max()
    if not np.isfinite(p.A).all() or s > 2e3 or s < 1e-3:
        return False
    t = 3e-5 * s
    a = np.abs(p.A)
    if ((a > 1e-13 * s) & (a < t)).any():
        return False
    A = p.A
    for i in range(len(A) - 1):
        d = np.abs(A[i + 1:] - A[i]).max(axis=1)
        if ((d > 1e-13 * s) & (d < t)).any():
            return False
    return True


def tightened(p, delta):
    q = lp.LP()
    q.__dict__.update(p.__dict__)
    q.rhs = p.rhs.copy()
    for i, s in enumerate(p.sense):
        if s == 'L':
            q.rhs[i] -= delta
        elif s == 'G':
            q.rhs[i] += delta
    return q


def judge(p):
    """-> None when right, else (kind, message)"""
    s = scale(p)
    if p.ret not in NAMES:
        return 'status', 'the solver returned status %s' % p.ret
    st, v, x = lp.reference(p)
    if st is None:
        return None
    if p.ret == 0:
        viol = lp.violation(p, p.x)
        if not viol <= 1e-4 * s:
            return 'infeasible-point', 'the point reported optimal violates a constraint or bound by %.3g' % viol
        if abs(p.obj @ p.x - p.val) > 1e-6 * s * max(1, abs(p.val)):
            return 'objective', 'the objective at the point is %.9g, reported %.9g' % (p.obj @ p.x, p.val)
        if st == 0:
            gap = (v - p.val) * (1 if p.sense_obj == -1 else -1)
            if gap > 1e-4 * s:
                return 'suboptimal', 'the optimum is %.9g, reported %.9g' % (v, p.val)
            return None
        if st == 2:
            return 'bounded', 'an unbounded program is reported to have the optimum %.9g' % p.val
        return None
    if p.ret == 1:
        if st == 0 and lp.reference(tightened(p, 1e-4 * s))[0] == 0:
            return 'not-infeasible', 'a program with optimum %.9g is reported infeasible' % v
        return None
    if st == 0:
        return 'not-unbounded', 'a program with optimum %.9g is reported unbounded' % v
    return None


def text(p):
    return 'rows %d cols %d sense %s objective %s %s\nlow %s\nup %s\nrhs %s\nA\n%s\nreturned %s value %r at %s\n' % (
        p.rows, p.cols, p.sense, 'max' if p.sense_obj == -1 else 'min', p.obj.tolist(), p.low.tolist(), p.up.tolist(), p.rhs.tolist(),
        '\n'.join(repr(r.tolist()) for r in p.A), NAMES.get(p.ret, p.ret), p.val, p.x.tolist())


def vectors(rng):
    n = rng.choice([2, 3, 4, 5, 6, 8, 9, 12])
    k = rng.choice([3, 5, 10, 20, 40])
    sc = rng.choice([.01, .1, 1, 10, 100])
    kind = rng.randrange(4)
    if rng.random() < 0.5:
        # degenerate ones: the most telling
        n, k, sc, kind = rng.choice([8, 9, 12]), rng.choice([20, 40]), rng.choice([.01, .1, .1, .1, 100]), rng.choice([0, 1])
    if kind == 0:
        V = np.array([[rng.choice([-1, 0, 1, 2, 5]) for _ in range(n)] for _ in range(k)], float)
    elif kind == 1:
        V = np.array([[rng.choice([0, 0, 0, 1]) for _ in range(n)] for _ in range(k)], float)
    else:
        V = np.array([[round(rng.uniform(-10, 10), rng.choice([1, 2])) for _ in range(n)] for _ in range(k)])
        if kind == 3:
            # tangents of a bowl: each is needed
            P = Mo.simplex_points(rng, n, k)
            V = np.round(20 * (2 * P - (P ** 2).sum(axis=1)[:, None]), 2)
    return V * sc


def surface_list(rng):
    """a list of any length and vectors to ask about"""
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 8, 12])
    k = int(round(10 ** rng.uniform(0, 4.3)))
    g = np.random.default_rng(rng.randrange(2 ** 32))
    sc = rng.choice([.1, 1, 10])
    kind = rng.randrange(5)
    if kind == 0:
        V = g.integers(-3, 6, size=(k, n)).astype(float)
    elif kind == 1:
        V = (g.random((k, n)) < 0.25).astype(float)
    elif kind == 2:
        V = np.round(g.uniform(-10, 10, size=(k, n)), 2)
    else:
        P = g.dirichlet(np.full(n, rng.choice([.3, 1, 3])), size=k)
        V = np.round(20 * (2 * P - (P ** 2).sum(axis=1)[:, None]), 2)
    Q = np.vstack([V[g.integers(0, k, 2)], V[g.integers(0, k, 2)] + np.round(g.uniform(-.5, 1, size=(2, n)), 2), np.round(g.uniform(-5, 20, size=(1, n)), 2)])
    return V * sc, Q * sc


def margin(V, q):
    """the most by which q exceeds the surface of V at a belief"""
    k, n = V.shape
    r = lp.linprog(np.r_[np.zeros(n), -1.0], A_ub=np.c_[V - q, np.ones(k)], b_ub=np.zeros(k), A_eq=[[1.0] * n + [0.0]], b_eq=[1.0],
                   bounds=[(0, None)] * n + [(None, None)], method='highs-ds')
    return -r.fun if r.status == 0 else None


def regions(c, exe, rng):
    V, Q = surface_list(rng)
    k, n = V.shape
    with R.Scratch('c26') as d:
        fmt.write_alpha(d + '/list', [0] * k, V)
        fmt.write_alpha(d + '/ask', [0] * len(Q), Q)
        r = R.run([exe, str(n), 'list', 'ask'], d, timeout=60)
        kw = dict(ask=open(d + '/ask').read())
        if k < 500:
            kw['list'] = open(d + '/list').read()
    what = 'a list of %d vectors of %d states' % (k, n)
    if r.timeout:
        c.inconclusive.append('timeout')
        return
    got = [l.split()[1:] for l in r.out.split('\n') if l.startswith('region ')]
    if r.rc != 0 or r.crashed or len(got) != len(Q) or 'end %d' % k not in r.out:
        c.violation('region-failed:' + r.signature(), '%s: %s' % (what, r.brief(2000)), **kw)
        return
    s = max(1.0, np.abs(V).max())
    for q, g in zip(Q, got):
        v = margin(V, q)
        found = g[0] == '1'
        if v is None:
            continue
        c.count(regions=1, **{'regions_of_5000_and_more': k >= 5000, 'regions_found': found})
        if found:
            w = np.array([float(x) for x in g[2:]])
            at = (q - V) @ w
            if w.min() < -1e-6 or abs(w.sum() - 1) > 1e-6:
                c.violation('region-point', '%s: the point found for %s is no belief: %s' % (what, q.tolist(), w.tolist()), **kw)
                return
            if at.min() < -1e-5 * s or abs(at.min() - float(g[1])) > 1e-4 * s:
                c.violation('region-value', '%s: at the point found for %s it exceeds the others by %.9g, reported are %s' % (what, q.tolist(), at.min(), g[1]), **kw)
                return
            if v < -1e-5 * s or abs(v - float(g[1])) > 1e-4 * s:
                c.violation('region-margin', '%s: %s exceeds the others by %.9g, reported are %s' % (what, q.tolist(), v, g[1]), **kw)
                return
        elif v > 1e-4 * s:
            c.violation('region-missed', '%s: %s exceeds the others by %.9g but no point is found' % (what, q.tolist(), v), **kw)
            return
    c.nontrivial = ('r', k, n, tuple(g[0] for g in got), float(V.sum()))
    c.sample = dict(list=[k, n], answers=[g[:2] for g in got])


def case(exes, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C26', i)
    if i % 5 == 4:
        regions(c, exes[2], rng)
        return c
    with R.Scratch('c26') as d:
        env = {'VERIF_LPLOG': d + '/log', 'VERIF_LPMAX': '150'}
        if rng.random() < 0.5:
            V = vectors(rng)
            fmt.write_alpha(d + '/in', [0] * len(V), V)
            res = R.run([exes[1], '-tool', 'purge_alphas', '-alpha1', 'in', '-o', 'out', '-states', str(V.shape[1])], d, timeout=20, env=env)
            what = 'purging %d vectors of %d states' % V.shape
            inp = open(d + '/in').read()
        else:
            m = Mo.gen(rng, nS=rng.choice([2, 3, 4, 5, 6, 8]), maxZ=3)
            h = S.pick_horizon(rng, m, 5)
            o = S.exact_options(rng, m)
            h = S.blowup_limit(o, h, m)
            env['VERIF_LPEVERY'] = str(rng.choice([1, 1, 3, 10]))
            s = S.solve(exes[0], m, o, d, horizon=h, save_all=False, timeout=10, env=env)
            res = s.res
            what = '%s, model %s' % (s.cmd, m.tag)
            inp = open(d + '/m.POMDP').read()
        if res.timeout:
            c.inconclusive.append('timeout')
            # what was logged until then still counts, but for the last record
        if not os.path.exists(d + '/log'):
            c.count(no_programs=1)
            return c
        progs, seen = lp.read(d + '/log')
    key = []
    for p in progs:
        if p.ret is None:
            continue
        c.count(programs=1)
        if not well_posed(p):
            c.count(ill_posed=1)
            continue
        w = judge(p)
        c.count(judged=1, **{'reported_' + NAMES.get(p.ret, 'other'): 1})
        if p.ret == 0:
            key.append((p.rows, p.cols, round(p.val, 6)))
        if w:
            c.violation(w[0], '%s\n%s\n%s' % (w[1], what, text(p)), input=inp, program=text(p))
            break
    if key:
        c.nontrivial = tuple(key)
        c.sample = dict(run=what, programs=len(progs), first=key[0])
    return c


def pinned(chk, exe):
    """vectors that agree to eight digits: the program met in earlier runs whose answer is wrong (see known_findings.json)"""
    V = np.array(NEAR)
    with R.Scratch('c26') as d:
        fmt.write_alpha(d + '/in', [0] * len(V), V)
        R.run([exe, '-tool', 'purge_alphas', '-alpha1', 'in', '-o', 'out', '-states', str(V.shape[1])], d, timeout=20, env={'VERIF_LPLOG': d + '/log'})
        progs, _ = lp.read(d + '/log')
    c = Case('pinned')
    for p in progs:
        w = judge(p)
        c.count(pinned_programs=1)
        if w:
            c.violation('pinned:' + FIND, '%s\n%s' % (w[1], text(p)), program=text(p))
            break
    chk.take(c)


NEAR = [[2.0, 2.0, 1.0], [4.0, -9.0, 6.0], [2.000006, 1.999991, 0.999992], [3.999999998, -9.000000006, 6.000000002]]


def run(chk):
    h = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + MON
    exes = tuple(build.build('plain', p, extra_src=[h], out='lpmon-' + p, link=['-Wl,--wrap=LP_solveLP']) for p in ('pomdp-solve', 'pomdp-tools'))
    exes += (build.build('asan', 'pomdp-solve', extra_src=[os.path.dirname(h) + '/regionmon.c'], drop=['main.c'], out='regionmon'),)
    chk.rule = ('every linear program posed while purging random vector lists (up to 12 states, 40 vectors; generic, integer, 0/1 and all-needed ones) and in runs of the exact '
                'methods, recorded at the solver call and solved again by an independent solver; and the region search asked about vectors against lists of up to 20000, under the address sanitizer; non-trivial: distinct runs with an optimal answer')
    chk.assumptions = ['programs with entries or rows that differ by less than 3e-5 of the largest entry, or with entries beyond 2000, are counted but not judged, '
                       'but for the pinned one: the tolerances built into the solver are absolute', 'answers are compared within 1e-4 of the largest entry']
    if NEAR:
        pinned(chk, exes[1])
    chk.pmap(case, [(exes, chk.seed, i) for i in range(chk.n(3200, 40000))], quick_s=80, thorough_s=1500)
