"""C17: approximating and accelerating options stay below the optimum and within their error of it.

pruning: each epoch of an epsilon-pruned run is judged against an independent backup of its own previous epoch.
precision: the adjustable-precision variation, against that backup, its printed schedule and plain value iteration.
zlz: the accelerated variation against a converged plain run."""
import re
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S, stop

SLACK = 1e-6


def backups(c, rng, m, s, loss, files, prev=None):
    """every epoch within loss(n) below the backup of the epoch before, nowhere above it"""
    prev = np.zeros((1, m.nS)) if prev is None else prev
    worst = 0.0
    V = prev
    for n in range(1, len(s.epochs) + 1):
        _, V = S.alpha(s, m, n)
        if len(V) == 0:
            c.violation('empty', '%s: epoch %d has no vectors' % (s.cmd, n), **files)
            return None
        tol = SLACK * max(1.0, np.abs(V).max(), np.abs(prev).max())
        P = Mo.test_points(rng, m, V if len(V) < 200 else V[rng.sample(range(len(V)), 200)], 60)
        want = Mo.backup_at(m, prev, P)
        got = Mo.surface(V, P)
        e = loss(n)
        c.count(epochs=1, points=len(P))
        if (got > want + tol).any():
            k = int(np.argmax(got - want))
            c.violation('above', '%s\nepoch %d: at %s the value %.10g exceeds the best one-step backup %.10g' % (s.cmd, n, P[k].tolist(), got[k], want[k]), **files)
            return None
        k = int(np.argmax(want - got))
        worst = max(worst, (want[k] - got[k] - tol) / e)
        if want[k] - got[k] > e + tol:
            c.violation('loses-too-much', '%s\nepoch %d: at %s the value %.10g is %.3g below the best one-step backup %.10g, allowed are %.3g' %
                        (s.cmd, n, P[k].tolist(), got[k], want[k] - got[k], want[k], e), **files)
            return None
        prev = V
    return V, worst


def pruning(c, rng, exe, d):
    m = Mo.pick(rng, maxS=4)
    method = rng.choice(['incprune', 'incprune', 'witness', 'twopass', 'enum'])
    eps = rng.choice([1e-6, 0.001, 0.01, 0.1, 0.5, 2.0])
    opts = ['-method', method, '-enum_purge' if method == 'enum' else '-q_purge', 'epsilon_prune', '-prune_epsilon', '%g' % eps]
    per = eps
    if method == 'incprune':
        opts += ['-inc_prune', rng.choice(['normal', 'restricted_region', 'generalized'])]
    if rng.random() < 0.4:
        p = rng.choice(['normal_prune', 'domonly', 'epsilon_prune'])
        opts += ['-proj_purge', p]
        if p == 'epsilon_prune':
            per += m.nZ * eps
    h = S.blowup_limit(opts, S.pick_horizon(rng, m, 6), m)
    s = S.solve(exe, m, opts, d, horizon=h, timeout=15)
    if s.res.timeout:
        c.inconclusive.append('timeout')
        return
    if not s.ok:
        S.failure(c, s, m)
        return
    files = dict(cmd=s.cmd, model=open(d + '/m.POMDP').read())
    r = backups(c, rng, m, s, lambda n: per, files)
    if r is None:
        return
    V, worst = r
    # all epochs together
    B = Mo.simplex_points(rng, m.nS, 12) if m.nS > 1 else np.ones((1, 1))
    n = len(s.epochs)
    if n and (m.nA * m.nZ) ** n <= 1500:
        want = recursive(m, B, n)
        got = Mo.surface(V, B)
        tot = per * sum(m.disc ** i for i in range(n))
        tol = SLACK * max(1.0, np.abs(V).max())
        c.count(recursion_points=len(B))
        if (got > want + tol).any() or (got < want - tot - tol).any():
            c.violation('accumulated', '%s: after %d epochs the value differs from the optimum by %s, allowed are 0 to %.3g' % (s.cmd, n, (want - got).tolist(), tot), **files)
            return
    c.counts['pruning_runs'] += 1
    c.count(pruning_lost_something=worst > 0.01)
    if worst > 0.001:
        c.nontrivial = ('p', m.tag, s.cmd, float(V.sum()))
    c.sample = dict(kind='epsilon pruning', options=opts, lost_over_allowed=round(float(worst), 4), vectors=len(V))


def recursive(m, b, n):
    if n == 0:
        return np.zeros(len(b))
    best = None
    for a in range(m.nA):
        v = b @ m.r[a]
        for z in range(m.nZ):
            v = v + m.disc * recursive(m, b @ m.M[a, z], n - 1)
        best = v if best is None else np.maximum(best, v)
    return best


def converged(exe, m, d, delta, name='ref'):
    """a plain run to convergence -> (run, V), None when it takes too long"""
    s = S.solve(exe, m, ['-method', 'incprune', '-stop_criteria', 'bellman', '-stop_delta', '%g' % delta], d, name=name, save_all=False, timeout=8,
                text=Mo.to_text(m), horizon=400)
    if s.res.timeout or not s.ok or not s.epochs or s.epochs[-1][0] >= 400:
        return None
    return S.alpha(s, m)[1]


def convergent(rng):
    return Mo.gen(rng, maxS=rng.choice([2, 3]), maxA=3, maxZ=2, discs=(0.1, 0.3, 0.5, 0.5, 0.6, 0.75))


def precision(c, rng, exe, d):
    conv = rng.random() < 0.5
    m = convergent(rng) if conv else Mo.pick(rng, maxS=4)
    method = rng.choice(['incprune', 'incprune', 'witness', 'twopass', 'enum'])
    start, end, fac = rng.choice([0.5, 0.1, 0.01, 1e-4]), rng.choice([1e-8, 1e-6, 1e-3]), rng.choice([1.5, 2, 10, 100])
    hl, hd = rng.randint(1, 4), rng.randint(1, 3)
    q = method != 'enum' and rng.random() < 0.4
    delta = rng.choice([0.01, 1e-4, 1e-6])
    opts = ['-method', method, '-vi_variation', 'adjustable_epsilon', '-start_epsilon', '%g' % start, '-end_epsilon', '%g' % end, '-epsilon_adjust', '%g' % fac,
            '-history_length', str(hl), '-history_delta', str(hd)]
    if q:
        opts += ['-q_purge', 'epsilon_prune']
    crit = 'weak'
    if conv:
        crit = rng.choice(['bellman', 'weak'])
        opts += ['-stop_delta', '%g' % delta, '-stop_criteria', crit]
    h = 300 if conv else S.blowup_limit(opts, S.pick_horizon(rng, m, 6), m)
    s = S.solve(exe, m, opts, d, horizon=h, timeout=10)
    if s.res.timeout:
        c.inconclusive.append('timeout')
        return
    if not s.ok:
        S.failure(c, s, m)
        return
    files = dict(cmd=s.cmd, model=open(d + '/m.POMDP').read(), out=s.res.out[-20000:])
    # the precision in force: set at the start, tightened while the sizes are steady
    said = []
    for line in s.res.out.split('\n'):
        x = re.search(r'>>(Starting epsilon set to|Adjusted epsilon to) (\S+)<<', line)
        if x:
            said.append(("eps", float(x.group(2))))
        elif re.match(r'Epoch: \d+\.\.\.', line):
            said.append(('epoch', int(re.match(r'Epoch: (\d+)', line).group(1))))
    eps, sizes, now = {}, [e[1] for e in s.epochs], None
    changes = {}
    ep = 0
    for k, v in said:
        if k == 'epoch':
            ep = v
        else:
            changes[ep] = v
    if abs(changes.get(0, -1) - start) > 1e-3 * start:
        c.violation('schedule', '%s: starts with precision %s' % (s.cmd, changes.get(0)), **files)
        return
    now, lost = start, 0
    for n in range(1, len(sizes) + 1):
        eps[n] = now
        if n == len(sizes):
            break
        w = sizes[n - hl:n] if n >= hl else None
        due = now > end and w is not None and max(w) - min(w) <= hd
        c.count(schedule_steps=1, tightenings=due)
        if due != (n in changes):
            c.violation('schedule', '%s: after epoch %d (sizes %s) the precision %g was %s' % (s.cmd, n, sizes[:n], now, 'not tightened' if due else 'tightened'), **files)
            return
        if due:
            if abs(changes[n] - now / fac) > 1e-3 * now / fac:
                c.violation('schedule', '%s: after epoch %d the precision went from %g to %g' % (s.cmd, n, now, changes[n]), **files)
                return
            now /= fac
    # what a backup may lose: one pruning of the result, or one for each of the prunings that build it
    many = (1 if q else 1 + 2 * m.nZ + m.nZ)
    r = backups(c, rng, m, s, lambda n: many * eps[n] + 1e-8, files)
    if r is None:
        return
    V, worst = r
    c.counts['precision_runs'] += 1
    if conv and len(s.epochs) < h and m.disc > 0 and crit == 'bellman':
        ref = converged(exe, m, d, 1e-7)
        if ref is None:
            c.inconclusive.append('reference')
        else:
            P = np.vstack([Mo.test_points(rng, m, V), Mo.surface_vertices(ref)])
            a, b = Mo.surface(V, P), Mo.surface(ref, P)
            tol = SLACK * max(1.0, np.abs(V).max()) + 1e-7
            # cost or negative rewards: values come from above, by what the stopping rule allows
            room = delta / 2 + many * eps[len(sizes)] / (1 - m.disc)
            c.count(converged_precision=1)
            if (np.abs(a - b) > room + tol + many * eps[len(sizes)] * 2 / (1 - m.disc)).any():
                k = int(np.argmax(np.abs(a - b)))
                c.violation('converged', '%s: at %s the converged value is %.10g, that of plain value iteration %.10g; allowed difference %.3g' % (s.cmd, P[k].tolist(), a[k], b[k], room), **files)
                return
    if len(changes) > 1:
        c.nontrivial = ('e', m.tag, s.cmd, float(V.sum()))
    c.sample = dict(kind='adjustable precision', options=opts, precision=list(eps.values()), sizes=sizes)


def zlz(c, rng, exe, d):
    m = convergent(rng)
    delta = rng.choice([0.1, 0.01, 1e-3, 1e-5])
    method = rng.choice(['incprune', 'incprune', 'witness', 'twopass', 'enum'])
    opts = ['-method', method, '-vi_variation', 'zlz', '-stop_delta', '%g' % delta, '-stop_criteria', 'bellman']
    if method == 'incprune':
        opts += ['-inc_prune', rng.choice(['normal', 'restricted_region', 'generalized'])]
    if rng.random() < 0.7:
        opts += ['-witness_points', 'true']
    if rng.random() < 0.3:
        opts += ['-proj_purge', rng.choice(['normal_prune', 'domonly'])]
    h = 300
    s = S.solve(exe, m, opts, d, horizon=h, timeout=10)
    if s.res.timeout:
        c.inconclusive.append('timeout')
        return
    if not s.ok:
        S.failure(c, s, m)
        return
    ref = converged(exe, m, d, 1e-8)
    if ref is None:
        c.inconclusive.append('reference')
        return
    files = dict(cmd=s.cmd, model=open(d + '/m.POMDP').read(), out=s.res.out[-20000:])
    acts, V = S.alpha(s, m)
    # the report of the acceleration interrupts the epochs' lines
    last = max(int(x) for x in re.findall(r'^Epoch: (\d+)\.\.\.', s.res.out, re.M))
    P = np.vstack([Mo.test_points(rng, m, V), Mo.surface_vertices(ref)])
    best = Mo.surface(ref, P)
    tol = 1e-5 * max(1.0, np.abs(ref).max(), np.abs(V).max())
    for n in range(1, last + 1):
        W = S.alpha(s, m, n)[1]
        x = Mo.surface(W, P)
        if (x > best + tol).any():
            k = int(np.argmax(x - best))
            c.violation('zlz:above', '%s\nepoch %d: at %s the value %.10g exceeds the optimum %.10g' % (s.cmd, n, P[k].tolist(), x[k], best[k]), **files)
            return
        c.count(zlz_epochs=1)
    x = Mo.surface(V, P)
    if (x > best + tol).any():
        c.violation('zlz:above', '%s: the solution exceeds the optimum by %.3g' % (s.cmd, (x - best).max()), **files)
        return
    if last < h:
        room = delta / 2 + tol
        k = int(np.argmax(best - x))
        if best[k] - x[k] > room:
            c.violation('zlz:converged', '%s: at %s the converged value is %.10g, the optimum %.10g; allowed difference %.3g' % (s.cmd, P[k].tolist(), x[k], best[k], room), **files)
            return
        c.count(zlz_converged=1)
    c.counts['zlz_runs'] += 1
    if len(V) > 1:
        c.nontrivial = ('z', m.tag, s.cmd, float(V.sum()))
    c.sample = dict(kind='accelerated', options=opts, epochs=last, vectors=len(V))


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C17', i)
    with R.Scratch('c17') as d:
        [pruning, precision, zlz][i % 3](c, rng, exe, d)
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('a third each of epsilon-pruned, adjustable-precision and accelerated runs of random models; the vectors of each epoch are judged against '
                'independent backups or a converged plain run; non-trivial: something was pruned away, the precision changed, or the accelerated solution has several vectors')
    chk.assumptions = ['the backups of methods that prune repeatedly may lose the precision in force once for each pruning']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2400, 40000))], quick_s=75, thorough_s=1500)
