"""C04: value iteration stops when, and only when, its rule says so.

Trace checker: from the value functions of all epochs the stopping quantity of each epoch is
recomputed; the run must have ended at the first epoch that meets the rule, or at the horizon, or go on.
When it ended early without a horizon the two-sided residual must keep the promised distance."""
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S, stop


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C04', i)
    gridm = rng.random() < 0.15
    m = Mo.gen(rng, maxS=3, maxA=3, maxZ=2, discs=(0.5, 0.25, 0.75, 0.9, 0.1, 0.0, 1.0))
    late = not gridm and rng.random() < 0.15
    if late:
        # consequences that come several steps after the choice
        m = Mo.gen(rng, nS=rng.choice([4, 5, 6]), nA=2, nZ=rng.choice([1, 1, 2]), discs=(0.5, 0.75, 0.9))
        for a in range(2):
            for st in range(m.nS):
                m.T[a, st] = 0
                m.T[a, st, min(m.nS - 1, st + rng.choice([0, 1, 1, 1, 2]))] = 1
                m.R[a, st] = rng.choice([0, 0, 0, -1, -5, -50, 1, 20])
        m.R[:, -1] = 0
    crit = rng.choice(['weak', 'weak', 'exact', 'bellman'])
    delta = rng.choice(['1e-9', '1e-6', '0.001', '0.05', '1', '20', None])
    opts = S.grid_options(rng, m) if gridm else S.exact_options(rng, m, rng.choice(['incprune', 'incprune', 'incprune', 'witness']), parsimonious=True)
    if gridm:
        opts += ['-fg_save', 'true']
    if crit != 'weak' or rng.random() < 0.3:
        opts += ['-stop_criteria', crit]
    if delta:
        opts += ['-stop_delta', delta]
    delta = float(delta or 1e-9)
    disc = m.disc
    if rng.random() < 0.2:
        disc = rng.choice([0.4, 0.6, 0.05])
        opts += ['-discount', str(disc)]
    h = rng.choice([1, 2, 5, 12, 40, None]) if disc < 1.0 else rng.choice([1, 2, 5])
    tv = not gridm and rng.random() < (0.5 if crit == 'bellman' else 0.15)
    with R.Scratch('c04') as d:
        prev = np.zeros((1, m.nS))
        if tv:
            # above, below or around the optimum
            lo, hi = rng.choice([(-5, 5), (20, 100), (-100, -20), (1000, 1001), (-30, 100)])
            prev = np.array([[float(rng.randint(lo, hi)) for _ in range(m.nS)] for _ in range(rng.randint(1, 3))])
            fmt.write_alpha(d + '/t.alpha', [0] * len(prev), prev, 6)
            opts += ['-terminal_values', 't.alpha']
            c.count(terminal_values=1)
        s = S.solve(exe, m, opts, d, horizon=h, timeout=6)
        text = open(d + '/m.POMDP').read()
        if s.res.timeout:
            c.inconclusive.append('timeout')
            c.count(timeouts=1)
            return c
        if not s.ok:
            S.failure(c, s, m)
            return c
        last = s.epochs[-1][0] if s.epochs else 0
        if h is not None and last > h:
            c.violation('beyond-horizon', '%s ran %d epochs' % (s.cmd, last), model=text)
            return c
        thr = stop.threshold(disc, delta)
        pts = None
        if gridm:
            pts = np.loadtxt(d + '/m.belief', ndmin=2)
        mm = m.copy(disc=disc)
        near = 2e-6      # the LP solver rounds values below 5e-7 to zero
        try:
            for n in range(1, last + 1):
                acts, V = S.alpha(s, m, n)
                sc = max(1.0, np.abs(V).max())
                if len(V) * len(prev) > 40000:
                    c.inconclusive.append('large')
                    return c
                met = None      # True, False or undecided
                if gridm:
                    e = stop.grid(V, prev, pts)
                    tol = 1e-9 * sc
                elif crit == 'weak':
                    e = stop.weak(V, prev)
                    tol = 1e-11 * sc
                elif crit == 'exact':
                    e = stop.identical(V, prev)
                    # the lists count as identical when within 1e-9
                    met = True if e < 0.9e-9 else False if e > 1.1e-9 else None
                    tol = 0
                else:
                    if n < last - 1 and n % 3:
                        prev = V
                        continue
                    a = stop.onesided(V, prev)
                    b = stop.onesided(prev, V)
                    if a is None or b is None:
                        prev = V
                        continue
                    e = max(a, b)
                    tol = near * sc
                if crit != 'exact' or gridm:
                    # the same quantity the rule is about, with room for rounding on both sides
                    met = True if e < thr - tol else False if e > thr + tol else None
                    if crit == 'weak' and not gridm and disc > 0 and met and e > delta - tol:
                        # the weak bound is not computed further once it exceeds the tolerance itself
                        met = None
                c.count(epochs=1, decided=met is not None)
                if met is True and n < last:
                    c.violation('went-on', '%s: the criterion holds at epoch %d (%.4g, threshold %.4g) but the run went on to %d' %
                                (s.cmd, n, e, thr, last), model=text)
                    return c
                if n == last:
                    if met is False and last != h:
                        c.violation('stopped-early', '%s: stopped at epoch %d though the criterion does not hold (%.6g, threshold %.4g)' %
                                    (s.cmd, n, e, thr), model=text)
                        return c
                    if last != h and disc > 0 and disc < 1 and not gridm:
                        # distance promised: delta/2 from the optimum; checked through the residual of one more backup
                        B = Mo.test_points(rng, mm, V, extra=100)
                        # an inexact last epoch (near-duplicate vectors, see C01 and C26) says nothing about stopping
                        inexact = np.abs(Mo.backup_at(mm, prev, B) - Mo.surface(V, B)).max()
                        if inexact > near * sc:
                            c.count(inexact_last_epochs=1)
                            c.inconclusive.append('inexact')
                            return c
                        res = np.abs(Mo.backup_at(mm, V, B) - Mo.surface(V, B)).max()
                        allow = (thr if crit != 'exact' else 1e-9) * disc + near * sc
                        c.count(residuals=1)
                        if res > allow:
                            c.violation('residual', '%s: stopped at epoch %d, but one more backup changes the value by %.4g (allowed %.4g)' %
                                        (s.cmd, n, res, allow), model=text)
                            return c
                    c.counts['ended_by_horizon' if last == h and not met else 'ended_by_criterion'] += 1
                prev = V
        except (OSError, fmt.FormatError) as e:
            c.violation('file', '%s (%s)' % (e, s.cmd), model=text)
            return c
        c.nontrivial = (m.tag, tuple(opts), h, last, prev.tobytes()) if last > 1 else None
        c.counts['grid' if gridm else crit] += 1
        c.counts['late_consequences'] += late
        c.sample = {'model': m.tag, 'options': opts, 'horizon': h, 'epochs run': last, 'threshold': thr}
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('random small models, criteria, tolerances, discounts (0 and 1 included) and horizons; the stopping quantity of '
                'every epoch is recomputed from the written vectors; non-trivial: distinct and more than one epoch')
    chk.assumptions = ['the criterion is left undecided within rounding of its threshold',
                       'models of at most three states and two observations, so that runs converge']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(3500, 60000))], quick_s=100, thorough_s=1500)
