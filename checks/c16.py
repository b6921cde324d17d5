"""C16: finite-grid runs: the grid is a valid set of beliefs, and the vectors are the exact point backups at it.

Every epoch's written value function is judged against an independent one-step backup of the epoch before, at every
grid belief (equality) and at the vertices of its own surface (never above)."""
import os, re
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S


def read_beliefs(path, nS):
    rows = [[float(x) for x in l.split()] for l in open(path) if l.strip()]
    for r in rows:
        if len(r) != nS:
            raise fmt.FormatError('belief of %d components' % len(r))
    return np.array(rows)


def near(B, b):
    return np.abs(B - b).max(axis=1).min()


def successors(m, b):
    """-> [(probability, belief)] of all action-observation pairs"""
    for a in range(m.nA):
        for z in range(m.nZ):
            x = b @ m.M[a, z]
            p = x.sum()
            if p > 1e-6:
                yield p, x / p


def check_grid(c, m, B, kind, limit, eps, cmd, d):
    def bad(sig, msg):
        c.violation(sig, '%s: %s\ngrid %s' % (cmd, msg, B.tolist()[:30]), cmd=cmd, model=open(d + '/m.POMDP').read(), belief=open(d + '/g.belief').read())
    if (B < -1e-12).any() or (B > 1 + 1e-12).any() or np.abs(B.sum(axis=1) - 1).max() > 1e-6:
        bad('grid:not-a-distribution', 'a grid point is no probability distribution')
        return
    n = m.nS
    tol = 1e-7
    if kind in ('simplex', 'pairwise'):
        want = list(np.eye(n))
        if kind == 'pairwise':
            want += [(np.eye(n)[i] + np.eye(n)[j]) / 2 for i in range(n) for j in range(i)]
        want = np.array(want)
        if any(near(B, w) > tol for w in want):
            bad('grid:missing', 'a requested %s point is missing' % kind)
        elif any(near(want, b) > tol for b in B):
            bad('grid:foreign', 'a point is no %s point' % kind)
        return
    if kind == 'initial':
        roots, optional = [m.b0], []
    else:
        roots, optional = [np.full(n, 1.0 / n)], []
        for a in range(m.nA):
            for z in range(m.nZ):
                s = m.O[a][:, z] if hasattr(m, 'O') else None
                on = s > 0
                if on.any():
                    # tiny probabilities may or may not count as possible
                    (optional if (s[on] <= 2 * eps + 1e-9).any() else roots).append(on / on.sum())
                    for f in (0.999, 1.001):
                        on2 = s > eps * f
                        if on2.any():
                            optional.append(on2 / on2.sum())
    roots = np.array(roots)
    for r in roots:
        if near(B, r) > eps + tol:
            bad('grid:missing-root', 'the belief %s the search starts from is missing' % r.tolist())
            return
    known = np.array(list(roots) + optional)
    # every other point is reached from a point of the grid
    reach = [known]
    for b in B:
        s = [x for _, x in successors(m, b)]
        if s:
            reach.append(np.array(s))
    reach = np.vstack(reach)
    for b in B:
        if near(reach, b) > 1e-5:
            bad('grid:unreachable', 'the point %s is reached from none of the grid' % b.tolist())
            return
    if len(B) < limit:
        for b in B:
            for p, x in successors(m, b):
                if near(B, x) > eps + tol:
                    bad('grid:not-closed', 'there is space left (%d of %d points), yet %s, reached from %s with probability %g, is missing' %
                        (len(B), limit, x.tolist(), b.tolist(), p))
                    return
        c.count(closed_grids=1)
    else:
        c.count(full_grids=1)
    start = len(roots) + len(optional)
    if len(B) > max(limit, start) + m.nA * m.nZ:
        bad('grid:too-large', '%d points, %d allowed' % (len(B), limit))
    if len(B) > 1 and len(B) < 400:
        D = np.abs(B[:, None, :] - B[None, :, :]).max(axis=2) + np.eye(len(B))
        if D.min() < eps * 0.99 - 1e-11:
            bad('grid:duplicates', 'two grid points are closer than %g' % eps)


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C16', i)
    m = Mo.pick(rng, maxS=6, maxA=4, maxZ=4)
    kind = rng.choice(['initial', 'initial', 'search', 'search', 'pairwise', 'simplex'])
    limit = rng.choice([1, 2, 3, 5, 10, 30, 100, 100, 300])
    eps = rng.choice([None, None, '1e-9', '1e-6', '0.001', '0.1'])
    purge = rng.choice([None, None, 'none', 'domonly', 'normal_prune', 'epsilon_prune'])
    peps = 1e-9
    opts = ['-method', 'grid', '-fg_type', kind, '-fg_points', str(limit), '-fg_save', 'true']
    if eps:
        opts += ['-fg_epsilon', eps]
    if purge:
        opts += ['-fg_purge', purge]
        if purge == 'epsilon_prune':
            peps = rng.choice([1e-6, 0.01, 0.5])
            opts += ['-prune_epsilon', '%g' % peps]
    if rng.random() < 0.3:
        opts += ['-proj_purge', rng.choice(['normal_prune', 'domonly', 'none'])]
    if rng.random() < 0.2:
        opts += ['-dom_check', rng.choice(['true', 'false'])]
    prev = np.zeros((1, m.nS))
    with R.Scratch('c16') as d:
        if rng.random() < 0.15:
            prev = np.array([[rng.randint(-9, 9) / 2 for _ in range(m.nS)] for _ in range(rng.randint(1, 4))])
            fmt.write_alpha(d + '/t.alpha', [0] * len(prev), prev, 8)
            opts += ['-terminal_values', 't.alpha']
        h = rng.randint(1, 8)
        s = S.solve(exe, m, opts, d, horizon=h, timeout=20, name='g', text=Mo.to_text(m))
        os.rename(d + '/g.POMDP', d + '/m.POMDP')
        if s.res.timeout:
            c.inconclusive.append('timeout')
            return c
        if not s.ok:
            os.rename(d + '/m.POMDP', d + '/g.POMDP')
            S.failure(c, s, m)
            return c
        files = dict(cmd=s.cmd, model=open(d + '/m.POMDP').read())
        B = read_beliefs(d + '/g.belief', m.nS)
        says = re.search(r'Grid has (\d+) points', s.res.out)
        if not says or int(says.group(1)) != len(B):
            c.violation('grid:saved-differs', '%s: the run announces %s points, the file has %d' % (s.cmd, says and says.group(1), len(B)), **files)
            return c
        check_grid(c, m, B, kind, limit, float(eps) if eps else 1e-9, s.cmd, d)
        c.count(grids=1, points=len(B))
        rich = 0
        for n in range(1, len(s.epochs) + 1):
            acts, V = S.alpha(s, m, n)
            sc = max(1.0, np.abs(V).max(), np.abs(prev).max())
            tol = 1e-6 * sc
            if purge == 'epsilon_prune':
                low = tol + peps * 1.001
            else:
                low = tol
            want = Mo.backup_at(m, prev, B)
            got = Mo.surface(V, B)
            if (got < want - low).any() or (got > want + tol).any():
                j = int(np.argmax(np.abs(got - want)))
                c.violation('point-backup', '%s\nepoch %d: at the grid belief %s the written value is %.9g, the best one-step backup is %.9g' %
                            (s.cmd, n, B[j].tolist(), got[j], want[j]), **files)
                return c
            P = Mo.test_points(rng, m, V, 40)
            over = Mo.surface(V, P) - Mo.backup_at(m, prev, P)
            if (over > tol).any():
                j = int(np.argmax(over))
                c.violation('above-optimum', '%s\nepoch %d: at %s the written value exceeds the backup of the epoch before by %.3g' % (s.cmd, n, P[j].tolist(), over[j]), **files)
                return c
            # each vector is the plan of its own action: it earns no more than that action's best backup
            for a in set(acts):
                W = V[[k for k in range(len(acts)) if acts[k] == a]]
                Q = Mo.q_values(m, prev, P)[:, a]
                if (Mo.surface(W, P) > Q + tol).any():
                    c.violation('wrong-action', '%s\nepoch %d: a vector labelled with action %d promises more than that action can earn' % (s.cmd, n, a), **files)
                    return c
            c.count(epochs=1, point_backups=len(B), vectors=len(V), upper_points=len(P))
            rich = max(rich, len(V))
            prev = V
        if len(B) > 1 and rich > 1:
            c.nontrivial = (m.tag, s.cmd, B.shape, float(prev.sum()))
        c.count(**{'type_' + kind: 1})
        c.sample = dict(cmd=s.cmd, model=m.tag, points=len(B), epochs=len(s.epochs), vectors=len(prev))
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('random models x grid types, sizes, precisions and purging; the saved grid is judged against an independent notion of reachability, each '
                'epoch against an independent backup at every grid belief; non-trivial: more than one grid belief and more than one vector')
    chk.assumptions = ['a full grid may have been filled by one last expansion (at most actions x observations points beyond the limit)']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2500, 60000))], quick_s=60, thorough_s=1500)
