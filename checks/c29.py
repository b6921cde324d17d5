"""C29: following the policy graph earns the value that was promised.

Finite horizon: the per-epoch graphs of a real run are executed from the last epoch to the first, over state and
observation histories; after every history the current node must be worth, at the belief reached, what the value
function of the epochs to go promises there, and the expected reward of the whole execution must be the promised one.
Converged runs: the written graph is relinked to the final vectors by the real tool, and the controller is
evaluated by its own equations."""
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S, tools


def executed(m, graphs, term):
    """exact expected reward of each node of the last epoch, by state, when the graphs are followed downwards"""
    vals = []
    prev = None
    for nodes in graphs:
        V = np.zeros((len(nodes), m.nS))
        for i, (_, a, succ) in enumerate(nodes):
            v = m.r[a].copy()
            for z, s in enumerate(succ):
                if isinstance(s, int):
                    # at the end there is nothing left to follow: what was assumed then
                    v += m.disc * (m.M[a, z] @ (prev[s] if prev is not None else term[s]))
            V[i] = v
        vals.append(V)
        prev = V
    return vals


def histories(c, rng, m, graphs, alphas, term, b, limit, exact, tol, bad):
    """walks the tree of histories from b; -> False after a violation"""
    n = len(graphs)
    V = alphas[n - 1]
    start = int((V @ b).argmax())
    stack = [(n, start, b, 1.0, ())]
    seen = 0
    while stack and seen < limit:
        k, node, x, p, hist = stack.pop(rng.randrange(len(stack)) if rng.random() < 0.3 else -1)
        seen += 1
        W = alphas[k - 1] if k else term
        best = (W @ x).max()
        here = W[node] @ x
        # a loss here is a loss of p times that at the start
        if exact and here < best - tol / p - 1e-9:
            bad('history-not-best', 'starting at %s with node %d, after %s the node %d of epoch %d is worth %.9g at the belief %s, the best there is worth %.9g' % (
                b.tolist(), start, hist, node, k, here, x.tolist(), best))
            return False
        if not k:
            continue
        _, a, succ = graphs[k - 1][node]
        nexts = []
        for z in range(m.nZ):
            y = x @ m.M[a, z]
            q = y.sum()
            if q <= 1e-7:
                continue
            if not isinstance(succ[z], int):
                bad('history-stuck', 'starting at %s with node %d, after %s observation %d of action %d comes with probability %.6g but node %d has no successor for it' % (
                    b.tolist(), start, hist, z, a, q, node))
                return False
            nexts.append((k - 1, succ[z], y / q, p * m.disc * q, hist + ((a, z),)))
        rng.shuffle(nexts)
        stack.extend(nexts)
    c.count(histories=seen)
    return True


def finite(exes, seed, i):
    c = core.Case('seed=%d finite=%d' % (seed, i))
    rng = core.case_rng(seed, 'C29', i)
    m = Mo.pick(rng)
    exact = rng.random() < 0.7
    o = S.exact_options(rng, m) if exact else S.any_options(rng, m)
    h = S.blowup_limit(o, S.pick_horizon(rng, m, 8), m)
    with R.Scratch('c29') as d:
        term = np.zeros((1, m.nS))
        if rng.random() < 0.25:
            k = rng.randint(1, 3)
            fmt.write_alpha(d + '/t', [0] * k, np.array([[round(rng.uniform(-9, 9), 2) for _ in range(m.nS)] for _ in range(k)]))
            o = o + ['-terminal_values', 't']
            term = fmt.read_alpha(d + '/t', m.nS)[1]
        s = S.solve(exes[0], m, o, d, horizon=h)
        if s.res.timeout:
            c.inconclusive.append('timeout')
            return c
        if not s.ok:
            S.failure(c, s, m)
            return c
        n = s.epochs[-1][0]
        alphas = [S.alpha(s, m, k)[1] for k in range(1, n + 1)]
        graphs = [S.pg(s, m, k) for k in range(1, n + 1)]
        last, final = S.alpha(s, m)[1], S.pg(s, m)
        text = open(d + '/m.POMDP').read()
    bad = lambda sg, msg: c.violation(sg, '%s: %s' % (s.cmd, msg), model=text, cmd=s.cmd)
    for k, (g, V) in enumerate(zip(graphs + [final], alphas + [last])):
        size = len(term) if k % n == 0 and k < n else len(alphas[min(k, n - 1) - 1]) if n > 1 else len(term)
        if len(g) != len(V) or any(isinstance(x, int) and x >= size for _, _, q in g for x in q):
            bad('range', 'the graph of epoch %d has %d nodes for %d vectors, or a link beyond %d' % (k + 1, len(g), len(V), size))
            return c
    E = executed(m, graphs[:-1] + [final], term)[-1]
    g = np.abs(E - last).max(axis=1)
    tol = 1e-9 * max(1.0, np.abs(last).max())
    if g.max() > tol:
        j = int(g.argmax())
        bad('executed', 'following the graphs from node %d of the solution earns %s by state, promised %s' % (j, E[j].tolist(), last[j].tolist()))
        return c
    c.count(executed_nodes=len(E), executions=1)
    alphas[-1], graphs[-1] = last, final
    B = [m.b0] + list(np.eye(m.nS)[:2]) + list(Mo.simplex_points(rng, m.nS, 2)[-2:])
    for b in B:
        if not histories(c, rng, m, graphs, alphas, term, np.array(b), 150, exact, S.tolerance(m, last), bad):
            return c
    if n > 1 and len(last) > 1:
        c.nontrivial = (text, tuple(o), n)
    c.sample = dict(model=m.tag, options=o, horizon=n, start_beliefs=len(B))
    return c


def converged(exes, seed, i):
    c = core.Case('seed=%d converged=%d' % (seed, i))
    rng = core.case_rng(seed, 'C29c', i)
    m = Mo.gen(rng, discs=(0.3, 0.5, 0.75, 0.8), maxS=3)
    o = ['-method', rng.choice(['incprune', 'incprune', 'witness', 'grid'])]
    crit = rng.choice(['weak', 'exact', 'bellman'])
    o += ['-stop_criteria', crit, '-stop_delta', rng.choice(['1e-9', '1e-6', '1e-3'])]
    if 'grid' in o:
        o += ['-fg_points', '20']
    with R.Scratch('c29') as d:
        s = S.solve(exes[0], m, o + ['-save_penultimate', 'true'], d, save_all=False, timeout=5, horizon=400)
        if s.res.timeout:
            c.inconclusive.append('timeout')
            return c
        if not s.ok:
            S.failure(c, s, m)
            return c
        text = open(d + '/m.POMDP').read()
        if s.epochs[-1][0] in (1, 400):
            c.count(not_converged=1)
            return c
        acts, V = S.alpha(s, m)
        P = fmt.read_alpha(d + '/m.prev.alpha', m.nS)[1]
        nodes = S.pg(s, m)
        r = tools.tool(exes[1], 'pg_relink', d, pomdp='m.POMDP', alpha1='m.alpha', alpha2='m.prev.alpha', pg1='m.pg', o='re.pg')
        if r.rc != 0 or r.crashed:
            c.violation('relink-failed:' + r.signature(), '%s\n%s' % (s.cmd, r.brief()), model=text)
            return c
        re_ = fmt.read_pg(d + '/re.pg', m.nZ)
    bad = lambda sg, msg: c.violation(sg, '%s: %s' % (s.cmd, msg), model=text, cmd=s.cmd)
    k = len(V)
    if len(re_) != k or any(isinstance(x, int) and x >= k for _, _, q in re_ for x in q):
        bad('controller', 'the relinked graph is no controller over the %d final vectors' % k)
        return c
    # how far the links' vectors moved between the last two epochs
    delta = max([np.abs(V[y] - P[x]).max() for (_, _, p), (_, _, q) in zip(nodes, re_) for x, y in zip(p, q) if isinstance(x, int) and isinstance(y, int)] or [0.0])
    N = m.nS
    A = np.eye(k * N)
    rhs = np.zeros(k * N)
    for i2, (_, a, succ) in enumerate(re_):
        if a != acts[i2]:
            bad('controller-action', 'node %d takes action %d, its vector %d' % (i2, a, acts[i2]))
            return c
        rhs[i2 * N:(i2 + 1) * N] = m.r[a]
        for z, y in enumerate(succ):
            if isinstance(y, int):
                A[i2 * N:(i2 + 1) * N, y * N:(y + 1) * N] -= m.disc * m.M[a, z]
    E = np.linalg.solve(A, rhs).reshape(k, N)
    bound = m.disc * delta / (1 - m.disc) + 1e-8 * max(1.0, np.abs(V).max())
    g = np.abs(E - V)
    if g.max() > bound:
        j = int(g.max(axis=1).argmax())
        bad('controller-value', 'the controller started at node %d earns %s by state, promised %s; the vectors moved by %.3g in the last epoch, which allows %.3g' % (
            j, E[j].tolist(), V[j].tolist(), delta, bound))
        return c
    c.count(controllers=1, controller_nodes=k, converged_tightly=delta < 1e-3)
    if k > 1 and delta < 1e-3:
        c.nontrivial = ('converged', text, tuple(o))
    c.sample = dict(model=m.tag, options=o, epochs=s.epochs[-1][0], nodes=k, moved=delta, error=float(g.max()), allowed=bound)
    return c


def run(chk):
    exes = (build.build('plain', 'pomdp-solve'), build.build('plain', 'pomdp-tools'))
    chk.rule = ('per-epoch graphs of runs of all methods executed exactly and over histories from five beliefs; controllers of converged runs relinked by the tool and evaluated; '
                'non-trivial: distinct executions of more than one epoch and node, and converged controllers whose vectors moved by less than 0.001')
    chk.assumptions = ['observations of probability below 1e-7 are not followed', 'a converged controller may lose discount/(1-discount) times what the linked vectors moved in the last epoch']
    chk.pmap(finite, [(exes, chk.seed, i) for i in range(chk.n(4000, 40000))], quick_s=60, thorough_s=1200)
    chk.pmap(converged, [(exes, chk.seed, i) for i in range(chk.n(1000, 15000))], quick_s=60, thorough_s=1200)
