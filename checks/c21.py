"""C21: policy-graph evaluation solves the graph's value equations."""
import re
import numpy as np
import build, fmt, model as Mo, run as R, tools
from core import Case, case_rng


def graph(rng, m, n):
    """a random controller, with the observations that cannot occur marked or linked anyhow"""
    nodes = []
    mark = rng.random() < 0.6
    local = rng.random() < 0.3
    for i in range(n):
        a = rng.randrange(m.nA)
        succ = []
        for z in range(m.nZ):
            if mark and not m.possible(a, z):
                succ.append('X')
            else:
                succ.append(max(0, min(n - 1, i + rng.randint(-1, 1))) if local else rng.randrange(n))
        nodes.append((i, a, succ))
    return nodes


def values(m, nodes):
    """exact value of each node and state, in the file's own sense"""
    n, S = len(nodes), m.nS
    A = np.eye(n * S)
    r = np.zeros(n * S)
    raw = -m.r if m.cost else m.r
    for k, (i, a, succ) in enumerate(nodes):
        r[k * S:(k + 1) * S] = raw[a]
        for z in range(m.nZ):
            if succ[z] in ('X', '-'):
                continue
            j = succ[z]
            A[k * S:(k + 1) * S, j * S:(j + 1) * S] -= m.disc * m.M[a, z]
    return np.linalg.solve(A, r).reshape(n, S)


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C21', i)
    m = Mo.pick(rng, 0.06, maxS=5, maxA=4, maxZ=3, discs=(0.0, 0.3, 0.5, 0.75, 0.9, 0.95, 0.99, 0.999), cost=rng.random() < 0.3)
    n = rng.choice([1, 2, 3, 5, 8, 12, 20])
    if rng.random() < 0.02:
        m = Mo.wide(rng, 'Z', discs=(0.5, 0.9))
    if rng.random() < 0.04 and m.nS < 4:
        n = rng.choice([30, 45, 70])
    kind = rng.random()
    if kind < 0.008 and m.nS < 4:
        # undiscounted: may have no values, which is to be said
        m, n = m.copy(disc=1.0), rng.randint(1, 2)
        kind = 'undiscounted'
    nodes = graph(rng, m, n)
    if kind != 'undiscounted':
        if kind < (0.4 if m.nZ > 4 else 0.04):
            # an observation that can occur leads nowhere: no controller
            k, z = rng.randrange(n), rng.randrange(m.nZ)
            if m.possible(nodes[k][1], z) and m.O[nodes[k][1]][m.T[nodes[k][1]].max(axis=0) > 0][:, z].max() > 1e-4:
                nodes[k][2][z] = rng.choice(['X', n, n + 7])
                kind = 'broken'
        V = None if kind == 'broken' else values(m, nodes)
    with R.Scratch('c21') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        st = rng.randrange(3)
        if st == 0:
            fmt.write_pg(d + '/g.pg', nodes)
        else:
            order = list(nodes)
            with open(d + '/g.pg', 'w') as f:
                for k, a, succ in order:
                    f.write('%d\t%d   %s %s' % (k, a, '  '.join(str(x) for x in succ), rng.choice(['\n', '\n\n', ' \n'])))
        r = tools.tool(exe, 'pg_eval', d, pomdp='m.POMDP', pg1='g.pg', timeout=20)
        files = dict(model=open(d + '/m.POMDP').read(), graph=open(d + '/g.pg').read(), out=r.out, err=r.err)
    if r.timeout:
        c.inconclusive.append('timeout')
        return c
    bad = lambda sig, msg: c.violation(sig, '%s\nmodel %s' % (msg, m.tag), **files)
    if kind == 'broken':
        c.count(broken=1)
        if r.crashed or r.rc == 0 or 'Solution found' in r.out:
            bad('broken-accepted', 'a controller that is not complete is evaluated: ' + r.brief())
        else:
            c.nontrivial = (m.tag, files['graph'])
        return c
    if kind == 'undiscounted':
        c.count(undiscounted=1)
        if r.crashed:
            bad('tool-failed:' + r.signature(), r.brief())
        elif r.rc == 0:
            # only values that solve the equations may be printed
            W = np.array([float(x) for x in re.findall(r'-?(?:\d+\.\d+|nan|inf)', r.out.split('Solution found is:')[1].split('Initial')[0])]).reshape(n, m.nS)
            raw = -m.r if m.cost else m.r
            for k, (_, a, succ) in enumerate(nodes):
                e = W[k] - raw[a] - sum(m.M[a, z] @ W[succ[z]] for z in range(m.nZ) if succ[z] not in ('X', '-'))
                if not np.abs(e).max() <= 0.0201 + 1e-9 * np.abs(W).max():
                    bad('undiscounted-value', 'node %d: the values printed do not solve the equations (off by %.3g)' % (k, np.abs(e).max()))
                    return c
            c.count(undiscounted_solved=1)
        return c
    if r.rc != 0 or r.crashed:
        bad('tool-failed:' + r.signature(), r.brief())
        return c
    g = re.search(r'Solution found is:\s*\n(.*?)\n?Initial belief state value: (-?[\d.]+) at node (\d+)', r.out, re.S)
    if not g:
        bad('layout', 'no solution is printed: %s' % r.brief())
        return c
    nums = [float(x) for x in re.findall(r'-?(?:\d+\.\d+|nan|inf)', g.group(1))]
    if len(nums) != n * m.nS:
        bad('layout', '%d values printed for %d nodes and %d states' % (len(nums), n, m.nS))
        return c
    W = np.array(nums).reshape(n, m.nS)
    tol = 0.0051 + 1e-6 * np.abs(V).max()
    c.count(nodes=n, values=n * m.nS)
    e = np.abs(V - W)
    if not e.max() <= tol:
        k = np.unravel_index(np.nanargmax(np.where(np.isnan(e), np.inf, e)), e.shape)
        bad('value', 'node %d state %d: value %.6f, reported %.2f' % (k[0], k[1], V[k], W[k]))
        return c
    b = V @ m.b0
    best = b.min() if m.cost else b.max()
    if abs(float(g.group(2)) - best) > tol:
        bad('best-value', 'the best value at the initial belief is %.6f, reported %s' % (best, g.group(2)))
        return c
    k = int(g.group(3))
    if k >= n or abs(b[k] - best) > 1e-5 * max(1, abs(best)):
        bad('best-node', 'node %d of value %.6f is reported best, the best value is %.6f' % (k, b[k] if k < n else np.nan, best))
        return c
    if n > 1:
        c.nontrivial = (m.tag, files['graph'])
    c.sample = dict(model=m.tag, nodes=n, discount=m.disc, best=g.group(2))
    return c


def run(chk):
    exe = build.build('asan', 'pomdp-tools')
    chk.rule = ('random models (discounts up to 0.999, rewards and costs) and random controllers of up to 70 nodes, some incomplete (to be refused) or undiscounted; every printed value compared with a direct '
                'solution of the linear equations; non-trivial: distinct controllers with at least 2 nodes')
    chk.assumptions = ['values are printed with two decimals, which bounds what is compared']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2500, 20000))], quick_s=70, thorough_s=1200)
