"""C22: relinking a policy graph preserves its nodes and picks nearest successors."""
import numpy as np
import build, fmt, model as Mo, run as R, solve as S, tools
from core import Case, case_rng


def case(exes, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C22', i)
    m = Mo.pick(rng, maxS=5, maxA=4, maxZ=3)
    with R.Scratch('c22') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        if rng.random() < 0.25:
            # from a real run: the graph of epoch h points into the vectors of epoch h - 1
            h = S.pick_horizon(rng, m, 4) + 1
            s = S.solve(exes[0], m, [], d, horizon=h, timeout=10)
            if not s.ok or len(s.epochs) < 2:
                c.inconclusive.append('no solution')
                return c
            h = len(s.epochs)
            cur, prev = 'm.alpha%d' % h, 'm.alpha%d' % (h - 1)
            a1, V = fmt.read_alpha(d + '/' + cur, m.nS)
            _, P = fmt.read_alpha(d + '/' + prev, m.nS)
            pg = 'm.pg%d' % h
            if len(V) > 200 or len(P) > 200:
                return c
        else:
            n, k = rng.choice([1, 2, 3, 7, 20]), rng.choice([1, 2, 3, 7, 20])
            exact = rng.random() < 0.5
            q = (lambda: rng.randint(-8, 8) / 4.0) if exact else (lambda: rng.uniform(-5, 5))
            V = np.array([[q() for _ in range(m.nS)] for _ in range(n)])
            P = np.array([[q() for _ in range(m.nS)] for _ in range(k)])
            for j in range(k):
                if rng.random() < 0.6:
                    # near one of them in every component but one, or near by the sum but far in one component
                    P[j] = V[rng.randrange(n)]
                    P[j, rng.randrange(m.nS)] += rng.choice([0, 0, 0.25, -0.25, 3, -40])
            cur, prev, pg = 'cur', 'prev', 'g.pg'
            a1 = [rng.randrange(m.nA) for _ in V]
            fmt.write_alpha(d + '/cur', a1, V)
            fmt.write_alpha(d + '/prev', [rng.randrange(m.nA) for _ in P], P)
            nodes = [(j, a, ['X' if not m.possible(a, z) and rng.random() < 0.8 else '-' if rng.random() < 0.05 else rng.randrange(k) for z in range(m.nZ)])
                     for j, a in enumerate(a1)]
            fmt.write_pg(d + '/g.pg', nodes)
            _, V = fmt.read_alpha(d + '/cur', m.nS)
            _, P = fmt.read_alpha(d + '/prev', m.nS)
        nodes = fmt.read_pg(d + '/' + pg, m.nZ)
        files = dict(model=open(d + '/m.POMDP').read(), current=open(d + '/' + cur).read(), previous=open(d + '/' + prev).read(), graph=open(d + '/' + pg).read())
        r = tools.tool(exes[1], 'pg_relink', d, pomdp='m.POMDP', alpha1=cur, alpha2=prev, pg1=pg, o='out.pg')
        if r.timeout:
            c.inconclusive.append('timeout')
            return c
        bad = lambda sig, msg: c.violation(sig, '%s\nmodel %s' % (msg, m.tag), err=r.err, **files)
        if r.rc != 0 or r.crashed:
            bad('tool-failed:' + r.signature(), r.brief())
            return c
        try:
            files['result'] = open(d + '/out.pg').read()
            out = fmt.read_pg(d + '/out.pg', m.nZ)
        except (OSError, fmt.FormatError) as e:
            bad('layout', 'the relinked graph cannot be read: %s' % e)
            return c
    if [(k, a) for k, a, _ in out] != [(k, a) for k, a, _ in nodes]:
        bad('nodes', 'the nodes or their actions changed')
        return c
    links = moved = 0
    for (k, a, old), (_, _, new) in zip(nodes, out):
        for z, (x, y) in enumerate(zip(old, new)):
            if isinstance(x, str):
                if x != y:
                    bad('mark', 'node %d observation %d: the mark %s became %s' % (k, z, x, y))
                    return c
                continue
            links += 1
            D = np.abs(V - P[x]).max(axis=1)
            if isinstance(y, str) or y >= len(V) or D[y] > D.min() + 1e-9 * max(1, np.abs(V).max()):
                bad('nearest', 'node %d observation %d: vector %d of the earlier list is nearest to %d (at %.9g), linked to %s%s' %
                    (k, z, x, int(D.argmin()), D.min(), y, '' if isinstance(y, str) or y >= len(V) else ' at %.9g' % D[y]))
                return c
            moved += y != x
    c.count(nodes=len(nodes), links=links, moved=moved)
    if moved:
        c.nontrivial = (m.tag, files['graph'], files['current'])
    c.sample = dict(model=m.tag, nodes=len(nodes), links=links)
    return c


def run(chk):
    exes = (build.build('plain', 'pomdp-solve'), build.build('asan', 'pomdp-tools'))
    chk.rule = ('graphs of real runs and random graphs with random earlier and current vectors; every link compared with the nearest vectors; '
                'non-trivial: distinct graphs where some link changed')
    chk.pmap(case, [(exes, chk.seed, i) for i in range(chk.n(3000, 20000))], quick_s=70, thorough_s=1200)
