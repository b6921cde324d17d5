"""C02: every vector is the backup of its own action and of the vectors its policy-graph line names.

Offline trace checker: from the files of every epoch the value of each node is recomputed from the
model alone and the previous epoch's vectors."""
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S


def check_epoch(c, m, n, acts, V, nodes, prev, where, tol, text):
    if len(nodes) != len(V):
        c.violation('size', '%s epoch %d: %d vectors, %d graph lines' % (where, n, len(V), len(nodes)), model=text)
        return False
    for i, (nid, a, succ) in enumerate(nodes):
        if nid != i or a != acts[i] or a >= m.nA:
            c.violation('node', '%s epoch %d: line %d of the graph says node %d action %d, vector has action %d' %
                        (where, n, i, nid, a, acts[i]), model=text)
            return False
        v = m.r[a].copy()
        for z, s in enumerate(succ):
            if s in ('X', '-'):
                if m.M[a, z].max() > 1e-8:
                    c.violation('marked-impossible', '%s epoch %d node %d: observation %d of action %d has no successor '
                                'though it can occur' % (where, n, i, z, a), model=text)
                    return False
                c.count(impossible_marks=1)
                continue
            if m.M[a, z].max() == 0.0:
                c.violation('not-marked', '%s epoch %d node %d: observation %d of action %d cannot occur but has successor %s' %
                            (where, n, i, z, a, s), model=text)
                return False
            if s >= len(prev):
                c.violation('range', '%s epoch %d node %d: successor %d of %d' % (where, n, i, s, len(prev)), model=text)
                return False
            v = v + m.disc * (m.M[a, z] @ prev[s])
        c.count(nodes=1)
        d = np.abs(v - V[i]).max()
        if d > tol:
            c.violation('value', '%s epoch %d node %d (action %d, successors %s): vector %s, its policy is worth %s (difference %.3g)' %
                        (where, n, i, a, succ, V[i].tolist(), v.tolist(), d), model=text)
            return False
    return True


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C02', i)
    m = Mo.pick(rng)
    opts = S.any_options(rng, m)
    h = S.blowup_limit(opts, S.pick_horizon(rng, m, 8), m)
    with R.Scratch('c02') as d:
        s = S.solve(exe, m, opts, d, horizon=h)
        if s.res.timeout:
            c.inconclusive.append('timeout')
            return c
        if not s.ok:
            S.failure(c, s, m)
            return c
        text = open(d + '/m.POMDP').read()
        prev = np.zeros((1, m.nS))
        last = s.epochs[-1][0]
        try:
            for n in range(1, last + 1):
                acts, V = S.alpha(s, m, n)
                nodes = S.pg(s, m, n)
                tol = 1e-9 * max(1.0, np.abs(V).max())
                if not check_epoch(c, m, n, acts, V, nodes, prev, s.cmd, tol, text):
                    return c
                c.count(epochs=1)
                before, prev = prev, V
            acts, V = S.alpha(s, m)
            if not check_epoch(c, m, last, acts, V, S.pg(s, m), before, 'final solution of ' + s.cmd, tol, text):
                return c
        except (OSError, fmt.FormatError) as e:
            c.violation('file', '%s (%s)' % (e, s.cmd), model=text)
            return c
        if len(prev) > 1:
            c.nontrivial = (m.tag, tuple(opts), prev.tobytes())
        c.counts['method_' + S.opt(opts, '-method')] += 1
        c.sample = {'model': m.tag, 'options': opts, 'epochs': [e[1] for e in s.epochs]}
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('random valid models (1-4 states, 1-3 actions and observations, one in eight large in one direction, impossible observations included) solved by a '
                'random method with random purge, grid and variation options; every node of every epoch is recomputed; '
                'non-trivial: distinct and the last epoch has at least two vectors')
    chk.assumptions = ['arithmetic tolerance 1e-9 of the largest value']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(8000, 120000))], quick_s=60, thorough_s=1500)
