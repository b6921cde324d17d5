"""C15: equivalent models get equivalent solutions.

Metamorphic monitor: a model and a rewritten one are solved with the same options; the value functions of every epoch
must correspond, judged at the vertices of both surfaces."""
import os
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S


def rewrite(rng, m):
    """-> (kind, other model, extra options for it, beliefs -> beliefs, (n, values) -> values, same number of vectors)"""
    ident = lambda B: B
    same = lambda n, v: v
    kind = rng.choice(['states', 'actions', 'observations', 'cost', 'shift', 'shift', 'scale', 'split', 'dupaction', 'worse', 'dupstate', 'discount', 'discount', 'names', 'format', 'spread', 'start'])
    if kind == 'states':
        p = rng.sample(range(m.nS), m.nS)
        o = m.copy(T=m.T[:, p][:, :, p], O=m.O[:, p], R=m.R[:, p][:, :, p], start=None if m.start is None else m.start[p])
        return kind, o, [], (lambda B: B[:, p]), same, True
    if kind == 'actions':
        p = rng.sample(range(m.nA), m.nA)
        return kind, m.copy(T=m.T[p], O=m.O[p], R=m.R[p]), [], ident, same, False
    if kind == 'observations':
        p = rng.sample(range(m.nZ), m.nZ)
        return kind, m.copy(O=m.O[:, :, p], R=m.R[:, :, :, p]), [], ident, same, True
    if kind == 'cost':
        return kind, m.copy(R=-m.R, cost=not m.cost), [], ident, same, True
    if kind == 'shift':
        k = rng.choice([-100.0, -10.0, -1.0, 0.5, 3.0, 25.0, 1000.0])
        sg = -1 if m.cost else 1
        return kind, m.copy(R=m.R + k), [], ident, (lambda n, v: v + sg * k * sum(m.disc ** i for i in range(n))), True
    if kind == 'scale':
        if rng.random() < 0.4:
            # to where the values are small, but still far above the program's precision
            k = 2.0 ** -rng.randint(8, 16)
            return 'tiny', m.copy(R=m.R * k), [], ident, (lambda n, v: v * k), False
        k = rng.choice([0.25, 0.5, 2.0, 8.0, 3.0, 10.0])
        return kind, m.copy(R=m.R * k), [], ident, (lambda n, v: v * k), False
    if kind == 'split':
        z = rng.randrange(m.nZ)
        f = rng.choice([0.5, 0.25, 0.1, 0.75])
        O = np.concatenate([m.O, m.O[:, :, z:z + 1] * (1 - f)], axis=2)
        O[:, :, z] *= f
        return kind, m.copy(O=O, R=np.concatenate([m.R, m.R[:, :, :, z:z + 1]], axis=3), zn=None), [], ident, same, True
    if kind in ('dupaction', 'worse'):
        a = rng.randrange(m.nA)
        k = 0.0 if kind == 'dupaction' else rng.choice([0.01, 1.0, 50.0]) * (-1 if not m.cost else 1)
        q = rng.randint(0, m.nA)
        ins = lambda X, x: np.concatenate([X[:q], x, X[q:]], axis=0)
        return kind, m.copy(T=ins(m.T, m.T[a:a + 1]), O=ins(m.O, m.O[a:a + 1]), R=ins(m.R, m.R[a:a + 1] + k), an=None), [], ident, same, False
    if kind == 'dupstate':
        # a state split into two that behave alike
        q, n = rng.randrange(m.nS), m.nS
        f = rng.choice([0.5, 0.25, 0.75])
        T = np.concatenate([m.T, m.T[:, q:q + 1]], axis=1)
        T = np.concatenate([T, T[:, :, q:q + 1] * (1 - f)], axis=2)
        T[:, :, q] *= f
        O = np.concatenate([m.O, m.O[:, q:q + 1]], axis=1)
        Rr = np.concatenate([m.R, m.R[:, q:q + 1]], axis=1)
        Rr = np.concatenate([Rr, Rr[:, :, q:q + 1]], axis=2)
        g = rng.choice([0.0, 1.0, 0.3])

        def widen(B):
            X = np.concatenate([B, B[:, q:q + 1] * (1 - g)], axis=1)
            X[:, q] *= g
            return X
        return kind, m.copy(T=T, O=O, R=Rr, start=None, sn=None), [], widen, same, True
    if kind == 'discount':
        return kind, m.copy(disc=rng.choice([0.1, 0.99, 0.6, 1.0, 0.0])), ['-discount', repr(m.disc)], ident, same, True
    if kind == 'names':
        return kind, m.copy(sn=['s%c%d' % (97 + i % 26, i // 26) for i in range(m.nS)], an=['a%d' % i for i in range(m.nA)], zn=['z%c%d' % (120 - i % 24, i // 24) for i in range(m.nZ)]), [], ident, same, True
    if kind == 'spread':
        # rewards that depend on where one ends up, replaced by what is expected
        Rr = np.broadcast_to((-m.r if m.cost else m.r)[:, :, None, None], m.R.shape).copy()
        return kind, m.copy(R=Rr), [], ident, same, False
    if kind == 'start':
        return kind, m.copy(start=np.array(Mo._dist(rng, m.nS, 'dense', 10))), [], ident, same, True
    return kind, m.copy(), [], ident, same, True


def reformat(rng, m):
    """the same model, with entries written one by one in another order"""
    out = ['discount: %s' % Mo.num(m.disc), 'observations: %d' % m.nZ, 'states: %d' % m.nS, 'values: ' + ('cost' if m.cost else 'reward'), 'actions: %d' % m.nA]
    if m.start is not None:
        out.append('start: ' + ' '.join(Mo.num(x) for x in m.start))
    e = []
    for a in range(m.nA):
        for s in range(m.nS):
            for t in range(m.nS):
                e.append('T : %d : %d : %d %s' % (a, s, t, Mo.num(m.T[a, s, t])))
                for z in range(m.nZ):
                    e.append('R: %d : %d : %d : %d %s' % (a, s, t, z, Mo.num(m.R[a, s, t, z])))
            for z in range(m.nZ):
                e.append('O: %d : %d : %d %s' % (a, s, z, Mo.num(m.O[a, s, z])))
    rng.shuffle(e)
    return '\n'.join(out + e) + '\n'


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C15', i)
    m = Mo.pick(rng, maxS=4)
    if rng.random() < 0.06:
        m = m.copy(disc=0.0)
    kind, o, extra, bmap, vmap, samecount = rewrite(rng, m)
    opts = S.exact_options(rng, m)
    if kind == 'tiny' and S.opt(opts, '-inc_prune', 'normal') != 'normal':
        # the other two lose vectors among near ties (C01, known finding)
        opts[opts.index('-inc_prune') + 1] = 'normal'
    h = S.blowup_limit(opts, S.pick_horizon(rng, o, 6), o)
    with R.Scratch('c15') as d:
        a = S.solve(exe, m, opts, d, horizon=h, name='a', timeout=15)
        b = S.solve(exe, o, opts + extra, d, horizon=h, name='b', timeout=15, text=reformat(rng, o) if kind == 'format' else Mo.to_text(o))
        files = dict(cmd=a.cmd + '\n' + b.cmd, first=open(d + '/a.POMDP').read(), second=open(d + '/b.POMDP').read())
        if a.res.timeout or b.res.timeout:
            c.inconclusive.append('timeout')
            return c
        for s in (a, b):
            if not s.ok:
                S.failure(c, s, m, 'rewriting %r' % kind)
                return c
        n, top = 0, 0
        for n in range(1, min(len(a.epochs), len(b.epochs)) + 1):
            _, V = S.alpha(a, m, n)
            _, W = S.alpha(b, o, n)
            top = max(top, len(V))
            P = Mo.test_points(rng, m, V if len(V) < 300 else V[rng.sample(range(len(V)), 300)], 40)
            if o.nS == m.nS and kind != 'states':
                P = np.vstack([P, Mo.surface_vertices(W if len(W) < 300 else W[rng.sample(range(len(W)), 300)])])
            x, y = vmap(n, Mo.surface(V, P)), Mo.surface(W, bmap(P))
            tol = 1e-5 * max(1.0, np.abs(V).max(), np.abs(W).max())
            if kind == 'tiny':
                tol = 1e-5 * np.abs(W).max() + 4e-6
            k = np.abs(x - y).argmax()
            c.count(points=len(P), epochs=1)
            if abs(x[k] - y[k]) > tol:
                c.violation('differs:' + kind, '%s\n%s\nepoch %d: at belief %s the first model is worth %.10g, which makes %.10g; the second says %.10g' %
                            (a.cmd, b.cmd, n, P[k].tolist(), Mo.surface(V, P[k:k + 1])[0], x[k], y[k]), **files)
                return c
        if len(a.epochs) != len(b.epochs) and kind not in ('scale', 'tiny', 'shift') and abs(len(a.epochs) - len(b.epochs)) > 1:
            c.violation('epochs:' + kind, '%s: %d epochs\n%s: %d epochs' % (a.cmd, len(a.epochs), b.cmd, len(b.epochs)), **files)
            return c
        if top > 1:
            c.nontrivial = (m.tag, kind, tuple(opts), float(V.sum()))
        c.count(pairs=1, **{'rewrite_' + kind: 1})
        c.sample = dict(rewriting=kind, options=opts, epochs=n, vectors=top)
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('random models, each with one random rewriting (permuted or named parts, costs, shifted, scaled or expected rewards, split observation, duplicated or '
                'dominated action, split state, overridden discount, shuffled single entries, another start) and a random exact method; surfaces of each epoch are '
                'compared; non-trivial: more than one vector')
    chk.assumptions = ['value tolerance 1e-5 of the largest value']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(6000, 100000))], quick_s=75, thorough_s=1500)
