"""C03: no superfluous vector in an exact solution.

For every vector written the largest amount by which it exceeds all the others somewhere on the
simplex is computed by an independent LP (in closed form for two states)."""
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C03', i)
    m = Mo.pick(rng, maxS=5 if i % 7 == 0 else 4)
    dom = rng.random() < 0.2
    opts = S.exact_options(rng, m, parsimonious=True)
    if dom:
        opts += ['-enum_purge' if S.opt(opts, '-method') == 'enum' else '-q_purge', 'domonly']
    h = S.blowup_limit(opts, S.pick_horizon(rng, m), m)
    with R.Scratch('c03') as d:
        s = S.solve(exe, m, opts, d, horizon=h)
        if s.res.timeout:
            c.inconclusive.append('timeout')
            return c
        if not s.ok:
            S.failure(c, s, m)
            return c
        text = open(d + '/m.POMDP').read()
        worst = None
        try:
            for n in [e[0] for e in s.epochs]:
                acts, V = S.alpha(s, m, n)
                sc = max(1.0, np.abs(V).max())
                c.count(epochs=1)
                idx = range(len(V)) if len(V) <= 60 else rng.sample(range(len(V)), 25)
                for k in idx:
                    others = np.delete(V, k, axis=0)
                    c.count(vectors=1)
                    if not len(others):
                        continue
                    if dom:
                        g = (others - V[k]).min(axis=1).max()
                        if g > 1e-6 * sc:
                            c.violation('dominated', '%s epoch %d: vector %d %s is exceeded everywhere by another by %.3g' %
                                        (s.cmd, n, k, V[k].tolist(), g), model=text)
                            return c
                        continue
                    near = np.abs(others - V[k]).max(axis=1).min()
                    if near < 1e-11 * sc:
                        c.violation('twice', '%s epoch %d: vector %d %s is there twice\nmodel %s' % (s.cmd, n, k, V[k].tolist(), m.tag), model=text)
                        return c
                    if near < 1e-5 * sc:
                        # within the fixed tolerances of the linear programs of another vector
                        c.count(near_duplicates=1)
                        continue
                    g = Mo.envelope_margin(V, k)
                    if g is None:
                        c.count(lp_undecided=1)
                        continue
                    c.count(margins=1)
                    worst = g / sc if worst is None else min(worst, g / sc)
                    if g < 1e-11 * sc:
                        c.violation('superfluous', '%s epoch %d: vector %d %s is nowhere better than the other %d (margin %.3g)\nmodel %s' %
                                    (s.cmd, n, k, V[k].tolist(), len(V) - 1, g, m.tag), model=text)
                        return c
        except (OSError, fmt.FormatError) as e:
            c.violation('file', '%s (%s)' % (e, s.cmd), model=text)
            return c
        if worst is not None:
            c.nontrivial = (m.tag, tuple(opts), V.tobytes())
        c.counts['method_' + S.opt(opts, '-method')] += 1
        c.sample = {'model': m.tag, 'options': opts, 'vectors': [e[1] for e in s.epochs], 'smallest margin': worst}
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('random valid models solved by a random exact method, usefulness margin of every vector of every epoch; '
                'non-trivial: distinct and some epoch has two vectors whose margin was decided')
    chk.assumptions = ['a margin below 1e-11 of the largest value counts as none', 'a vector within 1e-5 of the largest value of another one everywhere is not judged']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(8000, 120000))], quick_s=100, thorough_s=1500)
