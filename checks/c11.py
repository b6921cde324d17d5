"""C11: a written value function, given as terminal values, continues the same computation.

Paired runs (k epochs, then n more, against k+n in one go; methods mixed) plus user-written terminal
functions, whose first backup is recomputed from the definition."""
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S


def number(rng, x):
    """the same value in one of the ways a person may write it"""
    k = rng.random()
    if x == int(x) and k < 0.3:
        return '%d' % x
    if k < 0.5:
        return repr(float(x)) if 'e' not in repr(float(x)) else '%.8f' % x
    if k < 0.6:
        return '%.10e' % x
    return '%.12f' % x


def write_terminal(rng, path, acts, V):
    """user-written layout: any spacing, lines broken anywhere"""
    style = rng.choice(['plain', 'loose', 'broken'])
    with open(path, 'w') as f:
        for a, v in zip(acts, V):
            t = [number(rng, x) for x in v]
            if style == 'plain':
                f.write('%d\n%s\n\n' % (a, ' '.join(t)))
            elif style == 'loose':
                f.write('  %d \n\n %s  \n' % (a, '\t'.join(t)))
            else:
                f.write('%d %s\n' % (a, '\n'.join(t)))
    return style


def compare(m, rng, A, B):
    P = np.vstack([Mo.test_points(rng, m, A), Mo.surface_vertices(B)])
    d = np.abs(Mo.surface(A, P) - Mo.surface(B, P))
    return d.max(), len(P)


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C11', i)
    m = Mo.pick(rng)
    o1, o2 = S.exact_options(rng, m), S.exact_options(rng, m)
    if rng.random() < 0.2:
        o2 = o1
    user = rng.random() < 0.4
    k, n = rng.randint(1, 3), rng.randint(1, 2)
    top = S.pick_horizon(rng, m)
    k = max(1, min(k, top - n))
    k = S.blowup_limit(o1, k, m)
    n = S.blowup_limit(o2, n, m)
    if rng.random() < 0.2:
        disc = rng.choice(['0.5', '0.8', '1.0'])
        o1, o2 = o1 + ['-discount', disc], o2 + ['-discount', disc]
        m2 = m.copy(disc=float(disc))
    else:
        m2 = m
    with R.Scratch('c11') as d:
        text = Mo.to_text(m)

        def run(name, opts, h, tv=None):
            s = S.solve(exe, m, opts + (['-terminal_values', tv] if tv else []) + ['-horizon', str(h)], d, save_all=False, text=text)
            return s

        def go(out, opts, h, tv=None):
            args = [exe, '-pomdp', 'm.POMDP', '-o', out] + opts + ['-horizon', str(h)] + (['-terminal_values', tv] if tv else [])
            r = R.run(args, d, timeout=10, retry=False)
            cmd = ' '.join(args)
            if r.timeout:
                c.inconclusive.append('timeout')
                return None
            if r.rc != 0 or 'Solution found' not in r.out:
                c.violation('solver-failed:' + r.signature(), cmd + '\n' + r.brief(), model=text)
                return None
            if tv:
                want = '[Initial policy has %d vectors.]' % len(fmt.read_alpha(d + '/' + tv, m.nS)[1]) if not user else None
                if want and want not in r.out:
                    c.violation('initial-size', '%s: %s is not reported' % (cmd, want), model=text)
                    return None
            eps = fmt.epochs(r.out)
            return fmt.read_alpha('%s/%s.alpha' % (d, out), m.nS)[1], eps[-1][0], cmd, r

        open(d + '/m.POMDP', 'w').write(text)
        if user:
            kv = rng.randint(1, 5)
            if rng.random() < 0.25:
                kv = rng.choice([17, 33, 64, 65, 100, 129, 200, 260])
                o2 = ['-method', 'incprune'] + (['-discount', S.opt(o2, '-discount')] if '-discount' in o2 else [])
                c.count(long_terminals=1)
            V0 = np.array([[rng.choice([float(rng.randint(-50, 50)), round(rng.uniform(-20, 20), 3)]) for _ in range(m.nS)] for _ in range(kv)])
            style = write_terminal(rng, d + '/t.alpha', [rng.randrange(m.nA) for _ in range(kv)], V0)
            g = go('u', o2, 1, 't.alpha')
            if g is None:
                return c
            V, ep, cmd, r = g
            if '[Initial policy has %d vectors.]' % kv not in r.out:
                c.violation('initial-size', '%s: the terminal function has %d vectors' % (cmd, kv), model=text, terminal=open(d + '/t.alpha').read())
                return c
            P = Mo.test_points(rng, m2, V)
            ref, got = Mo.backup_at(m2, V0, P), Mo.surface(V, P)
            j = np.abs(ref - got).argmax()
            c.count(user_terminals=1, points=len(P))
            if abs(ref[j] - got[j]) > 1e-5 * max(1.0, np.abs(V).max(), np.abs(V0).max()):
                c.violation('user-terminal', '%s: at belief %s the value is %.10g, the backup of the terminal values is %.10g (%s)' %
                            (cmd, P[j].tolist(), got[j], ref[j], style), model=text, terminal=open(d + '/t.alpha').read())
                return c
            c.nontrivial = ('user', m.tag, tuple(o2), V.tobytes()) if kv > 1 else None
            return c
        a = go('a', o1, k)
        if a is None:
            return c
        b = go('b', o2, n, 'a.alpha') if a[1] == k else None
        if b is None:
            return c
        w = go('w', o1 if rng.random() < 0.5 and k + n <= S.blowup_limit(o1, 9, m) else ['-method', 'incprune'] + (['-discount', S.opt(o1, '-discount')] if '-discount' in o1 else []), k + n)
        if w is None:
            return c
        if w[1] != b[1] + k:
            # converged on the way: fewer epochs on one side
            c.inconclusive.append('converged')
            return c
        diff, np_ = compare(m, rng, w[0], b[0])
        c.count(splits=1, points=np_)
        if diff > 2e-5 * max(1.0, np.abs(w[0]).max()):
            c.violation('split', '%s\nthen %s\ndiffers by %.4g from\n%s' % (a[2], b[2], diff, w[2]), model=text, model_tag=m.tag)
            return c
        if len(b[0]) > 1:
            c.nontrivial = (m.tag, tuple(o1), tuple(o2), k, n, w[0].tobytes())
        c.counts['%s_then_%s' % (S.opt(o1, '-method'), S.opt(o2, '-method'))] += 1
        c.sample = {'model': m.tag, 'first': o1, 'second': o2, 'k': k, 'n': n, 'vectors': len(b[0])}
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = 'random models, method pairs and splits; user-written terminal functions in several layouts; non-trivial: distinct and more than one vector'
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2500, 50000))], quick_s=100, thorough_s=1500)
