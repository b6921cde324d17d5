"""C08: solving a valid model is memory safe, free of undefined behaviour and ends with a complete solution.

The solver built with AddressSanitizer+UBSan, and with MemorySanitizer, over a sweep of models and of all
options; the sanitizers, the program's own consistency checks, its exit status and its files judge."""
import os
import numpy as np
import build, fmt, model as Mo, run as R, solve as S
from core import Case, case_rng


def model(rng):
    k = rng.random()
    if k < 0.72:
        return Mo.gen(rng, maxS=6, maxA=4, maxZ=4)
    if k < 0.8:        # one dimension large
        w = rng.randrange(3)
        dims = [(rng.randint(8, 25), rng.randint(1, 2), rng.randint(1, 2)), (rng.randint(1, 3), rng.randint(5, 14), rng.randint(1, 2)),
                (rng.randint(1, 3), rng.randint(1, 2), rng.randint(5, 9))][w]
        return Mo.gen(rng, nS=dims[0], nA=dims[1], nZ=dims[2])
    m = Mo.gen(rng, maxS=4, maxA=3, maxZ=3)
    j = rng.randrange(6)
    if j == 0:         # rewards of extreme sizes
        m = m.copy(R=m.R * rng.choice([1e6, 1e-8, 1e-3, 1e9, 0.0]))
    elif j == 1:       # all actions alike
        for a in range(1, m.nA):
            m.T[a], m.O[a], m.R[a] = m.T[0], m.O[0], m.R[0]
        m = m.copy()
    elif j == 2:       # absorbing states
        for a in range(m.nA):
            for s in range(m.nS):
                if rng.random() < 0.6:
                    m.T[a, s] = np.eye(m.nS)[s]
        m = m.copy()
    elif j == 3:       # nearly impossible observations
        O = m.O.copy()
        e = rng.choice([1e-6, 1e-8, 1e-9, 5e-10])
        for a in range(m.nA):
            for s in range(m.nS):
                z, y = rng.randrange(m.nZ), rng.randrange(m.nZ)
                if z != y and O[a, s, z] > 0.1:
                    O[a, s, z] -= e
                    O[a, s, y] += e
        m = m.copy(O=O)
    elif j == 4:       # nearly equal rewards, so nearly equal vectors
        R_ = np.round(m.R) + np.array([[rng.choice([0, 1e-9, 1e-8, 1e-7, -1e-9]) for _ in range(m.nS)] for _ in range(m.nA)])[:, :, None, None]
        m = m.copy(R=R_)
    else:
        m = m.copy(cost=not m.cost, R=np.ones_like(m.R) * rng.choice([0.0, 1.0, -3.0]))
    return m


def text_of(m):
    return Mo.to_text(m)


def options(rng, m):
    o = S.any_options(rng, m, methods=('incprune', 'incprune', 'witness', 'twopass', 'enum', 'grid', 'grid'), variations=('normal', 'normal', 'adjustable_epsilon'))
    method = S.opt(o, '-method')
    if method in ('witness', 'incprune') and m.disc < 1 and '-vi_variation' not in o and '-q_purge' not in o and rng.random() < 0.3:
        o += ['-vi_variation', 'zlz']
    def add(name, vals, p=0.2):
        if name not in o and rng.random() < p:
            o.extend([name, str(rng.choice(vals))])
    add('-stat_summary', ['true', 'false'], 0.4)
    add('-save_penultimate', ['true'], 0.3)
    add('-fg_save', ['true'], 0.5 if method == 'grid' else 0.05)
    add('-stop_criteria', ['weak', 'exact', 'bellman'], 0.3)
    add('-stop_delta', ['1e-9', '0.1', '1', '0', '100'], 0.3)
    add('-discount', ['0', '0.5', '0.9', '0.95'], 0.15)
    add('-epsilon', ['1e-9', '1e-6', '1e-12', '1e-4', '0'], 0.2)
    add('-lp_epsilon', ['1e-9', '1e-6', '1e-12', '1e-4'], 0.2)
    add('-witness_points', ['true', 'false'], 0.3)
    add('-dom_check', ['true', 'false'], 0.2)
    add('-alg_rand', [0, 1, 3, 50], 0.2)
    add('-prune_rand', [0, 1, 3, 50], 0.2)
    add('-time_limit', ['1000'], 0.1)
    add('-memory_limit', ['2000000000'], 0.03)
    add('-prune_epsilon', ['0', '1e-9', '0.5', '10'], 0.1)
    add('-fg_epsilon', ['0', '1e-9', '0.5', '10'], 0.1)
    return o


def case(exes, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C08', i)
    m = model(rng)
    o = options(rng, m)
    kind = 'msan' if i % 3 == 2 else 'asan'
    if '-memory_limit' in o:      # the shadow memory of the sanitizers does not fit a limit
        kind = 'plain'
    method = S.opt(o, '-method')
    h = S.blowup_limit(o, S.pick_horizon(rng, m, 6), m)
    if m.nS * m.nA * m.nZ > 60:
        h = min(h, 2)
    if rng.random() < 0.07:       # many epochs
        m = Mo.gen(rng, nS=rng.choice([1, 2, 2, 3]), nA=2, nZ=1, discs=(0.5, 0.9, 0.95))
        o = ['-method', rng.choice(['grid', 'incprune', 'witness', 'twopass', 'enum'])] + o[2:]
        o = [x for j, x in enumerate(o) if not (x in ('-q_purge', '-enum_purge', '-proj_purge', '-epsilon', '-lp_epsilon', '-vi_variation') or j and o[j - 1] in ('-q_purge', '-enum_purge', '-proj_purge', '-epsilon', '-lp_epsilon', '-vi_variation'))]
        method = S.opt(o, '-method')
        h = rng.choice([40, 150, 400])
    zlz = S.opt(o, '-vi_variation') == 'zlz'
    hor = ['-horizon', str(h)]
    if zlz and rng.random() < 0.3:
        hor = ['-horizon', '1']
    term = None
    with R.Scratch('c08') as d:
        open(d + '/m.POMDP', 'w').write(text_of(m))
        text = open(d + '/m.POMDP').read()
        args = [exes[kind], '-pomdp', 'm.POMDP', '-o', 's'] + o + hor
        if rng.random() < 0.5:
            args += ['-save_all', 'true']
        if rng.random() < 0.15 and not zlz:
            k = rng.randint(1, 4)
            fmt.write_alpha(d + '/t.alpha', [rng.randrange(m.nA) for _ in range(k)], np.array([[round(rng.uniform(-9, 9), 2) for _ in range(m.nS)] for _ in range(k)]))
            args += ['-terminal_values', 't.alpha']
            term = open(d + '/t.alpha').read()
        r = R.run(args, d, timeout=12, retry=False)
        cmd = kind + ' ' + ' '.join(args[1:])
        files = dict(model=text, cmd=cmd)
        if term:
            files['t.alpha'] = term
        if r.crashed or r.aborted or (r.rc != 0 and not r.timeout):
            c.violation('unsafe:' + r.signature(), '%s\n%s' % (cmd, r.brief(1500)), **files)
            return c
        if r.timeout:
            small = m.nS * m.nA * m.nZ <= 12 and h <= 3 and method in ('incprune', 'witness') and \
                all(x not in o for x in ('-q_purge', '-proj_purge', '-terminal_values', '-epsilon', '-lp_epsilon'))
            if small:
                args[0] = exes['plain']
                r = R.run(args, d, timeout=60)
                if r.timeout:
                    c.violation('hang', '%s: not done after 120 s\n%s' % (cmd, r.brief()), **files)
                    return c
            c.inconclusive.append('timeout')
            c.counts['timeout_' + method] += 1
            return c
        ep = fmt.epochs(r.out)
        try:
            acts, V = fmt.read_alpha(d + '/s.alpha', m.nS)
            ok = len(V) > 0 and np.isfinite(V).all() and 'Solution found' in r.out
            if not zlz:
                g = fmt.read_pg(d + '/s.pg', m.nZ)
                ok = ok and len(g) == len(V) and ep and ep[-1][1] == len(V)
        except (OSError, fmt.FormatError) as e:
            ok = False
            r.err += str(e)
        if not ok:
            c.violation('incomplete', '%s\nends with status 0 but without a complete solution: %s' % (cmd, r.brief()), **files)
            return c
        c.count(runs=1, epochs=max(1, len(ep)), vectors=sum(e[1] for e in ep))
        c.counts[kind + '_runs'] += 1
        c.counts['method_' + method] += 1
        c.nontrivial = (m.tag, tuple(args[1:]), text)
        c.sample = {'model': m.tag, 'options': args[5:], 'sanitizer': kind, 'epochs': [e[1] for e in ep]}
    return c


UNIMPLEMENTED = [('linsup', ['-method', 'linsup']), ('mcgs', ['-method', 'mcgs']), ('fixed_soln_size', ['-vi_variation', 'fixed_soln_size'])]


def pinned(exes, name, opts, undiscounted):
    """options that are listed but do not work: known findings, each with its own signature"""
    c = Case('pinned ' + name)
    rng = case_rng(1, 'C08', 'pinned')
    m = Mo.gen(rng, nS=2, nA=2, nZ=2, discs=(1.0,) if undiscounted else (0.9,), cost=False)
    m = m.copy(R=np.abs(m.R) + 1)
    with R.Scratch('c08p') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        r = R.run([exes['asan'], '-pomdp', 'm.POMDP', '-o', 's', '-horizon', '2'] + opts, d, timeout=6, retry=False)
        if r.sanitizer or r.rc == 77:
            c.violation('unsafe:' + r.signature(), '%s\n%s' % (opts, r.brief(1500)), model=Mo.to_text(m))
        elif r.timeout or r.aborted or r.rc != 0 or 'Solution found' not in r.out or not os.path.exists(d + '/s.alpha'):
            c.violation('pinned:' + name, '%s gives no solution: %s' % (opts, r.brief()), model=Mo.to_text(m))
        else:
            c.count(pinned_works=1)
    return c


def run(chk):
    exes = {v: build.build(v, 'pomdp-solve') for v in ('asan', 'msan', 'plain')}
    chk.rule = ('random models, ordinary and extreme (many states, actions or observations, absorbing, huge, tiny or equal rewards, nearly impossible '
                'observations), solved under AddressSanitizer+UBSan or MemorySanitizer with random settings of every option; non-trivial: distinct runs that ended')
    chk.assumptions = ['runs that exceed 12 s under a sanitizer are not judged, except small ones, which must end in 120 s without sanitizers']
    for n, o in UNIMPLEMENTED:
        chk.take(pinned(exes, n, o, False))
    chk.take(pinned(exes, 'zlz-undiscounted', ['-vi_variation', 'zlz'], True))
    chk.pmap(case, [(exes, chk.seed, i) for i in range(chk.n(1500, 40000))], quick_s=60, thorough_s=2400)
