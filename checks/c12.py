"""C12: same model, options and seed, same bytes; randomized search leaves exact results as they are."""
import os, subprocess
import numpy as np
import build, fmt, run as R, model as Mo, solve as S
from core import Case, case_rng

HERE = os.path.dirname(os.path.abspath(__file__))


def preload():
    import hashlib
    src = os.path.join(HERE, '..', 'harness', 'shift.c')
    out = os.path.join(build.BUILD, 'shift-%s.so' % hashlib.sha256(open(src, 'rb').read()).hexdigest()[:12])
    if not os.path.exists(out):
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', src, '-o', out + '.tmp'], check=True)
        os.replace(out + '.tmp', out)
    return out


def files(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            if not f.endswith(('.POMDP', '.t')):
                out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), 'rb').read()
    return out


def world(rng, lib):
    """a place to run in: environment, process number, time, contents of fresh memory"""
    e = {'LD_PRELOAD': lib, 'SHIFT_TIME': str(rng.randrange(-10**8, 10**9)), 'SHIFT_PID': str(rng.randrange(2, 4000000)),
         'SHIFT_CPU': str(rng.choice([0, 0, 5, 4000])), 'MALLOC_PERTURB_': str(rng.choice([0, 1, 85, 170, 255])),
         'TZ': rng.choice(['UTC', 'Asia/Tokyo', 'XYZ+7']), 'LC_ALL': rng.choice(['C', 'POSIX', 'de_DE.UTF-8', 'C.UTF-8']),
         'HOME': rng.choice(['/', '/nonexistent', '/tmp']), 'PAD': 'x' * rng.choice([0, 1, 17, 4001])}
    if rng.random() < 0.3:
        e['MALLOC_ARENA_TEST'] = '1'
    if rng.random() < 0.3:
        e['MALLOC_TOP_PAD_'] = str(rng.choice([0, 65536]))
    return e


def once(exe, d, opts, text, env, timeout=6):
    os.makedirs(d)
    open(d + '/m.POMDP', 'w').write(text)
    r = R.run([exe, '-pomdp', 'm.POMDP', '-o', 'm'] + opts, d, timeout=timeout, retry=False, env=env)
    return r


def case(exe, lib, seed, i):
    rng = case_rng(seed, 'c12', i)
    c = Case('%d' % i)
    m = Mo.pick(rng, maxS=4)
    text = Mo.to_text(m)
    with R.Scratch('c12') as d:
        if i % 3:
            o = S.any_options(rng, m, variations=('normal', 'normal', 'adjustable_epsilon') + (('zlz',) if m.disc < 1 else ()))
            h = S.blowup_limit(o, S.pick_horizon(rng, m), m)
            if '-rand_seed' not in o and rng.random() < 0.8:
                o += ['-rand_seed', '%d:%d:%d' % tuple(rng.choice([0, 1, rng.randint(0, 65535)]) for _ in range(3))]
            for n in ('-alg_rand', '-prune_rand'):
                if n not in o and '-rand_seed' in o and rng.random() < 0.5:
                    o += [n, str(rng.randint(1, 30))]
                elif n in o and '-rand_seed' not in o:
                    j = o.index(n)
                    del o[j:j + 2]
            o += ['-horizon', str(h)]
            if rng.random() < 0.5:
                o += ['-save_all', 'true']
            if S.opt(o, '-method') == 'grid':
                o += ['-fg_save', 'true']
            if rng.random() < 0.3:
                o += ['-save_penultimate', 'true']
            res, cmd = [], None
            for k in range(3 if '-alg_rand' in o or '-prune_rand' in o else 2):
                sub = os.path.join(d, rng.choice(['a', 'bb', 'c/d/e']) + str(k))
                env = world(rng, lib) if k else {'MALLOC_PERTURB_': '0'}
                r = once(exe, sub, o, text, env)
                cmd = ' '.join(r.args)
                if r.timeout:
                    c.inconclusive.append('timeout')
                    return c
                if r.rc != 0 or 'Solution found' not in r.out:
                    c.violation('solver-failed:' + r.signature(), '%s (environment %s)\n%s' % (cmd, env, r.brief()), model=text)
                    return c
                res.append((files(sub), [(e[0], e[1]) for e in fmt.epochs(r.out)], env))
            for f, ep, env in res[1:]:
                names = sorted(set(f) ^ set(res[0][0]))
                diff = names or [n for n in f if f[n] != res[0][0][n]]
                if diff or ep != res[0][1]:
                    c.violation('not-reproducible', '%s: the runs differ in %s (environment of the second: %s)' % (cmd, diff[:5] or 'the epochs reported', env), model=text,
                                first=res[0][0].get(diff[0], b'') if diff else '', second=f.get(diff[0], b'') if diff else '')
                    return c
            c.count(repeats=len(res) - 1, files=len(res[0][0]), seeded='-rand_seed' in o, randomized='-alg_rand' in o or '-prune_rand' in o)
            if sum(len(x) for x in res[0][0].values()) > 200:
                c.nontrivial = (m.tag, tuple(o))
            c.sample = {'options': o, 'files': sorted(res[0][0]), 'environment': res[1][2]['SHIFT_TIME']}
            return c
        # randomization changes nothing of what an exact method computes
        o = S.exact_options(rng, m, parsimonious=True)
        for n in ('-alg_rand', '-prune_rand', '-rand_seed'):
            while n in o:
                j = o.index(n)
                del o[j:j + 2]
        h = S.blowup_limit(o, S.pick_horizon(rng, m), m)
        o += ['-horizon', str(h)]
        out = []
        for k in range(3):
            x = list(o)
            if k:
                x += ['-rand_seed', '%d:%d:%d' % tuple(rng.randint(0, 65535) for _ in range(3))]
                y = rng.randint(0, 2)
                if y != 1:
                    x += ['-alg_rand', str(rng.choice([1, 2, 10, 50]))]
                if y != 0:
                    x += ['-prune_rand', str(rng.choice([1, 2, 10, 50]))]
            s = S.solve(exe, m, x, d, name='r%d' % k, save_all=False)
            if s.res.timeout:
                c.inconclusive.append('timeout')
                return c
            if not s.ok:
                S.failure(c, s, m)
                return c
            out.append((S.alpha(s, m)[1], s.epochs[-1][0], s.cmd))
        for V, ep, cmd in out[1:]:
            W, ep0, cmd0 = out[0]
            if ep != ep0:
                c.inconclusive.append('converged differently')
                return c
            P = np.vstack([Mo.test_points(rng, m, V), Mo.test_points(rng, m, W)])
            e = np.abs(Mo.surface(V, P) - Mo.surface(W, P)).max()
            c.count(comparisons=1, points=len(P))
            if e > S.tolerance(m, W):
                c.violation('value', '%s\n%s\ndiffer by %.4g' % (cmd0, cmd, e), model=text)
                return c
            if len(V) != len(W):
                # only vectors that matter clearly must agree in number
                tol = 1e-6 * max(1.0, np.abs(W).max())
                marg = [[Mo.envelope_margin(X, j) for j in range(len(X))] for X in (V, W)]
                if any(x is None or abs(x) <= tol for y in marg for x in y):
                    c.inconclusive.append('ties')
                    return c
                c.violation('size', '%s\n%s\n%d and %d vectors' % (cmd0, cmd, len(W), len(V)), model=text)
                return c
        if len(out[0][0]) > 1:
            c.nontrivial = (m.tag, tuple(o), out[0][0].tobytes())
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    lib = preload()
    chk.rule = ('repeated runs under another time, process number, environment, directory and contents of fresh memory; and exact runs '
                'with and without randomization; non-trivial: distinct and files of some size, or more than one vector')
    chk.pmap(case, [(exe, lib, chk.seed, i) for i in range(chk.n(1800, 40000))], quick_s=120, thorough_s=1500)
