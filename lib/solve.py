"""Running the solver on a model and reading everything it leaves behind."""
import os, re
import numpy as np
import fmt, run as R, model as Mo

EXACT = ['enum', 'twopass', 'witness', 'incprune']


def exact_options(rng, m, method=None, parsimonious=False):
    """a random configuration of an exact method that still promises the exact value function"""
    method = method or rng.choice(['incprune', 'incprune', 'incprune', 'witness', 'twopass', 'enum'])
    o = ['-method', method]
    if method == 'incprune':
        o += ['-inc_prune', rng.choice(['normal', 'restricted_region', 'generalized'])]
    if rng.random() < 0.5:
        o += ['-proj_purge', rng.choice(['normal_prune', 'domonly', 'none'])]
    if not parsimonious and rng.random() < 0.3:
        if method == 'enum':
            o += ['-enum_purge', rng.choice(['normal_prune', 'domonly', 'none'])]
        else:
            o += ['-q_purge', rng.choice(['normal_prune', 'domonly', 'none'])]
    if rng.random() < 0.3:
        o += ['-dom_check', rng.choice(['true', 'false'])]
    if rng.random() < 0.3:
        o += ['-witness_points', rng.choice(['true', 'false'])]
    if rng.random() < 0.3:
        o += ['-alg_rand', str(rng.choice([0, 1, 5, 20]))]
    if rng.random() < 0.3:
        o += ['-prune_rand', str(rng.choice([0, 1, 5, 20]))]
    if rng.random() < 0.2:
        o += ['-rand_seed', '%d:%d:%d' % tuple(rng.randint(1, 30000) for _ in range(3))]
    return o


def opt(o, name, default=None):
    return o[o.index(name) + 1] if name in o else default


class Run:
    pass


def solve(exe, m, opts, cwd, name='m', horizon=None, save_all=True, timeout=10, text=None, **kw):
    f = os.path.join(cwd, name + '.POMDP')
    if text is not None or not os.path.exists(f):
        with open(f, 'w') as fh:
            fh.write(text if text is not None else Mo.to_text(m))
    args = [exe, '-pomdp', name + '.POMDP', '-o', name] + list(opts)
    if horizon is not None:
        args += ['-horizon', str(horizon)]
    if save_all:
        args += ['-save_all', 'true']
    kw.setdefault('retry', False)
    res = R.run(args, cwd, timeout=timeout, **kw)
    s = Run()
    s.res, s.cmd, s.cwd, s.name = res, ' '.join(args), cwd, name
    s.epochs = fmt.epochs(res.out)
    s.ok = res.rc == 0 and not res.timeout and not res.crashed and 'Solution found' in res.out
    return s


def alpha(s, m, n=''):
    return fmt.read_alpha(os.path.join(s.cwd, '%s.alpha%s' % (s.name, n)), m.nS)


def pg(s, m, n=''):
    return fmt.read_pg(os.path.join(s.cwd, '%s.pg%s' % (s.name, n)), m.nZ)


def failure(c, s, m, what='the run did not produce a solution'):
    """records a solver failure on a valid model"""
    sig = s.res.signature()
    c.violation('solver-failed:' + sig, '%s: %s\n%s\nmodel %s' % (what, s.cmd, s.res.brief(), m.tag),
                model=open(os.path.join(s.cwd, s.name + '.POMDP')).read(), cmd=s.cmd)


def tolerance(m, V, prev=None):
    sc = max(1.0, np.abs(V).max() if len(V) else 1.0)
    return 1e-5 * sc


def pick_horizon(rng, m, top=6):
    if m.hmax:
        return rng.randint(1, m.hmax) if m.wide != 'long' else rng.choice([m.hmax, rng.randint(1, m.hmax)])
    size = m.nA * m.nZ * m.nS
    if size <= 8:
        return rng.randint(1, top)
    if size <= 18:
        return rng.randint(1, min(top, 4))
    return rng.randint(1, min(top, 3))


def any_options(rng, m, methods=('incprune', 'incprune', 'witness', 'twopass', 'enum', 'grid'), variations=('normal', 'adjustable_epsilon')):
    """a random configuration over every available method, approximate ones included"""
    method = rng.choice(methods)
    if method == 'grid':
        return grid_options(rng, m)
    o = exact_options(rng, m, method)
    if rng.random() < 0.25:
        for n in ('-q_purge', '-enum_purge'):
            if n in o:
                i = o.index(n)
                del o[i:i + 2]
        o += ['-enum_purge' if method == 'enum' else '-q_purge', 'epsilon_prune', '-prune_epsilon', rng.choice(['1e-6', '0.001', '0.1', '1.0'])]
    v = rng.choice(variations)
    if v != 'normal':
        o += ['-vi_variation', v]
        if v == 'adjustable_epsilon':
            o += ['-start_epsilon', rng.choice(['0.1', '0.01', '1e-4']), '-end_epsilon', rng.choice(['1e-8', '1e-6']),
                  '-epsilon_adjust', rng.choice(['1.5', '100', '10', '2']), '-history_length', str(rng.randint(1, 4)),
                  '-history_delta', str(rng.randint(1, 3))]
    if rng.random() < 0.15:
        o += ['-stop_criteria', rng.choice(['weak', 'exact', 'bellman'])]
    return o


def grid_options(rng, m):
    o = ['-method', 'grid', '-fg_type', rng.choice(['simplex', 'pairwise', 'search', 'initial']),
         '-fg_points', str(rng.choice([1, 2, 5, 10, 30, 100]))]
    if rng.random() < 0.4:
        o += ['-fg_purge', rng.choice(['none', 'domonly', 'normal_prune', 'epsilon_prune'])]
    if rng.random() < 0.3:
        o += ['-proj_purge', rng.choice(['normal_prune', 'domonly', 'none'])]
    if rng.random() < 0.3:
        o += ['-fg_epsilon', rng.choice(['1e-9', '0.001', '0.1'])]
    return o


def blowup_limit(opts, h, m=None):
    purge = opt(opts, '-q_purge', opt(opts, '-enum_purge', 'normal_prune'))
    proj = opt(opts, '-proj_purge', 'normal_prune')
    if m is not None and m.wide:
        if m.nA == 1 or m.nS == 1 and purge == proj == 'normal_prune' and opt(opts, '-method') != 'enum':
            return h
        if m.wide != 'scale' and (purge in ('none', 'domonly') or proj != 'normal_prune' or opt(opts, '-method') == 'enum'):
            return 1
        if m.wide == 'long':
            return min(h, m.hmax if m.nS == 1 else 12)
    if purge == 'none':
        return min(h, 2)
    if purge == 'domonly' and proj == 'none':
        return min(h, 2)
    if opt(opts, '-method') == 'twopass' and m is not None and m.nS * m.nA * m.nZ > 12:
        return min(h, 3)
    if purge == 'domonly' or proj != 'normal_prune' or opt(opts, '-method') == 'enum':
        return min(h, 3)
    return h
