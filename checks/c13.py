"""C13: options mean the same wherever they are given, absent ones are the documented defaults, and the echo is true."""
import os, subprocess
import numpy as np
import build, fmt, run as R, model as Mo, solve as S, opts as Op
from core import Case, case_rng
from c14 import TOOLS

HERE = os.path.dirname(os.path.abspath(__file__))


def outputs(d, prefix):
    out = {}
    for f in os.listdir(d):
        if f.startswith(prefix + '.') and not f.endswith(('.POMDP', '.cfg', '.log')):
            out[f[len(prefix):]] = open(os.path.join(d, f), 'rb').read()
    return out


def extras(rng, o, m):
    """more options, such that the solution can be seen to depend on them or at least the echo"""
    def put(k, v, p=0.15):
        if '-' + k not in o and rng.random() < p:
            o.extend(['-' + k, str(v)])
    put('save_all', rng.choice(Op.BOOL), 0.3)
    put('save_penultimate', rng.choice(Op.BOOL), 0.3)
    put('stat_summary', rng.choice(Op.BOOL))
    put('fg_save', rng.choice(Op.BOOL), 0.5 if S.opt(o, '-method') == 'grid' else 0.1)
    put('discount', rng.choice(['0.5', '0.25', '0', '1', '0.9', '.75', '5e-1', '0.333333333333']))
    put('stop_delta', rng.choice(['0.1', '1e-3', '0.000001', '2', '0']))
    put('stop_criteria', rng.choice(['exact', 'weak', 'bellman']))
    put('epsilon', rng.choice(['1e-9', '1e-7', '0.00000001', '1e-10']))
    put('lp_epsilon', rng.choice(['1e-9', '1e-10', '0.0000000003']), 0.1)
    put('prune_epsilon', rng.choice(['0.001', '0.1', '1e-5', '12.5']))
    put('fg_epsilon', rng.choice(['0.001', '0.1', '1e-5', '0']))
    put('start_epsilon', rng.choice(['0.1', '1e-3', '2.5']), 0.1)
    put('end_epsilon', rng.choice(['0.01', '1e-6']), 0.1)
    put('epsilon_adjust', rng.choice(['2', '10', '1.5']), 0.1)
    put('history_length', rng.randint(1, 6), 0.1)
    put('history_delta', rng.randint(1, 6), 0.1)
    put('max_soln_size', rng.choice(['5', '100', '17.0']), 0.1)
    put('fg_points', rng.choice([1, 5, 77]), 0.1)
    put('fg_type', rng.choice(['simplex', 'pairwise', 'search', 'initial']), 0.1)
    put('fg_purge', rng.choice(Op.PURGE), 0.1)
    put('enum_purge', rng.choice(['normal_prune', 'domonly']), 0.1)
    put('q_purge', rng.choice(['normal_prune', 'domonly']), 0.1)
    put('mcgs_traj_length', rng.randint(1, 1000), 0.1)
    put('mcgs_num_traj', rng.randint(1, 1000), 0.1)
    put('mcgs_prune_freq', rng.randint(1, 1000), 0.1)
    put('mcgs_traj_iter_count', rng.randint(1, 1000), 0.1)
    put('memory_limit', 2000000000, 0.05)
    put('time_limit', 1000, 0.1)
    return o


def case(exe, mon, seed, i):
    rng = case_rng(seed, 'c13', i)
    c = Case('%d' % i)
    m = Mo.gen(rng, maxS=3, maxA=3, maxZ=3)
    text = Mo.to_text(m)
    o = S.any_options(rng, m, variations=('normal', 'normal', 'normal', 'adjustable_epsilon') + (('zlz',) if m.disc < 1 else ()))
    h = S.blowup_limit(o, S.pick_horizon(rng, m, 5), m)
    extras(rng, o, m)
    if S.opt(o, '-vi_variation') == 'zlz' and S.opt(o, '-discount') == '1':
        j = o.index('-discount')
        del o[j:j + 2]
    h = min(h, S.blowup_limit(o, h, m))
    if '-rand_seed' not in o:
        o += ['-rand_seed', '%d:%d:%d' % tuple(rng.randint(0, 65535) for _ in range(3))]
    o += ['-horizon', str(h)]
    ps = Op.pairs(o)
    rng.shuffle(ps)
    with R.Scratch('c13') as d:
        open(d + '/m.POMDP', 'w').write(text)
        if rng.random() < 0.2:
            fmt.write_alpha(d + '/t.alpha', [0, 0], np.array([[float(rng.randint(-9, 9)) for _ in range(m.nS)] for _ in range(2)]))
            ps.append(('terminal_values', rng.choice(['', '', '', './' * rng.choice([60, 130, 300, 480])]) + 't.alpha'))
        kind = rng.choice(['config', 'config', 'split', 'split', 'echo', 'echo', 'default', 'default'])
        given = dict(ps)

        def go(prefix, cli, cfg=None, monitored=False, report=False):
            a = [mon if monitored and mon else exe]
            cli = list(cli)
            if cfg is not None:
                cfgname = prefix + '.cfg'
                open(os.path.join(d, cfgname), 'w', newline='').write(cfg)
                cli.insert(rng.randint(0, len(cli)), ('f', cfgname))
            a += Op.args(cli)
            r = R.run(a, d, timeout=6, retry=False, env={'VERIF_OPTLOG': os.path.join(d, prefix + '.log')})
            cmd = ' '.join(a) + (' with %s:\n%s' % (prefix + '.cfg', cfg) if cfg is not None else '')
            if r.timeout:
                c.inconclusive.append('timeout')
                return None
            if r.rc != 0 or 'Solution found' not in r.out:
                c.violation('refused:' + r.signature(), cmd + '\n' + r.brief(), model=text, config=cfg or '')
                return None
            e, t = Op.echo(r.out)
            if e is None:
                c.violation('no-echo', cmd + ': no settings printed', model=text)
                return None
            return outputs(d, prefix), fmt.epochs(r.out), e, t, cmd

        def check_echo(g, given, prefix, report=None):
            """the echo is what was given, the default for the rest"""
            e, cmd = g[2], g[4]
            for k, (kd, legal, dflt) in Op.SPEC.items():
                want = given.get(k, dflt)
                got = e.get(k)
                if want is None:
                    if got is not None and float(got) > 0:
                        c.violation('echo', '%s: %s was not given, the run prints %s' % (cmd, k, got), model=text)
                        return False
                    continue
                if k == 'lp_epsilon' and float(want) > float(given.get('epsilon', '1e-9')):
                    want = given['epsilon']        # documented adjustment
                if got is None or not Op.same(kd, want, got):
                    c.violation('echo', '%s: %s is %s, the run prints %s' % (cmd, k, want, got), model=text)
                    return False
                c.count(settings=1)
            for k, want in (('pomdp', 'm.POMDP'), ('o', prefix), ('rand_seed', given['rand_seed']), ('terminal_values', given.get('terminal_values', ''))):
                if e.get(k) != want:
                    c.violation('echo', '%s: %s is %s, the run prints %s' % (cmd, k, want, e.get(k)), model=text)
                    return False
            log = os.path.join(d, prefix + '.log')
            if mon and os.path.exists(log):
                for line in open(log):
                    k, v = [x.strip() for x in line.split('=', 1)]
                    want = e.get(k, '')
                    kd, legal, dflt = Op.SPEC.get(k, ('string', None, None))
                    if want == '' and kd in ('int', 'double'):
                        ok = float(v) <= 0
                    else:
                        ok = Op.same(kd, want, v) if k != 'max_soln_size' else int(float(want)) == int(v)
                    c.count(used=1)
                    if not ok:
                        c.violation('used', '%s: the run prints %s = %s and uses %s' % (cmd, k, want, v), model=text)
                        return False
            return True

        def compare(a, b, what):
            diff = sorted(set(a[0]) ^ set(b[0])) or [n for n in a[0] if a[0][n] != b[0][n]]
            if diff:
                c.violation(what, '%s\n%s\ndiffer in %s' % (a[4], b[4], diff[:4]), model=text)
            elif a[1] != b[1]:
                c.violation(what, '%s\n%s\nreport different epochs' % (a[4], b[4]), model=text)
            else:
                ea, eb = ({k: v for k, v in x[2].items() if k not in ('o', 'f')} for x in (a, b))
                if ea != eb:
                    c.violation(what, '%s\n%s\nprint different settings: %s' % (a[4], b[4], sorted(set(ea.items()) ^ set(eb.items()))[:6]), model=text)
            return not c.violations

        base = [('pomdp', 'm.POMDP'), ('o', 'a')]
        allp = base + ps
        rng.shuffle(allp)
        a = go('a', allp, monitored=True)
        if a is None or not check_echo(a, given, 'a'):
            return c
        c.counts[kind] += 1
        if kind == 'config':
            p2 = [('pomdp', 'm.POMDP'), ('o', 'b')] + ps
            rng.shuffle(p2)
            b = go('b', [], Op.config_text(rng, p2), monitored=True)
            if b is None or not check_echo(b, given, 'b') or not compare(a, b, 'config'):
                return c
        elif kind == 'split':
            cli, cfg = [('o', 'b')], []
            for k, v in ps + [('pomdp', 'm.POMDP')]:
                u = rng.random()
                if u < 0.4:
                    cfg.append((k, v))
                else:
                    cli.append((k, v))
                    if u < 0.7:
                        # something else in the file, which the command line overrides
                        kd, legal, dflt = Op.SPEC.get(k, ('string', None, None))
                        if kd == 'enum':
                            w = rng.choice(legal)
                        elif kd == 'string':
                            w = {'pomdp': 'other.POMDP', 'rand_seed': '9:9:9', 'terminal_values': 'nosuchfile'}[k]
                        else:
                            w = '1' if rng.random() < 0.5 else '0.5' if kd == 'double' else '3'
                        cfg.append((k, w))
            if rng.random() < 0.3:
                cfg.append(('o', 'c'))
            rng.shuffle(cli), rng.shuffle(cfg)
            b = go('b', cli, Op.config_text(rng, cfg), monitored=True)
            if b is None or not check_echo(b, given, 'b') or not compare(a, b, 'split'):
                return c
            if any(f.startswith('c.') for f in os.listdir(d)):
                c.violation('split', '%s: wrote to the overridden name' % b[4], model=text)
        elif kind == 'echo':
            saved = a
            for f in os.listdir(d):
                if f.startswith('a.') and not f.endswith('.POMDP'):
                    os.unlink(os.path.join(d, f))
            lines = [l for l in a[3].split('\n') if not l.startswith('f ')]
            open(d + '/x.cfg', 'w').write('\n'.join(lines))
            r = R.run([exe, '-f', 'x.cfg'], d, timeout=8, retry=False)
            cmd = 'echo of %s fed back' % a[4]
            if r.timeout:
                c.inconclusive.append('timeout')
                return c
            if r.rc != 0 or 'Solution found' not in r.out:
                c.violation('echo-refused:' + r.signature(), cmd + '\n' + r.brief(), model=text, config='\n'.join(lines))
                return c
            b = (outputs(d, 'a'), fmt.epochs(r.out), Op.echo(r.out)[0], '', cmd)
            if not compare(a, b, 'echo-run'):
                return c
        else:
            # absent, and given with the documented default
            absent = [k for k, s in Op.SPEC.items() if s[2] is not None and k not in given]
            if not absent:
                return c
            add = rng.sample(absent, rng.randint(1, len(absent))) if rng.random() < 0.5 else [rng.choice(absent)]
            p2 = [('pomdp', 'm.POMDP'), ('o', 'b')] + ps + [(k, Op.SPEC[k][2]) for k in add]
            rng.shuffle(p2)
            b = go('b', p2) if rng.random() < 0.5 else go('b', [], Op.config_text(rng, p2))
            if b is None or not compare(a, b, 'default'):
                return c
            c.count(defaults=len(add))
        if len(a[1]):
            c.nontrivial = (kind, m.tag, tuple(sorted(ps)))
        c.sample = {'kind': kind, 'options': o, 'files': sorted(a[0])}
    return c


VALUES = {'pomdp': 'm.POMDP', 'alpha1': 'one', 'alpha2': 'two', 'belief': 'bel', 'pg1': 'g.pg', 'o': 'out'}


def toolcase(exe, seed, i):
    """the tools: on the command line, in a file, in both, and with the defaults written out"""
    rng = case_rng(seed, 'c13t', i)
    c = Case('tool %d' % i)
    m = Mo.gen(rng, maxS=3, maxA=2, maxZ=2, discs=(0.5, 0.9))
    name = rng.choice(sorted(TOOLS))
    o = [('tool', name)] + [(k, str(m.nS) if k == 'states' else VALUES[k]) for k in TOOLS[name]]
    if rng.random() < 0.6:
        o.append(('epsilon', rng.choice(['0', '1e-9', '0.5', '3', '0.02', '1E-3'])))
    if rng.random() < 0.3 and 'states' not in TOOLS[name]:
        o.append(('states', rng.choice(['1', '7'])))
    if rng.random() < 0.3:
        o.append(('obs', rng.choice(['1', '9'])))
    n = rng.randint(1, 4)
    lists = [np.array([[round(rng.uniform(-3, 3), 1) for _ in range(m.nS)] for _ in range(rng.randint(1, 5))]) for _ in range(2)]
    for L in lists:         # close ones, for the tolerance to matter
        if len(L) > 1 and rng.random() < 0.7:
            L[-1] = L[0] + [rng.choice([0, 0.001, 0.01, 0.3, 2]) for _ in range(m.nS)]
    with R.Scratch('c13') as d:
        def prepare(w):
            os.mkdir(w)
            open(w + '/m.POMDP', 'w').write(Mo.to_text(m))
            for f, L in zip(('one', 'two'), lists):
                fmt.write_alpha(w + '/' + f, [k % m.nA for k in range(len(L))], L)
            with open(w + '/bel', 'w') as f:
                for b in bs:
                    f.write(' '.join('%.17f' % x for x in b) + '\n')
            with open(w + '/g.pg', 'w') as f:
                f.write(graph)
        bs = list(Mo.simplex_points(rng, m.nS, 3))
        graph = ''.join('%d %d  %s\n' % (k, rng.randrange(m.nA), ' '.join(str(rng.randrange(len(lists[0]))) for _ in range(m.nZ))) for k in range(len(lists[0])))
        lines = ''.join('%d %d\n' % (rng.randrange(m.nA), rng.randrange(m.nZ)) for _ in range(5))

        def go(w, cli, cfg=None):
            w = d + '/' + w
            prepare(w)
            cli = list(cli)
            rng.shuffle(cli)
            if cfg is not None:
                open(w + '/c.cfg', 'w', newline='').write(cfg)
                cli.insert(rng.randint(0, len(cli)), ('f', 'c.cfg'))
            a = [exe] + Op.args(cli)
            r = R.run(a, w, timeout=15, stdin=lines)
            got = {f: open(w + '/' + f, 'rb').read() for f in sorted(os.listdir(w)) if f not in ('c.cfg', 'm.POMDP', 'one', 'two', 'bel', 'g.pg')}
            return r, got, 'pomdp-tools ' + ' '.join(a[1:]) + (' with c.cfg:\n' + cfg if cfg is not None else '')

        runs = [go('a', o)]
        p = list(o)
        rng.shuffle(p)
        cut = rng.choice([0, 0, rng.randint(0, len(p))])
        runs.append(go('b', p[:cut], Op.config_text(rng, p[cut:])))
        # what the command line says goes
        q = dict(p[cut:])
        other = [(k, {'epsilon': '0.7', 'obs': '3', 'o': 'elsewhere', 'alpha1': 'two'}.get(k)) for k in dict(p[:cut])]
        runs.append(go('c', p[:cut], Op.config_text(rng, p[cut:] + [x for x in other if x[1]])))
        if 'epsilon' not in dict(o):
            runs.append(go('d', o + [('epsilon', '1e-9')]))
    if any(r.timeout for r, _, _ in runs):
        c.inconclusive.append('timeout')
        return c
    r0, g0, cmd0 = runs[0]
    files = {'model.POMDP': Mo.to_text(m)}
    if r0.rc != 0:
        c.violation('tool-refused:' + r0.signature(), cmd0 + '\n' + r0.brief(), **files)
        return c
    for r, g, cmd in runs[1:]:
        if r.rc != 0:
            c.violation('tool-refused:' + r.signature(), cmd + '\n' + r.brief(), **files)
        elif g != g0:
            c.violation('tool-files-differ', '%s\nand\n%s\nwrite different files: %s and %s' % (cmd0, cmd, sorted(g0), sorted(g)), **files)
        elif r.out != r0.out:
            c.violation('tool-output-differs', '%s\nand\n%s\nprint:\n%s\nand\n%s' % (cmd0, cmd, r0.out[-600:], r.out[-600:]), **files)
    c.counts['tool_runs'] += len(runs)
    c.counts['tool_' + name] += 1
    c.nontrivial = ('tool', tuple(sorted(o)), lists[0].tobytes())
    return c


def exes():
    exe = build.build('plain', 'pomdp-solve')
    try:
        mon = build.build('plain', 'pomdp-solve', extra_src=[os.path.join(HERE, '..', 'harness', 'optmon.c')], out='optmon',
                          link=['-Wl,--wrap=initPomdpSolve'])
    except build.BuildError:
        mon = None      # the structure it looks into is laid out otherwise now: the echo and the files are still judged
    return exe, mon


def run(chk):
    tool = build.build('plain', 'pomdp-tools')
    chk.pmap(toolcase, [(tool, chk.seed, i) for i in range(chk.n(400, 8000))], quick_s=40, thorough_s=400)
    exe, mon = exes()
    chk.extra['settings_seen_inside'] = mon is not None
    chk.rule = 'random option sets given on the command line, in files of any layout, split, echoed and defaulted; non-trivial: distinct set that solved'
    chk.pmap(case, [(exe, mon, chk.seed, i) for i in range(chk.n(4000, 50000))], quick_s=120, thorough_s=1500)
