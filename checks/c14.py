"""C14: illegal option values are refused before anything is computed; legal ones are not."""
import os
import build, fmt, run as R, model as Mo, solve as S, opts as Op
import numpy as np
from core import Case, case_rng

HERE = os.path.dirname(os.path.abspath(__file__))


def bad_value(rng, k):
    """-> (value, only in a configuration file)"""
    kd, legal, dflt = Op.SPEC[k]
    if kd == 'enum':
        good = rng.choice(legal)
        w = rng.choice(['bogus', good.upper(), good.capitalize(), good + 'x', good[:-1], 'x' + good, str(rng.randint(0, 3)), good + ',', 'default', 'nil', good + good])
        return (w, False) if w not in legal else ('bogus', False)
    lo, hi = legal
    nonnum = ['abc', 'x3', '3x', 'one', '1.2.3', '3,5', '5%', '1e', '0.5.', '7;', 'true', 'infinite?', '3/4', '2*3', '.', 'e5', '0.9f', '12a3', "'5'", '"5"', '5:6']
    if kd == 'int':
        nonnum += ['1.5', '1e3', '2.0', '99999999999', '2147483648', '18446744073709551617', '4294967299', '0.999']
        out = [str(x) for x in range(lo - 3, lo)] + ['-99999999999', '-2147483649', '-4294967295']
    else:
        nonnum += ['nan', 'NaN']
        out = ['-0.5', '-1', '-1e-9', '-1e300', '-3']
        if k == 'max_soln_size':
            out += ['2147483648', '1e10', '4294967299', '1e400', '9' * 30]
        elif hi is not None:
            out += ['1.0001', '2', '1e3', '1.000000001', '100', '95']
    v = rng.choice(nonnum if rng.random() < 0.5 else out)
    return v, v.startswith('-')


def good_value(rng, k, h):
    kd, legal, dflt = Op.SPEC[k]
    if kd == 'enum':
        return rng.choice([x for x in legal if x not in ('linsup', 'mcgs', 'fixed_soln_size', 'zlz')])
    if k == 'horizon':
        return rng.choice([str(h), '+%d' % h, '0%d' % h, str(h)])
    if k == 'time_limit':
        return rng.choice(['1000', '2147'])
    if k == 'memory_limit':
        return rng.choice(['2000000000', '2147483647'])
    if kd == 'int':
        lo = legal[0]
        if k in ('alg_rand', 'prune_rand', 'fg_points'):
            return rng.choice([str(lo), str(lo + 1), '17', '+4', '007'])
        return rng.choice([str(lo), str(lo + 1), '17', '2147483647', '+4', '007'])
    if k == 'discount':
        return rng.choice(['0', '1', '0.0', '1.0', '.5', '5e-1', '0.5', '1e-3', '+0.25', '0.99999'])
    if k in ('epsilon', 'lp_epsilon', 'fg_epsilon', 'prune_epsilon'):
        return rng.choice(['0', '1e-9', '.00000001', '0.0', '1E-10'])
    return rng.choice(['0', '0.0', '1e-9', '2', '1E3', '.5', '5.', '12345678', '+1.5'])


def snapshot(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))}


def case(exe, seed, i):
    rng = case_rng(seed, 'c14', i)
    c = Case('%d' % i)
    m = Mo.gen(rng, maxS=3, maxA=2, maxZ=2)
    text = Mo.to_text(m)
    with R.Scratch('c14') as d:
        open(d + '/m.POMDP', 'w').write(text)
        h = rng.randint(1, 3)
        o = [('pomdp', 'm.POMDP'), ('o', 's'), ('horizon', str(h))]
        legal = rng.random() < 0.3
        cfg = None
        raw = None
        if legal:
            kind = 'legal'
            ks = rng.sample([k for k in Op.SPEC if k != 'horizon'], rng.choice([1, 1, 2, 4]))
            o = o[:2] + [('horizon', good_value(rng, 'horizon', h))] + [(k, good_value(rng, k, h)) for k in ks]
            rng.shuffle(o)
            if rng.random() < 0.4:
                n = rng.randint(0, len(o))
                cfg, o = Op.config_text(rng, o[:n]), o[n:]
        else:
            kind = rng.choice(['value', 'value', 'value', 'value', 'value', 'value', 'missing', 'nomodel', 'seed', 'config', 'unknown'])
            if kind == 'value':
                k = rng.choice(list(Op.SPEC))
                v, only = bad_value(rng, k)
                o = [x for x in o if x[0] != k]
                kd = Op.SPEC[k][0]
                more = [(n, good_value(rng, n, h)) for n in rng.sample(list(Op.SPEC), rng.choice([0, 0, 1, 3])) if n != k and n != 'horizon']
                o += more
                rng.shuffle(o)
                if only or rng.random() < 0.3:
                    p = [(k, v)] + [x for x in o if rng.random() < 0.3]
                    o = [x for x in o if x not in p]
                    rng.shuffle(p)
                    if '#' in v or '=' in v:
                        p = [(k, 'bogus')]
                    cfg = Op.config_text(rng, p)
                else:
                    o.insert(rng.randint(0, len(o)), (k, v))
                what = '%s = %s' % (k, v)
                key = (k, v)
            elif kind == 'missing':
                ks = [k for k, s in Op.SPEC.items() if s[0] in ('int', 'double') or s[0] == 'enum' and s[1] is not Op.BOOL]
                k = rng.choice(ks)
                o = [x for x in o if x[0] != k]
                a = Op.args(o)
                j = 2 * rng.randint(0, len(o))
                raw = a[:j] + ['-' + k] + a[j:]
                if rng.random() < 0.2:
                    raw = a[:j] + ['-' + k, ''] + a[j:]
                what = '%s without a value' % k
                key = (k, j)
            elif kind == 'nomodel':
                o = o[1:] + [(n, good_value(rng, n, h)) for n in rng.sample(list(Op.SPEC), rng.choice([0, 1, 2])) if n != 'horizon']
                v = rng.choice([None, 'nosuch.POMDP', '', 'sub', 's/x/y', 'm.POMDP/x'])
                os.mkdir(d + '/sub')
                if v is not None:
                    o.append(('pomdp', v))
                what = 'model file %r' % v
                key = (v, tuple(o))
            elif kind == 'seed':
                v = rng.choice(['1', '1:2', 'a:b:c', '1:2:x', ':', '1::3', '::', '1:2:3:4', '1,2,3', '1 2 3', 'x', '1:2:', '1:2:3x', '1.5:2:3'])
                o.append(('rand_seed', v))
                what = 'seed %r' % v
                key = v
            elif kind == 'config':
                v = rng.choice(['horizon\n', 'horizon 3\n', '= 3\n', 'method = enum twopass\n', 'method = enum = witness\n', 'stop_delta = 1 = 2\n',
                                None, 'method\n= enum\n', 'method # = enum\n', 'a b = c\n', 'x' * rng.choice([1500, 5000]) + ' = 1\n',
                                'o = ' + 'y' * rng.choice([1500, 5000]) + '\n', 'method = enum\nmethod = witness\n'])
                if v is not None:
                    g = Op.config_text(rng, [('stop_delta', '0.1')]) + '\n' if rng.random() < 0.4 and 'stop_delta' not in v else ''
                    cfg = (g + v) if rng.random() < 0.5 else (v + g)
                else:
                    o.append(('f', 'nosuch.cfg'))
                what = 'configuration %r' % (v or '')[:60]
                key = (v, g if v is not None else '')
            else:
                v = rng.choice(['horizonn', 'horizo', 'Horizon', 'methods', 'x', 'nosuch', '-horizon', 'epsilonn', 'stop-delta', 'save', 'verbos', 'pomdp_file', 'discounts', 'purge'])
                if rng.random() < 0.3 and not v.startswith('-'):
                    cfg = Op.config_text(rng, [(v, '1')])
                else:
                    o.append((v, '1'))
                what = 'unknown option %s' % v
                key = (v, cfg is None)
        if cfg is not None:
            open(d + '/c.cfg', 'w', newline='').write(cfg)
            o.insert(rng.randint(0, len(o)), ('f', 'c.cfg'))
        before = snapshot(d)
        a = [exe] + (raw if raw is not None else Op.args(o))
        if cfg is not None and raw is not None:
            a += ['-f', 'c.cfg']
        r = R.run(a, d, timeout=8, retry=False)
        cmd = ' '.join(repr(x) if not x or ' ' in x else x for x in a) + (' with c.cfg %r' % cfg[:400] if cfg is not None else '')
        after = snapshot(d)
        new = sorted(n for n in after if after[n] != before.get(n))
        c.counts[kind] += 1
        if legal:
            if r.timeout:
                c.inconclusive.append('timeout')
                return c
            if r.rc != 0 or 'Solution found' not in r.out or not os.path.exists(d + '/s.alpha'):
                c.violation('legal-refused:' + r.signature(), cmd + '\n' + r.brief(), model=text)
                return c
            c.nontrivial = ('legal', tuple(sorted(o)), cfg)
            return c
        if r.timeout:
            c.violation('illegal-run', '%s: %s is not refused, the program runs on' % (cmd, what), model=text)
            return c
        if r.signal is not None or r.crashed:
            c.violation('illegal-crash:' + r.signature(), '%s: %s\n%s' % (cmd, what, r.brief()), model=text)
            return c
        if r.rc == 0 or 'Epoch:' in r.out or 'Solution found' in r.out:
            c.violation('illegal-accepted:' + kind, '%s: %s is accepted (status %s)\n%s' % (cmd, what, r.rc, r.out[-300:]), model=text)
            return c
        if new:
            c.violation('illegal-files:' + kind, '%s: %s refused, but files written: %s' % (cmd, what, new), model=text)
            return c
        if len(r.err.strip()) < 5 and len(r.out.strip()) < 5:
            c.violation('illegal-silent:' + kind, '%s: %s refused without a message' % (cmd, what), model=text)
            return c
        c.nontrivial = (kind, key)
        c.sample = {'refused': what, 'message': (r.err or r.out).strip()[:100]}
    return c


TOOLS = {'compare_alphas': ('alpha1', 'alpha2', 'o', 'states'), 'map_beliefs': ('belief', 'alpha1', 'o', 'states'), 'purge_alphas': ('alpha1', 'o', 'states'),
         'sort_alphas': ('alpha1', 'o', 'states'), 'belief_alpha_compare': ('alpha1', 'alpha2', 'belief', 'o', 'states'), 'pg_eval': ('pomdp', 'pg1'),
         'pg_relink': ('pomdp', 'alpha1', 'alpha2', 'pg1', 'o'), 'update_beliefs': ('pomdp',)}


def toolcase(exe, seed, i):
    """the same for the tools, with their required arguments left out, too"""
    rng = case_rng(seed, 'c14t', i)
    c = Case('tool %d' % i)
    m = Mo.gen(rng, maxS=3, maxA=2, maxZ=2, discs=(0.5, 0.9))
    name = rng.choice(sorted(TOOLS))
    val = {'pomdp': 'm.POMDP', 'alpha1': 'one', 'alpha2': 'two', 'belief': 'bel', 'pg1': 'g.pg', 'o': 'out', 'states': str(m.nS)}
    o = [('tool', name)] + [(k, val[k]) for k in TOOLS[name]]
    if rng.random() < 0.5:
        o.append(('epsilon', rng.choice(['0', '1e-9', '0.5', '3', '.5', '1E-3', '+2'])))
    if rng.random() < 0.2 and ('states', val['states']) not in o:
        o.append(('states', rng.choice(['1', '7', '+3'])))
    if rng.random() < 0.2:
        o.append(('obs', rng.choice(['1', '9'])))
    kind = rng.choice(['legal', 'legal', 'value', 'value', 'value', 'required', 'required', 'missing', 'unknown', 'config', 'notool'])
    nonnum = ['abc', 'x3', '3x', '1.2.3', '3,5', '5%', '1e', '7;', 'true', '3/4', '.', 'e5', "'5'", '5:6', '']
    what = ''
    at = lambda k: next(j for j, x in enumerate(o) if x[0] == k)
    if kind == 'value':
        k = rng.choice(['tool', 'epsilon', 'states', 'obs'])
        o = [x for x in o if x[0] != k]
        v = {'tool': ['bogus', name.upper(), name + 'x', name[:-1], '0', '3'], 'epsilon': nonnum + ['nan', '-1', '-1e-9'],
             'states': nonnum + ['1.5', '1e1', '0', '-1', '99999999999', '2147483648', '4294967298'], 'obs': nonnum + ['1.5', '0', '-2', '2147483648']}[k]
        o.append((k, rng.choice(v)))
        what = '%s = %r' % o[-1]
    elif kind == 'required':
        k = rng.choice([x for x in TOOLS[name] if x != 'o'])
        o = [x for x in o if x[0] != k]
        what = '%s without %s' % (name, k)
        if k == 'states':
            o = [x for x in o if x[0] != 'states']
    elif kind == 'notool':
        o = [x for x in o if x[0] != 'tool']
        if rng.random() < 0.3:
            o.append(('tool', rng.choice(['none', 'pg_isomorphism'])))
        what = 'no tool'
    elif kind == 'unknown':
        o.append((rng.choice(['toolz', 'state', 'State', 'alpha', 'alpha3', 'beliefs', 'method', 'horizon', 'x', 'save_all', 'pg3']), rng.choice(['1', 'one'])))
        what = 'unknown option %s' % o[-1][0]
    rng.shuffle(o)
    a = Op.args(o)
    cfg = None
    if kind == 'missing':
        k = rng.choice([x for x, _ in o if x in ('tool', 'epsilon', 'states', 'obs')])
        j = at(k)
        a = Op.args(o[:j]) + ['-' + k] + Op.args(o[j + 1:])
        what = '%s without a value' % k
    elif kind == 'config':
        cfg = rng.choice(['states\n', '= 3\n', 'epsilon = 1 = 2\n', 'a b = c\n', 'nosuch = 1\n', 'epsilon = x\n', 'epsilon = -1\n', 'states = 0\n', 'tool = bogus\n'])
        k = cfg.split(' ')[0]
        o = [x for x in o if x[0] != k]
        a = Op.args(o)
        what = 'configuration %r' % cfg
    elif kind in ('legal', 'value', 'required', 'unknown') and rng.random() < 0.4:
        n = rng.randint(0, len(o))
        if not any(v == '' or v.startswith('-') or '#' in v or '=' in v for _, v in o[:n]):
            cfg = Op.config_text(rng, o[:n])
            a = Op.args(o[n:])
    with R.Scratch('c14') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        n = rng.randint(1, 3)
        for f in ('one', 'two'):
            fmt.write_alpha(d + '/' + f, [0] * n, np.array([[round(rng.uniform(-9, 9), 2) for _ in range(m.nS)] for _ in range(n)]))
        with open(d + '/bel', 'w') as f:
            for b in Mo.simplex_points(rng, m.nS, 3):
                f.write(' '.join('%.17f' % x for x in b) + '\n')
        with open(d + '/g.pg', 'w') as f:
            for k in range(n):
                f.write('%d 0  %s\n' % (k, ' '.join(str(rng.randrange(n)) for _ in range(m.nZ))))
        if cfg is not None:
            open(d + '/c.cfg', 'w', newline='').write(cfg)
            j = 2 * rng.randint(0, len(a) // 2)
            a = a[:j] + ['-f', 'c.cfg'] + a[j:]
        before = snapshot(d)
        r = R.run([exe] + a, d, timeout=15, stdin='0 0\n')
        after = snapshot(d)
    new = sorted(x for x in after if after[x] != before.get(x))
    cmd = 'pomdp-tools ' + ' '.join(repr(x) if not x or ' ' in x else x for x in a) + (' with c.cfg %r' % cfg[:400] if cfg is not None else '')
    c.counts['tool_' + kind] += 1
    files = {k: v for k, v in before.items()}
    if r.timeout:
        c.inconclusive.append('timeout')
    elif r.signal is not None or r.crashed:
        c.violation('tool-crash:' + r.signature(), '%s: %s\n%s' % (cmd, what, r.brief()), **files)
    elif kind == 'legal':
        if r.rc != 0 or 'o' in TOOLS[name] and new != ['out'] or 'o' not in TOOLS[name] and not r.out.strip():
            c.violation('tool-legal-refused:' + r.signature(), '%s: status %s, files written: %s\n%s' % (cmd, r.rc, new, r.brief()), **files)
    elif r.rc == 0:
        c.violation('tool-accepted:' + kind, '%s: %s is accepted\n%s' % (cmd, what, r.out[-300:]), **files)
    elif new:
        c.violation('tool-files:' + kind, '%s: %s refused, but files written: %s' % (cmd, what, new), **files)
    elif len(r.err.strip()) < 5 and len(r.out.strip()) < 5:
        c.violation('tool-silent:' + kind, '%s: %s refused without a message' % (cmd, what), **files)
    c.nontrivial = ('tool', kind, tuple(a), cfg)
    return c


def run(chk):
    tool = build.build('asan', 'pomdp-tools')
    chk.pmap(toolcase, [(tool, chk.seed, i) for i in range(chk.n(1200, 20000))], quick_s=60, thorough_s=600)
    exe = build.build('asan', 'pomdp-solve')
    chk.rule = 'illegal values of every option on the command line and in configuration files, and boundary-legal ones; non-trivial: distinct'
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2500, 40000))], quick_s=120, thorough_s=1500)
