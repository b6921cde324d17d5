"""C09: hostile auxiliary inputs cannot corrupt memory or hang the programs.

Value-function, policy-graph, belief and configuration files, lines for the interactive belief update and command
lines are mutated by token and byte, cut, spliced and oversized, and given to the real programs under the address,
undefined-behaviour and memory sanitizers, which judge together with the time needed and with what is said."""
import os, re
import core, build, model as Mo, run as R, tools
from c07 import hostile, mutate_tokens

SAID = re.compile(r'error|warning|abort|cannot|unrec|illegal|invalid|bad|unknown|missing|problem|usage|specify|not |ERR|must|memory', re.I)
NUMS = ['0', '1', '2', '-1', '0.5', '1e-9', '1e300', '-1e300', '1e308', '1e-320', 'nan', 'inf', '-inf', '1e400', '2147483647', '2147483648', '-2147483649', '99999999999999999999',
        '0x10', '1.5', '1,5', '1e', '-', '+', 'X', 'x', '.', '0' * 400 + '1', '1' * 400, '0.' + '3' * 600]


def bytes_of(rng, text):
    b = bytearray(text.encode('latin-1', 'replace'))
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        i = rng.randrange(len(b) + 1)
        k = rng.randrange(5)
        if k == 0 and i < len(b):
            b[i] = rng.randrange(256)
        elif k == 1:
            b[i:i] = bytes(rng.choice([0, 9, 10, 13, 32, 35, 45, 46, 48, 61, 88, 101, 255]) for _ in range(rng.randint(1, 4)))
        elif k == 2:
            b[i:i] = b[i:i + rng.randint(1, 30)]
        elif k == 3:
            del b[i:i + rng.randint(1, 6)]
        else:
            del b[i:]
    return bytes(b)


def mutate(rng, text, other=''):
    """-> bytes, kind"""
    k = rng.random()
    if k < 0.05:
        return text.encode('latin-1'), 'valid'
    if k < 0.3:
        return bytes_of(rng, text), 'byte'
    if k < 0.36:
        return bytes(rng.choice([rng.randrange(256), rng.choice(b' \n019.-+eX#=')]) for _ in range(rng.choice([0, 1, 3, 30, 300, 20000]))), 'bytes'
    if k < 0.42:
        return (text * rng.choice([2, 10, 60])).encode('latin-1'), 'long'
    t = re.findall(r'\S+|\n', text)
    if rng.random() < 0.6 and t:
        for _ in range(rng.choice([1, 1, 2, 5])):
            t[rng.randrange(len(t))] = rng.choice(NUMS)
    else:
        t = mutate_tokens(rng, t, re.findall(r'\S+|\n', other), rng.choice([1, 1, 2, 5]))
    return ' '.join(t).encode('latin-1', 'replace'), 'token'


def alpha_text(rng, nS, nA, k=None):
    k = k or rng.randint(1, 6)
    return ''.join('%d\n%s\n\n' % (rng.randrange(nA), ' '.join('%.*f' % (rng.choice([2, 6, 25]), rng.uniform(-9, 9)) for _ in range(nS))) for _ in range(k))


def belief_text(rng, nS):
    return ''.join(' '.join('%.6f' % x for x in b) + '\n' for b in Mo.simplex_points(rng, nS, rng.randint(1, 5)))


def pg_text(rng, nA, nZ):
    n = rng.randint(1, 6)
    return ''.join('%d %d  %s\n' % (k, rng.randrange(nA), ' '.join(rng.choice([str(rng.randrange(n)), str(rng.randrange(n)), 'X', '-']) for _ in range(nZ))) for k in range(n))


def config_text(rng, tool=False):
    w = [('method', 'incprune'), ('epsilon', '1e-9'), ('inc_prune', 'normal'), ('save_all', 'true'), ('rand_seed', '1:2:3'), ('prune_rand', '3'),
         ('stop_criteria', 'exact'), ('discount', '0.9'), ('verbose', 'context'), ('fg_points', '7'), ('stop_delta', '0.1'), ('stdout', 'said'), ('terminal_values', 'one'), ('horizon', '1')]
    if tool:
        w = [('epsilon', '0.1'), ('o', 'out'), ('alpha1', 'one'), ('alpha2', 'two'), ('belief', 'bel'), ('obs', '2'), ('actions', '2'), ('pg1', 'g.pg')]
    rng.shuffle(w)
    out = []
    for k, v in w[:rng.randint(1, 8)]:
        out.append(rng.choice(['%s=%s', '%s = %s', '  %s\t=  %s  ', '%s=%s\t']) % (k, v))
        if rng.random() < 0.3:
            out.append(rng.choice(['', '# comment', '   ', '#', '# a = b']))
    return '\n'.join(out) + '\n'


def config_mutated(rng, text):
    if rng.random() < 0.35:
        return mutate(rng, text, text)
    l = text.split('\n')
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(l))
        k, q, v = l[i].partition('=')
        u = rng.random()
        new = lambda: rng.choice([rng.choice(NUMS), rng.choice(ENUMS), hostile(rng), 'y' * rng.choice([200, 254, 255, 256, 1022, 1023, 1024, 1025, 5000])])
        if u < 0.5:
            v = new()
        elif u < 0.7:
            k = rng.choice([rng.choice(OPTS), rng.choice(TOOL), hostile(rng), 'z' * rng.choice([254, 255, 256, 1023, 1024, 5000])])
        elif u < 0.8:
            q = rng.choice(['', '==', ' = = ', ':', '=\0'])
        elif u < 0.9:
            l.insert(i, rng.choice([l[i], new(), '\t' * 3000, '=', '=x', 'x=', '#' + 'c' * rng.choice([1000, 1024, 5000])]))
            continue
        else:
            l = l[:i] + ['%s%d = %d' % (rng.choice(['k', 'horizon', 'x' * 100]), n, n) for n in range(rng.choice([3, 100, 255, 256, 257, 600]))] + l[i:]
            continue
        l[i] = k + q + v
    return '\n'.join(l).encode('latin-1', 'replace'), 'setting'


OPTS = ['method', 'horizon', 'epsilon', 'discount', 'rand_seed', 'o', 'stdout', 'f', 'verbose', 'save_all', 'terminal_values', 'memory_limit', 'time_limit', 'stop_criteria', 'stop_delta',
        'vi_variation', 'fg_type', 'fg_points', 'fg_save', 'prune_epsilon', 'q_purge', 'enum_purge', 'proj_purge', 'inc_prune', 'alg_rand', 'prune_rand', 'start_epsilon', 'end_epsilon',
        'epsilon_adjust', 'max_soln_size', 'history_length', 'history_delta', 'dom_check', 'witness_points', 'lp_epsilon', 'pomdp', 'fg_purge', 'fg_epsilon', 'save_penultimate', 'stat_summary',
        'h', 'v', 'version', 'mcgs_num_traj', 'mcgs_traj_length', 'mcgs_traj_iter_count', 'mcgs_prune_freq']
TOOL = ['tool', 'states', 'actions', 'obs', 'epsilon', 'alpha1', 'alpha2', 'belief', 'pg1', 'pg2', 'o', 'pomdp', 'stdout', 'h']
ENUMS = ['incprune', 'witness', 'enum', 'twopass', 'grid', 'normal', 'true', 'false', 'none', 'domonly', 'normal_prune', 'epsilon_prune', 'exact', 'weak', 'bellman', 'adjustable_epsilon',
         'simplex', 'pairwise', 'search', 'initial', 'generalized', 'restricted_region', 'context', 'solve', '1:2:3', '1:2', '::', '70000:-1:0', '1:2:3:4']
TOOLNAMES = ['compare_alphas', 'map_beliefs', 'purge_alphas', 'sort_alphas', 'pg_eval', 'pg_relink', 'belief_alpha_compare', 'update_beliefs', 'pg_isomorphism', 'none']


def words(rng, prog):
    """a command line; only names without a directory, so that everything stays in the scratch directory"""
    names, files = (OPTS, ['m.POMDP', 'one', 'config']) if prog == 'pomdp-solve' else (TOOL, ['m.POMDP', 'one', 'two', 'bel', 'g.pg'])
    out = []
    if prog == 'pomdp-solve':
        out = ['-pomdp', 'm.POMDP', '-horizon', rng.choice(['1', '2'])] if rng.random() < 0.85 else []
    else:
        out = ['-tool', rng.choice(TOOLNAMES)] if rng.random() < 0.9 else []
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6, 12])):
        n = rng.choice(names)
        u = rng.random()
        if u < 0.1:
            n = hostile(rng).replace('/', '')
        elif u < 0.15:
            n = n[:rng.randint(0, len(n))]
        out.append(rng.choice(['-', '-', '-', '-', '--', '']) + n)
        u = rng.random()
        if u < 0.35:
            out.append(rng.choice(NUMS + ['3', '7', '1e-3']))
        elif u < 0.55:
            out.append(rng.choice(ENUMS))
        elif u < 0.75:
            out.append(rng.choice(files))
        elif u < 0.9:
            out.append(rng.choice([hostile(rng), 'x' * rng.choice([1, 100, 255, 256, 500, 1000, 1023, 1024, 1025, 1096, 4096, 70000]), '', ' ', '%s%n', '-', '-1', '=']))
    out = [x.replace('\0', '').replace('/', '_').replace('..', '_') for x in out]
    if rng.random() < 0.02:
        out += ['-x%d' % i for i in range(rng.choice([100, 255, 256, 257, 1000]))]
    return out


def lines(rng, m):
    out = []
    for _ in range(rng.choice([1, 2, 5, 20, 100])):
        u = rng.random()
        a, z = str(rng.randrange(m.nA)), str(rng.randrange(m.nZ))
        if u < 0.4:
            out.append('%s %s' % (a, z))
        elif u < 0.6:
            out.append('%s %s' % (rng.choice([a, rng.choice(NUMS)]), rng.choice([z, rng.choice(NUMS)])))
        elif u < 0.7:
            out.append(rng.choice(['', ' ', a, a + ' ' + z + ' 1', a + '\t' + z, '  ' + a + '  ' + z + '  ', '%s %n', 'q', 'quit', a + ',' + z]))
        elif u < 0.9:
            out.append(hostile(rng))
        else:
            out.append('%s %s' % (hostile(rng), hostile(rng)))
    s = '\n'.join(out)
    return (s + ('\n' if rng.random() < 0.7 else '')).encode('latin-1', 'replace')


KINDS = ['terminal', 'alpha', 'alpha', 'belief', 'pg', 'pg', 'config', 'config', 'lines', 'words', 'words', 'words']


def make(rng):
    """-> program, words, files {name: bytes}, stdin, kind, how"""
    kind = rng.choice(KINDS)
    m = Mo.gen(rng, nS=rng.choice([1, 2, 2, 3]), nA=rng.choice([1, 2, 3]), nZ=rng.choice([1, 2]), discs=(0.5, 0.9))
    al = lambda: alpha_text(rng, m.nS, m.nA)
    files = {'m.POMDP': Mo.to_text(m), 'one': al(), 'two': al(), 'bel': belief_text(rng, m.nS), 'g.pg': pg_text(rng, m.nA, m.nZ), 'config': config_text(rng)}
    st = ['-states', str(m.nS)]
    stdin, how = None, ''
    prog = 'pomdp-tools'
    if kind == 'terminal':
        prog = 'pomdp-solve'
        files['one'], how = mutate(rng, files['one'], files['bel'])
        a = ['-pomdp', 'm.POMDP', '-o', 'm', '-horizon', '1', '-method', rng.choice(['incprune', 'witness', 'enum', 'twopass', 'grid']), '-terminal_values', 'one']
    elif kind == 'alpha':
        files['one'], how = mutate(rng, files['one'], files['bel'])
        if rng.random() < 0.3:
            files['two'], _ = mutate(rng, files['two'], files['g.pg'])
        a = rng.choice([['compare_alphas', '-alpha1', 'one', '-alpha2', 'two'], ['compare_alphas', '-alpha1', 'two', '-alpha2', 'one'], ['map_beliefs', '-belief', 'bel', '-alpha1', 'one'],
                        ['purge_alphas', '-alpha1', 'one'], ['sort_alphas', '-alpha1', 'one'], ['belief_alpha_compare', '-belief', 'bel', '-alpha1', 'one', '-alpha2', 'two'],
                        ['pg_relink', '-pomdp', 'm.POMDP', '-alpha1', 'one', '-alpha2', 'two', '-pg1', 'g.pg'], ['pg_relink', '-pomdp', 'm.POMDP', '-alpha1', 'two', '-alpha2', 'one', '-pg1', 'g.pg']])
        a = ['-tool'] + a + ['-o', 'out'] + (st if a[0] != 'pg_relink' else [])
        if rng.random() < 0.15 and '-states' in a:
            a[-1] = str(rng.choice([1, 2, 3, 4, 7, 50, 100000]))
    elif kind == 'belief':
        files['bel'], how = mutate(rng, files['bel'], files['one'])
        a = rng.choice([['map_beliefs', '-belief', 'bel', '-alpha1', 'one'], ['belief_alpha_compare', '-belief', 'bel', '-alpha1', 'one', '-alpha2', 'two']])
        a = ['-tool'] + a + ['-o', 'out'] + st
    elif kind == 'pg':
        files['g.pg'], how = mutate(rng, files['g.pg'], files['one'])
        a = rng.choice([['pg_eval', '-pomdp', 'm.POMDP', '-pg1', 'g.pg'], ['pg_relink', '-pomdp', 'm.POMDP', '-alpha1', 'one', '-alpha2', 'two', '-pg1', 'g.pg', '-o', 'out']])
        a = ['-tool'] + a
    elif kind == 'config':
        solver = rng.random() < 0.6
        files['config'], how = config_mutated(rng, config_text(rng, not solver))
        a = ['-f', 'config']
        if solver:
            prog = 'pomdp-solve'
            a = ['-pomdp', 'm.POMDP', '-o', 'm', '-horizon', '1'] + a
        else:
            a = ['-tool', 'sort_alphas', '-alpha1', 'one', '-o', 'out'] + st + a
        # the configuration must not direct any output out of the scratch directory
        files['config'] = files['config'].replace(b'/', b'_').replace(b'..', b'_')
    elif kind == 'lines':
        a, stdin = ['-tool', 'update_beliefs', '-pomdp', 'm.POMDP'], lines(rng, m)
    else:
        prog = rng.choice(['pomdp-solve', 'pomdp-solve', 'pomdp-tools'])
        a = words(rng, prog)
        stdin = b'0 0\n'
    return prog, a, {k: v if isinstance(v, bytes) else v.encode() for k, v in files.items()}, stdin, kind, how


PER = 6


def huge(a, files, kind):
    """do the words or the configuration ask for sizes that may rightly take the memory or time allowed?"""
    w = [x.encode('latin-1', 'replace') for x in a] + (re.findall(rb'[^\s=]+', files['config']) if 'config' in a else [])
    return any(re.fullmatch(rb'["\']?[+]?[0-9]{4,}["\']?', x) or re.match(rb'["\']?[0-9.]+e[+]?[0-9]', x) for x in w)


def one(c, exes, rng):
    prog, a, files, stdin, kind, how = make(rng)
    variant = 'plain' if any('memory_limit' in x for x in a) or ('config' in a and b'memory_limit' in files['config']) else rng.choice(['asan', 'asan', 'msan'])
    with R.Scratch('c09') as d:
        for k, v in files.items():
            open(d + '/' + k, 'wb').write(v)
        r = R.run([exes[prog, variant]] + a, d, timeout=8, stdin=stdin, retry=False)
        if r.timeout and not huge(a, files, kind):
            r2 = R.run([exes[prog, 'plain']] + a, d, timeout=30, stdin=stdin, retry=False)
            slow = r2.timeout
        else:
            slow = False
        # with -stdout, what is said is in a file
        files_said = ''.join(open(os.path.join(d, f), errors='replace').read(20000) for f in os.listdir(d) if f not in files and os.path.isfile(os.path.join(d, f)))
    c.count(inputs=1)
    c.counts['kind_' + kind] += 1
    c.counts['by_' + variant] += 1
    cmd = '%s (%s) %s' % (prog, variant, ' '.join(repr(x) if len(x) < 200 else repr(x[:50]) + '...%d' % len(x) for x in a))
    doc = dict(files, words='\n'.join(a), stdin=stdin or b'')
    if r.timeout:
        if slow and not (kind in ('words', 'config') and re.search(r'Epoch: ', r2.out)):
            c.violation('hang:' + kind, '%s does not end\n%s' % (cmd, r2.brief()), **doc)
        elif slow:
            c.count(long_solutions=1)
        elif huge(a, files, kind):
            c.count(too_large=1)
        else:
            c.inconclusive.append('timeout')
        return
    if r.crashed:
        if re.search(r'allocation-size-too-big|out-of-memory|Out of memory', r.text) and huge(a, files, kind):
            c.count(too_large=1)
            return
        c.violation(kind + ':' + r.signature(), '%s\n%s' % (cmd, r.brief(1500)), **doc)
        return
    if r.rc == 0:
        c.count(accepted=1)
    else:
        c.count(refused=1)
        c.counts['refused_' + kind] += 1
        if not SAID.search(r.text + files_said):
            c.violation('silent:' + kind, '%s ends with status %s without a word: %r' % (cmd, r.rc, r.text[-300:]), **doc)


def case(exes, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    for j in range(PER):
        rng = core.case_rng(seed, 'C09', i, j)
        one(c, exes, rng)
        if c.violations:
            c.label += ' part=%d' % j
            return c
    c.nontrivial = (seed, i)
    rng = core.case_rng(seed, 'C09', i, 0)
    prog, a, files, stdin, kind, how = make(rng)
    c.sample = dict(program=prog, words=[x[:80] for x in a], input=kind, mutation=how)
    return c


def run(chk):
    exes = {(p, v): build.build(v, p) for p in ('pomdp-solve', 'pomdp-tools') for v in ('asan', 'msan', 'plain')}
    chk.rule = 'groups of %d hostile inputs: value-function, policy-graph, belief and configuration files, update lines and command lines; non-trivial: distinct groups that were all judged' % PER
    chk.assumptions = ['time is not judged where words ask for sizes of four digits and more, nor once a solution is being computed',
                       'runs under a memory limit are without sanitizers', 'names with a directory are not generated, for containment']
    chk.pmap(case, [(exes, chk.seed, i) for i in range(chk.n(1600, 60000))], quick_s=60, thorough_s=2400)
