"""The options of the solver as its option description documents them: kind, legal values, default."""
PURGE = ['none', 'domonly', 'normal_prune', 'epsilon_prune']
BOOL = ['false', 'true']
# name -> (kind, legal, default or None); numbers: (low, high or None)
SPEC = {
    'time_limit': ('int', (1, None), None),
    'memory_limit': ('int', (1, None), None),
    'horizon': ('int', (1, None), None),
    'history_length': ('int', (1, None), None),
    'history_delta': ('int', (1, None), None),
    'alg_rand': ('int', (0, None), '0'),
    'prune_rand': ('int', (0, None), '0'),
    'fg_points': ('int', (1, None), '10000'),
    'mcgs_prune_freq': ('int', (1, None), '100'),
    'mcgs_traj_iter_count': ('int', (1, None), '1'),
    'mcgs_num_traj': ('int', (1, None), '1000'),
    'mcgs_traj_length': ('int', (1, None), '100'),
    'discount': ('double', (0, 1), None),
    'stop_delta': ('double', (0, None), '1e-9'),
    'epsilon': ('double', (0, None), '1e-9'),
    'lp_epsilon': ('double', (0, None), '1e-9'),
    'prune_epsilon': ('double', (0, None), '1e-9'),
    'fg_epsilon': ('double', (0, None), '1e-9'),
    'start_epsilon': ('double', (0, None), None),
    'end_epsilon': ('double', (0, None), None),
    'epsilon_adjust': ('double', (0, None), None),
    'max_soln_size': ('double', (0, 2147483647), None),
    'method': ('enum', ['enum', 'twopass', 'linsup', 'witness', 'incprune', 'grid', 'mcgs'], 'incprune'),
    'inc_prune': ('enum', ['normal', 'restricted_region', 'generalized'], 'normal'),
    'enum_purge': ('enum', PURGE, 'normal_prune'),
    'fg_purge': ('enum', PURGE, 'normal_prune'),
    'proj_purge': ('enum', PURGE, 'normal_prune'),
    'q_purge': ('enum', PURGE, 'normal_prune'),
    'fg_type': ('enum', ['simplex', 'pairwise', 'search', 'initial'], 'initial'),
    'stop_criteria': ('enum', ['exact', 'weak', 'bellman'], 'weak'),
    'vi_variation': ('enum', ['normal', 'zlz', 'adjustable_epsilon', 'fixed_soln_size'], 'normal'),
    'save_all': ('enum', BOOL, 'false'),
    'save_penultimate': ('enum', BOOL, 'false'),
    'fg_save': ('enum', BOOL, 'false'),
    'dom_check': ('enum', BOOL, 'true'),
    'witness_points': ('enum', BOOL, 'false'),
    'stat_summary': ('enum', BOOL, 'false'),
}


def pairs(args):
    """['-a', 'x', ...] -> [('a', 'x'), ...]"""
    return [(args[i][1:], args[i + 1]) for i in range(0, len(args), 2)]


def args(pairs_):
    return [x for k, v in pairs_ for x in ('-' + k, v)]


def echo(out):
    """the settings block a run prints -> dict, and its text"""
    bar = '- - - - - - - - - - - - - - - - - - - -\n'
    p = out.split(bar)
    if len(p) < 3:
        return None, ''
    d = {}
    for line in p[1].split('\n'):
        if '=' in line:
            k, v = line.split('=', 1)
            d[k.strip()] = v.strip()
    return d, p[1]


def same(kind, a, b):
    if kind in ('int', 'double'):
        try:
            return float(a) == float(b)
        except ValueError:
            return False
    return a == b


def config_text(rng, ps):
    """the options as a configuration file, in any layout the reader documents"""
    out = []
    eol = rng.choice(['\n', '\n', '\n', '\r\n'])
    sp = lambda: rng.choice(['', ' ', '  ', '\t', ' \t '])
    for k, v in ps:
        while rng.random() < 0.3:
            out.append(rng.choice(['', '   ', '# a comment', '#horizon = 3', '  # x = y # z', '#']))
        if rng.random() < 0.4:
            out.append('%s = %s' % (k, v))
        else:
            out.append('%s%s%s=%s%s%s%s' % (sp(), k, sp(), sp(), v, sp(), rng.choice(['', '', '#', '# note', '#x = y'])))
    return eol.join(out) + rng.choice(['', eol, eol + eol, eol + '# end'])
