"""C30: a failing file or memory operation is reported.

Reference runs of the solver and of every tool tell which files are opened and how much memory is requested; then the
same run is repeated in fresh directories, each time with one failing call: a file that cannot be opened, a disk that
is full after so many bytes, an error on closing or reading, a refused request for memory - injected at the program's
own calls, or made real with a full device, a missing directory, a directory in the place of a file and a limited
address space. Crashes are watched for by the sanitizers and the signal; silence is measured against the reference."""
import fnmatch, os, re
import numpy as np
import core, fault, fmt, model as Mo, run as R, solve as S, tools

COMPLAINT = re.compile(r'error|warning|abort|cannot|could not|fail|memory|not enough|insufficient|no space|exhausted|\bERR\b', re.I)
PID = re.compile(r'##pomdp-solve-\d+##')
GLOB = '##pomdp-solve-*##'


def norm(s):
    return PID.sub(GLOB, s)


def solver_setup(rng):
    m = Mo.gen(rng, maxS=4, maxA=3, maxZ=3)
    o = S.any_options(rng, m)
    h = S.blowup_limit(o, S.pick_horizon(rng, m, 4), m)
    files = {'m.POMDP': Mo.to_text(m)}
    if '-rand_seed' not in o:
        o += ['-rand_seed', '3:4:5']
    if rng.random() < 0.5:
        o += ['-save_all', 'true']
    if rng.random() < 0.5:
        o += ['-save_penultimate', 'true']
    if 'grid' in o:
        o += ['-fg_save', 'true']
    if rng.random() < 0.3:
        o += ['-stdout', 'report']
    if rng.random() < 0.3:
        k = rng.randint(1, 4)
        files['terminal'] = ''.join('%d\n%s\n\n' % (a, ' '.join('%.25f' % rng.uniform(-5, 5) for _ in range(m.nS))) for a in [0] * k)
        o += ['-terminal_values', 'terminal']
    if rng.random() < 0.3:
        files['config'] = ''.join('%s = %s\n' % (o[i][1:], o[i + 1]) for i in range(0, len(o), 2)) + '# ' + 'x' * 300 + '\nhorizon = %d\n' % h
        o = ['-f', 'config']
    else:
        o += ['-horizon', str(h)]
    return 'pomdp-solve', ['-pomdp', 'm.POMDP', '-o', 'm'] + o, files, None, m.tag


def tool_setup(rng):
    name = rng.choice(['compare_alphas', 'map_beliefs', 'purge_alphas', 'sort_alphas', 'pg_eval', 'pg_relink', 'belief_alpha_compare', 'update_beliefs'])
    m = Mo.gen(rng, maxS=3, maxA=3, maxZ=2, discs=(0.5, 0.9))
    V = [tools.separated(rng, rng.randint(2, 6), m.nS) for _ in range(2)]
    al = lambda W: ''.join('%d\n%s\n\n' % (rng.randrange(m.nA), ' '.join('%.25f' % x for x in v)) for v in W)
    n = len(V[0])
    files = {'m.POMDP': Mo.to_text(m), 'one': al(V[0]), 'two': al(V[1]),
             'bel': ''.join(' '.join('%.17f' % x for x in b) + '\n' for b in Mo.simplex_points(rng, m.nS, 5)),
             'g.pg': ''.join('%d %d  %s\n' % (k, rng.randrange(m.nA), ' '.join(str(rng.randrange(n)) for _ in range(m.nZ))) for k in range(n))}
    st = ['-states', str(m.nS)]
    a = {'compare_alphas': ['-alpha1', 'one', '-alpha2', 'two', '-o', 'out'] + st, 'map_beliefs': ['-belief', 'bel', '-alpha1', 'one', '-o', 'out'] + st,
         'purge_alphas': ['-alpha1', 'one', '-o', 'out'] + st, 'sort_alphas': ['-alpha1', 'one', '-o', 'out'] + st,
         'belief_alpha_compare': ['-belief', 'bel', '-alpha1', 'one', '-alpha2', 'two', '-o', 'out'] + st,
         'pg_eval': ['-pomdp', 'm.POMDP', '-pg1', 'g.pg'], 'update_beliefs': ['-pomdp', 'm.POMDP'],
         'pg_relink': ['-pomdp', 'm.POMDP', '-alpha1', 'one', '-alpha2', 'two', '-pg1', 'g.pg', '-o', 'out']}[name]
    stdin = '0 0\n%d %d\nx\n0 0\n' % (m.nA - 1, m.nZ - 1) if name == 'update_beliefs' else None
    return 'pomdp-tools', ['-tool', name] + a, files, stdin, '%s %s' % (name, m.tag)


def outputs(d, before):
    out = {}
    for f in sorted(os.listdir(d)):
        if f in before or f.startswith('.') or os.path.isdir(os.path.join(d, f)):
            continue
        out[norm(f)] = None if os.path.islink(os.path.join(d, f)) else open(os.path.join(d, f), errors='replace').read()
    return out


TIMES = re.compile(r'[\d.]+ (secs|mins|hrs|total)|PID.*|pid.*|= [\d.e+-]+ secs', re.I)


def quiet(files, name):
    """what a file must hold when all went well: timings apart"""
    return None if files.get(name) is None else TIMES.sub('', norm(files[name])) if name == 'report' else files[name]


def setup(d, files):
    for k, v in files.items():
        with open(os.path.join(d, k), 'w') as f:
            f.write(v)


def spoken(r, files):
    return [l.strip() for l in norm(r.out + '\n' + r.err + '\n' + (files.get('report') or '')).split('\n') if COMPLAINT.search(l)]


def pick(rng, log, ref, reads, thorough):
    """one failing call; -> (spec, kind, pattern) or a real condition"""
    u = rng.random()
    w = sorted(set(norm(x) for x in log.written))
    if u < 0.35:
        hi = log.requests
        at = rng.choice([rng.randint(1, hi), rng.randint(1, min(hi, 400)), max(1, int(hi * rng.random() ** 3)), rng.randint(max(1, hi - 300), hi)])
        return '%s:%d' % (rng.choice(['alloc', 'allocs']), at), 'memory', None
    if u < 0.45 or not w:
        r = sorted(set(log.read))
        p = rng.choice(r)
        k = len(reads.get(p, ''))
        return 'read:%d:%s' % (rng.choice([0, k, k - 1, rng.randint(0, k), rng.randint(0, k)]), p), 'read', p
    p = rng.choice(w)
    size = len(ref.get(p) or 'x' * 400)
    if u < 0.55:
        return 'open:' + p, 'open', p
    if u < 0.63:
        return 'close:0:' + p, 'close', p
    if rng.random() < 0.2:
        # everything written counts together: a disk that fills up
        return 'write:%d:*' % rng.randint(0, sum(len(v or '') for v in ref.values())), 'write', '*'
    return '%s:%d:%s' % (rng.choice(['write', 'once']), rng.choice([0, size - 1, rng.randint(0, max(0, size - 1))]), p), 'write', p


def judge(c, kind, where, r, ref_r, ref, got, spoke, said, struck, info, files):
    bad = lambda sg, msg: c.violation(sg, '%s: %s\n%s' % (info, msg, r.brief(400)), **files)
    if r.crashed:
        bad('crash:%s:%s' % (kind, r.signature()), 'crashed')
        return
    if not struck:
        if kind != 'memory-limit' and (r.rc != ref_r.rc or any(quiet(got, f) != quiet(ref, f) for f in ref)):
            bad('changed', 'nothing failed, but the outcome is another one')
        return
    c.count(**{'struck_' + kind: 1})
    new = [l for l in spoke if l not in said]
    if not new and kind == 'read' and r.rc == ref_r.rc and all(quiet(got, f) == quiet(ref, f) for f in ref):
        # the failing call came after all that is needed had been read
        c.count(read_enough=1)
        return
    if not new:
        bad('silent:%s:%s' % (kind, where), 'a failing call (%s of %s) was not reported; exit status %s' % (kind, where, r.rc))
        return
    if kind.startswith('memory') and r.rc == 0 and any(quiet(got, f) != quiet(ref, f) for f in ref):
        bad('success:%s' % kind, 'memory was refused, the files differ from those of an undisturbed run, and the exit status says success')
        return
    c.count(reported=1)


def case(exes, seed, i, per, thorough):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C30', i)
    prog, args, files, stdin, tag = (solver_setup if rng.random() < 0.6 else tool_setup)(rng)
    exe = exes[prog, 'plain']
    cmd = prog + ' ' + ' '.join(args)
    doc = dict({k: v for k, v in files.items()}, cmd=cmd)
    with R.Scratch('c30') as d:
        setup(d, files)
        r0, log = fault.go(exe, args, d, stdin=stdin, timeout=8, retry=False)
        if r0.timeout:
            c.inconclusive.append('timeout')
            return c
        if r0.rc != 0 or r0.crashed or log.requests is None:
            c.violation('reference:' + r0.signature(), '%s\n%s' % (cmd, r0.brief()), **doc)
            return c
        ref = outputs(d, files)
        said = spoken(r0, ref)
    c.count(references=1, requests=log.requests, files_written=len(log.written), files_read=len(log.read))
    kinds = set()
    for j in range(per):
        spec, kind, where = pick(rng, log, ref, files, thorough)
        asan = rng.random() < 0.15
        with R.Scratch('c30') as d:
            setup(d, files)
            r, l = fault.go(exes[prog, 'asan' if asan else 'plain'], args, d, spec, stdin=stdin, timeout=60 if asan else 10)
            got = outputs(d, files)
        if r.timeout:
            c.inconclusive.append('timeout')
            continue
        n = len(c.violations)
        w = os.path.basename(where or '-')
        judge(c, kind, re.sub(r'\d+$', '#', w), r, r0, ref, got, spoken(r, got), said, l.struck, '%s with FAULTMON=%s' % (cmd, spec), dict(doc, err=r.err, out=r.out))
        kinds.add((kind, w, prog, l.struck is not None))
        c.count(injected=1, injected_asan=asan)
        if len(c.violations) > n:
            return c
    # conditions of the real system
    kind = rng.choice(['full-device', 'is-directory', 'no-directory', 'memory-limit'])
    w = [f for f in ref if '##' not in f and (ref[f] or kind != 'full-device')]
    a, limit = list(args), None
    with R.Scratch('c30') as d:
        setup(d, files)
        where, struck = kind, True
        if kind == 'memory-limit':
            limit = int(rng.uniform(2.2e6, 12e6))
        elif not w:
            return c
        elif kind == 'no-directory':
            if '-o' not in a or (prog == 'pomdp-tools' and not ref):
                return c
            a[a.index('-o') + 1] = 'missing/x'
            where = 'out'
        else:
            where = rng.choice(w)
            if kind == 'is-directory':
                os.mkdir(os.path.join(d, where))
            else:
                os.symlink('/dev/full', os.path.join(d, where))
        r = R.run([exe] + a, d, stdin=stdin, timeout=10, mem=limit, env={})
        got = outputs(d, files)
    if r.timeout:
        c.inconclusive.append('timeout')
        return c
    if limit:
        struck = r.rc != 0 or any(quiet(got, f) != quiet(ref, f) for f in ref)
    judge(c, kind, re.sub(r'\d+$', '#', where), r, r0, ref, got, spoken(r, got), said, struck, '%s with %s %s' % (cmd, kind, limit or where), dict(doc, err=r.err, out=r.out))
    c.count(real_conditions=1)
    c.nontrivial = (tag, cmd, tuple(sorted(kinds, key=repr)))
    c.sample = dict(program=prog, args=args, model=tag, requests=log.requests, failed=sorted('%s %s%s' % (k, w, '' if s else ' (not reached)') for k, w, _, s in kinds), then=kind)
    return c


def run(chk):
    exes = {(p, v): fault.monitor(v, p) for p in ('pomdp-solve', 'pomdp-tools') for v in ('plain', 'asan')}
    chk.rule = ('runs of the solver (all methods, saving options, report, configuration and terminal-value files) and of all tools, each repeated with single failing calls; '
                'non-trivial: distinct command and model with the distinct failing calls that were tried')
    chk.assumptions = ['requests for memory and files that libc makes for itself are not refused', 'standard error can be written',
                       'a report is a line, not in the undisturbed run, that speaks of an error, warning, failure or lack of memory']
    chk.pmap(case, [(exes, chk.seed, i, chk.n(8, 20), chk.thorough) for i in range(chk.n(900, 15000))], quick_s=120, thorough_s=2000)
