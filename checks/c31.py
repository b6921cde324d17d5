"""C31: memory use does not grow with the number of epochs.

The real solver with a counting allocator; the same model and options are run over h, 2h and 3h epochs, and
when the number of vectors is the same in all epochs from h/2 on, neither the live nor the peak heap may keep
growing (one statistics record per epoch is allowed for).  At the end of every run, whatever its numbers of vectors,
no more may be allocated than at the end of a run of one epoch and the vectors of the last two epochs account for."""
import os
import numpy as np
import build, fmt, model as Mo, run as R, solve as S
from core import Case, case_rng

HERE = os.path.dirname(os.path.abspath(__file__))
BLOCKS, BYTES = 1, 256       # per epoch: the record the statistics keep


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C31', i)
    m = Mo.gen(rng, maxS=3, maxA=3, maxZ=3, discs=(0.9, 0.95, 0.99, 1.0) if rng.random() < 0.9 else (0.5,))
    o = S.any_options(rng, m, methods=('incprune', 'incprune', 'witness', 'twopass', 'enum', 'grid', 'grid'), variations=('normal', 'normal', 'adjustable_epsilon', 'zlz'))
    for n in ('-proj_purge', '-q_purge', '-enum_purge', '-stop_criteria'):
        if n in o and (n == '-stop_criteria' or S.opt(o, n) in ('none', 'domonly')):
            j = o.index(n)
            del o[j:j + 2]
    zlz = S.opt(o, '-vi_variation') == 'zlz'
    if zlz and m.disc == 1:
        m = m.copy(disc=0.95)
    crit = rng.choice(['weak', 'exact', 'bellman'])
    o += ['-stop_criteria', crit, '-stop_delta', '0']
    for n in ('-save_all', '-save_penultimate', '-stat_summary', '-fg_save'):
        if rng.random() < 0.4 and (n != '-fg_save' or 'grid' in o):
            o += [n, 'true']
    h = 12 if 'enum' in o or 'twopass' in o else rng.choice([15, 15, 30])
    if zlz:
        h = 6
        o[o.index('-stop_delta') + 1] = '1e-9'
    rec = []
    with R.Scratch('c31') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        ex = []
        if rng.random() < 0.2:
            k = rng.randint(1, 3)
            fmt.write_alpha(d + '/t.alpha', [0] * k, np.array([[round(rng.uniform(-9, 9), 2) for _ in range(m.nS)] for _ in range(k)]))
            ex = ['-terminal_values', 't.alpha']
        first = None
        for n in (3 * h, 1, h, 2 * h):
            args = [exe, '-pomdp', 'm.POMDP', '-o', 's'] + o + ex + ['-horizon', str(n)]
            r = R.run(args, d, timeout=6, retry=False, env={'MEMMON_OUT': d + '/mem'})
            cmd = ' '.join(args[1:])
            if r.timeout:
                c.inconclusive.append('timeout')
                return c
            if r.rc != 0 or r.crashed:
                c.violation('solver-failed:' + r.signature(), '%s\n%s' % (cmd, r.brief()), model=Mo.to_text(m))
                return c
            ep = fmt.epochs(r.out)
            sizes = [e[1] for e in ep]
            mem = [int(x) for x in open(d + '/mem').read().split()]
            if n == 1:
                # what the epochs after the first left behind at the end of the run, apart from the vectors of the last two
                c.count(ends_compared=1)
                k, last, left = first
                slack = 4 * sum(last) + 16
                if left[0] - mem[0] > BLOCKS * k + slack:
                    c.violation('left-behind', '%s\n%d epochs leave %d blocks (%d bytes) allocated at the end of the run, one epoch leaves %d (%d bytes); the last value functions have %s vectors' % (
                        cmd, k, left[0], left[1], mem[0], mem[1], last), model=Mo.to_text(m), cmd=cmd)
                    return c
                if len(allsizes) != 3 * h or len(set(allsizes[h // 2:])) != 1:
                    return c
                continue
            if first is None:
                if not sizes:
                    return c
                first = (len(sizes), sizes[-2:], mem)
                allsizes = sizes
                if len(sizes) != n:
                    c.count(stopped_early=1)
                elif len(set(sizes[h // 2:])) != 1:
                    c.count(unstable=1)
                c.nontrivial = ('end', Mo.to_text(m), tuple(o)) if len(sizes) > 2 else None
                if len(sizes) == n:
                    rec.append((n, mem))
                continue
            if len(sizes) != n:
                c.count(stopped_early=1)
                return c
            rec.append((n, mem))
        rec.sort()
        for k, name, allow in ((0, 'live blocks', BLOCKS), (1, 'live bytes', BYTES), (2, 'peak blocks', BLOCKS), (3, 'peak bytes', BYTES)):
            g = [(b[1][k] - a[1][k]) / h for a, b in zip(rec, rec[1:])]
            if min(g) > allow * 1.01:
                c.violation('growth:' + name, '%s\n%s grow by %.2f and %.2f per epoch while the number of vectors stays %d' % (cmd, name, g[0], g[1], sizes[-1]), model=Mo.to_text(m), cmd=cmd)
                return c
        c.count(series=1, epochs=6 * h, allocations=sum(x[1][4] for x in rec))
        c.counts['method_' + S.opt(o, '-method')] += 1
        c.nontrivial = (Mo.to_text(m), tuple(o))
        c.sample = dict(model=m.tag, options=o, epochs=[x[0] for x in rec], live_bytes=[x[1][1] for x in rec], peak_bytes=[x[1][3] for x in rec])
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve', extra_src=[os.path.join(build.VERIF, 'lib', 'memmon.c')], out='memmon')
    chk.rule = ('random models and options of all methods run over h, 2h and 3h epochs with a counting allocator; non-trivial: distinct series '
                'of more than two epochs, compared at their end with a run of one epoch; those whose number of vectors is constant from epoch h/2 on also for growth')
    chk.assumptions = ['one statistics record (a block of at most 256 bytes) per epoch is allowed']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(900, 20000))], quick_s=60, thorough_s=1500)
