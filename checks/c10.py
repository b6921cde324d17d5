"""C10: saved per-epoch and penultimate files are those of the epochs they are named after.

Paired-run monitor: one run that saves everything against separate runs of each horizon that save nothing."""
import os, re
import build, core, fmt, model as Mo, run as R, solve as S


def read(p):
    try:
        return open(p, 'rb').read()
    except OSError:
        return None


def reordered(a, p, b):
    """the same vectors in another order, which only ties allow"""
    if b is None:
        return False
    x, y = a.split(b'\n\n'), b.split(b'\n\n')
    return sorted(x) == sorted(y) and ties([v.split()[1:] for v in x if v.strip()])


def ties(V):
    V = sorted([[float(t) for t in v] for v in V])
    # components that differ by rounding alone: the order is decided to 1e-15 and depends on what came first
    for col in zip(*V):
        col = sorted(set(col))
        if any(0 < y - x <= 1e-11 * max(1, abs(x)) for x, y in zip(col, col[1:])):
            return True
    return any(all(abs(s - t) <= 1.001e-9 for s, t in zip(u, v)) for k, u in enumerate(V) for v in V[k + 1:k + 6])


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C10', i)
    m = Mo.wide(rng, 'long') if rng.random() < 0.1 else Mo.pick(rng, maxS=4, maxZ=3)
    zlz = m.disc < 1 and rng.random() < 0.12
    if zlz:
        opts = S.exact_options(rng, m, rng.choice(['incprune', 'incprune', 'witness']), parsimonious=True) + ['-vi_variation', 'zlz']
    else:
        opts = S.any_options(rng, m)
    if '-rand_seed' not in opts:
        opts += ['-rand_seed', '%d:%d:%d' % tuple(rng.randint(1, 30000) for _ in range(3))]
    h = S.blowup_limit(opts, S.pick_horizon(rng, m) if m.wide else rng.choice([1, 2, 3, 4, 5, 6, 12]), m)
    if h == 12 and m.nS > 2:
        h = 5
    if rng.random() < 0.3:
        opts += ['-stop_delta', rng.choice(['0.5', '3', '0.01'])]
    saving = rng.choice([['-save_all', 'true'], ['-save_all', 'true'], ['-save_all', 'true', '-save_penultimate', 'true'],
                         ['-save_penultimate', 'true', '-save_all', 'true'], ['-save_penultimate', 'true']])
    tv = rng.random() < 0.15
    with R.Scratch('c10') as d:
        text = Mo.to_text(m)
        open(d + '/m.POMDP', 'w').write(text)
        if tv:
            fmt.write_alpha(d + '/t.alpha', [0, 0], [[rng.randint(-5, 5) for _ in range(m.nS)] for _ in range(2)], 6)
            opts += ['-terminal_values', 't.alpha']
        base = [exe, '-pomdp', 'm.POMDP'] + opts
        full = base + ['-o', 'x', '-horizon', str(h)] + saving
        res = R.run(full, d, timeout=10, retry=False)
        cmd = ' '.join(full)
        if res.timeout:
            c.inconclusive.append('timeout')
            return c
        if res.rc != 0 or 'Solution found' not in res.out:
            c.violation('solver-failed:' + res.signature(), cmd + '\n' + res.brief(), model=text)
            return c
        last = int(re.findall(r"Epoch: (\d+)\.\.\.", res.out)[-1])
        alln = '-save_all' in saving
        some = range(1, last + 1)
        if last > 14:
            some = sorted(set(rng.sample(some, 6)) | {last - 1, last})
        for n in some:
            alone = base + ['-o', 'y%d' % n, '-horizon', str(n)]
            if zlz and alln and n < last:
                # the files of an epoch are written before its acceleration, the solution after it
                alone += ['-save_all', 'true']
            r = R.run(alone, d, timeout=10, retry=False)
            if r.timeout:
                c.inconclusive.append('timeout')
                return c
            fa, fp = read(d + '/y%d.alpha' % n), read(d + '/y%d.pg' % n)
            if r.rc != 0 or fa is None or fp is None:
                c.violation('solver-failed:' + r.signature(), ' '.join(alone) + '\n' + r.brief(), model=text)
                return c
            names = []
            if alln and not zlz:
                names += [('x.alpha%d' % n, fa), ('x.pg%d' % n, fp)]
            elif alln and n < last:
                names += [('x.alpha%d' % n, read(d + '/y%d.alpha%d' % (n, n)) or b'missing')]
                c.count(accelerated=1)
            elif alln and read(d + '/x.alpha%d' % n) is None:
                c.violation('missing', '%s left no x.alpha%d' % (cmd, n), model=text)
                return c
            if n == last:
                names += [('x.alpha', fa), ('x.pg', fp)]
            if n == last - 1 and '-save_penultimate' in saving:
                names += [('x.prev.alpha', fa)]
            for f, ref in names:
                got = read(os.path.join(d, f))
                c.count(files=1, bytes=len(ref))
                if got != ref:
                    if got is not None and reordered(fa, fp, read(os.path.join(d, f.replace('.pg', '.alpha')))):
                        # equal vectors may come in any order, and what is built on them differs then
                        c.count(tie_orders=1)
                        c.inconclusive.append('tie')
                        return c
                    c.violation('file-differs:' + f.rstrip('0123456789'), '%s of %s is not the result of a run with horizon %d: %s' %
                                (f, cmd, n, 'missing' if got is None else '%d and %d bytes' % (len(got), len(ref))), model=text,
                                saved=got or b'', alone=ref)
                    return c
        extra = [f for f in os.listdir(d) if f.startswith('x.') and f not in
                 ({'x.alpha', 'x.pg'} | ({'x.prev.alpha'} if '-save_penultimate' in saving and last > 1 else set()) |
                  ({'x.alpha%d' % n for n in range(1, last + 1)} if alln and zlz else {'x.%s%d' % (k, n) for n in range(1, last + 1) for k in ('alpha', 'pg')} if alln else set()))]
        if extra:
            c.violation('extra-files', '%s also wrote %s' % (cmd, sorted(extra)), model=text)
        c.nontrivial = (m.tag, tuple(opts), last, fa) if last > 1 else None
        c.sample = {'model': m.tag, 'options': opts, 'saving': saving, 'epochs compared': last}
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = ('random models, methods, approximate options and saving options; each saved file compared byte for byte with a run of that '
                'horizon; non-trivial: distinct and more than one epoch')
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2200, 40000))], quick_s=100, thorough_s=1500)
