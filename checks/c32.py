"""C32: the times a run reports add up.

The real solver with a processor clock under the test's control (lib/clockmon.c), which advances by random amounts at
each reading: every time in the epoch lines, the totals and the statistics summary has to be explained by the
log of the readings, exactly, in hundredths of a second."""
import os, re
import build, core, model as Mo, run as R, solve as S

LINE = re.compile(r'Epoch: (\d+)\.\.\.(?:\d+ DP vectors in ([\d.]+) secs\.\n  ZLZ: \.*)?(\d+) vectors in ([\d.-]+) secs\. \(([\d.-]+) total\) \(err=')
FINAL = re.compile(r'^(User time|System time|Total execution time) = (\d+) hrs\., (\d+) mins, ([\d.-]+) secs\. \(= ([\d.-]+) secs\)$', re.M)
ROW = re.compile(r'^ *(\d+) +(\d+) +(\S+) +([\d.-]+) +(N/A|[\d.e+-]+?)((?: +[\d.-]+){6}) *$', re.M)
TOTALS = re.compile(r'^ *Totals((?: +[\d.-]+){7}) *$', re.M)
CONTEXT = re.compile(r'^\t([\w-]+) time: ([\d.-]+) secs\.$', re.M)
CSUM = re.compile(r'^  Total context time: ([\d.-]+) secs\.$', re.M)
LEGEND = re.compile(r'^\t(\w+) = ([\w-]+) time$', re.M)


def cs(t):
    return int(round(float(t) * 100))


def explain(log, epochs, final):
    """is there a reading at which the solution started, and for each epoch readings at its start and end, in order,
    from which all reported times follow"""
    t = [u + s for u, s in log]
    at = {}
    for k, x in enumerate(t):
        at.setdefault(x, []).append(k)
    user, system = final

    def from_start(r0):
        last = r0
        for time, total, dp in epochs:
            for b in at.get(t[r0] + total, []):
                if b < last:
                    continue
                a = next((k for k in at.get(t[b] - time, []) if last <= k <= b), None)
                if a is None:
                    continue
                if dp is not None and not any(k <= b for k in at.get(t[a] + dp, [])):
                    continue
                last = b
                break
            else:
                return False
        u, s = log[r0]
        return any(log[e] == (u + user, s + system) for e in range(last, len(log)))
    return any(from_start(r) for r in range(len(log)))


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C32', i)
    m = Mo.gen(rng, maxS=3, maxA=3, maxZ=3) if rng.random() < 0.96 else Mo.wide(rng, 'long')
    opts = S.any_options(rng, m, variations=('normal', 'normal', 'adjustable_epsilon', 'zlz'))
    zlz = S.opt(opts, '-vi_variation') == 'zlz'
    if zlz and m.disc == 1.0:
        m = m.copy(disc=0.9)
    if rng.random() < 0.2:
        opts += ['-save_all', 'true']
    if rng.random() < 0.3:
        opts += ['-stop_delta', rng.choice(['0.01', '2.0'])]
    h = S.blowup_limit(opts, rng.choice([1, 2, 3, 5, 8, 12]), m)
    if zlz:
        h = min(h, 4)
    summary = rng.random() < 0.8
    with R.Scratch('c32') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        args = [exe, '-pomdp', 'm.POMDP', '-o', 's'] + opts + ['-horizon', str(h)] + (['-stat_summary', 'true'] if summary else [])
        cmd = ' '.join(args[1:])
        log = d + '/log'
        r = R.run(args, d, timeout=10, retry=False, env={'CLOCK_SEED': str(rng.randrange(10 ** 9)), 'CLOCK_LOG': log})
        bad = lambda sig, msg: c.violation(sig, '%s\n%s\nmodel %s' % (msg, cmd, m.tag), model=Mo.to_text(m), stdout=r.out)
        if r.timeout:
            c.inconclusive.append('timeout')
            return c
        if r.rc != 0 or r.crashed:
            bad('solver-failed:' + r.signature(), r.brief())
            return c
        if not os.path.exists(log):
            c.inconclusive.append('the clock was not read')
            return c
        log = [tuple(int(x) for x in l.split()) for l in open(log)]
        ep = [(cs(x.group(4)), cs(x.group(5)), x.group(2) and cs(x.group(2))) for x in LINE.finditer(r.out)]
        nums = [int(x.group(1)) for x in LINE.finditer(r.out)]
        fin = {x.group(1): x for x in FINAL.finditer(r.out)}
        if len(fin) != 3 or not ep:
            bad('layout', 'epoch lines or execution times are missing')
            return c
        val = {k: cs(x.group(5)) for k, x in fin.items()}
        for k, x in fin.items():
            if int(x.group(2)) * 360000 + int(x.group(3)) * 6000 + cs(x.group(4)) != val[k] or int(x.group(3)) > 59 or cs(x.group(4)) > 6000:
                bad('hours', '%s: hours, minutes and seconds differ from the seconds: %s' % (k, x.group(0)))
                return c
        if val['User time'] + val['System time'] != val['Total execution time']:
            bad('user-system', 'user %s and system %s do not give %s' % tuple(fin[k].group(5) for k in ('User time', 'System time', 'Total execution time')))
            return c
        before = 0
        for n, (time, total, dp) in zip(nums, ep):
            if time < 0 or total < before + time:
                bad('epoch-total', 'epoch %d took %d and ended at %d, the one before it ended at %d' % (n, time, total, before))
                return c
            if dp is not None and not 0 <= dp <= time:
                bad('epoch-part', 'epoch %d: a part of it took longer than the epoch' % n)
                return c
            before = total
        if val['Total execution time'] < before:
            bad('total', 'the run took less than its epochs')
            return c
        if not explain(log, ep, (val['User time'], val['System time'])):
            bad('clock', 'the times reported are no differences of the clock readings made: epochs %s, user %d, system %d\nreadings %s' % (ep, val['User time'], val['System time'], log[:60]))
            return c
        c.count(epochs=len(ep), readings=len(log), runs=1)
        if summary:
            text = r.out[r.out.rindex('++++'):]
            rows = ROW.findall(text)
            if [int(x[0]) for x in rows] != nums or [cs(x[3]) for x in rows] != [e[0] for e in ep]:
                bad('summary-rows', 'the times of the summary rows, %s, are not those of the epochs, %s' % ([(x[0], x[3]) for x in rows], ep))
                return c
            ctx = [[cs(v) for v in x[5].split()] for x in rows]
            for n, e, x in zip(nums, ep, ctx):
                if min(x) < 0 or sum(x) > e[0]:
                    bad('parts', 'epoch %d took %d, its parts %s' % (n, e[0], x))
                    return c
            tot = TOTALS.search(text)
            want = [sum(e[0] for e in ep)] + [sum(x[j] for x in ctx) for j in range(6)]
            if not tot or [cs(v) for v in tot.group(1).split()] != want:
                bad('totals', 'totals %s, the rows add up to %s' % (tot and tot.group(0), want))
                return c
            legend = dict((a, b) for a, b in LEGEND.findall(text))
            head = re.search(r'^Epoch  Size +Err +Time +Epsilon((?: +\w+){6}) *$', text, re.M)
            cols = head.group(1).split() if head else []
            parts = {a: cs(b) for a, b in CONTEXT.findall(text)}
            if sorted(legend) != sorted(cols) or [parts.get(legend[x]) for x in cols] != want[1:]:
                bad('contexts', 'times per part %s, the summary has %s for %s' % (parts, want[1:], cols))
                return c
            s = CSUM.search(text)
            if not s or cs(s.group(1)) != sum(want[1:]):
                bad('contexts', 'total context time %s, the parts add up to %s' % (s and s.group(1), sum(want[1:])))
                return c
            by = dict(zip(cols, want[1:]))
            if by['Zlz'] and not zlz:
                bad('contexts', 'time for a speedup that was not asked for')
                return c
            if S.opt(opts, '-method') == 'grid' and (by['QaB'] or by['QaM']):
                bad('contexts', 'time for steps the method does not have')
                return c
            c.count(summaries=1)
        if len({e[0] for e in ep}) > 1 or len(ep) == 1 and ep[0][0]:
            c.nontrivial = (m.tag, tuple(opts), tuple(ep))
        c.sample = {'model': m.tag, 'options': opts, 'epochs (time, total, first part)': ep[:6], 'readings': len(log), 'user': val['User time'], 'system': val['System time']}
    return c


def exes():
    return build.build('plain', 'pomdp-solve', extra_src=[os.path.join(build.VERIF, 'lib', 'clockmon.c')], out='clockmon')


def run(chk):
    exe = exes()
    chk.rule = 'random models and configurations under a clock that advances at random at its readings; non-trivial: distinct, with epochs of different length'
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(2500, 40000))], quick_s=60, thorough_s=1200)
