"""C28: what a run reports about itself is what it did.

Trace checker of stdout (or the -stdout file), the summary table and the files of one run."""
import glob, os, re
import numpy as np
import build, core, fmt, model as Mo, run as R, solve as S, stop

LINE = re.compile(r'^Epoch: (\d+)\.\.\.(?:(\d+) DP vectors in [\d.]+ secs\.\n  ZLZ: \.*)?(\d+) vectors in ([\d.]+) secs\. \(([\d.]+) total\) \(err=([^)]+)\)$', re.M)
ROW = re.compile(r'^ *(\d+) +(\d+) +(inf|[\d.]+e[+-]\d+|-?nan|-inf|-[\d.e+-]+) +([\d.]+) +(N/A|[\d.e+-]+)((?: +[\d.]+){6}) *$', re.M)
VERBOSE = 'context lp global timing stats cmdline main alpha proj crosssum agenda enum twopass linsup witness incprune lpinterface vertexenum mdp pomdp param parsimonious region approx_mcgs zlz_speedup finite_grid mcgs'.split()
BAR = '++++++++++++++++++++++++++++++++++++++++\n'


def printed(x):
    return '%.2e' % x


def case(exe, seed, i):
    c = core.Case('seed=%d case=%d' % (seed, i))
    rng = core.case_rng(seed, 'C28', i)
    m = Mo.pick(rng, maxS=4, maxZ=3) if rng.random() < 0.96 else Mo.wide(rng, 'long')
    opts = S.any_options(rng, m, variations=('normal', 'normal', 'adjustable_epsilon', 'zlz'))
    zlz = S.opt(opts, '-vi_variation') == 'zlz'
    save = rng.random() < 0.7
    summary = rng.random() < 0.6
    pen = rng.random() < 0.3
    if ('-alg_rand' in opts or '-prune_rand' in opts) and '-rand_seed' not in opts:
        opts += ['-rand_seed', '%d:%d:%d' % tuple(rng.randint(1, 30000) for _ in range(3))]
    if summary:
        opts += ['-stat_summary', 'true']
    if pen:
        opts += ['-save_penultimate', 'true']
    crit = S.opt(opts, '-stop_criteria', 'weak')
    grid = S.opt(opts, '-method') == 'grid'
    delta = 1e-9
    if rng.random() < 0.4:
        delta = rng.choice([0.01, 0.3, 2.0])
        opts += ['-stop_delta', str(delta)]
    if grid:
        opts += ['-fg_save', 'true']
    tofile = rng.random() < 0.25
    if tofile:
        opts += ['-stdout', 'report.txt']
    h = S.blowup_limit(opts, S.pick_horizon(rng, m) if m.wide else rng.randint(1, 5), m)
    if zlz:
        h = min(h, 4)
        if m.disc == 1.0:
            m = m.copy(disc=0.9)
    oname = rng.choice(['m', 'm', 'sol', 'a.b'])
    with R.Scratch('c28') as d:
        with open(d + '/m.POMDP', 'w') as f:
            f.write(Mo.to_text(m))
        args = [exe, '-pomdp', 'm.POMDP', '-o', oname] + opts + ['-horizon', str(h)] + (['-save_all', 'true'] if save else [])
        res = R.run(args, d, timeout=10, retry=False)
        text = open(d + '/m.POMDP').read()
        cmd = ' '.join(args)
        bad = lambda sig, msg: c.violation(sig, '%s\n%s\nmodel %s' % (msg, cmd, m.tag), model=text, stdout=res.out, stderr=res.err)
        if res.timeout:
            c.inconclusive.append('timeout')
            return c
        if res.rc != 0 or res.crashed:
            bad('solver-failed:' + res.signature(), res.brief())
            return c
        out = res.out
        if tofile:
            try:
                out = open(d + '/report.txt').read()
            except OSError:
                bad('no-report', 'the report file was not written')
                return c
            if 'Epoch' in res.out or 'Solution' in res.out:
                bad('report-split', 'parts of the report are not in the report file')
                return c
        # the part between the two bars is the epoch lines and nothing else
        parts = out.split(BAR)
        if len(parts) != 4:
            bad('layout', 'the report does not have its three bars')
            return c
        body = re.sub(r'>>.*<<\n|\*\* Warning \*\*\n\t.*\n', '', parts[1])
        lines = list(LINE.finditer(body))
        rest = LINE.sub('', body).strip()
        if rest:
            bad('epoch-lines', 'text that is no epoch line among the epoch lines: %r' % rest[:300])
            return c
        nums = [int(x.group(1)) for x in lines]
        if nums != list(range(1, len(nums) + 1)) or not nums or nums[-1] > h:
            bad('epoch-numbers', 'epochs reported: %s, horizon %d' % (nums, h))
            return c
        if parts[2] != 'Solution found.  See file:\n\t%s.alpha\n\t%s.pg\n' % (oname, oname):
            bad('final-message', 'the final message is %r' % parts[2])
            return c
        if out.count('Solution found') != 1:
            bad('final-message', 'final message %d times' % out.count('Solution found'))
            return c
        tot = [float(x.group(5)) for x in lines]
        if any(b < a - 0.011 for a, b in zip(tot, tot[1:])) or any(float(x.group(4)) > float(x.group(5)) + 0.011 for x in lines):
            bad('times', 'accumulated times are not accumulated: %s' % tot)
            return c
        try:
            acts, V = fmt.read_alpha('%s/%s.alpha' % (d, oname), m.nS)
            nodes = fmt.read_pg('%s/%s.pg' % (d, oname), m.nZ)
        except (OSError, fmt.FormatError) as e:
            bad('solution-files', str(e))
            return c
        if len(V) != int(lines[-1].group(3)) or len(nodes) != len(V):
            bad('final-count', '%s vectors reported, %d vectors and %d nodes written' % (lines[-1].group(3), len(V), len(nodes)))
            return c
        if [a for _, a, _ in nodes] != list(acts) or [n for n, _, _ in nodes] != list(range(len(nodes))):
            bad('final-files', 'actions or numbering of the graph differ from those of the vectors')
            return c
        if not all(0 <= a < m.nA for a in acts):
            bad('final-files', 'an action out of range')
            return c
        # expected files, no others
        want = {'m.POMDP', oname + '.alpha', oname + '.pg'}
        if tofile:
            want.add('report.txt')
        if grid:
            want.add(oname + '.belief')
        if pen and len(nums) > 1:
            want.add(oname + '.prev.alpha')
        if save:
            for n in nums:
                want.add('%s.alpha%d' % (oname, n))
                if not zlz:
                    want.add('%s.pg%d' % (oname, n))
        got = set(os.listdir(d))
        if got != want:
            bad('files', 'files missing: %s, unexpected: %s' % (sorted(want - got), sorted(got - want)))
            return c
        c.count(epochs=len(nums), runs=1)
        if save:
            prev = np.zeros((1, m.nS))
            pts = np.loadtxt('%s/%s.belief' % (d, oname), ndmin=2) if grid else None
            for n, l in zip(nums, lines):
                acts, V = fmt.read_alpha('%s/%s.alpha%d' % (d, oname, n), m.nS)
                said = int(l.group(2) or l.group(3))
                if said != len(V):
                    bad('epoch-count', 'epoch %d reports %d vectors, its file has %d' % (n, said, len(V)))
                    return c
                if not zlz:
                    k = len(fmt.read_pg('%s/%s.pg%d' % (d, oname, n), m.nZ))
                    if k != said:
                        bad('epoch-count', 'epoch %d reports %d vectors, its graph has %d nodes' % (n, said, k))
                        return c
                    e = None
                    if grid:
                        e = stop.grid(V, prev, pts)
                        tol = 1e-7
                    elif crit == 'weak':
                        e = stop.weak(V, prev)
                        tol = 1e-9
                        if e > delta + 1e-9:
                            e = np.inf
                        elif e > delta - 1e-9:
                            e = None
                    elif crit == 'bellman' and len(V) * len(prev) < 400:
                        a, b = stop.onesided(V, prev), stop.onesided(prev, V)
                        e = max(a, b) if a is not None and b is not None else None
                        # smaller differences than the precision count as none
                        tol = 5e-6 * max(1.0, np.abs(V).max()) + float(S.opt(opts, '-start_epsilon', 0))
                    if e is not None:
                        told = float(l.group(6))
                        ok = told == e if np.isinf(e) or np.isinf(told) else abs(told - e) <= tol + 0.006 * abs(e)
                        c.count(errors_judged=1)
                        if not ok:
                            bad('reported-error', 'epoch %d reports error %s, recomputed %.6g (%s)' % (n, l.group(6), e, 'grid' if grid else crit))
                            return c
                prev = V
        rows = ROW.findall(parts[3])
        if summary:
            if '** Statistic Summary **' not in parts[3]:
                bad('summary', 'no statistics summary')
                return c
            if [(int(r[0]), int(r[1]), r[2]) for r in rows] != [(int(l.group(1)), int(l.group(3)), l.group(6)) for l in lines]:
                bad('summary', 'summary rows %s differ from the epoch lines %s' % ([r[:3] for r in rows], [(l.group(1), l.group(3), l.group(6)) for l in lines]))
                return c
            c.count(summaries=1)
            # the precision column
            cur = S.opt(opts, '-start_epsilon') if S.opt(opts, '-vi_variation') == 'adjustable_epsilon' else None
            cur = cur and float(cur)
            pieces = re.split(r'^Epoch: .*\n(?:  ZLZ.*\n)?', parts[1], flags=re.M)[1:]
            prune = not grid and S.opt(opts, '-method') != 'enum' and S.opt(opts, '-q_purge') == 'epsilon_prune'
            for k, r in enumerate(rows):
                if cur is not None and k < len(rows) - 1:
                    ok = r[4] != 'N/A' and abs(float(r[4]) - cur) <= 0.006 * cur
                    a = re.search(r'>>Adjusted epsilon to (\S+)<<', pieces[k])
                    cur = float(a.group(1)) if a else cur
                elif prune:
                    ok = r[4] != 'N/A' and 0 <= float(r[4]) <= max(cur or 0, float(S.opt(opts, '-prune_epsilon', 1e-9))) * 1.006
                else:
                    ok = r[4] == 'N/A'
                if not ok:
                    bad('summary-epsilon', 'epoch %s: precision %s in the summary; the one in force was %s' % (r[0], r[4], cur if cur else 'pruned within ' + S.opt(opts, '-prune_epsilon', '1e-9') if prune else 'not adjusted'))
                    return c
            c.count(precisions=len(rows))
        elif 'Statistic Summary' in out:
            bad('summary', 'a statistics summary that was not asked for')
            return c
        if len(re.findall(r'^(User time|System time|Total execution time) = \d+ hrs\., \d+ mins, [\d.]+ secs\. \(= [\d.]+ secs\)$', parts[3], re.M)) != 3:
            bad('layout', 'execution times are missing')
            return c
        mm = re.search(r'^\[Initial policy has (\d+) vectors\.\]$', parts[0], re.M)
        if not mm or mm.group(1) != '1':
            bad('layout', 'initial policy line missing or wrong')
            return c
        if grid:
            mm = re.search(r'\[Grid has (\d+) points\.\]', parts[0])
            k = len(np.loadtxt('%s/%s.belief' % (d, oname), ndmin=2))
            if not mm or int(mm.group(1)) != k:
                bad('grid-count', 'grid of %s points reported, %d written' % (mm and mm.group(1), k))
                return c
        if rng.random() < 0.2:
            # reporting leaves the solution alone
            plain, k = [], 0
            while k < len(opts):
                if opts[k] not in ('-stat_summary', '-save_penultimate', '-stdout', '-fg_save'):
                    plain += opts[k:k + 2]
                k += 2
            if rng.random() < 0.6:
                plain += ['-verbose', rng.choice(VERBOSE)]
            os.mkdir(d + '/q')
            open(d + '/q/m.POMDP', 'w').write(text)
            r2 = R.run([exe, '-pomdp', 'm.POMDP', '-o', 'p'] + plain + ['-horizon', str(h)], d + '/q', timeout=20)
            if r2.timeout:
                c.inconclusive.append('timeout')
                return c
            for x in ('alpha', 'pg'):
                try:
                    one, two = open('%s/q/p.%s' % (d, x)).read(), open('%s/%s.%s' % (d, oname, x)).read()
                    same = one == two
                    if not same and {'none', 'domonly'} & {S.opt(opts, '-q_purge'), S.opt(opts, '-enum_purge'), S.opt(opts, '-fg_purge')}:
                        # these may keep equal vectors, which come in any order
                        same = x == 'pg' or sorted(one.split('\n\n')) == sorted(two.split('\n\n'))
                except OSError:
                    same = False
                if not same:
                    bad('reporting', 'the run without its reports (%s) gives another .%s' % (' '.join(plain), x))
                    return c
            c.count(silent_reruns=1)
        c.nontrivial = (m.tag, tuple(opts), h, tuple(x.group(3) for x in lines))
        c.counts['grid' if grid else 'zlz' if zlz else crit] += 1
        c.sample = {'model': m.tag, 'options': opts, 'reported sizes': [int(x.group(3)) for x in lines], 'reported errors': [x.group(6) for x in lines]}
    return c


def run(chk):
    exe = build.build('plain', 'pomdp-solve')
    chk.rule = 'random models, all methods and variations, saving and reporting options; non-trivial: distinct model, options and sizes reported'
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(3000, 60000))], quick_s=100, thorough_s=1500)
