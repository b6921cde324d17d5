"""C23: interrupts and time limits never yield an inconsistent solution.

The real solver is interrupted at chosen points of its run (counted in calls of its allocator, from its start, from
the start of an epoch or from the end of one) or by real signals and timers; what it leaves behind is compared
with undisturbed runs to the epoch at which it stopped."""
import os, signal, subprocess, tempfile, time
import build, model as Mo, run as R, sig, solve as S
from core import Case, case_rng

INT, VTALRM = 2, 26


def listing(d):
    return sorted(os.listdir(d))


def read(d, n):
    p = os.path.join(d, n)
    return open(p, 'rb').read() if os.path.isfile(p) else None


def reference(exe, args, d, h, m):
    """an undisturbed run of h epochs in a directory of its own"""
    os.makedirs(d)
    open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
    a = list(args)
    if '-horizon' in a:
        i = a.index('-horizon')
        del a[i:i + 2]
    return sig.go(exe, a + ['-horizon', str(h)], d, timeout=10)[0]


def compare(c, exe, args, d, m, t, cmd, spec, recovery=False):
    """the files of a run that stopped at epoch t.last are those of a run to that epoch"""
    if t.last == 0:
        # nothing was computed: the values before the first epoch
        if read(d, 's.alpha') is None or read(d, 's.pg') is None:
            c.violation('files:missing', '%s with %s: reported a solution that is not there' % (cmd, spec))
        c.count(before_first_epoch=1)
        return
    r = reference(exe, args, d + '/ref', t.last, m)
    if r.timeout or r.rc != 0:
        c.inconclusive.append('reference')
        return
    # the time limit may end a run before it removes its recovery file
    mine = [x for x in listing(d) if x != 'ref' and not (recovery and x.startswith('##'))]
    other = listing(d + '/ref')
    if mine != other:
        c.violation('files:listing', '%s with %s stopped at epoch %d and left %s; an undisturbed run to that epoch leaves %s' % (cmd, spec, t.last, mine, other), model=Mo.to_text(m), cmd=cmd)
        return
    for n in mine:
        if read(d, n) != read(d + '/ref', n):
            c.violation('files:differ', '%s with %s stopped at epoch %d: its %s is not that of an undisturbed run to that epoch\n%r\n%r' % (
                cmd, spec, t.last, n, read(d, n)[:500], read(d + '/ref', n)[:500]), model=Mo.to_text(m), cmd=cmd)
            return
    c.count(compared_files=len(mine))


def options(rng, m):
    o = S.any_options(rng, m, variations=('normal', 'normal', 'adjustable_epsilon', 'zlz'))
    zlz = S.opt(o, '-vi_variation') == 'zlz'
    if zlz and m.disc == 1:
        m = m.copy(disc=0.95)
    if '-rand_seed' not in o:
        o += ['-rand_seed', '%d:%d:%d' % tuple(rng.randint(1, 30000) for _ in range(3))]
    h = S.pick_horizon(rng, m, 12)
    h = S.blowup_limit(o, h, m) if not zlz else min(h, 4)
    for n in ('-save_all', '-save_penultimate', '-stat_summary', '-fg_save'):
        if rng.random() < 0.25 and (n != '-fg_save' or 'grid' in o):
            o += [n, 'true']
    return m, o, h


def spec_of(rng, T, h):
    """a point of the run"""
    k = rng.random()
    if k < 0.4:
        return rng.choice(['', 'vectors.]+', 'vectors.]+', 'vectors.]+']) + '%d:%%d' % rng.randint(1, T)
    if k < 0.7:
        return 'Epoch:_%d...+%d:%%d' % (rng.randint(1, h), int(10 ** rng.uniform(0, 4)))
    if k < 0.85:
        return '(err=+%d:%%d' % int(10 ** rng.uniform(0, 3))
    if k < 0.92:
        # while it writes its files and tidies up
        return 'Solution_found.+%d:%%d' % int(10 ** rng.uniform(0, 2.7))
    return 'vectors.]+%d:%%d' % rng.randint(1, 12)


def case(exes, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C23', i)
    m = Mo.gen(rng, maxS=4, maxA=3, maxZ=3)
    m, o, h = options(rng, m)
    exe = exes[0]
    with R.Scratch('c23') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        args = ['-pomdp', 'm.POMDP', '-o', 's'] + o + ['-horizon', str(h)]
        cmd = ' '.join(args)
        r, T = sig.go(exe, args, d, timeout=6, retry=False)
        if r.timeout:
            c.inconclusive.append('timeout')
            return c
        if r.rc != 0 or T is None:
            S_fail(c, r, cmd, m)
            return c
        for n in listing(d):
            if n != 'm.POMDP':
                os.unlink(os.path.join(d, n))
        kind = INT if rng.random() < 0.7 else VTALRM
        if kind == VTALRM:
            args += ['-time_limit', '3000']
            o = o + ['-time_limit', '3000']
        spec = ' '.join(spec_of(rng, T, h) % kind for _ in range(rng.choice([1, 1, 2, 3]) if kind == INT else 1))
        r, _ = sig.go(exe, args, d, spec=spec, timeout=20)
        judge(c, exe, args, d, m, r, cmd, spec, kind)
        if not c.violations and not c.inconclusive:
            t = sig.Transcript(r.out)
            if t.fired:
                c.nontrivial = (Mo.to_text(m), tuple(o), spec)
                c.sample = dict(model=m.tag, options=o, horizon=h, signals=spec, epochs_begun_at_signal=t.started, in_epoch=not t.between, stopped_at=t.last, solution=t.found)
    return c


def S_fail(c, r, cmd, m):
    c.violation('solver-failed:' + r.signature(), '%s\n%s' % (cmd, r.brief()), model=Mo.to_text(m), cmd=cmd)


def judge(c, exe, args, d, m, r, cmd, spec, kind):
    t = sig.Transcript(r.out)
    kw = dict(model=Mo.to_text(m), cmd=cmd, spec=spec, output=r.text)
    if r.timeout:
        c.violation('hang', '%s with %s does not end' % (cmd, spec), **kw)
        return
    if not t.fired:
        c.count(not_reached=1)
        return
    if not t.solving and r.rc == -kind:
        # before the handlers are in place
        c.count(before_handlers=1)
        if [n for n in listing(d) if n.startswith('s.')]:
            c.violation('files:early', '%s with %s: files %s of a run that was ended while it read its input' % (cmd, spec, listing(d)), **kw)
        return
    if r.rc != 0 or r.crashed or r.aborted:
        c.violation('failed:' + r.signature(), '%s with %s: %s' % (cmd, spec, r.brief()), **kw)
        return
    if not t.consecutive:
        c.violation('epochs', '%s with %s: epochs are not consecutive\n%s' % (cmd, spec, r.out[-800:]), **kw)
        return
    c.count(**{'signal_%d' % kind: 1, 'in_epoch' if not t.between else 'between_epochs': 1})
    if kind == INT:
        want = [t.started] if not t.between else [t.started, t.started + 1]
        if not t.found:
            c.violation('interrupt:no-solution', '%s with %s ended without a solution\n%s' % (cmd, spec, r.out[-800:]), **kw)
        elif t.last not in want:
            c.violation('interrupt:late', '%s with %s: interrupted %s epoch %d, it went on to epoch %d' % (cmd, spec, 'after' if t.between else 'in', t.started, t.last), **kw)
        else:
            compare(c, exe, args, d, m, t, cmd, spec)
        return
    if t.found:
        compare(c, exe, args, d, m, t, cmd, spec, recovery=True)
        return
    if not t.terminated:
        c.violation('limit:silent', '%s with %s ended without a solution or a report\n%s' % (cmd, spec, r.out[-800:]), **kw)
    c.count(terminated=1)


def endless(rng):
    """a model whose runs go on for long with short epochs"""
    while True:
        m = Mo.gen(rng, maxS=3, maxA=2, maxZ=2, discs=(0.9, 0.99, 0.999))
        if m.nS * m.nA * m.nZ <= 12:
            return m


def timer_case(exes, seed, i):
    """a real time limit of one second on a run that would take for ever"""
    c = Case('seed=%d timer=%d' % (seed, i))
    rng = case_rng(seed, 'C23t', i)
    exe = exes[rng.choice([0, 1, 2])]
    m = endless(rng)
    o = ['-method', rng.choice(['incprune', 'witness', 'grid']), '-stop_delta', '0', '-stop_criteria', 'weak', '-fg_points', '20']
    with R.Scratch('c23') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        args = ['-pomdp', 'm.POMDP', '-o', 's'] + o + ['-horizon', '100000000', '-time_limit', '1']
        cmd = ' '.join(args)
        r = R.run([exe] + args, d, timeout=20)
        kw = dict(model=Mo.to_text(m), cmd=cmd)
        if r.timeout:
            c.violation('limit:hang', '%s is still running long after its time limit' % cmd, **kw)
        elif r.rc != 0 or r.crashed or r.aborted:
            c.violation('limit-failed:' + r.signature(), '%s: %s' % (cmd, r.brief()), **kw)
        elif 'Solution found' not in r.out and 'erminated' not in r.out:
            c.violation('limit:silent', '%s ended without a solution or a report\n%s' % (cmd, r.out[-800:]), **kw)
        else:
            c.count(time_limits=1, limit_epochs=len(sig.START.findall(r.out)))
            c.nontrivial = ('timer', Mo.to_text(m), tuple(o))
    return c


def real_case(exes, seed, i):
    """interrupts from outside at any instruction of the instrumented program"""
    c = Case('seed=%d real=%d' % (seed, i))
    rng = case_rng(seed, 'C23r', i)
    exe = exes[2]
    m = endless(rng)
    o = ['-method', rng.choice(['incprune', 'witness', 'enum', 'grid', 'twopass']), '-stop_delta', '0', '-stop_criteria', 'weak', '-rand_seed', '1:2:3', '-fg_points', '20']
    if rng.random() < 0.3:
        o += ['-save_all', 'true']
    with R.Scratch('c23') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        args = ['-pomdp', 'm.POMDP', '-o', 's'] + o
        cmd = ' '.join(args)
        with tempfile.TemporaryFile() as f:
            p = subprocess.Popen([exe] + args, cwd=d, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, env=R.env_for())
            try:
                # wait for the first epoch, then a while
                end = time.time() + 20
                while time.time() < end and p.poll() is None and b'Epoch' not in os.pread(f.fileno(), 100000, 0):
                    time.sleep(0.002)
                time.sleep(rng.uniform(0, 0.15))
                for _ in range(rng.choice([1, 1, 3, 10])):
                    if p.poll() is None:
                        p.send_signal(signal.SIGINT)
                    time.sleep(rng.choice([0, 0.001]))
                try:
                    p.wait(40)
                except subprocess.TimeoutExpired:
                    c.inconclusive.append('slow epoch')
                    return c
            finally:
                if p.poll() is None:
                    p.kill()
                    p.wait()
            f.seek(0)
            out = f.read().decode('latin-1')
        r = R.Result()
        r.args, r.rc, r.out, r.err, r.timeout, r.wall, r.cwd = args, p.returncode, out, '', False, 0, d
        kw = dict(model=Mo.to_text(m), cmd=cmd, output=out)
        if 'Epoch' not in out:
            c.inconclusive.append('no epoch yet')
            return c
        if r.rc != 0 or r.crashed or r.aborted:
            c.violation('failed:' + r.signature(), '%s interrupted: %s' % (cmd, r.brief()), **kw)
            return c
        t = sig.Transcript(out)
        if not t.found or not t.consecutive:
            c.violation('interrupt:no-solution', '%s interrupted ended without a solution\n%s' % (cmd, out[-800:]), **kw)
            return c
        if t.last <= 40:
            compare(c, exes[1], args, d, m, t, cmd, 'an interrupt')
        c.count(real_interrupts=1, real_epochs=t.last)
        c.nontrivial = ('real', Mo.to_text(m), tuple(o), t.last)
    return c


def run(chk):
    exes = (sig.monitor(), build.build('plain', 'pomdp-solve'), build.build('asan', 'pomdp-solve'))
    chk.rule = ('interrupts (one to three) or the time-limit signal at points of runs of all methods counted in allocator calls; real time limits; real interrupts of the '
                'instrumented program; non-trivial: distinct (model, options, points) at which a signal arrived')
    chk.assumptions = ['a signal before the handlers are in place may end the process, but then no solution files may exist',
                       'the report of a time limit is either the termination message or a complete solution of the epoch reached']
    chk.pmap(timer_case, [(exes, chk.seed, i) for i in range(chk.n(16, 80))], quick_s=60, thorough_s=400)
    chk.pmap(real_case, [(exes, chk.seed, i) for i in range(chk.n(150, 2000))], quick_s=60, thorough_s=800)
    chk.pmap(case, [(exes, chk.seed, i) for i in range(chk.n(2500, 30000))], quick_s=90, thorough_s=1500)
