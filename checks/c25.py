"""C25: runs made at the same time in one directory do not disturb each other.

Several runs share a working directory; each is stopped at a chosen point and continued in a random order, so that
their interleaving is under control. What each leaves behind is compared with what it leaves when alone."""
import collections, os, re, signal, subprocess, tempfile, time
import model as Mo, run as R, sig
from core import Case, case_rng
from c23 import options, read

SEE = re.compile(r'See file:\s*\n\t(\S+)\n\t(\S+)')


class Proc:
    pass


def alone(exe, args, d, name, text):
    os.makedirs(d)
    open('%s/%s' % (d, name), 'w').write(text)
    return sig.go(exe, args, d, timeout=8, retry=False)


def suffixes(d, prefix, skip=()):
    return {n[len(prefix):]: open(os.path.join(d, n), 'rb').read() for n in os.listdir(d) if n.startswith(prefix) and n not in skip}


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C25', i)
    k = rng.choice([2, 2, 3, 4, 6])
    same = rng.random() < 0.4
    default = rng.random() < 0.5
    procs = []
    with R.Scratch('c25') as d:
        work = d + '/work'
        os.makedirs(work)
        for j in range(k):
            p = Proc()
            if same and procs:
                q = procs[0]
                p.m, p.o, p.h, p.text = q.m, q.o, q.h, q.text
            else:
                m = Mo.gen(rng, maxS=3, maxA=3, maxZ=3)
                p.m, p.o, p.h = options(rng, m)
                p.text = Mo.to_text(p.m)
            p.name = 'm%d.POMDP' % (0 if same else j)
            p.dash_o = not default or rng.random() < 0.2
            p.args = ['-pomdp', p.name] + (['-o', 'out%d' % j] if p.dash_o else []) + p.o + ['-horizon', str(p.h)]
            r, p.T = alone(exe, p.args, '%s/solo%d' % (d, j), p.name, p.text)
            if r.timeout or p.T is None:
                c.inconclusive.append('timeout')
                return c
            s = SEE.search(r.out)
            if r.rc != 0 or not s:
                c.violation('solver-failed:' + r.signature(), '%s\n%s' % (' '.join(p.args), r.brief()), model=p.text)
                return c
            p.solo = suffixes('%s/solo%d' % (d, j), s.group(1)[:-len('.alpha')], (p.name,))
            p.n = len(sig.START.findall(r.out))
            open('%s/%s' % (work, p.name), 'w').write(p.text)
            procs.append(p)
        cmds = '\n'.join(' '.join(p.args) for p in procs)
        kw = dict(commands=cmds, **{p.name: p.text for p in procs})
        try:
            ok = together(c, rng, exe, procs, work, d, cmds, kw)
        finally:
            for p in procs:
                if hasattr(p, 'proc') and p.proc.poll() is None:
                    p.proc.kill()
                    p.proc.wait()
        if not ok:
            return c
        names = []
        for p in procs:
            s = SEE.search(p.out)
            if p.rc != 0 or not s:
                c.violation('failed:%s' % p.rc, 'one of\n%s\nfailed when run at the same time as the others: exit %s\n%s' % (cmds, p.rc, p.out[-600:]), **kw)
                return c
            names.append(s.group(1)[:-len('.alpha')])
        if len(set(names)) != len(names):
            c.violation('names', 'runs at the same time wrote to the same files %s\n%s' % (names, cmds), **kw)
            return c
        every = {p.name for p in procs}
        for p, n in zip(procs, names):
            got = {x: open(os.path.join(work, n + x), 'rb').read() for x in p.solo if os.path.exists(os.path.join(work, n + x))}
            every |= {n + x for x in p.solo}
            if got != p.solo:
                x = sorted(y for y in p.solo if got.get(y) != p.solo[y])
                c.violation('files:differ', '%s\nrun at the same time as\n%s\nits files %s differ from those it writes alone' % (' '.join(p.args), cmds, [n + y for y in x]), **kw)
                return c
            c.count(compared_files=len(got))
        extra = set(os.listdir(work)) - every
        if extra:
            c.violation('files:extra', 'left over after\n%s\n%s' % (cmds, sorted(extra)), **kw)
            return c
        c.count(groups=1, runs=k, default_names=sum(not p.dash_o for p in procs), same_model=same)
        c.nontrivial = (cmds, tuple(p.spec for p in procs), tuple(p.text for p in procs))
        c.sample = dict(commands=[' '.join(p.args) for p in procs], stopped_at=[p.spec for p in procs], stopped_in_epoch=[p.where for p in procs])
    return c


def together(c, rng, exe, procs, work, d, cmds, kw):
    for p in procs:
        x = rng.random()
        if x < 0.6 and p.n > 1:
            p.spec = 'Epoch:_%d...+%d:19' % (rng.randint(2, p.n), int(10 ** rng.uniform(0, 3)))
        elif x < 0.8:
            p.spec = '(err=+%d:19' % int(10 ** rng.uniform(0, 2))
        else:
            p.spec = '%d:19' % rng.randint(1, p.T)
        p.log = tempfile.TemporaryFile()
        p.where = None
        p.proc = subprocess.Popen([exe] + p.args, cwd=work, stdin=subprocess.DEVNULL, stdout=p.log, stderr=subprocess.STDOUT, env=R.env_for({'SIGMON': p.spec}), preexec_fn=os.setsid)
    # until each is stopped or gone
    end = time.time() + 25
    state = {}
    while len(state) < len(procs) and time.time() < end:
        for p in procs:
            if p in state:
                continue
            pid, st = os.waitpid(p.proc.pid, os.WNOHANG | os.WUNTRACED)
            if pid:
                if os.WIFSTOPPED(st):
                    state[p] = 'stopped'
                else:
                    p.proc.returncode = os.waitstatus_to_exitcode(st)
                    state[p] = 'gone'
        time.sleep(0.002)
    if len(state) < len(procs):
        c.inconclusive.append('slow')
        return False
    want = collections.Counter()
    for j, p in enumerate(procs):
        if state[p] != 'stopped':
            continue
        c.count(stopped=1)
        p.log.seek(0)
        t = sig.Transcript(p.log.read().decode('latin-1'))
        if not t.between:
            p.where = t.started
            c.count(stopped_in_epoch=1)
            if t.started > 1:
                r = ref(exe, p, '%s/ref%d' % (d, j), t.started - 1)
                if r is None:
                    c.inconclusive.append('reference')
                    return False
                want[r] += 1
    have = collections.Counter(open(os.path.join(work, n), 'rb').read() for n in os.listdir(work) if n.startswith('##'))
    if want - have:
        c.violation('recovery', 'runs stopped in the epochs %s have %d recovery files between them, and %d of those they should have are missing\n%s' % (
            [p.where for p in procs], sum(have.values()), sum((want - have).values()), cmds), **kw)
        return False
    c.count(recovery_files=sum(want.values()))
    order = [p for p in procs if state[p] == 'stopped']
    rng.shuffle(order)
    for p in order:
        os.kill(p.proc.pid, signal.SIGCONT)
        if rng.random() < 0.5:
            # runs one at a time, to its end
            try:
                p.proc.wait(30)
            except subprocess.TimeoutExpired:
                pass
    for p in procs:
        try:
            p.proc.wait(30)
        except subprocess.TimeoutExpired:
            c.inconclusive.append('slow')
            return False
        p.log.seek(0)
        p.out = sig.MARK.sub('', p.log.read().decode('latin-1'))
        p.rc = p.proc.returncode
        p.log.close()
    return True


def ref(exe, p, d, h):
    os.makedirs(d)
    open('%s/%s' % (d, p.name), 'w').write(p.text)
    a = list(p.args)
    i = a.index('-horizon')
    a[i + 1] = str(h)
    r = sig.go(exe, a, d, timeout=10)[0]
    s = SEE.search(r.out)
    return read(d, s.group(1)) if r.rc == 0 and s else None


def run(chk):
    exe = sig.monitor()
    chk.rule = ('two to six runs at the same time in one directory, with the same or different models and options and given or default names, each stopped at a chosen point and '
                'continued in a random order; non-trivial: distinct groups and points')
    chk.assumptions = ['runs with the same given output name are excluded']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(700, 8000))], quick_s=90, thorough_s=1500)
