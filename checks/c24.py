"""C24: a killed run leaves its latest complete epoch behind, a finished one leaves nothing extra.

The real solver is killed at chosen points of its run; the recovery file it leaves is compared with what undisturbed
runs of the same options wrote for that epoch, and runs are resumed from it."""
import os
import numpy as np
import fmt, model as Mo, run as R, sig, solve as S
from core import Case, case_rng
from c23 import S_fail, options, read

DECOY = '##pomdp-solve-1##'


def at_horizon(exe, args, d, h, m, extra=()):
    os.makedirs(d)
    open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
    a = list(args)
    if '-horizon' in a:
        i = a.index('-horizon')
        del a[i:i + 2]
    return sig.go(exe, a + ['-horizon', str(h)] + list(extra), d, timeout=10)[0]


def clean_end(c, d, o, n, cmd, m):
    """exactly the files asked for"""
    want = {'m.POMDP', 's.alpha', 's.pg', DECOY}
    if '-save_all' in o:
        want |= {'s.alpha%d' % e for e in range(1, n + 1)}
        want |= {'s.pg%d' % e for e in range(1, n + 1) if S.opt(o, '-vi_variation') != 'zlz'}
    if '-save_penultimate' in o and n > 1:
        want.add('s.prev.alpha')
    if '-fg_save' in o:
        want.add('s.belief')
    have = set(os.listdir(d))
    if have != want:
        c.violation('end:files', '%s ended normally after %d epochs; missing %s, extra %s' % (cmd, n, sorted(want - have), sorted(have - want)), model=Mo.to_text(m), cmd=cmd)
    elif open(os.path.join(d, DECOY)).read() != 'decoy':
        c.violation('end:other-run', '%s changed the recovery file of another run' % cmd, model=Mo.to_text(m), cmd=cmd)
    c.count(clean_ends=1)


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C24', i)
    m = Mo.gen(rng, maxS=4, maxA=3, maxZ=3)
    m, o, h = options(rng, m)
    resume = rng.random() < 0.3
    if resume:
        o = S.exact_options(rng, m)
        if '-rand_seed' not in o:
            o += ['-rand_seed', '7:8:9']
        h = S.blowup_limit(o, S.pick_horizon(rng, m, 8), m)
    with R.Scratch('c24') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        open(os.path.join(d, DECOY), 'w').write('decoy')
        args = ['-pomdp', 'm.POMDP', '-o', 's'] + o + ['-horizon', str(h)]
        cmd = ' '.join(args)
        r, T = sig.go(exe, args, d, timeout=6, retry=False)
        if r.timeout:
            c.inconclusive.append('timeout')
            return c
        if r.rc != 0 or T is None:
            S_fail(c, r, cmd, m)
            return c
        n = len(sig.START.findall(r.out))
        clean_end(c, d, o, n, cmd, m)
        if c.violations:
            return c
        whole = fmt.read_alpha(d + '/s.alpha', m.nS)[1]
        for x in os.listdir(d):
            if x not in ('m.POMDP', DECOY):
                os.unlink(os.path.join(d, x))
        k = rng.random()
        if n > 1 and k < 0.5:
            spec = 'Epoch:_%d...+%d:9' % (rng.randint(2, n), int(10 ** rng.uniform(0, 3.5)))
        elif n > 1 and k < 0.6:
            # the very beginning of an epoch: what was written must not be waiting in a buffer
            spec = 'Epoch:_%d...+1:9' % rng.randint(2, n)
        elif k < 0.8:
            spec = '(err=+%d:9' % int(10 ** rng.uniform(0, 3))
        else:
            spec = '%d:9' % rng.randint(1, T)
        r, _ = sig.go(exe, args, d, spec=spec, timeout=20)
        t = sig.Transcript(r.out)
        kw = dict(model=Mo.to_text(m), cmd=cmd, spec=spec, output=r.text)
        if not t.fired or r.rc != -9:
            c.count(not_reached=1)
            return c
        if open(os.path.join(d, DECOY)).read() != 'decoy' if os.path.exists(os.path.join(d, DECOY)) else True:
            c.violation('kill:other-run', '%s killed at %s changed the recovery file of another run' % (cmd, spec), **kw)
            return c
        left = [x for x in os.listdir(d) if x.startswith('##') and x != DECOY]
        c.count(kills=1, **{'in_epoch' if not t.between else 'between_epochs': 1})
        where = 'killed %s epoch %d' % ('after' if t.between else 'in', t.started)
        if t.started == 0 or t.started == 1 and not t.between:
            if left:
                c.violation('kill:early', '%s, %s: there is a recovery file %s already' % (cmd, where, left), **kw)
            return c
        if t.finished and not left:
            return c
        refs = {}
        for e in ([t.started - 1] if not t.between else [t.started, t.started - 1]):
            if e < 1:
                continue
            x = at_horizon(exe, args, d + '/ref%d' % e, e, m)
            if x.timeout or x.rc != 0:
                c.inconclusive.append('reference')
                return c
            refs[e] = read(d + '/ref%d' % e, 's.alpha')
        if not t.between:
            if len(left) != 1:
                c.violation('kill:missing', '%s, %s: recovery files %s' % (cmd, where, left), **kw)
                return c
            got = read(d, left[0])
            if got != refs[t.started - 1]:
                c.violation('kill:differs', '%s, %s: its recovery file is not the value function of epoch %d\n%r\n%r' % (cmd, where, t.started - 1, got[:600], refs[t.started - 1][:600]), **kw)
                return c
            c.count(recovered=1)
            if resume:
                again(c, exe, args, d, left[0], t.started - 1, h, m, whole, cmd, kw)
        elif left:
            got = read(d, left[0])
            # may be in the middle of being written
            if len(left) != 1 or not (got in refs.values() or refs[t.started].startswith(got)):
                c.violation('kill:wrong', '%s, %s: its recovery files %s hold neither that epoch nor the one before\n%r' % (cmd, where, left, got[:600]), **kw)
                return c
            c.count(recovered_between=1)
        c.nontrivial = (Mo.to_text(m), tuple(o), spec)
        c.sample = dict(model=m.tag, options=o, horizon=h, killed=spec, where=where, recovered_bytes=len(got) if left else 0)
    return c


def again(c, exe, args, d, rec, done, h, m, whole, cmd, kw):
    """the run resumed from the recovery file ends where the undisturbed one did"""
    e = d + '/again'
    os.makedirs(e)
    open(e + '/m.POMDP', 'w').write(Mo.to_text(m))
    os.rename(os.path.join(d, rec), e + '/rec')
    a = list(args)
    i = a.index('-horizon')
    del a[i:i + 2]
    r = sig.go(exe, a + ['-terminal_values', 'rec', '-horizon', str(h - done)], e, timeout=10)[0]
    if r.timeout:
        c.inconclusive.append('resumed')
        return
    if r.rc != 0 or 'Solution found' not in r.out:
        c.violation('resume:failed', '%s: cannot be resumed after epoch %d: %s' % (cmd, done, r.brief()), **kw)
        return
    V = fmt.read_alpha(e + '/s.alpha', m.nS)[1]
    rng = case_rng(1, 'points', m.nS)
    B = Mo.simplex_points(rng, m.nS, 60)
    x, y = (B @ V.T).max(axis=1), (B @ whole.T).max(axis=1)
    g = np.abs(x - y)
    if g.max() > S.tolerance(m, whole):
        c.violation('resume:value', '%s: resumed after epoch %d it is worth %.9g at %s, undisturbed %.9g' % (cmd, done, x[g.argmax()], B[g.argmax()].tolist(), y[g.argmax()]), **kw)
    c.count(resumed=1)


def run(chk):
    exe = sig.monitor()
    chk.rule = ('runs of all methods killed at points counted in allocator calls from the start, from the start of an epoch and from its end; recovery files compared with the '
                'files of undisturbed runs, a part of them resumed; directory listings after normal ends; non-trivial: distinct (model, options, point) where the file was judged')
    chk.assumptions = ['between the end of an epoch and the start of the next one the recovery file may be in the middle of being written: a prefix of it is accepted there only']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(3500, 40000))], quick_s=90, thorough_s=1800)
