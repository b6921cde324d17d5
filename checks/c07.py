"""C07: no model file, however malformed, corrupts memory or hangs the loader."""
import glob, os, re, shutil, subprocess, time
import numpy as np
import build, run as R, load as L, syntax
from core import Case, case_rng, NPROC
from c33 import MDPFile

PER = 24

WORDS = ['discount', 'values', 'states', 'actions', 'observations', 'T', 'O', 'R', 'uniform', 'identity', 'reward', 'cost', 'start',
         'include', 'exclude', 'reset', ':', '*', '+', '-', ':', ':', '*']


def hostile(rng):
    """a token that a careless loader might trip over"""
    k = rng.randrange(14)
    if k == 0:
        return rng.choice(['0', '1', '2', '3', '5', '7', '64', '65', '9', '00', '-1', '-0'])
    if k == 1:
        return str(rng.choice([100, 255, 256, 257, 499, 500, 501, 1000, 1023, 1024, 2000]))
    if k == 2:
        return rng.choice(['2147483647', '2147483648', '4294967295', '4294967296', '-2147483648', '99999999999999999999', '1' * 400,
                           '18446744073709551615', '3000000000', '65536', '1000000', '70000'])
    if k == 3:
        return rng.choice(['1e308', '1e309', '1e-320', '1e-400', '0.' + '0' * 300 + '1', '9' * 320 + '.0', '1.' + '3' * 500, 'nan', 'inf', '-inf', 'NaN', '0x1p4', '1e',
                           '1e+', '.', '.5', '5.', '1..2', '1.2.3', '1e5e5', '--1', '+-1', '1E999999999'])
    if k == 4:
        return rng.choice('abXY_') * rng.choice([1, 10, 31, 32, 33, 39, 40, 41, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000, 9000, 20000])
    if k == 5:
        return rng.choice(['%s%s%s%n', '%d', '%n', '\\0', '\\', '"', "'", '#', '$', '\x00', '\x01', '\x7f', '\xff', '\x1a', '\x0c', '\x0b', '\r', '\xe9', '\x00\x00\x00'])
    if k <= 9:
        return rng.choice(WORDS)
    if k == 10:
        return rng.choice(WORDS) + rng.choice(WORDS)
    if k == 11:
        return '#' + 'x' * rng.choice([1, 100, 255, 256, 4000, 9000, 40000]) + rng.choice(['\n', ''])
    if k == 12:
        return '\n' * rng.choice([1, 3, 200, 5000])
    return rng.choice(['uniform', 'identity', 'reset'])


def toks(stmts):
    out = []
    for s in stmts:
        out += s + ['\n']
    return out


def mutate_tokens(rng, t, other, n):
    t = list(t)
    for _ in range(n):
        if not t:
            t = ['T']
        i = rng.randrange(len(t))
        k = rng.randrange(9)
        if k == 0:
            del t[i]
        elif k == 1:
            t.insert(i, t[i])
        elif k == 2:
            j = rng.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k in (3, 4):
            t[i] = hostile(rng)
        elif k == 5:
            t.insert(i, hostile(rng))
        elif k == 6:
            j = min(len(t), i + rng.randint(1, 12))
            if rng.random() < 0.5:
                del t[i:j]
            else:
                t[j:j] = t[i:j] * rng.choice([1, 1, 2, 10])
        elif k == 7 and other:
            j = rng.randrange(len(other))
            t[i:i] = other[j:j + rng.randint(1, 20)]
        else:
            j = rng.randrange(len(t))
            t[i] = t[j]
    return t


def soup(rng):
    pre = rng.choice([[], ['discount', ':', '0.5', 'values', ':', 'reward', 'states', ':', '3', 'actions', ':', '2', 'observations', ':', '2', '\n'],
                      ['discount', ':', '0.5', 'values', ':', 'cost', 'states', ':', '3', 'actions', ':', '2', '\n'],
                      ['discount', ':', '0.5', 'values', ':', 'cost', 'states', ':', 'a', 'b', 'c', 'actions', ':', 'u', 'v', 'observations', ':', 'a', 'u', '\n', 'start', 'include', ':']])
    w = rng.choice([WORDS, WORDS + ['0', '1', '2', '0.5', 'a', 'b', 'u', '1.0', '\n'] * 2])
    return pre + [rng.choice(w) if rng.random() < 0.93 else hostile(rng) for _ in range(rng.choice([1, 5, 20, 100, 400]))]


def stress(rng):
    """much of one thing"""
    k = rng.choice(['errors', 'names', 'rewards', 'states', 'redundant', 'starts', 'numbers', 'hash', 'preamble'])
    n = rng.choice([200, 999, 1000, 1001, 3000])
    head = ['discount: 0.9', 'values: reward', 'states: 2', 'actions: 2', 'observations: 2']
    if k == 'errors':
        return '\n'.join(head + ['T: %d : %d : %d 0.1' % (rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 9)) if rng.random() < 0.5 else
                                 'R: nosuch%d : * : * : * 1' % rng.randint(0, 99999) for _ in range(n)])
    if k == 'names':
        nm = ['n%d' % i for i in range(n)]
        return '\n'.join(head[:2] + ['states: s t', 'actions: a', 'observations: ' + ' '.join(nm), 'T: * identity', 'O: * uniform', 'R: a : s : * : %s 1' % rng.choice(nm)])
    if k == 'hash':
        nm = sorted({''.join(rng.choice('ab') for _ in range(rng.randint(1, 9))) for _ in range(n)})
        return '\n'.join(head[:2] + ['states: S t', 'actions: A', 'observations: ' + ' '.join(nm), 'T: * identity', 'O: * uniform', 'R: A : S : * : %s 1' % rng.choice(nm)])
    if k == 'rewards':
        return '\n'.join(head + ['T: * identity', 'O: * uniform'] + ['R: %s : %s : %s : %s %d' % tuple([rng.choice(['0', '1', '*']) for _ in range(4)] + [i]) for i in range(n)])
    if k == 'states':
        m = rng.choice([63, 64, 65, 100, 300])
        return '\n'.join(head[:2] + ['states: %d' % m, 'actions: 1', 'observations: 2', 'T: * %s' % rng.choice(['identity', 'uniform']), 'O: * uniform', 'R: * : %d : * : * 1' % (m - 1)])
    if k == 'redundant':
        return '\n'.join(head + ['T: * uniform', 'O: * uniform'] * n)
    if k == 'starts':
        return '\n'.join(head + ['start include: ' + ' '.join(rng.choice(['0', '1', '*', '2']) for _ in range(n)), 'T: * identity', 'O: * uniform'])
    if k == 'numbers':
        return '\n'.join(head + ['T: * ' + ' '.join(rng.choice(['0', '1', '0.5']) for _ in range(n * 3)), 'O: * uniform'])
    return '\n'.join(head * (n // 5) + ['T: * identity', 'O: * uniform'])


def make(rng):
    kind = rng.choice(['tok', 'tok', 'tok', 'tok', 'byte', 'byte', 'cut', 'soup', 'soup', 'bytes', 'stress', 'valid'])
    small = lambda: (MDPFile if rng.random() < 0.2 else syntax.File)(rng, nS=rng.choice([1, 2, 3]))
    if kind == 'tok':
        f = small() if rng.random() < 0.9 else syntax.File(rng)
        t = mutate_tokens(rng, toks(f.stmts()), toks(small().stmts()), rng.choice([1, 1, 1, 2, 3, 8]))
        s = ' '.join(t)
    elif kind == 'byte':
        b = bytearray(small().text().encode('latin-1'))
        for _ in range(rng.choice([1, 1, 2, 5, 20])):
            i = rng.randrange(len(b)) if b else 0
            k = rng.randrange(5)
            if k == 0 and b:
                b[i] = rng.randrange(256)
            elif k == 1 and b:
                b[i] ^= 1 << rng.randrange(8)
            elif k == 2:
                b[i:i] = bytes(rng.choice([0, 10, 13, 32, 35, 42, 43, 45, 46, 48, 57, 58, 101, 0xff]) for _ in range(rng.randint(1, 4)))
            elif k == 3:
                j = i + rng.randint(1, 10)
                b[i:i] = b[i:j]
            else:
                del b[i:i + rng.randint(1, 6)]
        s = bytes(b)
    elif kind == 'cut':
        s = small().text()
        s = s[:rng.randint(0, len(s))]
    elif kind == 'soup':
        s = ' '.join(soup(rng))
    elif kind == 'bytes':
        s = bytes(rng.choice([rng.randrange(256), rng.choice(b' \n:*TOR019.-+#e')]) for _ in range(rng.choice([1, 3, 30, 300, 3000, 20000])))
    elif kind == 'stress':
        s = stress(rng)
    else:
        s = syntax.File(rng).text()
    return kind, s if isinstance(s, bytes) else s.encode('latin-1')


def big(text):
    """does the file declare sizes that may rightly take the memory or the time allowed?"""
    return len(text) > 200000 or any(len(x) > 3 or int(x) > 300 for x in re.findall(rb'[0-9]+', text) if x.strip(b'0'))


def usable(d):
    for n, M in (('T', d.T), ('O', d.O)):
        if not np.isfinite(M).all() or M.min() < 0 or M.max() > 1 or np.abs(M.sum(axis=2) - 1).max() > 1.1e-5:
            return '%s is not a probability matrix' % n
    if not np.isfinite(d.start).all() or d.start.min() < 0 or abs(d.start.sum() - 1) > 1.1e-5:
        return 'the start belief is not a distribution'
    if not 0 <= d.discount <= 1:
        return 'discount %r' % d.discount
    if min(d.nS, d.nA, d.nZ) < 1:
        return 'counts %r' % ((d.nS, d.nA, d.nZ),)


def judge(c, kind, x):
    t = x.res
    if x.rc is None and x.signal is None:
        c.inconclusive.append('not run')
        return
    c.count(files=1, bytes=len(x.text))
    c.counts['kind_' + kind] += 1
    if x.res.timeout:
        if big(x.text):
            c.count(too_large_for_time=1)
        else:
            c.violation('hang', 'loading does not end in the time allowed (%s)' % kind, model=x.text)
    elif t.crashed:
        # memory the file itself asks for may be refused
        if big(x.text) and re.search(r'allocation-size-too-big|out-of-memory|Out of memory', x.log):
            c.count(too_large_for_memory=1)
        else:
            c.violation(t.signature(), '%s: %s' % (kind, x.log[-1500:]), model=x.text)
    elif x.rc == 0:
        c.count(accepted=1)
        if x.dump is not None:
            u = usable(x.dump)
            if u:
                c.violation('unusable', 'a file is accepted and then %s' % u, model=x.text)
    else:
        c.count(refused=1)
        if not re.search(r'ERROR|not successfully|not a POMDP|Out of memory|ABORT', x.log):
            c.violation('silent', 'a file is refused (status %s) without a word: %r' % (x.rc, x.log[-300:]), model=x.text)


def case(exe, variant, seed, i):
    c = Case('%s %d' % (variant, i))
    rng = case_rng(seed, 'c07', variant, i)
    made = [make(rng) for _ in range(PER)]
    with R.Scratch('c07') as d:
        for (kind, text), x in zip(made, L.load(exe, d, [t for _, t in made], secs=6)):
            judge(c, kind, x)
            if c.violations and x.res.timeout:
                break
    c.count(**{'by_' + variant: PER})
    c.nontrivial = tuple(hash(t) for _, t in made)
    c.sample = {'kind': made[0][0], 'file': made[0][1][:200].decode('latin-1')}
    return c


def fuzz(chk, exe):
    """coverage-guided: libFuzzer looks for inputs, many loads to a process; what it finds is judged again like the rest"""
    tgt = build.build('fuzz', 'pomdp-solve', extra_src=[L.HERE + '/harness/loadfuzz.c'], drop=['main.c'], out='loadfuzz', link=['-Wl,--wrap=exit'])
    secs = int(chk.n(20, 1500))
    with R.Scratch('c07fuzz') as d:
        os.mkdir(d + '/corpus')
        rng = case_rng(chk.seed, 'c07fuzz')
        for k in range(80):
            f = (MDPFile if k % 8 == 7 else syntax.File)(rng, nS=rng.choice([1, 2, 3]))
            open(d + '/corpus/%03d' % k, 'w', encoding='latin-1').write(syntax.layout(rng, f.stmts(), 0.0))
        open(d + '/dict', 'w').write('\n'.join('"%s"' % w for w in sorted(set(WORDS)) if w) + '\n"\\x0a"\n"*: "\n"0.5"\n"R: * : * : * : * 1"\n')
        before = set(os.listdir(d + '/corpus'))
        r = R.run([tgt, '-fork=%d' % NPROC, '-ignore_crashes=1', '-ignore_timeouts=1', '-ignore_ooms=1', '-max_total_time=%d' % secs, '-timeout=20',
                   '-rss_limit_mb=2500', '-malloc_limit_mb=1500', '-dict=dict', '-max_len=3000', '-seed=%d' % chk.seed, '-artifact_prefix=' + d + '/', '-detect_leaks=0', 'corpus'],
                  d, timeout=secs + 120, retry=False, fsize=None)
        st = [x for x in r.text.split('\n') if re.match(r'#\d+: cov', x)]
        found = sorted(glob.glob(d + '/crash-*') + glob.glob(d + '/timeout-*') + glob.glob(d + '/oom-*'))
        new = sorted(set(os.listdir(d + '/corpus')) - before)
        chk.extra['libfuzzer'] = dict(last=st[-1] if st else r.text[-300:], new_inputs=len(new), suspicious=len(found))
        texts = [open(f, 'rb').read() for f in found[:200]]
        # what it found, and part of what it found interesting, under both sanitizers
        rng.shuffle(new)
        texts += [open(d + '/corpus/' + f, 'rb').read() for f in new[:chk.n(160, 4000)]]
    for v, e in exe.items():
        jobs = [(e, v, texts[k:k + PER]) for k in range(0, len(texts), PER)]
        chk.pmap(again, jobs, quick_s=60, thorough_s=900)


def again(exe, variant, texts):
    c = Case('afl %s' % variant)
    with R.Scratch('c07') as d:
        for t, x in zip(texts, L.load(exe, d, texts, secs=6)):
            judge(c, 'afl', x)
    c.nontrivial = tuple(hash(t) for t in texts)
    return c


def run(chk):
    exe = {v: L.exe(v) for v in ('asan', 'msan')}
    chk.rule = ('model files mutated by token and byte, cut, spliced, random and oversized, and those a coverage-guided fuzzer makes, loaded under the address, '
                'undefined-behaviour and memory sanitizers; non-trivial: distinct groups of %d files' % PER)
    chk.assumptions = ['time and memory are not judged for files that declare counts beyond 300']
    n = chk.n(300, 12000)
    chk.pmap(case, [(exe[v], v, chk.seed, i) for i in range(n) for v in exe], quick_s=60, thorough_s=1200)
    if not chk.stop:
        fuzz(chk, exe)
