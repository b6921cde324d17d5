"""C18: the belief-update tool performs exact Bayesian filtering."""
import re
import numpy as np
import build, model as Mo, run as R
from core import Case, case_rng

SHOWN = re.compile(r'\[ ((?:-?[\d.]+(?:, )?|nan|-nan|inf)*) ?\]$')


def line_for(rng, m, b, rare, stubborn):
    """-> (text, action, observation) or (text, None, None) for a line that is no valid one"""
    x = rng.random()
    if x < 0.72:
        a = rng.randrange(m.nA)
        p = np.array([(b @ m.M[a, z]).sum() for z in range(m.nZ)])
        ok = [z for z in range(m.nZ) if p[z] > 1e-200]
        if not ok:
            ok = range(m.nZ)      # nothing is possible after the zero vector
        elif rng.random() < 0.01:
            ok = range(m.nZ)
        z = rng.choice(ok)
        if stubborn is not None:
            z = (max if rng.random() < stubborn else min)(ok, key=lambda k: p[k])
        elif rng.random() < rare:
            z = min(ok, key=lambda k: p[k])
        elif rng.random() < rare:
            z = max(ok, key=lambda k: p[k])
        pad = lambda: rng.choice(['', '', '', ' ', '\t', '  '])
        sep = rng.choice([' ', ' ', '\t', '   '])
        num = lambda v: rng.choice(['%d', '%d', '%d', '%02d', '+%d']) % v
        return pad() + num(a) + sep + num(z) + pad() + rng.choice(['', '', '', '\r']), a, z
    bad = rng.choice(['', ' ', '0', 'a b', '0 x', 'x 0', '-1 0', '0 -1', '%d 0' % m.nA, '0 %d' % m.nZ, '0 0 0', '0 0 x', '%d %d' % (m.nA, m.nZ),
                      '0.5 0', '0 0.5', '0,0', 'quit', 'EXIT', '#', '99999999999 0', '0 99999999999', '4294967296 0', '0 4294967296', '[]', 'x' * rng.choice([50, 200, 900]), '0 0 exit',
                      ' ' * rng.choice([10, 300, 900]), '\t', '1e0 0', '0x0 0', '"0" "0"'])
    return bad, None, None


def case(exe, seed, i):
    c = Case('seed=%d case=%d' % (seed, i))
    rng = case_rng(seed, 'C18', i)
    m = Mo.pick(rng, maxS=6, maxA=4, maxZ=4, minS=1)
    if rng.random() < 0.3:
        # states that persist, so that hypotheses become very unlikely before they turn out to be true
        m.T[:] = np.eye(m.nS)
        m._prep()
        if rng.random() < 0.5:
            m = m.copy(start=np.array([1.0 / m.nS] * m.nS) if m.nS in (1, 2, 4, 5) else None)
        if 1 < m.nZ <= 8 and m.nS > 1:
            # one observation that only one state can produce
            h, z0 = rng.randrange(m.nS), rng.randrange(m.nZ)
            m.O[:, :, z0] = 0
            m.O[:, :, (z0 + 1) % m.nZ] += 1e-3
            m.O[:, h, z0] = rng.choice([0.25, 0.5, 0.75])
            m.O /= m.O.sum(axis=2, keepdims=True)
            m.O = np.round(m.O, 3)
            m.O[:, :, (z0 + 1) % m.nZ] += 1 - m.O.sum(axis=2)
            m.O = np.abs(np.round(m.O, 3))
            m._prep()
        c.count(persistent=1)
    b = m.b0.copy()
    steady = rng.random() < 0.5
    rare = 0.3 if not steady else 0.02
    stubborn = rng.choice([0.95, 0.98, 0.99]) if rng.random() < 0.3 else None
    impossible = 0
    lines, want = [], [('b', b)]
    valid = invalid = 0
    ends = rng.random() < 0.5
    for _ in range(rng.choice([3, 10, 40, 120])):
        t, a, z = line_for(rng, m, b, rare, stubborn)
        lines.append(t)
        if a is None:
            invalid += 1
            want += [('bad', t), ('b', b)]
        else:
            valid += 1
            n = b @ m.M[a, z]
            if n.sum() <= 0:
                impossible += 1
                b = np.zeros(m.nS)
            else:
                c.counts['improbable'] += bool(n.sum() < 1e-10)
                b = n / n.sum()
            want.append(('b', b))
    text = '\n'.join(lines)
    if ends:
        text += '\n' + rng.choice(['exit', 'exit ', ' exit', 'exit\r']) + '\n' + '\n'.join(['0 0'] * 3) + '\n'
    else:
        text += rng.choice(['\n', '\n', '\n']) if not lines[-1].strip() else rng.choice(['', '\n'])
    with R.Scratch('c18') as d:
        open(d + '/m.POMDP', 'w').write(Mo.to_text(m))
        res = R.run([exe, '-tool', 'update_beliefs', '-pomdp', 'm.POMDP'], d, timeout=20, stdin=text)
        model = Mo.to_text(m)
    bad = lambda sig, msg: c.violation(sig, '%s\nmodel %s' % (msg, m.tag), model=model, lines=text, stdout=res.out, stderr=res.err)
    if res.timeout:
        bad('no-end', 'the tool does not end at the end of its input')
        return c
    if res.crashed or res.rc != 0:
        bad('tool-failed:' + res.signature(), res.brief())
        return c
    got = [l for l in res.out.split('\n') if l.startswith('[')]
    k = 0
    c.count(lines=len(lines), impossible=impossible, valid=valid, invalid=invalid, beliefs=0)
    for kind, w in want:
        if k >= len(got):
            bad('missing', 'after %d answers there is none for %r' % (k, w if kind == 'bad' else 'a belief'))
            return c
        g = got[k]
        k += 1
        if kind == 'bad':
            if not re.fullmatch(r'\[ ?\]', g.strip()):
                bad('invalid-accepted', 'the line %r is answered by %r' % (w[:80], g[:100]))
                return c
            continue
        mt = re.fullmatch(r'\[ (.*?) ?\]', g.strip())
        try:
            v = [float(x) for x in mt.group(1).replace(',', ' ').split()]
        except (ValueError, AttributeError):
            bad('layout', 'answer %r where a belief is due' % g[:100])
            return c
        c.count(beliefs=1)
        if len(v) != m.nS or np.abs(np.array(v) - w).max() > 2e-6:
            bad('posterior', 'answer %d is %s, the posterior is %s' % (k, v, np.round(w, 7).tolist()))
            return c
        if w.any() and min(v) < 0 or w.any() and abs(sum(v) - 1) > 1e-6 * m.nS:
            bad('distribution', 'answer %d, %s, is no distribution' % (k, v))
            return c
    if k != len(got):
        bad('extra', '%d answers more than lines: %r' % (len(got) - k, got[k][:100]))
        return c
    if valid > 1:
        c.nontrivial = (m.tag, text)
    c.sample = dict(model=m.tag, lines=len(lines), last=got[-1])
    return c


def run(chk):
    exe = build.build('asan', 'pomdp-tools')
    chk.rule = ('random models and dialogues of up to 120 lines, rare observations preferred, mixed with lines that are not valid; '
                'each answer compared with Bayes rule computed from the model; non-trivial: distinct dialogues with at least 2 updates')
    chk.assumptions = ['observations of probability between 0 and 1e-200 after the action are not tried']
    chk.pmap(case, [(exe, chk.seed, i) for i in range(chk.n(1500, 20000))], quick_s=60, thorough_s=1200)
