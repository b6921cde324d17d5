"""Model files in every documented syntax, with what they mean worked out alongside.

A file is a list of statements; each statement is a list of tokens and has an effect on the dense
arrays held here, written from the description of the format: the last statement to address an
entry wins."""
import random
import numpy as np

RESERVED = {'discount', 'values', 'states', 'actions', 'observations', 'T', 'O', 'R', 'uniform', 'identity',
            'reward', 'cost', 'start', 'include', 'exclude', 'reset'}


def names(rng, n):
    style = rng.choice(['s', 'words', 'perm', 'tricky', 'long', 'stem'] if n <= 8 else ['s', 'words', 'long', 'many', 'stem'])
    out = []
    stem = ''.join(rng.choice('abcxyzABC019-_') for _ in range(rng.choice([3, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 100, 128, 255])))
    while len(out) < n:
        if style == 's':
            x = rng.choice('saozxqSAOZ') + str(len(out)) if not out else out[0][0] + str(len(out))
        elif style == 'words':
            x = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz') for _ in range(rng.randint(1, 8)))
        elif style == 'perm':
            x = list('abcd')
            rng.shuffle(x)
            x = ''.join(x[:rng.choice([2, 3, 4])])
        elif style == 'tricky':
            x = rng.choice(['state', 'Reset', 't', 'o', 'r', 'resets', 'uniform-', 'T1', 'O-', 'R_', 'e5', 'E-1', 'discounts', 'value', 'inf', 'nan',
                            'a-b', 'a_b', 'a--', 'Include', 'x1e5', 'costs', 'UNIFORM', 'tT', 'TT', 'OO', 'X', 'start-', 'identity2', 'rewardd'])
        elif style == 'many':
            # plenty of equal hashes
            x = rng.choice('ab') + rng.choice('ab') + rng.choice('abcdef') * rng.randint(1, 3) + rng.choice('abxy') + rng.choice('0123')
        elif style == 'stem':
            # alike but for a character or two, mostly with equal hashes
            k = rng.randrange(len(stem) + 1)
            x = 'n' + stem[:k] + rng.choice('abcdefghijklmnop') * rng.choice([1, 1, 2]) + stem[k:] + rng.choice(['', 'ne'])
        else:
            x = 'n' + ''.join(rng.choice('abcABC019-_') for _ in range(rng.choice([31, 32, 33, 64, 200])))
        if x not in out and x not in RESERVED:
            out.append(x)
    return out


def num(rng, v, signed=False, exact=False):
    """a way to write v >= 0 that reads back as the same double"""
    cands = [repr(float(v))]
    if v == int(v) and v < 1e15:
        cands += [str(int(v)), '%d.' % v, '%d.0' % v, '%d.000000' % v, '0' * rng.randint(1, 3) + str(int(v)), '%de0' % v, '%d.0E+00' % v]
    else:
        cands += ['0' + repr(float(v)), '%.17e' % v, '%.17E' % v]
        if 'e' not in cands[0]:
            cands += [cands[0] + '0', cands[0] + 'e0', cands[0] + 'E+0']
        s = '%.6f' % v
        cands += [s, s]
    cands = [c for c in cands if float(c) == float(v)]
    return rng.choice(cands)


def dist(rng, n):
    """a distribution given by decimal numbers"""
    k = rng.random()
    if n == 1 or k < 0.25:
        v = [0.0] * n
        v[rng.randrange(n)] = 1.0
        return v
    if k < 0.4 and abs(round(1.0 / n, 6) * n - 1) < 4e-6:
        return [round(1.0 / n, 6)] * n
    den = rng.choice([10, 100, 1000, 20, 1000000])
    cuts = sorted(rng.randint(0, den) for _ in range(n - 1))
    return [(b - a) / den for a, b in zip([0] + cuts, cuts + [den])]


class File:
    def __init__(self, rng, nS=None, nA=None, nZ=None):
        self.rng = rng
        big = nS is None and rng.random() < 0.05
        self.nS = nS or (rng.randint(8, 40) if big else rng.choice([1, 2, 2, 3, 3, 4, 5]))
        self.nA = nA or rng.choice([1, 2, 2, 3, 4])
        self.nZ = nZ or rng.choice([1, 2, 2, 3, 4])
        r = rng.random
        self.sn = names(rng, self.nS) if r() < 0.5 else None
        self.an = names(rng, self.nA) if r() < 0.5 else None
        self.zn = names(rng, self.nZ) if r() < 0.5 else None
        self.disc = rng.choice([0.0, 1.0, 0.95, 0.5, 0.999999, 0.123456789, 0.75])
        self.cost = r() < 0.3
        self.T = np.zeros((self.nA, self.nS, self.nS))
        self.O = np.zeros((self.nA, self.nS, self.nZ))
        self.R = np.zeros((self.nA, self.nS, self.nS, self.nZ))
        self.start = np.full(self.nS, 1.0 / self.nS)
        self.pre = self.preamble()
        self.st = self.start_stmt()
        self.body = self.statements()

    # references
    def S(self, s): return self.ref(s, self.sn)
    def A(self, a): return self.ref(a, self.an)
    def Z(self, z): return self.ref(z, self.zn)

    def ref(self, i, nm):
        if i is None:
            return '*'
        if nm and self.rng.random() < 0.7:
            return nm[i]
        return '0' * self.rng.choice([0, 0, 0, 1]) + str(i)

    def pick(self, n, wild=0.3):
        return None if self.rng.random() < wild else self.rng.randrange(n)

    @staticmethod
    def rg(i, n):
        return slice(0, n) if i is None else slice(i, i + 1)

    def p(self, v):
        return num(self.rng, v)

    def preamble(self):
        rng = self.rng
        out = [['discount', ':'] + (['+'] if rng.random() < 0.1 else []) + [self.p(self.disc)],
               ['values', ':', 'cost' if self.cost else 'reward'],
               ['states', ':'] + (self.sn or [str(self.nS)]),
               ['actions', ':'] + (self.an or [str(self.nA)]),
               ['observations', ':'] + (self.zn or [str(self.nZ)])]
        if rng.random() < 0.5:
            rng.shuffle(out)
        return out

    def start_stmt(self):
        rng = self.rng
        k = rng.choice(['none', 'none', 'probs', 'probs', 'uniform', 'name', 'include', 'exclude', 'wild'])
        n = self.nS
        if k == 'probs':
            self.start = np.array(dist(rng, n))
            return [['start', ':'] + [self.p(x) for x in self.start]]
        if k == 'uniform':
            return [['start', ':', 'uniform']]
        if k == 'name' and self.sn:
            i = rng.randrange(n)
            self.start = np.eye(n)[i]
            return [['start', ':', self.sn[i]]]
        if k == 'include' or k == 'wild':
            l = [rng.randrange(n) for _ in range(rng.randint(1, n + 1))]
            if k == 'wild' and rng.random() < 0.5:
                l.insert(rng.randint(0, len(l)), None)
            v = np.zeros(n)
            for i in l:
                v[self.rg(i, n)] = 1.0
            self.start = v / v.sum()
            return [['start', 'include', ':'] + [self.S(i) for i in l]]
        if k == 'exclude' and n > 1:
            keep = rng.randrange(n)
            l = [i for i in (rng.randrange(n) for _ in range(rng.randint(1, n + 1))) if i != keep] or [(keep + 1) % n]
            v = np.ones(n)
            v[l] = 0.0
            self.start = v / v.sum()
            return [['start', 'exclude', ':'] + [self.S(i) for i in l]]
        return []

    # statements with an effect
    def prob_matrix(self, kw, M, n, a, rows):
        for i, row in enumerate(rows):
            M[self.rg(a, self.nA), i] = row
        return [kw, ':', self.A(a)] + [self.p(x) for row in rows for x in row]

    def prob_row(self, kw, M, a, s, row):
        M[self.rg(a, self.nA), self.rg(s, self.nS)] = row
        return [kw, ':', self.A(a), ':', self.S(s)] + [self.p(x) for x in row]

    def prob_single(self, kw, M, n, a, s, j, v):
        M[self.rg(a, self.nA), self.rg(s, self.nS), self.rg(j, n)] = v
        return [kw, ':', self.A(a), ':', self.S(s), ':', (self.S if kw == 'T' else self.Z)(j), self.p(v)]

    def prob_group(self, kw, wild=0.3, a='?', s='?'):
        rng = self.rng
        M, n = (self.T, self.nS) if kw == 'T' else (self.O, self.nZ)
        fixed = a != '?'
        if not fixed:
            a, s = self.pick(self.nA, wild), self.pick(self.nS, wild)
        kinds = ['row', 'row', 'urow', 'singles', 'reset' if kw == 'T' else 'row']
        if not fixed:
            kinds += ['matrix', 'matrix', 'umatrix', 'noise', 'identity' if kw == 'T' else 'matrix']
        k = rng.choice(kinds)
        u = [1.0 / n] * n
        if k == 'matrix':
            return [self.prob_matrix(kw, M, n, a, [dist(rng, n) for _ in range(self.nS)])]
        if k == 'umatrix':
            M[self.rg(a, self.nA)] = 1.0 / n
            return [[kw, ':', self.A(a), 'uniform']]
        if k == 'identity':
            M[self.rg(a, self.nA)] = np.eye(n)
            return [[kw, ':', self.A(a), 'identity']]
        if k == 'urow':
            M[self.rg(a, self.nA), self.rg(s, self.nS)] = 1.0 / n
            return [[kw, ':', self.A(a), ':', self.S(s), 'uniform']]
        if k == 'reset':
            M[self.rg(a, self.nA), self.rg(s, self.nS)] = self.start
            return [[kw, ':', self.A(a), ':', self.S(s), 'reset']]
        if k == 'row':
            return [self.prob_row(kw, M, a, s, dist(rng, n))]
        if k == 'singles':
            v = dist(rng, n)
            js = list(range(n))
            rng.shuffle(js)
            out = []
            if rng.random() < 0.5:
                out.append(self.prob_single(kw, M, n, a, s, None, rng.choice([0.0, 0.0, 0.5, 1.0])))
                if out and M[self.rg(a, self.nA), self.rg(s, self.nS)].max() == 0:
                    js = [j for j in js if v[j] > 0]
            for j in js:
                out.append(self.prob_single(kw, M, n, a, s, j, v[j]))
            return out
        return [self.prob_single(kw, M, n, self.pick(self.nA, wild), self.pick(self.nS, wild), self.pick(n, wild),
                                 rng.choice([0.0, 1.0, 0.25, 0.5, 0.999999]))]

    def rnum(self, zero=0.25):
        rng = self.rng
        if rng.random() < zero:
            return [rng.choice(['', '', '+', '-']), num(rng, 0.0)], 0.0
        v = rng.choice([float(rng.randint(0, 100)), round(rng.uniform(0, 100), rng.randint(1, 6)), round(rng.uniform(0, 1), 9),
                        float(rng.randint(0, 10 ** rng.randint(1, 12))), 0.001])
        sg = rng.choice(['', '', '-', '-', '+'])
        return [sg, num(rng, v)], -v if sg == '-' else v

    def reward_group(self):
        rng = self.rng
        k = rng.choice(['single', 'single', 'single', 'row', 'matrix'])
        a, s, t, z = self.pick(self.nA, .4), self.pick(self.nS, .4), self.pick(self.nS, .5), self.pick(self.nZ, .5)
        ra, rs, rt, rz = self.rg(a, self.nA), self.rg(s, self.nS), self.rg(t, self.nS), self.rg(z, self.nZ)
        if k == 'single':
            tk, v = self.rnum()
            self.R[ra, rs, rt, rz] = v
            return [['R', ':', self.A(a), ':', self.S(s), ':', self.S(t), ':', self.Z(z)] + [x for x in tk if x]]
        if k == 'row':
            out = ['R', ':', self.A(a), ':', self.S(s), ':', self.S(t)]
            for j in range(self.nZ):
                tk, v = self.rnum()
                self.R[ra, rs, rt, j] = v
                out += [x for x in tk if x]
            return [out]
        out = ['R', ':', self.A(a), ':', self.S(s)]
        for i in range(self.nS):
            for j in range(self.nZ):
                tk, v = self.rnum(0.4)
                self.R[ra, rs, i, j] = v
                out += [x for x in tk if x]
        return [out]

    def statements(self):
        rng = self.rng
        out = []
        n = rng.choice([2, 4, 8, 16])
        for _ in range(n):
            k = rng.random()
            out += self.prob_group('T') if k < 0.3 else self.prob_group('O') if k < 0.6 else self.reward_group()
        fix = []
        for kw, M in (('T', self.T), ('O', self.O)):
            for a in range(self.nA):
                for s in range(self.nS):
                    if abs(M[a, s].sum() - 1) > 4e-6:
                        fix.append((kw, a, s))
        rng.shuffle(fix)
        for kw, a, s in fix:
            M = self.T if kw == 'T' else self.O
            if abs(M[a, s].sum() - 1) > 4e-6:
                out += self.prob_group(kw, a=a, s=s)
            if rng.random() < 0.15:
                out += self.reward_group()
        return out

    def stmts(self):
        return self.pre + self.st + self.body

    def text(self, wildness=None):
        return layout(self.rng, self.stmts(), wildness)

    def q(self):
        return np.einsum('ast,atz,astz->as', self.T, self.O, self.R)

    def summary(self):
        return 'S%d A%d Z%d %d statements' % (self.nS, self.nA, self.nZ, len(self.body))


def layout(rng, stmts, wildness=None):
    """tokens in lines, with blanks and comments wherever the format lets them be"""
    w = rng.choice([0.0, 0.02, 0.1, 0.4]) if wildness is None else wildness
    eol = rng.choice(['\n', '\n', '\n', '\r\n'])
    out = []

    def gap(must):
        if rng.random() < w:
            k = rng.random()
            if k < 0.3:
                return rng.choice(['  ', '\t', ' \t ', '      '])
            if k < 0.6:
                return eol * rng.randint(1, 3)
            if k < 0.8:
                return ' # ' + rng.choice(['comment', 'T: 0 : 0 : 0 1.0', 'a "quoted" thing: * + -', '##', 'states: 7', '\xe9\xff']) + eol
            return eol + rng.choice(['#', '# x', '   # uniform']) + eol
        return ' ' if must else rng.choice(['', ' ', ' '])

    for st in stmts:
        for i, t in enumerate(st):
            if i:
                must = not (t == ':' or st[i - 1] == ':' or st[i - 1] in '+-')
                out.append(gap(must))
            out.append(t)
        out.append(gap(True) if rng.random() < w / 2 else eol)
        if not out[-1].strip(' \t') and out[-1] == '':
            out[-1] = eol
    t = ''.join(out)
    k = rng.random()
    if k < 0.2:
        t = t.rstrip()
    elif k < 0.3:
        t += '# end'
    if rng.random() < 0.2:
        t = rng.choice(['# head\n', '\n\n', '#\n', '   ']) + t
    return t
