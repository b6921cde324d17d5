"""Models, their file format, and an independent reference for value iteration.

Nothing in here shares code with the program under test: probabilities and rewards are held as
dense arrays and the dynamic-programming operator is written directly from its definition."""
import itertools, random
from fractions import Fraction
import numpy as np


class Model:
    """T[a,s,s'], O[a,s',z], R[a,s,s',z]; the values are what the file means (costs if cost)"""

    def __init__(self, T, O, R, disc, start=None, cost=False, sn=None, an=None, zn=None, tag=''):
        self.T, self.O, self.R = T, O, R
        self.nA, self.nS, _ = T.shape
        self.nZ = O.shape[2]
        self.disc, self.start, self.cost = disc, start, cost
        self.sn, self.an, self.zn = sn, an, zn
        self.tag = tag
        self.wide, self.hmax = None, None
        self._prep()

    def _prep(self):
        # expected immediate reward, sign as the solver maximizes it
        self.r = np.einsum('ast,atz,astz->as', self.T, self.O, self.R)
        if self.cost:
            self.r = -self.r
        # M[a][z][s,s'] = P(s',z | s,a)
        self.M = np.einsum('ast,atz->azst', self.T, self.O)

    def copy(self, **kw):
        d = dict(T=self.T.copy(), O=self.O.copy(), R=self.R.copy(), disc=self.disc,
                 start=None if self.start is None else self.start.copy(), cost=self.cost,
                 sn=self.sn, an=self.an, zn=self.zn, tag=self.tag)
        d.update(kw)
        o = Model(**d)
        o.wide, o.hmax = self.wide, self.hmax
        return o

    def possible(self, a, z):
        return self.M[a, z].max() > 1e-9

    @property
    def b0(self):
        return np.full(self.nS, 1.0 / self.nS) if self.start is None else self.start

    def scale(self):
        return 1.0 + np.abs(self.r).max()


def num(x):
    s = repr(float(x))
    if 'e' in s or 'E' in s:
        s = '%.12f' % x
    return s


def to_text(m, style=None):
    """The model in plain single-entry style, or matrices when style == 'matrix'"""
    out = []
    out.append('discount: ' + num(m.disc))
    out.append('values: ' + ('cost' if m.cost else 'reward'))
    nm = lambda names, n: ' '.join(names) if names else str(n)
    out.append('states: ' + nm(m.sn, m.nS))
    out.append('actions: ' + nm(m.an, m.nA))
    out.append('observations: ' + nm(m.zn, m.nZ))
    if m.start is not None:
        out.append('start: ' + ' '.join(num(x) for x in m.start))
    S = (lambda i: m.sn[i]) if m.sn else str
    A = (lambda i: m.an[i]) if m.an else str
    Z = (lambda i: m.zn[i]) if m.zn else str
    for a in range(m.nA):
        out.append('T: ' + A(a))
        for s in range(m.nS):
            out.append(' '.join(num(x) for x in m.T[a, s]))
        out.append('')
    for a in range(m.nA):
        out.append('O: ' + A(a))
        for s in range(m.nS):
            out.append(' '.join(num(x) for x in m.O[a, s]))
        out.append('')
    for a in range(m.nA):
        for s in range(m.nS):
            blk = m.R[a, s]
            if np.all(blk == blk.flat[0]):
                out.append('R: %s : %s : * : * %s' % (A(a), S(s), num(blk.flat[0])))
                continue
            for t in range(m.nS):
                if np.all(blk[t] == blk[t, 0]):
                    out.append('R: %s : %s : %s : * %s' % (A(a), S(s), S(t), num(blk[t, 0])))
                else:
                    for z in range(m.nZ):
                        out.append('R: %s : %s : %s : %s %s' % (A(a), S(s), S(t), Z(z), num(blk[t, z])))
    return '\n'.join(out) + '\n'


def _dist(rng, n, kind, den):
    """a distribution over n outcomes, multiples of 1/den"""
    if n == 1:
        return [1.0]
    if kind == 'det':
        k = rng.randrange(n)
        return [1.0 if i == k else 0.0 for i in range(n)]
    if kind == 'uniform' and den % n == 0:
        return [1.0 / n] * n
    if kind == 'sparse':
        k = rng.randint(1, min(2, n))
        sup = rng.sample(range(n), k)
    else:
        sup = list(range(n))
    cuts = sorted(rng.randint(0, den) for _ in range(len(sup) - 1))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [den])]
    v = [0.0] * n
    for i, p in zip(sup, parts):
        v[i] = p / den
    return v


def gen(rng, nS=None, nA=None, nZ=None, discs=(0.5, 0.75, 0.9, 0.95, 0.3, 1.0), maxS=4, maxA=3, maxZ=3,
        cost=None, minS=1, minA=1, minZ=1, generic=None):
    nS = nS or rng.choice([x for x in (1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 6) if minS <= x <= maxS])
    nA = nA or rng.choice([x for x in (1, 2, 2, 2, 3, 3, 4) if minA <= x <= maxA])
    nZ = nZ or rng.choice([x for x in (1, 2, 2, 2, 2, 3, 3, 4) if minZ <= x <= maxZ])
    if generic is None:
        generic = rng.random() < 0.5
    den = 1000 if generic else rng.choice([4, 10, 10, 20])
    tk = rng.choice(['dense', 'dense', 'dense', 'sparse', 'det', 'mixed'])
    ok = rng.choice(['dense', 'dense', 'dense', 'sparse', 'det', 'mixed', 'uniform'])
    kinds = ['dense', 'sparse', 'det', 'uniform']
    T = np.zeros((nA, nS, nS)); O = np.zeros((nA, nS, nZ)); R = np.zeros((nA, nS, nS, nZ))
    for a in range(nA):
        same = rng.random() < 0.15
        row = None
        dead = rng.randrange(nZ) if nZ > 1 and rng.random() < 0.2 else None
        for s in range(nS):
            k = rng.choice(kinds) if tk == 'mixed' else tk
            T[a, s] = _dist(rng, nS, k, den)
            k = rng.choice(kinds) if ok == 'mixed' else ok
            if dead is not None:
                d = _dist(rng, nZ - 1, k, den)
                o = d[:dead] + [0.0] + d[dead:]
            else:
                o = _dist(rng, nZ, k, den)
            if same:
                row = row or o
                o = row
            O[a, s] = o
    rare = ''
    if rng.random() < 0.05:
        # an outcome of a probability that is small but not negligible
        rare = ' rare'
        for X in (T,) if rng.random() < 0.3 or nZ == 1 else (O,):
            p, z = rng.choice([1e-3, 1e-3, 3e-4]), rng.randrange(X.shape[2])
            for a in range(nA):
                if rng.random() < 0.7:
                    for s in range(nS):
                        big = int(X[a, s].argmax())
                        if big != z and rng.random() < 0.7:
                            X[a, s, big] = round(X[a, s, big] + X[a, s, z] - p, 12)
                            X[a, s, z] = p
    rk = rng.choice(['as', 'as', 'as', 'ast', 'astz', 'sparse', 'zero_one'])
    def val():
        if rk == 'zero_one':
            return float(rng.random() < 0.3)
        if generic:
            return round(rng.uniform(-10, 10), 3)
        return float(rng.randint(-10, 10))
    for a in range(nA):
        for s in range(nS):
            if rk in ('as', 'zero_one'):
                R[a, s] = val()
            elif rk == 'ast':
                for t in range(nS):
                    R[a, s, t] = val()
            elif rk == 'astz':
                for t in range(nS):
                    for z in range(nZ):
                        R[a, s, t, z] = val()
            elif rng.random() < 0.5:
                R[a, s] = val()
    start = None
    if rng.random() < 0.6:
        start = np.array(_dist(rng, nS, rng.choice(['dense', 'det', 'sparse']), den))
    if cost is None:
        cost = rng.random() < 0.15
    return Model(T, O, R, rng.choice(discs), start, cost,
                 tag='S%dA%dZ%d T=%s O=%s R=%s den=%d' % (nS, nA, nZ, tk, ok, rk, den) + rare)


def wide(rng, axis=None, **kw):
    """models that are large in one direction; m.hmax is how far a solver can be expected to get"""
    axis = axis or rng.choice(['S', 'S', 'A', 'A', 'Z', 'Z', 'long', 'scale'])
    if axis == 'S':
        n = rng.choice([5, 6, 8, 9, 12, 16, 17, 20, 25, 33, 40])
        m = gen(rng, nS=n, nA=rng.choice([1, 2, 2, 3]), nZ=rng.choice([1, 2, 2, 3]), **kw)
        m.hmax = 2 if n <= 12 or m.nA * m.nZ <= 4 else 1
    elif axis == 'A':
        m = gen(rng, nS=rng.choice([1, 2, 2, 3]), nA=rng.choice([5, 8, 9, 16, 17, 30, 33, 50, 65]), nZ=rng.choice([1, 1, 2]), **kw)
        m.hmax = 2
    elif axis == 'Z':
        m = gen(rng, nS=rng.choice([1, 2, 2, 3]), nA=rng.choice([1, 2, 2]), nZ=rng.choice([5, 8, 9, 12, 16, 17, 24, 33]), **kw)
        m.hmax = 2
    elif axis == 'long':
        n = rng.choice([(1, 2, 2), (2, 1, 2), (3, 1, 1), (2, 2, 1), (1, 1, 1), (2, 1, 3)])
        m = gen(rng, nS=n[0], nA=n[1], nZ=n[2], **dict(kw, discs=(0.3, 0.5, 0.75, 0.9, 0.99)))
        m.hmax = rng.choice([12, 20, 33, 70, 101, 130]) if n != (2, 2, 1) else 20
    else:
        m = gen(rng, maxS=3, maxA=3, maxZ=2, **kw)
        m.hmax = 3
        m.R *= rng.choice([0.01, 100.0, 1000.0, 10000.0, 1e6])
        m._prep()
    m.wide = axis
    m.tag += ' wide=' + axis
    return m


def pick(rng, p=0.12, **kw):
    if rng.random() >= p:
        if 'discs' not in kw and rng.random() < 0.08:
            # discounts that are rarely used
            kw['discs'] = (0.999, 0.9999, 0.15, 0.25, 0.625)
        return gen(rng, **kw)
    keep = {k: kw[k] for k in ('discs', 'cost') if k in kw}
    return wide(rng, 'Z' if 'discs' in kw and rng.random() < 0.2 else rng.choice(['S', 'A', 'Z', 'scale']) if 'discs' in kw else None, **keep)


# ---------------------------------------------------------------- reference value iteration

def surface(V, B):
    """max over vectors; V: (k,S), B: (m,S) -> (m,)"""
    return (B @ V.T).max(axis=1)


def q_values(m, prev, B):
    """(m points, nA): best one-step backup of each action at each belief"""
    out = np.empty((B.shape[0], m.nA))
    for a in range(m.nA):
        v = B @ m.r[a]
        for z in range(m.nZ):
            v = v + m.disc * ((B @ m.M[a, z]) @ prev.T).max(axis=1)
        out[:, a] = v
    return out


def backup_at(m, prev, B):
    return q_values(m, prev, B).max(axis=1)


def backup_vectors_at(m, prev, B, actions=None):
    """the vectors the backup yields at points B"""
    res = {}
    for a in (range(m.nA) if actions is None else actions):
        g = np.einsum('zst,kt->zks', m.M[a], prev) * m.disc     # nZ,k,S
        best = np.einsum('zks,bs->zbk', g, B).argmax(axis=2)     # nZ,b
        vecs = np.tile(m.r[a], (len(B), 1))
        for z in range(m.nZ):
            vecs = vecs + g[z, best[z]]
        res[a] = vecs
    return res


def full_backup(m, prev):
    """All vectors of the unpruned one-step backup (small cases)."""
    vecs = []
    for a in range(m.nA):
        cur = [m.r[a]]
        for z in range(m.nZ):
            g = m.disc * (m.M[a, z] @ prev.T).T
            g = np.unique(np.round(g, 13), axis=0)
            cur = [c + h for c in cur for h in g]
        vecs += cur
    return np.array(vecs)


def simplex_points(rng, n, k):
    """k random points of the simplex, of assorted sparsity"""
    pts = []
    for _ in range(k):
        mode = rng.random()
        if mode < 0.4:
            w = [rng.expovariate(1.0) for _ in range(n)]
        elif mode < 0.7:
            w = [rng.expovariate(1.0) if rng.random() < 0.5 else 0.0 for _ in range(n)]
            if sum(w) == 0:
                w[rng.randrange(n)] = 1.0
        else:
            i, j = rng.randrange(n), rng.randrange(n)
            w = [0.0] * n
            x = rng.random()
            w[i] += x
            w[j] += 1 - x
        s = sum(w)
        pts.append([x / s for x in w])
    return np.array(pts)


def surface_vertices(V, limit=4000):
    """Vertices (as beliefs) of the upper surface of V over the simplex; best effort.

    Any belief is a valid test point, so a missed vertex costs reach, never soundness."""
    V = np.asarray(V, float)
    k, n = V.shape
    pts = [np.eye(n)]
    if n == 1:
        return np.eye(1)
    if k > 250:
        # too many to pair up: those that matter somewhere
        D = np.random.default_rng(k).dirichlet([0.5] * n, 2000)
        V = V[np.unique(np.argmax(np.vstack([D, pts[0]]) @ V.T, axis=1))[:250]]
        k = len(V)
    if n == 2:
        i, j = np.triu_indices(k, 1)
        d = (V[i, 0] - V[i, 1]) - (V[j, 0] - V[j, 1])
        ok = np.abs(d) > 1e-12
        i, j, d = i[ok], j[ok], d[ok]
        x = (V[j, 1] - V[i, 1]) / d
        ok = (x > 0) & (x < 1)
        B = np.column_stack([x[ok], 1 - x[ok]])
        if len(B):
            # only those where the pair is on the surface, and some others
            top = (B @ V.T).max(axis=1)
            on = np.einsum('ks,ks->k', B, V[i[ok]]) >= top - 1e-7 * (1 + np.abs(top))
            pts += [B[on][:limit], B[~on][:200]]
        return np.vstack(pts)
    if n > 7:
        # too many to list: those of some of the edges
        rng = random.Random(k * n)
        for _ in range(30):
            i, j = rng.sample(range(n), 2)
            E = surface_vertices(V[:, [i, j]])
            E = E[rng.sample(range(len(E)), min(len(E), 20))]
            B = np.zeros((len(E), n))
            B[:, i], B[:, j] = E[:, 0], E[:, 1]
            pts.append(B)
        return np.vstack(pts)
    try:
        from scipy.spatial import HalfspaceIntersection
        d = n - 1
        lo, hi = V.min(), V.max()
        sc = max(1.0, hi - lo)
        W = (V - lo) / sc
        # unknowns x_1..x_d, v ; b = (x, 1-sum x); constraint W_i.b - v <= 0
        H = []
        for w in W:
            H.append(list(w[:d] - w[d]) + [-1.0, w[d]])
        for i in range(d):
            e = [0.0] * (d + 2); e[i] = -1.0
            H.append(e)
        H.append([1.0] * d + [0.0, -1.0])
        H.append([0.0] * d + [1.0, -2.0])
        H = np.array(H)
        c = np.full(d, 1.0 / n)
        ip = np.append(c, 1.5)
        hs = HalfspaceIntersection(H, ip, qhull_options='QJ')
        X = hs.intersections[:, :d]
        B = np.column_stack([X, 1 - X.sum(axis=1)])
        B = B[np.isfinite(B).all(axis=1)]
        B = np.clip(B, 0, None)
        B = B / B.sum(axis=1, keepdims=True)
        B = np.unique(np.round(B, 12), axis=0)
        B = B / B.sum(axis=1, keepdims=True)
        if len(B) > limit:
            B = B[:: len(B) // limit + 1]
        pts.append(B)
    except Exception:
        pass
    return np.vstack(pts)


def test_points(rng, m, V, extra=60):
    n = m.nS
    P = [np.eye(n), np.full((1, n), 1.0 / n), m.b0[None, :], surface_vertices(V)]
    if n > 1:
        P.append(simplex_points(rng, n, extra))
    return np.vstack(P)


def envelope_margin(V, i):
    """max over beliefs of how much vector i exceeds every other (exact LP); >0 means useful"""
    from scipy.optimize import linprog
    k, n = V.shape
    if k == 1:
        return np.inf
    others = np.delete(V, i, axis=0)
    D = V[i] - others
    if n == 1:
        return D.min()
    if n == 2:
        # concave piecewise linear in one variable: the maximum is at an end or where two pieces meet
        A0, A1 = D[:, 0], D[:, 1]
        xs = [0.0, 1.0]
        sl = A0 - A1
        num_ = A1[:, None] - A1[None, :]
        den = sl[None, :] - sl[:, None]
        with np.errstate(divide='ignore', invalid='ignore'):
            x = (num_ / den).ravel()
        x = x[np.isfinite(x) & (x > 0) & (x < 1)]
        x = np.concatenate([xs, x])
        return (x[:, None] * A0 + (1 - x)[:, None] * A1).min(axis=1).max()
    # max d : (V_i - V_j).b >= d
    A = np.column_stack([-D, np.ones(k - 1)])
    res = linprog(np.append(np.zeros(n), -1.0), A_ub=A, b_ub=np.zeros(k - 1),
                  A_eq=[[1.0] * n + [0.0]], b_eq=[1.0],
                  bounds=[(0, 1)] * n + [(None, None)], method='highs',
                  options=dict(primal_feasibility_tolerance=1e-10, dual_feasibility_tolerance=1e-10))
    if res.status != 0:
        return None
    return -res.fun


def margin_over(v, V):
    """max over beliefs of v.b - max(V.b)"""
    from scipy.optimize import linprog
    k, n = V.shape
    A = np.column_stack([V - v, np.ones(k)])
    res = linprog(np.append(np.zeros(n), -1.0), A_ub=A, b_ub=np.zeros(k),
                  A_eq=[[1.0] * n + [0.0]], b_eq=[1.0],
                  bounds=[(0, 1)] * n + [(None, None)], method='highs')
    if res.status != 0:
        return None, None
    return -res.fun, res.x[:n]
