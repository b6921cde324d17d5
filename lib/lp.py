"""Reading the log of linear programs and judging the answers."""
import numpy as np
from scipy.optimize import linprog

OPTIMAL, INFEASIBLE, UNBOUNDED = 0, 1, 2


class LP:
    pass


def read(path):
    res, seen = [], 0
    with open(path) as f:
        for line in f:
            t = line.split()
            if not t:
                continue
            if t[0] == 'lp':
                p = LP()
                p.rows, p.cols, p.sense_obj = map(int, t[1:])
                p.A = np.zeros((p.rows, p.cols))
                p.ret, col = None, 0
                res.append(p)
            elif t[0] in ('obj', 'low', 'up', 'rhs'):
                setattr(p, t[0], np.array([float(x) for x in t[1:]]))
            elif t[0] == 'sense':
                p.sense = t[1]
            elif t[0] == 'col':
                for e in t[1:]:
                    r, v = e.split(':')
                    p.A[int(r), col] += float(v)
                col += 1
            elif t[0] == 'ret':
                p.ret, p.val = int(t[1]), float(t[3])
            elif t[0] == 'x':
                p.x = np.array([float(x) for x in t[1:]])
            elif t[0] == 'end':
                seen = int(t[1])
    return res, seen


def violation(p, x):
    """largest violation of a constraint or bound at x"""
    v = p.A @ x - p.rhs
    w = 0.0
    for s, d in zip(p.sense, v):
        w = max(w, abs(d) if s == 'E' else d if s == 'L' else -d)
    return max(w, (p.low - x).max(), (x - p.up).max())


def reference(p):
    """(status, optimum) by an independent solver"""
    s = np.array(list(p.sense))
    ub = np.where(s == 'L', 1.0, -1.0)
    keep = s != 'E'
    sign = -1.0 if p.sense_obj == -1 else 1.0
    r = linprog(sign * p.obj, A_ub=(p.A * ub[:, None])[keep] if keep.any() else None, b_ub=(p.rhs * ub)[keep] if keep.any() else None,
                A_eq=p.A[~keep] if (~keep).any() else None, b_eq=p.rhs[~keep] if (~keep).any() else None,
                bounds=[(l if l > -1e23 else None, u if u < 1e23 else None) for l, u in zip(p.low, p.up)], method='highs-ds',
                options={'primal_feasibility_tolerance': 1e-10, 'dual_feasibility_tolerance': 1e-10, 'presolve': True})
    if r.status == 0:
        return OPTIMAL, sign * r.fun, r.x
    return {2: INFEASIBLE, 3: UNBOUNDED}.get(r.status), None, None
