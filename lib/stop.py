"""The stopping rules, recomputed from written value functions."""
import numpy as np
import model as Mo


def weak(cur, prev):
    """largest max-norm distance from a vector of either set to the nearest of the other"""
    D = np.abs(cur[:, None, :] - prev[None, :, :]).max(axis=2)
    return max(D.min(axis=1).max(), D.min(axis=0).max())


def onesided(A, B):
    """max over beliefs of max(A.b) - max(B.b), at least 0"""
    best = 0.0
    for v in A:
        if A.shape[1] == 1:
            g = v[0] - B[:, 0].max()
        else:
            g = Mo.envelope_margin(np.vstack([v[None, :], B]), 0)
        if g is None:
            return None
        best = max(best, g)
    return best


def grid(cur, prev, pts):
    return np.abs(Mo.surface(cur, pts) - Mo.surface(prev, pts)).max()


def identical(cur, prev):
    """largest difference of the sorted lists, inf when the sizes differ"""
    if len(cur) != len(prev):
        return np.inf
    return np.abs(cur - prev).max()


def threshold(m_disc, delta):
    if m_disc == 0:
        return np.inf
    return delta * (1.0 - m_disc) / (2.0 * m_disc)
