"""Gaussian oracle in precision form, workload, and the classification of the recorded sign finding."""
import numpy as np

from vmon.gen import pick

HEADERS = [["a", "b", "c", "d", "e", "f", "g", "h"], ["X", "Y", "Z", "x", "y", "z", "XY", "YZ"], ["1", "10", "2", "0", "3", "11", "4", "5"], ["a b", "it's", "é", "日", "n", "N", "%", "-"]]


class Truth(object):
    """A normal distribution as plain numbers."""

    def __init__(self, H, mu, cov):
        self.H, self.mu, self.cov = list(H), np.array(mu, float), np.array(cov, float)

    def given(self, obs):
        z = [self.H.index(n) for n, _ in obs]
        y = [i for i in range(len(self.H)) if i not in z]
        if not y:
            return Truth([], np.zeros(0), np.zeros((0, 0)))
        K = np.linalg.inv(self.cov)
        C = np.linalg.inv(K[np.ix_(y, y)])
        C = (C + C.T) / 2
        m = self.mu[y].copy()
        if z:
            m = m - C @ K[np.ix_(y, z)] @ (np.array([v for _, v in obs], float) - self.mu[z])
        return Truth([self.H[i] for i in y], m, C)


def legacy_step(H, M, cov, obs):
    """What the known finding predicts for the stored vector M (reported as -M): M_y - S (z - M_z)."""
    z = [H.index(n) for n, _ in obs]
    y = [i for i in range(len(H)) if i not in z]
    M = np.array(M, float)
    if not z:
        return [H[i] for i in y], M[y]
    S = np.linalg.solve(cov[np.ix_(z, z)], cov[np.ix_(z, y)]).T
    return [H[i] for i in y], M[y] - S @ (np.array([v for _, v in obs], float) - M[z])


def model(rng, n=None, zero_mean=None):
    if n is None:
        n = int(rng.integers(1, 9)) if rng.random() < 0.97 else int(rng.integers(9, 31))
    H = list(pick(rng, HEADERS))
    H += ["%s%d" % (H[0], k) for k in range(100, 100 + n - len(H))]
    H = [H[k] for k in rng.permutation(len(H))][:n]
    style = pick(rng, ["dense", "dense", "diag", "chain", "scaled", "corr"])
    if style == "diag":
        cov = np.diag(rng.random(n) + 0.2)
    elif style == "chain":
        B = np.eye(n)
        for i in range(1, n):
            B[i] = B[i - 1] * (rng.normal() if n < 9 else rng.uniform(-1, 1))
            B[i, i] = 1.0
        cov = B @ B.T
    elif style == "corr":
        r = float(rng.uniform(-0.8 / max(1, n - 1), 0.9))
        cov = np.full((n, n), r) + np.eye(n) * (1 - r)
    else:
        A = rng.normal(size=(n, n))
        cov = A @ A.T + 0.3 * np.eye(n)
        if style == "scaled":
            s = 10.0 ** rng.uniform(-2, 2, size=n)
            cov = cov * np.outer(s, s)
    if rng.random() < 0.2:
        cov = cov * 10.0 ** (2 * rng.uniform(-9, 9))       # other units of measurement
    cov = (cov + cov.T) / 2
    sd = np.sqrt(np.diag(cov))
    zero = rng.random() < 0.4 if zero_mean is None else zero_mean
    mu = np.zeros(n) if zero else rng.normal(size=n) * sd * 2
    if not zero and rng.random() < 0.3 and n > 1:
        mu[int(rng.integers(n))] = 0.0
    return H, mu, cov


def observations(rng, H, mu, cov, m=None):
    n = len(H)
    m = int(rng.integers(0, n + 1)) if m is None else m
    ids = [int(k) for k in rng.permutation(n)[:m]]
    out = []
    for i in ids:
        v = float(mu[i] + rng.normal() * np.sqrt(cov[i][i]))
        r = rng.random()
        if r < 0.1:
            v = 0.0
        elif r < 0.2:
            v = int(rng.integers(-3, 4))
        out.append((H[i], v))
    return out


def tol(cov, *others):
    """Absolute tolerance of a conditional quantity, from the scales and the conditioning involved."""
    sd = np.sqrt(np.diag(cov)) if len(cov) else np.ones(1)
    c = np.linalg.cond(cov / np.outer(sd, sd)) if len(cov) else 1.0
    return 1e-12 * max(c, 10.0)


def snap(g):
    return repr((list(g.H), np.asarray(g.M).tolist(), np.asarray(g.E).tolist(), sorted(g.meta.items())))


def reported(g):
    """name -> (mean, variance), through both public views."""
    P = {k: (float(m), float(v)) for k, (m, v) in g.P.items()}
    return P, [(d["name"], float(d["mean"]), float(d["var"])) for d in g.marginals]
