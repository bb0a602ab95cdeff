"""Bounds that a correct sampler exceeds with probability below delta, whatever its random stream."""
import math


def kl(q, p):
    """KL divergence of Bernoulli(q) from Bernoulli(p)."""
    out = 0.0
    if q > 0:
        if p <= 0:
            return math.inf
        out += q * math.log(q / p)
    if q < 1:
        if p >= 1:
            return math.inf
        out += (1 - q) * math.log((1 - q) / (1 - p))
    return out


def plausible(k, n, p, delta=1e-12):
    """Chernoff: P(KL(k/n || p) >= ln(2/delta)/n) <= delta for k ~ Binomial(n, p). p may be off by rounding."""
    p = min(max(p, 0.0), 1.0)
    if p < 1e-15:
        return k == 0
    if p > 1 - 1e-15:
        return k == n
    return kl(k / n, p) <= math.log(2 / delta) / n


def detectable(n, p, delta=1e-12):
    """Smallest deviation from p that the bound would flag (for the evidence)."""
    lo, hi = p, 1.0
    for _ in range(60):
        mid = (lo + hi) / 2
        if kl(mid, p) > math.log(2 / delta) / n:
            hi = mid
        else:
            lo = mid
    return hi - p
