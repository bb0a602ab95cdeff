"""C23 Gaussian inference is order-free, compositional and pure."""
import numpy as np

from vmon import gauss
from vmon.checks import c22

CASES = {"quick": 14400, "thorough": 70000}
FLOORS = {"orders": 3000, "splits": 1000, "purity": 5000, "series_judged": 5000, "rearranged_models": 2000, "tiny_variances": 500}
RULE = ("each model is conditioned on one observation set in every listed order, with the variables of the model rearranged, and in several steps; reported "
        "means and covariances (of scales from 1e-9 to 1e9) are compared between runs and every step with exact conditioning; models are snapshotted around every call; sampled series are "
        "judged by size and by 9-sigma bounds on mean and variance; non-trivial = distinct (model, observations, split) with at least two observations")
KEY = "sign-of-means-in-steps"


def case(ctx, rng, idx):
    from pybbn.gaussian.inference import GaussianInference
    H, mu, cov = gauss.model(rng, n=int(rng.integers(2, 8)))
    n = len(H)
    ctx.note["model"] = {"H": H, "mu": mu, "cov": cov}
    obs = gauss.observations(rng, H, mu, cov, m=int(rng.integers(1, n + 1)))
    ctx.note["observations"] = obs
    t = gauss.tol(cov)
    sd = {h: float(np.sqrt(cov[i][i])) for i, h in enumerate(H)}
    span = 1.0 + sum(abs(float(v)) / sd[h] for h, v in obs) + float(np.sum(np.abs(mu) / np.sqrt(np.diag(cov))))

    def same(a, b, what, **kw):
        ctx.eq(set(a[0]), set(b[0]), what + ": other variables", **kw)
        for k in a[0]:
            ctx.close(a[0][k][0], b[0][k][0], what + ": means differ", rtol=0, atol=10 * t * sd[k] * span, variable=k, **kw)
            ctx.close(a[0][k][1], b[0][k][1], what + ": variances differ", rtol=0, atol=10 * t * sd[k] ** 2, variable=k, **kw)

    M, E, given = mu.copy(), cov.copy(), list(obs)
    g = GaussianInference(list(H), M, E)
    start = gauss.snap(g)

    def pure():
        ctx.ev("purity")
        ctx.eq(gauss.snap(g), start, "conditioning altered the model it started from")
        ctx.check(np.array_equal(M, mu) and np.array_equal(E, cov), "conditioning altered the arrays the model was made from")
        ctx.eq(obs, given, "conditioning altered the observations")

    base = g.do_inferences(obs)
    first = gauss.reported(base)
    pure()
    # the order in which observations are listed
    for _ in range(2):
        o = [obs[k] for k in rng.permutation(len(obs))]
        other = g.do_inferences(o if rng.random() < 0.7 else tuple(o))
        ctx.eq(list(other.H), list(base.H), "order of observations changes the remaining variables")
        same(gauss.reported(other), first, "order of observations matters", order=o)
        ctx.close(other.E, base.E, "order of observations changes the covariance", rtol=0, atol=10 * t * max(sd.values()) ** 2)
        ctx.ev("orders")
        pure()
    # the order of variables in the model
    perm = [int(k) for k in rng.permutation(n)]
    h = GaussianInference([H[k] for k in perm], mu[perm], cov[np.ix_(perm, perm)])
    hp = h.do_inferences(obs)
    same(gauss.reported(hp), first, "order of variables matters", order=[H[k] for k in perm])
    ctx.eq(list(hp.H), [H[k] for k in perm if H[k] not in dict(obs)], "unobserved variables do not keep the order of the model")
    ctx.ev("rearranged_models")
    # in several steps
    if len(obs) >= 2:
        cuts = sorted({int(x) for x in rng.integers(1, len(obs), size=int(rng.integers(1, 4)))})
        steps = [obs[a:b] for a, b in zip([0] + cuts, cuts + [len(obs)])]
        cur, truth, stored, meta = g, gauss.Truth(H, mu, cov), mu, {}
        for k, s in enumerate(steps):
            before, arrays = gauss.snap(cur), (np.array(cur.M), np.array(cur.E))
            nxt = cur.do_inference(*s[0]) if len(s) == 1 and rng.random() < 0.5 else cur.do_inferences(s)
            ctx.eq(gauss.snap(cur), before, "conditioning altered the model it started from", step=k)
            # each step against exact conditioning of the exact previous step; the recorded finding propagates through the stored means
            legacy_h, legacy_m = gauss.legacy_step(truth.H, stored, truth.cov, s)
            want = truth.given(s)
            P = gauss.reported(nxt)[0]
            ctx.eq(list(nxt.H), want.H, "observing in steps: other variables remain", step=k)
            meta.update(dict(s))
            ctx.eq(dict(nxt.meta), meta, "observing in steps: recorded observations differ", step=k)
            for a, v in meta.items():
                ctx.eq(P[a], (float(v), 0.0), "observing in steps: an observed variable is not reported with its value", step=k)
            wrong = 0
            for i, a in enumerate(want.H):
                ctx.close(P[a][1], want.cov[i][i], "observing in steps differs from observing at once (variance)", rtol=0, atol=100 * t * sd[a] ** 2, step=k, variable=a)
                for j, b in enumerate(want.H):
                    ctx.close(np.asarray(nxt.E)[i][j], want.cov[i][j], "observing in steps differs from observing at once (covariance)", rtol=0, atol=100 * t * sd[a] * sd[b], step=k)
                tt = 100 * t * sd[a] * (span + float(np.sum(np.abs(legacy_m))) / min(sd.values()) * 0 + abs(legacy_m[i]) / sd[a])
                if abs(P[a][0] - want.mu[i]) <= tt:
                    continue
                ctx.check(abs(P[a][0] + legacy_m[i]) <= tt, "observing in steps differs from observing at once (mean)", step=k, steps=steps, variable=a, got=P[a][0], want=want.mu[i])
                wrong += 1
            if wrong:
                ctx.known_finding(KEY, "step %d" % k)
            cur, truth, stored = nxt, want, legacy_m
        ctx.ev("splits")
        ctx.nontrivial((H, mu.tobytes(), cov.tobytes(), steps))
    pure()
    # sampled marginals
    which = base if rng.random() < 0.7 else g
    size = int([1, 50, 1500][int(rng.integers(3))]) if idx % 100 else int(rng.integers(20000, 300000))
    P = gauss.reported(which)[0]
    np.random.seed(int(rng.integers(2 ** 32 - 1)))
    before = gauss.snap(which)
    S = which.sample_marginals(size=size) if rng.random() < 0.9 else which.sample_marginals(size)
    ctx.eq(gauss.snap(which), before, "sampling altered the model")
    ctx.eq(set(S), set(P), "sampled variables are not the model's")
    for k, s in S.items():
        ctx.eq(len(s), size, "series has another size", variable=k)
        x = np.asarray(s, dtype=float)
        m, v = P[k]
        s0 = np.sqrt(v) if v > 0 else 0.02       # observed variables are drawn tightly around their value
        ctx.check(bool(np.all(np.isfinite(x))) and abs(x.mean() - m) <= 9 * s0 / np.sqrt(size), "series is not around the reported mean", variable=k, mean=x.mean(), reported=m)
        if 0 < v < 1e-8:
            ctx.ev("tiny_variances")
        if size >= 1500 and v > 0:
            ctx.check(abs(x.var() / v - 1) <= 9 * np.sqrt(2.0 / size), "series has not the reported variance", variable=k, var=x.var(), reported=v)
            sk = float(np.mean(((x - m) / s0) ** 3))
            ctx.check(abs(sk) <= 9 * np.sqrt(15.0 / size), "series is skewed", variable=k, skew=sk)
        if v == 0:
            ctx.check(float(np.max(np.abs(x - m))) <= 0.3, "series of an observed variable is not tight", variable=k)
        ctx.ev("series_judged")
    if size > 1 and which.H and len(which.H) > 1:
        a, b = which.H[0], which.H[1]
        ctx.check(not np.array_equal(np.asarray(S[a]) - P[a][0], np.asarray(S[b]) - P[b][0]), "two series are the same draws")
    ctx.sample({"H": H, "mu": mu, "observations": obs})
