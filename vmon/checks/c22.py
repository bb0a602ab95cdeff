"""C22 Gaussian conditioning is exact."""
import numpy as np

from vmon import gauss

CASES = {"quick": 36000, "thorough": 120000}
FLOORS = {"conditionings": 6000, "means_exact": 1500, "covariances_exact": 6000, "observed_judged": 5000, "all_observed": 200, "none_observed": 200, "large_models": 500}
RULE = ("models of 1-8 (some of up to 30) variables (dense, diagonal, chain, badly scaled, equicorrelated covariances; zero and non-zero means), any subset observed; compared with "
        "conditioning in precision form; a mean off by exactly the recorded sign finding is counted there, any other deviation is a violation; non-trivial = "
        "distinct (model, observations) with both observed and unobserved variables")
KEY = "sign-of-means"


def judge(ctx, H, mu, cov, stored, g2, obs, meta0, chain=False):
    """stored: the vector the (legacy) implementation started from, to recognise the finding."""
    want = gauss.Truth(H, mu, cov).given(obs)
    sd = {h: float(np.sqrt(cov[i][i])) for i, h in enumerate(H)}
    t = gauss.tol(cov)
    ctx.eq(list(g2.H), want.H, "unobserved variables do not keep their names and order", observations=obs)
    P, marg = gauss.reported(g2)
    ctx.eq({n: (m, v) for n, m, v in marg}, P, "the two marginal views disagree")
    ctx.eq(len(marg), len(P), "a variable is reported twice")
    ctx.eq(set(P), set(want.H) | set(dict(obs)) | set(meta0), "reported variables are not those of the model", observations=obs)
    for n, v in {**meta0, **dict(obs)}.items():
        ctx.eq(P[n], (float(v), 0.0), "an observed variable is not reported with its value and zero variance", variable=n, observations=obs)
        ctx.ev("observed_judged")
    ctx.eq(dict(g2.meta), {**meta0, **dict(obs)}, "recorded observations differ", observations=obs)
    E = np.asarray(g2.E, dtype=float)
    ctx.eq(E.shape, (len(want.H), len(want.H)), "covariance has another shape")
    for i, a in enumerate(want.H):
        for j, b in enumerate(want.H):
            ctx.close(E[i][j], want.cov[i][j], "conditional covariance is not exact", rtol=0, atol=t * sd[a] * sd[b], pair=(a, b), observations=obs)
        ctx.close(P[a][1], want.cov[i][i], "reported variance is not exact", rtol=0, atol=t * sd[a] ** 2, variable=a, observations=obs)
    ctx.ev("covariances_exact")
    legacy = dict(zip(*gauss.legacy_step(H, stored, cov, obs)))
    span = 1.0 + sum(abs(float(v) - float(mu[H.index(n)])) / sd[n] for n, v in obs) + float(np.sum(np.abs(mu) / np.sqrt(np.diag(cov)))) + float(np.sum(np.abs(stored) / np.sqrt(np.diag(cov)))) if len(H) else 1.0
    wrong = 0
    for i, a in enumerate(want.H):
        got, tt = P[a][0], t * sd[a] * span
        ctx.check(np.isfinite(got), "reported mean is not a number", variable=a)
        if abs(got - want.mu[i]) <= tt:
            continue
        ctx.check(abs(got + legacy[a]) <= tt, "conditional mean is not exact", variable=a, got=got, want=want.mu[i], observations=obs, model={"H": H, "mu": mu, "cov": cov})
        wrong += 1
    if wrong:
        ctx.known_finding(KEY, "mean of %s" % want.H[0])
        ctx.ev("means_off_as_recorded")
    elif want.H:
        ctx.ev("means_exact")
    return want


def case(ctx, rng, idx):
    from pybbn.gaussian.inference import GaussianInference
    H, mu, cov = gauss.model(rng)
    ctx.note["model"] = {"H": H, "mu": mu, "cov": cov}
    M = mu.copy() if rng.random() < 0.7 else mu.tolist()
    g = GaussianInference(H, M, cov.copy())
    for _ in range(2):
        obs = gauss.observations(rng, H, mu, cov)
        if len(obs) == 1 and rng.random() < 0.5:
            g2 = g.do_inference(*obs[0])
        else:
            g2 = g.do_inferences(obs)
        ctx.ev("conditionings")
        if len(H) > 10:
            ctx.ev("large_models")
        ctx.ev("evaluations")
        judge(ctx, H, mu, cov, mu, g2, obs, {})
        if len(obs) == len(H):
            ctx.ev("all_observed")
        elif not obs:
            ctx.ev("none_observed")
        else:
            ctx.nontrivial((H, mu.tobytes(), cov.tobytes(), obs))
    ctx.sample({"H": H, "mu": mu, "cov": cov, "observations": obs})
