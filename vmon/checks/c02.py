"""C02 posteriors under any evidence are exact."""
import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 4800, "thorough": 30000}
FLOORS = {"marginals_compared": 8000, "impossible_evidence": 40, "multi_variable_evidence": 300, "soft_evidence": 300, "values_alike": 200}
RULE = ("random networks as in C01 (also with values that read alike), each with 3-5 random evidence sets given to a fresh or cleared tree (hard, finding, virtual, on 1..n variables, "
        "in one or several calls, contradictory ones included); non-trivial = evidence changes some other variable's marginal, distinct by network and likelihoods")


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=8, max_joint=2048)
    if rng.random() < 0.08:
        gen.confuse(rng, spec)
        ctx.ev("values_alike")
    orc = exact.Exact(spec)
    prior = orc.marginals()
    bbn, nodes = gen.build(spec, rng, interleave=rng.random() < 0.3)
    ctx.note["network"] = spec.describe()
    jt = InferenceController.apply(bbn)
    for rep in range(int(rng.integers(3, 6))):
        if rep and rng.random() < 0.5:
            jt = InferenceController.apply(bbn)
        elif rep:
            jt.unobserve_all()
        m = int(rng.integers(1, len(spec.order) + 1))
        ids = [spec.order[k] for k in rng.choice(len(spec.order), size=m, replace=False)]
        evs = [session.random_evidence(rng, spec, i, hostile=rng.random() < 0.15) for i in ids]
        lik = {i: np.ones(spec.card(i)) for i in spec.order}
        for i, kind, pairs in evs:
            lik[i] = session.normalise(spec.values[i], kind, pairs)
            ctx.ev({"VIRTUAL": "soft_evidence", "FINDING": "finding_evidence", "OBSERVATION": "hard_evidence"}.get(kind, "unobserve_evidence"))
        ctx.note["evidence"] = evs
        s = session.Session(spec, jt, nodes)
        how = gen.pick(rng, ["id", "name", "own"])
        mode = rng.random()
        if mode < 0.4:
            s.run({"op": "update", "ev": evs}, how)
        elif mode < 0.7:
            for e in evs:
                s.run({"op": "update", "ev": [e]}, how)
        else:
            # set_observation on a tree without evidence never toggles
            for e in evs:
                s.run({"op": "observe", "ev": [e]}, how)
        got = s.query()
        want = orc.marginals(lik)
        exact.compare_marginals(ctx, spec, got, want, "posterior differs from Bayes' rule")
        ctx.ev("evaluations")
        if m > 1:
            ctx.ev("multi_variable_evidence")
        if any(want[i].sum() == 0 for i in want):
            ctx.ev("impossible_evidence")
        if any(np.max(np.abs(want[i] - prior[i])) > 1e-6 for i in want if i not in ids):
            ctx.nontrivial((spec.key(), tuple(sorted((i, v.tobytes()) for i, v in lik.items()))))
            ctx.sample({"network": spec.describe(), "evidence": evs})
        # per-node view under evidence
        for i in spec.order:
            p = jt.get_bbn_potential(nodes[i])
            ctx.close([e.value for e in p.entries], want[i], "posterior potential differs from Bayes' rule", id=i)
