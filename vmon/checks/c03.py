"""C03 answers depend only on the evidence in force."""
import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 3000, "thorough": 12000}
FLOORS = {"answers_judged": 3000, "op_observe": 500, "op_update": 500, "op_unobserve": 200, "answers_under_impossible_evidence": 60, "fresh_tree_comparisons": 300, "histories_with_reused_evidence": 300}
RULE = ("random histories of 12-40 (every 50th of 150-400) updates / toggles / retractions / queries on one tree (in a quarter of them one list and one evidence object per variable refilled and given again), judged offline after every query against the oracle for the "
        "evidence in force and against a fresh tree; non-trivial = history reaches at least 4 distinct evidence states, distinct by network and state sequence")


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=600, cpt_mode=gen.pick(rng, gen.CPT_MODES + ["zeros", "detish", "mixed"]))
    orc = exact.Exact(spec)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    s = session.Session(spec, InferenceController.apply(bbn), nodes, keep=idx % 4 == 2)
    if s.keep:
        ctx.ev("histories_with_reused_evidence")
    model = session.EvidenceModel(spec)
    states = []
    last = None
    for _ in range(int(rng.integers(12, 41)) if idx % 50 else int(rng.integers(150, 400))):
        op = session.random_op(rng, spec, model=model, query=0.3)
        if last is not None and rng.random() < 0.12 and op["op"] != "query":
            op = dict(last)   # repeat the previous update verbatim
        s.run(op, gen.pick(rng, ["id", "name", "own"]))
        model.step(op)
        if op["op"] != "query":
            last = op
            states.append(session.state_key(model))
    s.query()
    judged, _ = session.judge(ctx, spec, s.events, orc)
    # same evidence at once on a fresh tree, in any order and batching
    fresh = session.Session(spec, InferenceController.apply(gen.build(spec)[0]))
    evs = [(i, "VIRTUAL", [(v, float(p)) for v, p in zip(spec.values[i], judged.lik[i])]) for i in spec.order if not np.all(judged.lik[i] == 1)]
    evs = [evs[k] for k in rng.permutation(len(evs))]
    if rng.random() < 0.5:
        fresh.run({"op": "update", "ev": evs})
    else:
        for e in evs:
            fresh.run({"op": "update", "ev": [e]})
    a, b = s.jt.get_posteriors(), fresh.query()
    for n in b:
        ctx.close([a[n][v] for v in b[n]], list(b[n].values()), "answer differs from a fresh tree given the same evidence", variable=n, history=session.slim(s.events))
    ctx.ev("fresh_tree_comparisons")
    # retracting everything restores the priors, whatever happened before
    if rng.random() < 0.5:
        s.jt.unobserve_all()
    else:
        s.jt.unobserve([nodes[i] for i in spec.order])
    exact.compare_marginals(ctx, spec, s.jt.get_posteriors(), orc.marginals(), "priors are not restored after retracting all evidence")
    if len(set(states)) >= 4:
        ctx.nontrivial((spec.key(), tuple(states)))
        ctx.sample({"network": spec.describe(), "history": session.slim(s.events)})
