"""C08 the tree is calibrated after every propagation."""
import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 2700, "thorough": 12000}
FLOORS = {"potentials_compared": 8000, "listener_events": 1500, "impossible_states": 50}
RULE = ("an online monitor registered as the tree's listener delegates to the real controller and then compares every clique and separator potential, entry by "
        "entry, to the oracle; also after every operation that raises no event; non-trivial = at least one separator, distinct by network and evidence state")


def table(ctx, jt, c, spec, orc_joint, what):
    ids = [n.id for n in c.nodes]
    pot = jt.potentials[c.id]
    pos = {i: {v: k for k, v in enumerate(spec.values[i])} for i in ids}
    got = np.full([spec.card(i) for i in ids], np.nan)
    ctx.eq(len(pot.entries), got.size, what + " has the wrong number of entries", ids=ids)
    for e in pot.entries:
        ctx.eq(set(e.entries), set(ids), what + " has entries over other variables", ids=ids)
        got[tuple(pos[i][e.entries[i]] for i in ids)] = e.value
    ctx.close(got, orc_joint, what + " is not the joint probability of its variables and the evidence", rtol=1e-8, atol=1e-13 * max(float(np.max(orc_joint)), 1e-280), ids=ids)
    return got


def check_calibration(ctx, jt, spec, orc, lik, hist):
    ctx.note["likelihoods"] = {i: v.tolist() for i, v in lik.items()}
    ctx.note["history"] = session.slim(hist)
    pe = orc.p_evidence(lik)
    for c in jt.get_cliques():
        ids = [n.id for n in c.nodes]
        got = table(ctx, jt, c, spec, orc.joint(ids, lik), "a clique potential")
        ctx.close(float(got.sum()), pe[orc.comp_of[ids[0]]], "a clique does not sum to the probability of the evidence", rtol=1e-8, atol=1e-290)
        ctx.ev("potentials_compared")
    from pybbn.graph.potential import PotentialUtil
    for s in jt.get_sep_sets():
        ids = [n.id for n in s.nodes]
        table(ctx, jt, s, spec, orc.joint(ids, lik), "a separator potential")
        for side in (s.left, s.right):
            m = PotentialUtil.marginalize_for(jt, side, s.nodes)
            a = np.array([e.value for e in m.entries])
            b = np.array([e.value for e in jt.potentials[s.id].entries])
            ctx.close(a, b, "neighbouring cliques disagree on their separator", rtol=1e-8, atol=1e-13 * max(float(b.max()), 1e-280))
        ctx.ev("potentials_compared")
    if min(pe) == 0:
        ctx.ev("impossible_states")


def case(ctx, rng, idx):
    from pybbn.graph.jointree import JoinTreeListener
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=8, max_joint=800, cpt_mode=gen.pick(rng, gen.CPT_MODES + ["zeros", "mixed"]))
    orc = exact.Exact(spec)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    jt = InferenceController.apply(bbn)
    s = session.Session(spec, jt, nodes)
    model = session.EvidenceModel(spec)
    pending = [None]

    class Monitor(JoinTreeListener):
        def __init__(self, inner):
            self.inner = inner

        def evidence_retracted(self, tree):
            self.inner.evidence_retracted(tree)
            self.seen(tree)

        def evidence_updated(self, tree):
            self.inner.evidence_updated(tree)
            self.seen(tree)

        def seen(self, tree):
            ctx.ev("listener_events")
            check_calibration(ctx, tree, spec, orc, pending[0], s.events)

    check_calibration(ctx, jt, spec, orc, model.lik, s.events)
    jt.set_listener(Monitor(jt.listener))
    seen = 0
    for _ in range(int(rng.integers(6, 16))):
        op = session.random_op(rng, spec, model=model, query=0.15, hostile=rng.random() < 0.1)
        model.step(op)
        pending[0] = {i: v.copy() for i, v in model.lik.items()}
        s.run(op)
        check_calibration(ctx, jt, spec, orc, model.lik, s.events)
        if jt.get_sep_sets():
            ctx.nontrivial((spec.key(), session.state_key(model)))
        ctx.ev("evaluations")
        seen += 1
    ctx.sample({"network": spec.describe(), "history": session.slim(s.events)})
