"""C04 evidence normalisation, toggling and atomicity."""
import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 6000, "thorough": 20000}
FLOORS = {"normalisations": 3000, "refused_updates": 300, "toggles": 100, "answers_judged": 1500, "state_checks": 2000, "reuses": 4000, "built_and_kept": 500, "answers_after_reuse": 300}
RULE = ("(a) random evidence objects of all types with missing, negative, >1, tied and duplicate likelihoods, validated in isolation; (b) random hostile "
        "histories incl. updates naming unknown nodes/values, with the tree's evidence state and answers judged after each; non-trivial = an evidence whose "
        "likelihoods needed normalising, or a refused update, distinct by content")


def state_of(spec, jt, i):
    """The evidence in force on a variable, as the tree exposes it."""
    node = jt.get_bbn_node(i)
    return np.array([float(jt.get_evidence(node, v).entries[0].value) for v in spec.values[i]])


def reuse(ctx, rng, spec, orc, jt, nodes):
    """Evidence objects and builders kept by the caller, changed and used again: the evidence in force is what they say when they are set."""
    from pybbn.graph.jointree import EvidenceBuilder, EvidenceType
    kinds = ["OBSERVATION", "VIRTUAL", "FINDING", "UNOBSERVE"]
    kept, model = [], session.EvidenceModel(spec)

    def put(e, what):
        i, one = e.node.id, rng.random() < 0.5
        model.step({"op": "observe" if one else "update", "ev": [(i, e.type.name, list(e.values.items()))]})
        ctx.note["evidence"] = (i, e.type.name, dict(e.values))
        jt.set_observation(e) if one else jt.update_evidences([e])
        for j in spec.order:
            ctx.close(state_of(spec, jt, j), model.lik[j], what, rtol=0, atol=0, id=j, set_on=i)
        ctx.ev("reuses")
        ctx.ev("state_checks")

    for _ in range(int(rng.integers(4, 9))):
        if kept and rng.random() < 0.6:     # an evidence object changed and set again
            e = gen.pick(rng, kept)
            i = e.node.id
            for _ in range(int(rng.integers(0, 3))):
                e.add_value(gen.pick(rng, spec.values[i]), float(gen.pick(rng, [0.0, 1.0, 0.5, 0.2, 3.0, -1.0, round(float(rng.random()), 3)])))
            if rng.random() < 0.4:
                e.type = getattr(EvidenceType, gen.pick(rng, kinds))
            put(e, "evidence set again after its likelihoods changed is not what it says now")
            continue
        i = gen.pick(rng, spec.order)
        kind = gen.pick(rng, kinds[:3])
        b = EvidenceBuilder().with_node(jt.get_bbn_node(i)).with_type(getattr(EvidenceType, kind))
        told, made = {}, []
        for _ in range(int(rng.integers(1, 4))):
            for _ in range(int(rng.integers(0, 3))):
                v, p = gen.pick(rng, spec.values[i]), float(gen.pick(rng, [0.0, 1.0, 0.5, 0.25, 2.0]))
                b.with_evidence(v, p)
                told[v] = p
            if rng.random() < 0.3:
                kind = gen.pick(rng, kinds[:3])
                b.with_type(getattr(EvidenceType, kind))
            e = b.build()
            ctx.eq((e.node.id, e.type.name, dict(e.values)), (i, kind, told), "a builder builds something other than what it was told")
            made.append((e, dict(told), kind))
            if rng.random() < 0.5:
                put(e, "evidence from a builder is not in force as told")
                kept.append(made.pop()[0])
        for e, t, k in made:        # the builder went on; what it had built has not
            ctx.eq((e.type.name, dict(e.values)), (k, t), "an evidence changed when its builder was used further")
            ctx.ev("built_and_kept")
        kept += [e for e, _, _ in made]
    if all(p > 0 for p in orc.p_evidence(model.lik)):
        exact.compare_marginals(ctx, spec, jt.get_posteriors(), orc.marginals(model.lik), "after evidence objects were used again")
        ctx.ev("answers_after_reuse")


def case(ctx, rng, idx):
    from pybbn.graph.jointree import ChangeType, Evidence, EvidenceType
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=5, max_joint=200, max_card=4)
    orc = exact.Exact(spec)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    jt = InferenceController.apply(bbn)

    # (a) normalisation, idempotence, default construction
    for _ in range(6):
        ev = session.random_evidence(rng, spec, hostile=True)
        i, kind, pairs = ev
        ctx.note["evidence"] = ev
        e = Evidence(nodes[i], getattr(EvidenceType, kind))
        for v, p in pairs:
            e.add_value(v, p)
        e.validate()
        want = session.normalise(spec.values[i], kind, pairs)
        for rep in range(2):
            ctx.check(set(e.values) == set(spec.values[i]), "validated evidence does not cover exactly the variable's values", got=list(e.values))
            ctx.close([e.values[v] for v in spec.values[i]], want, "evidence normalised wrongly", rtol=0, atol=0, evidence=ev, again=rep)
            e.validate()
        ctx.ev("normalisations")
        ctx.ev("evaluations")
        if list(want) != [dict(pairs).get(v, 0) for v in spec.values[i]]:
            ctx.nontrivial(("n", kind, tuple(pairs), tuple(map(str, spec.values[i]))))
    for i in spec.order:
        u = jt.get_unobserved_evidence(nodes[i])
        ctx.eq((u.node.id, u.type, dict(u.values)), (i, EvidenceType.UNOBSERVE, {v: 1.0 for v in spec.values[i]}), "unobserve evidence is wrong")

    if idx % 2:
        reuse(ctx, rng, spec, orc, jt, nodes)
        jt.unobserve_all()

    # (b) state machine over a hostile history, including refused updates
    s = session.Session(spec, jt, nodes)
    model = session.EvidenceModel(spec)
    for _ in range(int(rng.integers(8, 20))):
        op = session.random_op(rng, spec, hostile=rng.random() < 0.5, bad=0.25, query=0.1, model=model)
        ctx.note["op"] = op
        before = {i: model.lik[i].copy() for i in spec.order}
        how = gen.pick(rng, ["id", "name", "own"])
        s.run(op, how)
        model.step(op)
        if op["op"] == "observe" and session.is_hard(before[op["ev"][0][0]]) and np.all(model.lik[op["ev"][0][0]] == 1):
            ctx.ev("toggles")
        for i in spec.order:
            ctx.close(state_of(spec, jt, i), model.lik[i],
                      "a refused update changed the evidence in force" if op["op"] == "bad" else "evidence in force differs from the documented semantics",
                      rtol=0, atol=0, id=i, op=op, before=before[i])
        ctx.ev("state_checks")
        ctx.ev("evaluations")
        if op["op"] == "bad":
            ctx.nontrivial(("b", op["how"], spec.key(), session.state_key(model)))
        s.query()
        # classification of a change agrees with the state before it
        if rng.random() < 0.5:
            j = gen.pick(rng, spec.order)
            e = session.make_evidence(spec, jt, nodes, session.random_evidence(rng, spec, j))
            e.validate()
            new = np.array([e.values[v] for v in spec.values[j]])
            ch = e.compare({v: jt.get_evidence(nodes[j], v) for v in spec.values[j]})
            ctx.check(ch in (ChangeType.NONE, ChangeType.UPDATE, ChangeType.RETRACTION), "unknown change type")
            if ch == ChangeType.NONE:
                ctx.check(np.array_equal(new, model.lik[j]), "a change of evidence was classified as no change", old=model.lik[j], new=new)
            ctx.ev("classifications")
    session.judge(ctx, spec, s.events, orc)
    ctx.sample({"network": spec.describe(), "history": session.slim(s.events)})
