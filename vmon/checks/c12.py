"""C12 join-tree serialisation is lossless and inference-ready."""
import json

from vmon import exact, gen, session
from vmon.checks.c07 import check_tree

CASES = {"quick": 4800, "thorough": 16000}
FLOORS = {"round_trips": 1000, "answers_judged": 3000, "forests": 100, "single_clique": 50, "reapplied_after": 150}
RULE = ("trees (fresh, under evidence, re-applied, or read back before) written to a dictionary or JSON text and read back; structure compared as sets, then both "
        "are driven with further evidence and judged; non-trivial = at least two cliques, distinct by network and evidence history")


def structure(jt):
    cl = {frozenset(n.id for n in c.nodes) for c in jt.get_cliques()}
    links = sorted((sorted([sorted(n.id for n in e.i.nodes), sorted(n.id for n in e.j.nodes)]), sorted(n.id for n in e.sep_set.nodes)) for e in jt.get_edges())
    seps = sorted(sorted(n.id for n in s.nodes) for s in jt.get_sep_sets())
    return len(jt.get_cliques()), cl, links, seps


def case(ctx, rng, idx):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=8, max_joint=800)
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any")
    jt = InferenceController.apply(bbn)
    sp, s = spec, session.Session(spec, jt, nodes)
    for hop in range(int(rng.integers(1, 4))):
        model = session.EvidenceModel(sp)
        for e in s.events:
            if e["op"] != "query":
                model.step(e)
        for _ in range(int(rng.integers(0, 5))):
            op = session.random_op(rng, sp, model=model)
            s.run(op)
            model.step(op)
        s.query()
        d = JoinTree.to_dict(s.jt, bbn)
        text = json.dumps(d)
        ctx.eq(json.dumps(JoinTree.to_dict(s.jt, bbn)), text, "serialising twice gives different documents")
        src = d if rng.random() < 0.4 else json.loads(text)
        raw = JoinTree.from_dict(src)
        ctx.eq(structure(raw), structure(s.jt), "cliques, separators or links are lost or changed")
        back = InferenceController.apply_from_serde(raw)
        ctx.eq(structure(back), structure(s.jt), "cliques, separators or links are lost or changed by re-activation")
        check_tree(ctx, sp, back, "(read back) ")
        ctx.ev("round_trips")
        ctx.ev("evaluations")
        if len(sp.components()) > 1:
            ctx.ev("forests")
        if len(back.get_cliques()) == 1:
            ctx.ev("single_clique")
        s2 = session.Session(sp, back)
        s2.query()          # starts without evidence
        for n in back.get_bbn_nodes():
            ctx.eq((n.variable.name, list(n.variable.values), [float(x) for x in n.probs]), (sp.names[n.id], sp.values[n.id], sp.flat(n.id)), "a variable or its CPT changed")
        m2 = session.EvidenceModel(sp)
        for _ in range(int(rng.integers(2, 6))):
            op = session.random_op(rng, sp, model=m2)
            s2.run(op)
            m2.step(op)
        s2.query()
        session.judge(ctx, sp, s2.events, what="tree read back: ")
        # and the original is still what it was
        s.query()
        session.judge(ctx, sp, s.events, what="original after serialising: ")
        if rng.random() < 0.4:
            sp2 = sp.copy()
            cpts = {}
            for i in sp.order:
                if rng.random() < 0.6:
                    sp2.cpt[i] = gen.make_cpt(rng, list(sp.cpt[i].shape), "mixed")
                    cpts[i] = sp2.flat(i)
            s2 = session.Session(sp2, InferenceController.reapply(back, cpts))
            s2.query()
            op = session.random_op(rng, sp2)
            s2.run(op)
            s2.query()
            session.judge(ctx, sp2, s2.events, what="re-applied after reading back: ")
            ctx.ev("reapplied_after")
            sp = sp2
        if len(back.get_cliques()) > 1:
            ctx.nontrivial((sp.key(), hop, tuple(map(str, session.slim(s2.events)))))
        s = s2
    ctx.sample({"network": spec.describe()})
