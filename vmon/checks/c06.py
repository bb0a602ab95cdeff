"""C06 re-parameterising or re-applying equals building from scratch."""
import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 3000, "thorough": 14000}
FLOORS = {"reapplications": 500, "edits": 500, "answers_judged": 1500, "originals_checked": 500, "set_up_again": 300}
RULE = ("(a) chains of 1-4 re-applications with new CPTs for random subsets (lists, tuples or arrays) of trees with and without evidence; every tree of the "
        "chain is then driven and judged against the oracle of its own CPTs; (b) random edits of a network (new CPT, new node, new edge, removed node) between "
        "applications; (c) new CPTs put into trees of six origins themselves, once or more, and the tree set up again; non-trivial = some CPT or edge actually changed, distinct by content")


def new_cpts(rng, spec):
    spec2 = spec.copy()
    cpts = {}
    for i in spec.order:
        if rng.random() < 0.5:
            spec2.cpt[i] = gen.make_cpt(rng, list(spec.cpt[i].shape), gen.pick(rng, gen.CPT_MODES))
            f = spec2.flat(i)
            cpts[i] = gen.pick(rng, [f, tuple(f), np.array(f)])
    return spec2, cpts


def reapply_case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=500)
    bbn, nodes = gen.build(spec, rng, probs="any")
    ctx.note["network"] = spec.describe()
    chain = [(spec, session.Session(spec, InferenceController.apply(bbn), nodes))]
    models = [session.EvidenceModel(spec)]
    for _ in range(int(rng.integers(1, 5))):
        b = int(rng.integers(len(chain)))
        bspec, base = chain[b]
        for _ in range(int(rng.integers(0, 4))):
            op = session.random_op(rng, bspec, model=models[b])
            base.run(op)
            models[b].step(op)
        probs_before = {n.id: [float(x) for x in n.probs] for n in base.jt.get_bbn_nodes()}
        ans_before = base.query()
        spec2, cpts = new_cpts(rng, bspec)
        keep = {i: [float(x) for x in c] for i, c in cpts.items()}
        jt2 = InferenceController.reapply(base.jt, cpts)
        ctx.ev("reapplications")
        ctx.ev("evaluations")
        ctx.eq({i: [float(x) for x in c] for i, c in cpts.items()}, keep, "re-application changed the CPTs passed in")
        ctx.eq({n.id: [float(x) for x in n.probs] for n in base.jt.get_bbn_nodes()}, probs_before, "re-application changed the original tree's CPTs")
        ctx.eq({n.id: [float(x) for x in n.probs] for n in bbn.get_nodes()}, {i: spec.flat(i) for i in spec.order}, "re-application changed the network's CPTs")
        ctx.eq(base.query(), ans_before, "re-application changed the original tree's answers")
        ctx.ev("originals_checked")
        s2 = session.Session(spec2, jt2)
        exact.compare_marginals(ctx, spec2, s2.query(), exact.Exact(spec2).marginals(), "re-applied tree does not have the priors of its new CPTs")
        chain.append((spec2, s2))
        models.append(session.EvidenceModel(spec2))
        if cpts:
            ctx.nontrivial((bspec.key(), spec2.key()))
    for k, (sp, s) in enumerate(chain):
        for _ in range(4):
            op = session.random_op(rng, sp, model=models[k])
            s.run(op)
            models[k].step(op)
    for sp, s in chain:
        s.query()
        session.judge(ctx, sp, s.events, what="in a chain of re-applications: ")
    ctx.sample({"network": spec.describe(), "chain": len(chain)})


def in_place_case(ctx, rng, idx):
    """New CPTs put into a tree itself, some of them more than once, and the tree set up again."""
    import copy
    import json
    import pickle

    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=500)
    bbn, nodes = gen.build(spec, rng, probs="any")
    ctx.note["network"] = spec.describe()
    jt = InferenceController.apply(bbn)
    origin = gen.pick(rng, ["applied", "document", "text", "copy", "pickle", "reapplied"])
    if origin in ("document", "text"):
        d = JoinTree.to_dict(jt, bbn)
        jt = JoinTree.from_dict(json.loads(json.dumps(d)) if origin == "text" else d)
        if rng.random() < 0.5:
            jt = InferenceController.apply_from_serde(jt)
    elif origin == "copy":
        jt = copy.deepcopy(jt)
    elif origin == "pickle":
        jt = pickle.loads(pickle.dumps(jt))
    elif origin == "reapplied":
        jt = InferenceController.reapply(jt, {})
    ctx.note["origin"] = origin
    for _ in range(int(rng.integers(1, 4))):
        first = spec
        for _ in range(int(rng.integers(1, 4))):
            spec, cpts = new_cpts(rng, spec)
            if rng.random() < 0.3:
                cpts[max(spec.order) + 1] = [1.0]      # a stranger
            jt.update_bbn_cpts(cpts)
            for i, c in cpts.items():
                if i in spec.cpt:
                    ctx.eq([float(x) for x in jt.get_bbn_node(i).probs], [float(x) for x in c], "a CPT put into a tree is not there")
        InferenceController.apply_from_serde(jt)
        s = session.Session(spec, jt)
        s.query()
        model = session.EvidenceModel(spec)
        for _ in range(int(rng.integers(1, 4))):
            op = session.random_op(rng, spec, model=model)
            s.run(op)
            model.step(op)
        s.query()
        session.judge(ctx, spec, s.events, what="after new CPTs were put into a tree (%s) that was set up again: " % origin)
        ctx.ev("set_up_again")
        ctx.ev("evaluations")
        if first.key() != spec.key():
            ctx.nontrivial((first.key(), spec.key()))
    ctx.sample({"network": spec.describe(), "origin": origin})


def fresh_cpt(rng, spec, i):
    spec.cpt[i] = gen.make_cpt(rng, [spec.card(j) for j in spec.parents[i]] + [spec.card(i)], gen.pick(rng, gen.CPT_MODES))


def reaches(spec, a, b):
    seen, st = {a}, [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        for p, c in spec.edges:
            if p == x and c not in seen:
                seen.add(c)
                st.append(c)
    return False


def edit(ctx, rng, spec, bbn, nodes):
    """One random edit, applied to the specification and to the live network alike."""
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    r = rng.random()
    if r < 0.3 or (r < 0.8 and len(spec.order) < 2):
        i = gen.pick(rng, spec.order)
        fresh_cpt(rng, spec, i)
        nodes[i].probs = spec.flat(i)
        return "cpt"
    if r < 0.6:
        a, b = [spec.order[k] for k in rng.choice(len(spec.order), size=2, replace=False)]
        if (a, b) in spec.edges or reaches(spec, b, a) or len(spec.parents[b]) >= 3:
            return None
        spec.edges.append((a, b))
        spec.parents[b].append(a)
        fresh_cpt(rng, spec, b)
        bbn.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
        nodes[b].probs = spec.flat(b)
        return "edge"
    if r < 0.8:
        if len(spec.order) < 3:
            return None
        x = gen.pick(rng, spec.order)
        ch = spec.children(x)
        spec.order.remove(x)
        spec.edges = [e for e in spec.edges if x not in e]
        for m in (spec.names, spec.values, spec.parents, spec.cpt):
            del m[x]
        bbn.remove_node(x)
        del nodes[x]
        for c in ch:
            spec.parents[c].remove(x)
            fresh_cpt(rng, spec, c)
            nodes[c].probs = spec.flat(c)
        return "remove"
    if len(spec.order) > 7:
        return None
    i = int(gen.pick(rng, [k for k in range(0, 40) if k not in spec.order]))
    spec.order.append(i)
    spec.names[i] = "new%d" % i
    spec.values[i] = ["p", "q", "r"][: int(rng.integers(2, 4))]
    spec.parents[i] = []
    for p in spec.order[:-1]:
        if rng.random() < 0.35 and len(spec.parents[i]) < 2:
            spec.parents[i].append(p)
    fresh_cpt(rng, spec, i)
    nodes[i] = BbnNode(Variable(i, spec.names[i], list(spec.values[i])), spec.flat(i))
    bbn.add_node(nodes[i])
    for p in spec.parents[i]:
        spec.edges.append((p, i))
        bbn.add_edge(Edge(nodes[p], nodes[i], EdgeType.DIRECTED))
    return "node"


def edit_case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=2, max_n=6, max_joint=100, id_style=gen.pick(rng, ["seq", "shuffled", "reversed", "borders"]), max_card=3)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    script = []
    for rnd in range(int(rng.integers(2, 5))):
        jt = InferenceController.apply(bbn)
        s = session.Session(spec, jt, nodes)
        model = session.EvidenceModel(spec)
        s.query()
        for _ in range(int(rng.integers(0, 4))):
            op = session.random_op(rng, spec, model=model)
            s.run(op)
            model.step(op)
        s.query()
        ctx.note["script"] = script
        session.judge(ctx, spec, s.events, what="after editing the network and applying inference again: ")
        for _ in range(int(rng.integers(1, 4))):
            e = edit(ctx, rng, spec, bbn, nodes)
            if e:
                script.append(e)
                ctx.ev("edits")
                ctx.ev("evaluations")
                ctx.ev("edit_" + e)
        ctx.nontrivial((tuple(script), spec.key()))
    ctx.sample({"network": spec.describe(), "edits": script})


def case(ctx, rng, idx):
    if idx % 7 == 3:
        return in_place_case(ctx, rng, idx)
    (reapply_case if idx % 2 else edit_case)(ctx, rng, idx)
