"""C29 inference works on long and wide networks."""
import copy
import json

import numpy as np

from vmon import gen, session

CASES = {"quick": 32, "thorough": 400}
FLOORS = {"trees_built": 30, "nodes_in_networks": 9000, "answers_judged": 60, "copies": 10, "reapplied": 8, "round_trips": 8, "over_500_nodes": 3, "network_copies_after_inference": 5, "over_1000_nodes": 2, "much_evidence": 8}
MIN_DISTINCT = 25
CASE_CPU_S = 400
RULE = ("chains (any id and insertion order, any direction of edges), caterpillars, deep and bushy trees, wide stars, two-parent polytrees and forests of many "
        "components with 150-1120 variables; oracle: normalised message passing on the singly connected factor graph, written here, iterative; "
        "non-trivial = distinct networks of at least 150 variables")
ASSUMPTIONS = ["sizes up to 1120 variables per network (time), families of at most 3 variables except in stars"]


def structure(rng, idx, tier):
    """Singly connected directed structures: edges over 0..n-1."""
    kind = ["chain", "star_out", "tree", "polytree", "forest", "caterpillar", "chain", "broom"][idx % 8]
    big = tier == "thorough" or idx % 16 in (0, 8)
    if kind == "chain":
        n = int(rng.integers(1040, 1121)) if idx % 16 == 0 else int(rng.integers(650, 1101)) if big else int(rng.integers(340, 700))
        how = gen.pick(rng, ["forward", "backward", "mixed"])
        E = []
        for j in range(1, n):
            f = how == "forward" or (how == "mixed" and rng.random() < 0.5)
            E.append((j - 1, j) if f else (j, j - 1))
    elif kind == "star_out":
        n = int(rng.integers(150, 400))
        E = [(0, j) for j in range(1, n)]
    elif kind == "tree":
        n = int(rng.integers(200, 600))
        k = gen.pick(rng, [2, 3, n])
        E = [(max(0, j - int(rng.integers(1, k + 1))), j) for j in range(1, n)]
    elif kind == "polytree":
        n = int(rng.integers(200, 500))
        pa = [0] * n
        E = []
        for j in range(1, n):
            i = int(rng.integers(max(0, j - 6), j))
            if pa[i] < 2 and rng.random() < 0.5:
                E.append((j, i))
                pa[i] += 1
            else:
                E.append((i, j))
                pa[j] += 1
    elif kind == "forest":
        n = int(rng.integers(200, 500))
        E = [(int(rng.integers(max(0, j - 4), j)), j) for j in range(1, n) if rng.random() < 0.6]
    elif kind == "caterpillar":
        n = int(rng.integers(200, 500))
        m = n // 2
        E = [(j - 1, j) for j in range(1, m)] + [(int(rng.integers(m)), j) for j in range(m, n)]
    else:   # broom: a long handle that ends in a star
        n = int(rng.integers(250, 500))
        m = n - int(rng.integers(50, 120))
        E = [(j - 1, j) for j in range(1, m)] + [(m - 1, j) for j in range(m, n)]
    return kind, n, E


def random_spec(rng, kind, n, E):
    style = gen.pick(rng, gen.ID_STYLES)
    ids = gen.make_ids(rng, n, style)
    if style == "borders":
        rng.shuffle(ids)
        ids = [int(i) for i in ids]
    order = list(ids)
    if rng.random() < 0.5:
        order = [int(i) for i in rng.permutation(order)]
    edges = [(ids[a], ids[b]) for a, b in E]
    if rng.random() < 0.6:
        edges = [edges[k] for k in rng.permutation(len(edges))]
    parents = {i: [] for i in ids}
    for a, b in edges:
        parents[b].append(a)
    card = {i: 3 if rng.random() < 0.15 else 2 for i in ids}
    names = {i: "n%d" % i for i in ids}
    values = {i: gen.make_values(rng, i, card[i], "tf") for i in ids}
    cpt = {}
    for i in ids:
        shape = [card[j] for j in parents[i]] + [card[i]]
        cpt[i] = gen.make_cpt(rng, shape, "positive" if rng.random() < 0.95 else "zeros")
    return gen.Spec(order, names, values, parents, cpt, edges, tag="%s/%s/%d" % (kind, style, n))


def marginals(spec, lik):
    """Sum-product on the factor tree, iterative, every message normalised."""
    nbr = {i: [i] for i in spec.order}         # variable -> factors (a factor is named after its child)
    fam = {i: spec.parents[i] + [i] for i in spec.order}
    for i in spec.order:
        for p in spec.parents[i]:
            nbr[p].append(i)
    seen, order = set(), []                    # (kind, id, kind and id of the parent)
    for r in spec.order:
        if r in seen:
            continue
        seen.add(r)
        stack = [("v", r, None)]
        while stack:
            k, x, up = stack.pop()
            order.append((k, x, up))
            for y in (nbr[x] if k == "v" else fam[x]):
                if y == up:
                    # each (variable, factor) pair is one edge of a tree; only the edge we came by is skipped
                    continue
                if k == "f":
                    seen.add(y)
                stack.append(("f" if k == "v" else "v", y, x))
    msg = {}

    def norm(m):
        s = m.sum()
        return m / s if s > 0 else m

    def send(k, x, to):
        if k == "v":
            m = np.asarray(lik.get(x, np.ones(spec.card(x))), dtype=float)
            for f in nbr[x]:
                if f != to:
                    m = m * msg["f", f, x]
            msg["v", x, to] = norm(m)
        else:
            t = spec.cpt[x]
            for a, y in enumerate(fam[x]):
                if y != to:
                    dims = [1] * t.ndim
                    dims[a] = -1
                    t = t * msg["v", y, x].reshape(dims)
            msg["f", x, to] = norm(t.sum(axis=tuple(a for a, y in enumerate(fam[x]) if y != to)))

    for k, x, up in reversed(order):
        if up is not None:
            send(k, x, up)
    for k, x, up in order:
        for y in (nbr[x] if k == "v" else fam[x]):
            if y != up:
                send(k, x, y)
    out = {}
    for i in spec.order:
        m = np.asarray(lik.get(i, np.ones(spec.card(i))), dtype=float)
        for f in nbr[i]:
            m = m * msg["f", f, i]
        out[i] = norm(m)
    return out


def judge(ctx, spec, jt, lik, what):
    want = marginals(spec, lik)
    got = jt.get_posteriors()
    ctx.eq(len(got), len(spec.order), what + ": wrong number of variables reported")
    for i in spec.order:
        g = got[spec.names[i]]
        ctx.eq(list(g), list(spec.values[i]), what + ": wrong values reported", id=i)
        # underflow of a product of hundreds of evidence terms is avoided by using few of them
        ctx.close(list(g.values()), want[i], what + ": marginal differs from the exact one", rtol=1e-7, atol=1e-10, id=i)
    ctx.ev("answers_judged")


def observe(rng, spec, jt, m):
    model = session.EvidenceModel(spec)
    ids = [spec.order[k] for k in rng.choice(len(spec.order), size=m, replace=False)]
    evs = []
    for i in ids:
        if rng.random() < 0.6:
            evs.append((i, "OBSERVATION", [(gen.pick(rng, spec.values[i]), 1.0)]))
        else:
            evs.append((i, "VIRTUAL", [(v, float(rng.uniform(0.2, 1))) for v in spec.values[i]]))
    jt.update_evidences([session.make_evidence(spec, jt, None, e) for e in evs])
    model.step({"op": "update", "ev": evs})
    return {i: model.lik[i] for i in ids}


def case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    kind, n, E = structure(rng, idx, ctx.tier)
    spec = random_spec(rng, kind, n, E)
    ctx.note["network"] = {"tag": spec.tag, "edges": spec.edges[:20]}
    bbn, nodes = gen.build(spec)
    ctx.eq(len(bbn.get_edges()), len(spec.edges), "an edge of a long acyclic network was refused")
    if rng.random() < 0.4:
        bbn = gen.pick(rng, [copy.deepcopy, lambda b: Bbn.from_dict(json.loads(json.dumps(Bbn.to_dict(b))))])(bbn)
        ctx.ev("network_copies")
    jt = InferenceController.apply(bbn)
    ctx.ev("trees_built")
    ctx.ev("nodes_in_networks", n)
    if n > 500:
        ctx.ev("over_500_nodes")
    if n > 1000:
        ctx.ev("over_1000_nodes")
    judge(ctx, spec, jt, {}, "priors of a %s of %d" % (kind, n))
    if rng.random() < 0.7:
        # by now the variables know their parents and cliques
        b2 = copy.deepcopy(bbn)
        ctx.eq([x.id for x in b2.get_nodes()], [x.id for x in bbn.get_nodes()], "copied network of a %s of %d has other variables" % (kind, n))
        ctx.eq([e.key for e in b2.get_edges()], [e.key for e in bbn.get_edges()], "copied network of a %s of %d has other edges" % (kind, n))
        ctx.ev("network_copies_after_inference")
        if n < 500:
            judge(ctx, spec, InferenceController.apply(b2), {}, "priors of a copied %s of %d" % (kind, n))
    lik = observe(rng, spec, jt, int(rng.integers(1, 5)))
    judge(ctx, spec, jt, lik, "posteriors of a %s of %d" % (kind, n))
    if kind in ("star_out", "forest", "caterpillar", "broom"):
        # much evidence: its probability is far below anything a test has, but above the smallest double
        low, evs, model = 0.0, [], session.EvidenceModel(spec)
        for k in rng.permutation(n):
            i = spec.order[k]
            v = int(rng.integers(spec.card(i)))
            p = float(spec.cpt[i][..., v].min())
            if i in lik or p <= 0 or low + np.log10(p) < -250:
                continue
            low += np.log10(p)
            evs.append((i, "OBSERVATION", [(spec.values[i][v], 1.0)]))
        heavy = copy.deepcopy(jt)
        heavy.unobserve_all()
        heavy.update_evidences([session.make_evidence(spec, heavy, None, e) for e in evs])
        model.step({"op": "update", "ev": evs})
        judge(ctx, spec, heavy, {e[0]: model.lik[e[0]] for e in evs}, "posteriors of a %s of %d given %d observations" % (kind, n, len(evs)))
        ctx.ev("much_evidence")
        ctx.ev("observations_in_much_evidence", len(evs))
    step = gen.pick(rng, ["copy", "copy", "reapply", "serde", "serde", "retract"]) if n > 500 else None
    if step in (None, "copy"):
        jt2 = copy.deepcopy(jt)
        ctx.ev("copies")
        judge(ctx, spec, jt2, lik, "copied tree of a %s of %d" % (kind, n))
        i = gen.pick(rng, spec.order)
        if i not in lik:
            jt2.set_observation(session.make_evidence(spec, jt2, None, (i, "OBSERVATION", [(spec.values[i][0], 1.0)])))
            judge(ctx, spec, jt2, {**lik, i: np.eye(spec.card(i))[0]}, "copied tree under evidence")
    if step in (None, "serde"):
        d = json.loads(json.dumps(JoinTree.to_dict(jt, bbn)))
        jt3 = InferenceController.apply_from_serde(JoinTree.from_dict(d))
        ctx.ev("round_trips")
        judge(ctx, spec, jt3, {}, "tree read back of a %s of %d" % (kind, n))
    if step in (None, "reapply"):
        spec2 = spec.copy()
        cpts = {}
        for i in spec.order:
            if rng.random() < 0.1:
                spec2.cpt[i] = gen.make_cpt(rng, list(spec.cpt[i].shape), "positive")
                cpts[i] = spec2.flat(i)
        jt4 = InferenceController.reapply(jt, cpts)
        ctx.ev("reapplied")
        judge(ctx, spec2, jt4, {}, "re-applied tree of a %s of %d" % (kind, n))
    if step in (None, "retract"):
        jt.unobserve_all()
        judge(ctx, spec, jt, {}, "priors after retracting everything")
    ctx.nontrivial(spec.key())
    ctx.sample({"kind": kind, "n": n, "tag": spec.tag})
