"""C35 what is printed is what is there."""
import numpy as np

from vmon import exact, gauss, gen, graphs, session

CASES = {"quick": 4500, "thorough": 20000}
FLOORS = {"networks": 350, "potentials": 1500, "trees": 350, "graphs": 250, "models": 100, "edges_read": 1500, "under_evidence": 500, "ids_with_two_digits": 200}
RULE = ("string forms of networks, nodes, variables, edges, graphs after edit histories, join trees, cliques, separators, potentials (prior, posterior, family, clique) and "
        "Gaussian models, compared with text written by the harness from its own model; probabilities against the exact ones at the five decimals "
        "printed; non-trivial = distinct texts")
ASSUMPTIONS = ["a probability within 1e-9 of a rounding boundary may be printed either way"]


def number(ctx, text, want, decimals, what, **detail):
    ctx.check(text.lstrip("-").replace(".", "", 1).isdigit() and len(text.partition(".")[2]) == decimals, what + ": not a number of %d decimals" % decimals, text=text, **detail)
    ctx.check(abs(float(text) - want) <= 0.5 * 10 ** -decimals + 1e-9 * max(1.0, abs(want)), what, text=text, want=want, **detail)


def names_of(spec, ids):
    return ",".join(sorted(spec.names[i] for i in ids))


def potential(ctx, p, spec, ids, table, what, order=None):
    """table: array over ids in the given order. Every combination once, each with its number."""
    text = str(p)
    ctx.eq(repr(p), text, what + ": the two string forms disagree")
    want = {}
    for k in np.ndindex(*table.shape):
        a = dict(zip(ids, k))
        want[",".join("%s=%s" % (i, spec.values[i][a[i]]) for i in sorted(ids))] = float(table[k])
    lines = text.split("\n")
    ctx.eq(len(lines), len(want), what + ": the text has not one line for each combination of values", text=text)
    ctx.eq(sorted(x.rpartition("|")[0] for x in lines), sorted(want), what + ": the text does not name every combination once", text=text)
    for x in lines:
        k, _, v = x.rpartition("|")
        number(ctx, v, want[k], 5, what + ": the text gives another number", line=x)
    ctx.ev("potentials")
    ctx.nontrivial(text)


SAFE = ["n", "letters", "prefix", "digits", "unicode", "words", "weird"]


def network_case(ctx, rng, idx):
    from pybbn.graph.jointree import JoinTree  # noqa: F401
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=300, name_style=gen.pick(rng, SAFE), value_style=gen.pick(rng, [x for x in gen.VALUE_STYLES if x not in ("punct", "weird", "words")]))
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng)
    line = {i: "%s|%s|%s" % (i, spec.names[i], ",".join(str(v) for v in spec.values[i])) for i in spec.order}
    for i in spec.order:
        ctx.eq(str(nodes[i]), line[i], "the text of a variable's node is not its id, name and values")
        ctx.eq(repr(nodes[i]), spec.names[i], "the short text of a node is not its name")
        ctx.eq(str(nodes[i].variable), "%s|%s|%s" % (i, spec.names[i], list(spec.values[i])), "the text of a variable is not its id, name and values")
    ctx.eq([line[n.id] for n in bbn.get_nodes()], [line[i] for i in spec.order], "nodes out of order") if [n.id for n in bbn.get_nodes()] == spec.order else None
    edges = ["%s->%s" % (a, b) for a, b in spec.edges]
    ctx.eq(sorted(str(e) for e in bbn.get_edges()), sorted(edges), "the text of an edge is not its ends and direction")
    ctx.ev("edges_read", len(edges))
    if any(i > 9 for i in spec.order):
        ctx.ev("ids_with_two_digits")
    want = "\n".join([line[n.id] for n in bbn.get_nodes()]) + "\n" + "\n".join("%s->%s" % (e.i.id, e.j.id) for e in bbn.get_edges())
    ctx.eq(sorted(str(bbn).split("\n")), sorted(want.split("\n")), "the text of a network does not list its variables and edges once each")
    ctx.ev("networks")
    ctx.nontrivial(str(bbn))
    # trees
    jt = InferenceController.apply(bbn)
    orc = exact.Exact(spec)
    s = session.Session(spec, jt, nodes)
    m = session.EvidenceModel(spec)
    tree_text(ctx, spec, jt)
    for _ in range(int(rng.integers(1, 4))):
        marg = orc.marginals(m.lik)
        for n in jt.get_bbn_nodes():
            ctx.eq(str(n), line[n.id], "the text of a tree's variable is not its id, name and values")
            potential(ctx, jt.get_bbn_potential(n), spec, [n.id], marg[n.id], "posterior potential")
        for c in jt.get_cliques():
            ids = [n.id for n in c.nodes]
            potential(ctx, jt.potentials[c.id], spec, ids, orc.joint(ids, m.lik), "clique potential")
        if any((v != 1.0).any() for v in m.lik.values()):
            ctx.ev("under_evidence")
        i = gen.pick(rng, spec.order)
        for k, v in enumerate(spec.values[i]):
            w = np.array([m.lik[i][k]])
            e = jt.get_evidence(jt.get_bbn_node(i), v)
            t = str(e)
            a, _, b = t.rpartition("|")
            ctx.eq(a, "%s=%s" % (i, v), "the text of a likelihood does not name its value")
            number(ctx, b, float(w[0]), 5, "the text of a likelihood gives another number")
        op = {"op": "update", "ev": [session.random_evidence(rng, spec)]}
        s.run(op)
        m.step(op)
    ctx.sample({"network": spec.describe(), "text": str(bbn)[:300]})


def tree_text(ctx, spec, jt):
    cl = {}
    for c in jt.get_cliques():
        t = "(%s)" % names_of(spec, [n.id for n in c.nodes])
        ctx.eq(str(c), t, "the text of a clique is not its variables")
        ctx.eq(c.get_sid(), "-".join(sorted(spec.names[n.id] for n in c.nodes)), "the key of a clique is not its variables")
        cl[c.id] = t
    seps = []
    for p in jt.get_sep_sets():
        got = str(p)
        both = set(n.id for n in p.left.nodes) & set(n.id for n in p.right.nodes)
        a, b = cl[p.left.id], cl[p.right.id]
        ctx.check(got.startswith("|%s -- " % a) and got.endswith(" -- %s|" % b), "the text of a separator does not name the cliques it joins", text=got)
        inner = got[len(a) + 5: len(got) - len(b) - 5]
        ctx.eq(inner, ",".join(spec.names[n.id] for n in p.nodes), "the text of a separator does not list its variables", text=got)
        ctx.eq({n.id for n in p.nodes}, both, "a separator is not the intersection")
        seps.append(got)
    edges = []
    for e in jt.get_edges():
        t = "%s--%s--%s" % (cl[e.sep_set.left.id], str(e.sep_set), cl[e.sep_set.right.id])
        ctx.eq(str(e), t, "the text of a tree's edge is not its cliques and separator")
        edges.append(t)
        ctx.ev("edges_read")
    for x in jt.get_flattened_edges():
        t = sorted([str(x.i), str(x.j)])
        ctx.check(sorted([str(x)]) in ([t[0] + "--" + t[1]], [t[1] + "--" + t[0]]), "the text of a flattened edge is not its ends", text=str(x), ends=t)
    text = str(jt)
    want = sorted(list(cl.values()) + seps + edges)
    ctx.eq(sorted(x for x in text.split("\n") if x), sorted(x for y in want for x in y.split("\n") if x), "the text of a tree does not list its cliques, separators and links once each")
    ctx.ev("trees")
    ctx.nontrivial(text)


def graph_case(ctx, rng, idx):
    kind = graphs.KINDS[int(rng.integers(len(graphs.KINDS)))]
    d = graphs.Driver(kind, graphs.pool_ids(rng))
    ctx.note.update(kind=kind, history=d.trace)
    for _ in range(int(rng.integers(3, 30))):
        d.apply(ctx, d.random_op(rng, 0.06))
    g = d.g
    edges = []
    for e in g.get_edges():
        a, b = e.i.id, e.j.id
        directed = e.type.name == "DIRECTED"
        t = "%s->%s" % (a, b) if directed else "%s--%s" % (min(a, b), max(a, b))
        ctx.eq((str(e), e.key), (t, t), "the text of an edge is not its ends and direction")
        edges.append(t)
        ctx.ev("edges_read")
    want = ["%s->%s" % (a, b) if x else "%s--%s" % (min(a, b), max(a, b)) for a, b, x in d.m.edges]
    ctx.eq(sorted(edges), sorted(want), "edges printed are not the graph's", history=d.trace)
    nodes = [str(n) for n in g.get_nodes()]
    for n in g.get_nodes():
        ctx.check(str(n).startswith("%s|" % n.id) or str(n) == str(n.id), "the text of a node does not begin with its id")
    ctx.eq(sorted(x for x in str(g).split("\n") if x), sorted(nodes + want), "the text of a graph does not list its nodes and edges once each", history=d.trace)
    ctx.ev("graphs")
    ctx.nontrivial((kind, str(g)))


def gaussian_case(ctx, rng, idx):
    from pybbn.gaussian.inference import GaussianInference
    H, mu, cov = gauss.model(rng)
    g = GaussianInference(H, mu.copy(), cov.copy())
    if rng.random() < 0.7:
        g = g.do_inferences(gauss.observations(rng, H, mu, cov))
    t = repr(g)
    ctx.note["text"] = t
    ctx.eq(str(g), t, "the two string forms of a Gaussian model disagree")
    head, foot = "GaussianInference[H=[", "}]"
    ctx.check(t.startswith(head) and t.endswith(foot), "the text of a Gaussian model has another form", text=t)
    body = t[len(head):-len(foot)]
    h, rest = body.split("], M=[", 1)
    mm, rest = rest.split("], E=[", 1)
    ee, meta = rest.rsplit("], meta={", 1)
    ctx.eq(h, ",".join(g.H), "names printed are not the model's")
    got = mm.split(",") if mm else []
    ctx.eq(len(got), len(g.H), "not one mean is printed for each variable")
    for x, v in zip(got, g.M):
        number(ctx, x, float(v), 3, "another mean is printed")
    E = np.asarray(g.E)
    rows = [r[1:-1] for r in ee.split("|")] if len(g.H) else []
    ctx.eq(len(rows), len(g.H), "not one row of covariances is printed for each variable")
    for r, row in zip(rows, E):
        ctx.eq(len(r.split(",")), len(g.H), "a row of covariances has another length")
        for x, v in zip(r.split(","), row):
            number(ctx, x, float(v), 3, "another covariance is printed")
    obs = dict(g.meta)
    pairs = [x.rpartition("=") for x in meta.split(",")] if meta else []
    ctx.eq([k for k, _, _ in pairs], list(obs), "observations printed are not the model's")
    for k, _, v in pairs:
        number(ctx, v, float(obs[k]), 3, "another observation is printed")
    ctx.ev("models")
    ctx.nontrivial(t)


def case(ctx, rng, idx):
    r = idx % 4
    if r == 2:
        return graph_case(ctx, rng, idx)
    if r == 3 and idx % 8 == 3:
        return gaussian_case(ctx, rng, idx)
    ctx.ev("evaluations")
    return network_case(ctx, rng, idx)
