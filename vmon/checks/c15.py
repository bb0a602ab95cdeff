"""C15 deep copies are complete and independent."""
import copy

import numpy as np

from vmon import exact, gen, graphs, session

CASES = {"quick": 9000, "thorough": 36000}
FLOORS = {"copies": 1300, "mutations": 6000, "tree_copies": 120, "answers_judged": 800, "aliasing_probes": 10000}
RULE = ("copies of graphs (4 kinds, after edit histories), networks before and after inference, nodes, variables, edges, join trees under evidence, and containers "
        "of them; observable state compared, then random mutations of either side with the other side's state compared to its snapshot; non-trivial = distinct "
        "copied states that were mutated")
ASSUMPTIONS = ["the join-tree part drives evidence, CPT replacement and re-application; the graph part structure, CPTs, values, names and metadata"]


# ---- observable state as plain data

def snap_var(v):
    return ("var", v.id, v.name, list(v.values))


def snap_meta(m):
    return sorted((str(k), repr(v)) for k, v in m.items() if str(k).startswith("user"))


def snap_node(n):
    out = ["node", n.id, snap_meta(n.metadata), type(n).__name__]
    if hasattr(n, "variable"):
        out += [snap_var(n.variable), [float(p) for p in n.probs], n.get_weight(), str(n)]
    return tuple(map(repr, out))


def snap_edge(e):
    return ("edge", type(e).__name__, e.type.name, e.key, str(e), snap_node(e.i), snap_node(e.j))


def snap_graph(g, kind):
    out = [kind, [snap_node(n) for n in g.get_nodes()], [snap_edge(e) for e in g.get_edges()], [snap_node(g.get_node(n.id)) for n in g.get_nodes()]]
    ids = [n.id for n in g.get_nodes()]
    out.append([(i, sorted(g.get_neighbors(i))) for i in ids])
    out.append([(i, j, bool(g.edge_exists(i, j))) for i in ids for j in ids if i != j])
    if kind != "ug":
        out.append([(i, sorted(g.get_parents(i))) for i in ids])
    if kind == "bbn":
        out.append([(i, list(g.get_parents_ordered(i))) for i in ids])
        out.append([(e["pa"], e["ch"]) for e in type(g).to_dict(g)["edges"]])
    return repr(out)


# ---- sharing

def mutables(x, out, depth=0):
    """id -> object of every mutable thing reachable through the public data attributes."""
    if depth > 200 or x is None or isinstance(x, (str, bytes, int, float, complex, bool, frozenset, type, np.generic)):
        return out
    import enum
    if isinstance(x, enum.Enum) or callable(x) and not hasattr(x, "__dict__"):
        return out
    if isinstance(x, tuple):
        for y in x:
            mutables(y, out, depth + 1)
        return out
    if id(x) in out:
        return out
    if isinstance(x, (list, set, np.ndarray)):
        out[id(x)] = x
        if not isinstance(x, np.ndarray):
            for y in x:
                mutables(y, out, depth + 1)
    elif isinstance(x, dict):
        out[id(x)] = x
        for k, y in x.items():
            mutables(y, out, depth + 1)
    elif hasattr(x, "__dict__") and type(x).__module__.startswith("pybbn"):
        out[id(x)] = x
        for y in vars(x).values():
            mutables(y, out, depth + 1)
    return out


def unshared(ctx, a, b, what):
    A, B = mutables(a, {}), mutables(b, {})
    both = [A[k] for k in A if k in B]
    ctx.ev("aliasing_probes", len(B))
    ctx.check(not both, "copy shares mutable state with the original (%s)" % what, shared=[("%s: %r" % (type(x).__name__, x))[:200] for x in both[:5]])


# ---- mutations of a graph side

def mutate_node(rng, n):
    r = int(rng.integers(6))
    if r == 0 and hasattr(n, "probs"):
        n.probs[int(rng.integers(len(n.probs)))] = float(rng.random()) + 2.0
        return "cpt entry"
    if r == 1 and hasattr(n, "variable"):
        n.variable.values[0] = "changed%d" % int(rng.integers(1000))
        return "value"
    if r == 2 and hasattr(n, "variable"):
        n.variable.values.append("extra%d" % int(rng.integers(1000)))
        return "extra value"
    if r == 3 and hasattr(n, "variable"):
        n.variable.name = "renamed%d" % int(rng.integers(1000))
        return "name"
    if r == 4:
        n.add_metadata("user_new", int(rng.integers(1000)))
        return "metadata"
    for k, v in n.metadata.items():
        if str(k).startswith("user") and isinstance(v, list):
            v.append(int(rng.integers(1000)))
            return "nested metadata"
    n.add_metadata("user_x%d" % int(rng.integers(9)), [int(rng.integers(1000))])
    return "metadata"


def mutate_graph(rng, g, kind):
    from pybbn.graph.edge import Edge, EdgeType
    nodes = list(g.get_nodes())
    r = rng.random()
    if r < 0.45 and nodes:
        return mutate_node(rng, gen.pick(rng, nodes))
    if r < 0.6 and len(nodes) > 2:
        g.remove_node(gen.pick(rng, nodes).id)
        return "remove node"
    if r < 0.75 or len(nodes) < 2:
        g.add_node(graphs.new_node(10 ** 7 + int(rng.integers(10 ** 6))))
        return "add node"
    if r < 0.85:
        e = gen.pick(rng, g.get_edges()) if g.get_edges() else None
        if e is not None:
            mutate_node(rng, gen.pick(rng, [e.i, e.j]))
            return "node through edge"
    for _ in range(12):
        a, b = gen.pick(rng, nodes), gen.pick(rng, nodes)
        n = len(g.get_edges())
        g.add_edge(Edge(a, b, EdgeType.UNDIRECTED if kind == "ug" else EdgeType.DIRECTED))
        if len(g.get_edges()) > n:
            return "add edge"
    return "offered edge"


def decorate(rng, nodes):
    for n in nodes:
        if rng.random() < 0.5:
            n.add_metadata("user_a", [1, 2, {"x": 3}])
        if rng.random() < 0.2:
            n.add_metadata("user_self", "text")


def both_sides(ctx, rng, a, b, snap, mutate, what):
    """Mutates either side; the other one must stay as it was."""
    done = []
    for _ in range(int(rng.integers(3, 10))):
        x, y = (a, b) if rng.random() < 0.5 else (b, a)
        before = snap(y)
        m = mutate(x)
        done.append((m, "original" if x is a else "copy"))
        ctx.ev("mutations")
        ctx.eq(snap(y), before, "changing one side of a deep copy changed the other (%s)" % what, mutations=done)
    return done


def case(ctx, rng, idx):
    r = idx % 7
    if r == 6:
        return tree_case(ctx, rng)
    if r in (0, 1, 2, 3):
        return graph_case(ctx, rng, graphs.KINDS[r])
    if r == 4:
        return parts_case(ctx, rng)
    return bbn_case(ctx, rng)


def graph_case(ctx, rng, kind):
    d = graphs.Driver(kind, graphs.pool_ids(rng))
    ctx.note.update(kind=kind, history=d.trace)
    for _ in range(int(rng.integers(5, 30))):
        d.apply(ctx, d.random_op(rng, 0.06))
    g = d.g
    decorate(rng, g.get_nodes())
    check_graph_copy(ctx, rng, g, kind, kind)


def check_graph_copy(ctx, rng, g, kind, what):
    snap = lambda x: snap_graph(x, kind)
    before = snap(g)
    inner = rng.random() < 0.25
    if inner:
        nodes = {n.id: n for n in g.get_nodes()}
        c, cn, c2 = copy.deepcopy((g, nodes, g))
        ctx.check(c2 is c, "a graph copied twice in one container", kind=kind)
        for i, n in cn.items():
            ctx.check(c.get_node(i) is n, "a node beside its graph in a copied container is not the copied graph's node", id=i)
    else:
        c = copy.deepcopy(g)
    ctx.ev("copies")
    ctx.eq(type(c), type(g), "copy has another type")
    ctx.eq(snap(c), before, "a deep copy differs from its original (%s)" % what)
    ctx.eq(snap(g), before, "copying changed the original (%s)" % what)
    own = {n.id: n for n in g.get_nodes()}
    for e, f in zip(g.get_edges(), c.get_edges()):
        for x, y in ((e.i, f.i), (e.j, f.j)):
            if own.get(x.id) is x:
                ctx.check(c.get_node(y.id) is y, "an edge of the copy does not refer to the copied nodes", edge=e.key)
    unshared(ctx, g, c, what)
    chain = copy.deepcopy(c)
    ctx.eq(snap(chain), before, "a copy of a copy differs (%s)" % what)
    done = both_sides(ctx, rng, g, c, snap, lambda x: mutate_graph(rng, x, kind), what)
    ctx.eq(snap(chain), before, "changing a copy or its original changed a copy of the copy (%s)" % what, mutations=done)
    ctx.nontrivial((before, str(done)))
    return c


def bbn_case(ctx, rng):
    """Networks, before and after inference was applied to them."""
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=2, max_n=7, max_joint=400)
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs=gen.pick(rng, ["list", "any"]))
    for n in nodes.values():
        n.probs = np.array(n.probs) if rng.random() < 0.5 else list(n.probs)
    decorate(rng, nodes.values())
    jt = InferenceController.apply(bbn) if rng.random() < 0.7 else None
    c0 = copy.deepcopy(bbn)
    # inference on a copy is right and leaves the original's tree alone
    s0 = session.Session(spec, InferenceController.apply(c0))
    s0.run({"op": "update", "ev": [session.random_evidence(rng, spec)]})
    s0.query()
    session.judge(ctx, spec, s0.events, what="network copied, inference on the copy: ")
    if jt is not None:
        s = session.Session(spec, jt)
        s.query()
        session.judge(ctx, spec, s.events, what="network copied, tree of the original: ")
    check_graph_copy(ctx, rng, bbn, "bbn", "network%s" % ("" if jt is None else " after inference"))
    s1 = session.Session(spec, s0.jt)
    s0.query()
    session.judge(ctx, spec, s0.events, what="original and another copy changed, tree of the first copy: ")


def parts_case(ctx, rng):
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import Node
    spec = gen.make_spec(rng, min_n=2, max_n=5, max_joint=200)
    bbn, nodes = gen.build(spec, rng)
    ns = list(nodes.values())
    decorate(rng, ns)
    plain = Node(int(rng.integers(1000)))
    plain.add_metadata("user_a", [1, [2]])
    a, b = ns[0], ns[1]
    t = gen.pick(rng, [EdgeType.DIRECTED, EdgeType.UNDIRECTED])
    for x, snap, mut, what in [
        (plain, snap_node, lambda y: mutate_node(rng, y), "plain node"),
        (gen.pick(rng, ns), snap_node, lambda y: mutate_node(rng, y), "node"),
        (Edge(a, b, t), snap_edge, lambda y: mutate_node(rng, gen.pick(rng, [y.i, y.j])), "edge"),
        (copy.deepcopy(gen.pick(rng, ns)).variable, snap_var, lambda v: v.values.__setitem__(0, "c%d" % int(rng.integers(1000))) if rng.random() < 0.5 else v.values.append("x%d" % int(rng.integers(1000))), "variable"),
    ]:
        before = snap(x)
        c = copy.deepcopy(x)
        ctx.ev("copies")
        ctx.eq(type(c), type(x), "copy has another type")
        ctx.eq(snap(c), before, "a deep copy differs from its original (%s)" % what)
        unshared(ctx, x, c, what)
        done = both_sides(ctx, rng, x, c, snap, mut, what)
        ctx.nontrivial((before, str(done)))
    # an edge and its nodes in one container keep referring to each other
    e = Edge(a, b, t)
    e2, a2, b2, l2 = copy.deepcopy((e, a, b, [a, b]))
    ctx.check(e2.i is a2 and e2.j is b2 and l2[0] is a2 and l2[1] is b2, "references inside a copied container do not point to the copied objects")
    ctx.ev("copies")


def links(jt):
    """Who is next to whom, in every view the tree offers."""
    ids = [n.id for n in jt.get_nodes()]
    return ([(i, sorted(jt.get_neighbors(i))) for i in ids], [(i, j) for i in ids for j in ids if i != j and jt.edge_exists(i, j)],
            sorted((e.i.id, e.j.id) for e in jt.get_edges()), sorted((e.i.id, e.j.id) for e in jt.get_flattened_edges()))


def tree_case(ctx, rng):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=400)
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any")
    s = session.Session(spec, InferenceController.apply(bbn), nodes)
    m = session.EvidenceModel(spec)
    for _ in range(int(rng.integers(0, 5))):
        op = session.random_op(rng, spec, query=0.1, model=m)
        s.run(op)
        m.step(op)
    c = session.Session(spec, copy.deepcopy(s.jt))
    c.events = [e for e in s.events if e["op"] not in ("query", "bad")]
    ctx.ev("tree_copies")
    ctx.ev("copies")
    own = {n.id: n for n in s.jt.get_bbn_nodes()}
    cop = {n.id: n for n in c.jt.get_bbn_nodes()}
    ctx.eq(set(own), set(cop), "a copied tree has other variables")
    for i in own:
        ctx.check(own[i] is not cop[i] and own[i].variable is not cop[i].variable and own[i].variable.values is not cop[i].variable.values and own[i].metadata is not cop[i].metadata,
                  "a copied tree shares a variable with its original", id=i)
        ctx.eq(snap_node(cop[i]), snap_node(own[i]), "a copied tree has another variable", id=i)
    for q in c.jt.get_cliques():
        for n in q.nodes:
            ctx.check(cop.get(n.id) is n, "a clique of the copied tree does not refer to the copied variables")
    ctx.eq(sorted(sorted(n.id for n in q.nodes) for q in c.jt.get_cliques()), sorted(sorted(n.id for n in q.nodes) for q in s.jt.get_cliques()), "a copied tree has other cliques")
    # the listener holds the algorithms, not state
    unshared(ctx, {k: v for k, v in vars(s.jt).items() if k != "listener"}, {k: v for k, v in vars(c.jt).items() if k != "listener"}, "join tree")
    ctx.eq(links(c.jt), links(s.jt), "a copied tree has other links")
    c.query()
    both = [(s, m), (c, session.EvidenceModel(spec))]
    for e in c.events:
        both[1][1].step(e)
    for _ in range(int(rng.integers(6, 16))):
        x, mm = both[int(rng.integers(2))]
        op = session.random_op(rng, spec, query=0.4, model=mm, bad=0.05)
        x.run(op)
        mm.step(op)
    # mutable parts of the variables
    x, y = (own, cop) if rng.random() < 0.5 else (cop, own)
    before = [snap_node(y[i]) for i in sorted(y)]
    i = gen.pick(rng, spec.order)
    x[i].add_metadata("user_k", 1)
    ctx.eq([snap_node(y[i]) for i in sorted(y)], before, "changing a variable of one tree changed the copy's")
    if rng.random() < 0.4:
        cpts = {j: gen.make_cpt(rng, list(spec.cpt[j].shape), "mixed") for j in spec.order if rng.random() < 0.5}
        side = int(rng.integers(2))
        sp2 = spec.copy()
        for j in cpts:
            sp2.cpt[j] = cpts[j]
        s3 = session.Session(sp2, InferenceController.reapply(both[side][0].jt, {j: sp2.flat(j) for j in cpts}))
        s3.query()
        session.judge(ctx, sp2, s3.events, what="re-applied copy: ")
    for x, _ in both:
        x.query()
    session.judge(ctx, spec, s.events, what="original tree after copying: ")
    session.judge(ctx, spec, c.events, what="copied tree: ")
    ctx.ev("mutations")
    ctx.nontrivial((spec.key(), str(session.slim(s.events)), str(session.slim(c.events))))
