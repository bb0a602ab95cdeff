"""C38 path detection is reachability."""
from vmon import gen, graphs

CASES = {"quick": 3600, "thorough": 30000}
FLOORS = {"queries": 120000, "paths_found": 30000, "paths_missing": 60000, "after_removal": 10000, "tree_queries": 20000, "long_paths": 100, "large_graphs": 20, "large_trees": 60, "tree_parts": 300, "longer_than_any_stack": 3}
RULE = ("directed, partially directed and networks at random points of edit histories with removals, join trees of networks in one and several parts, long chains and "
        "layered graphs of thousands of nodes; every ordered pair asked and judged against a transitive closure computed from the reported edges; the graph's edges, "
        "nodes and neighbours fingerprinted around the questions; non-trivial = distinct graphs with at least one path of two edges")
ASSUMPTIONS = ["paths in directed and partially directed graphs follow directed edges, in join trees any edges; both ends are nodes of the graph"]


def reached(arcs, start):
    """Everything reachable from start."""
    out = {}
    for a, b in arcs:
        out.setdefault(a, []).append(b)
    seen, todo = {start}, [start]
    while todo:
        for b in out.get(todo.pop(), ()):
            if b not in seen:
                seen.add(b)
                todo.append(b)
    return seen


def fp(g):
    ids = [n.id for n in g.get_nodes()]
    return ids, [str(e) for e in g.get_edges()], [sorted(map(str, g.get_neighbors(i))) for i in ids]


def judge(ctx, Detector, g, arcs, what, rng=None, limit=None):
    ids = [n.id for n in g.get_nodes()]
    if not ids:
        return
    M = {a: reached(arcs, a) for a in ids}
    before = fp(g)
    pairs = [(a, b) for a in ids for b in ids]
    if limit is not None and len(pairs) > limit:
        pairs = [pairs[k] for k in rng.choice(len(pairs), size=limit, replace=False)]
    for a, b in pairs:
        d = Detector(g, a, b)
        got = d.exists()
        want = b in M[a]
        ctx.eq(bool(got), want, "path detection in a %s disagrees with reachability" % what, start=a, stop=b, arcs=arcs[:60])
        ctx.ev("paths_found" if want else "paths_missing")
        if (a, b) in arcs[:3]:
            ctx.eq(bool(d.exists()), want, "asking twice gives another answer in a " + what, start=a, stop=b)
    ctx.ev("queries", len(pairs))
    ctx.eq(fp(g), before, "looking for paths changed the " + what)
    n2 = sum(map(len, M.values())) - len(ids) - len(set(arcs))
    if n2 > 0:
        ctx.nontrivial((what, tuple(ids), tuple(map(tuple, arcs))))


def big(ctx, rng, kind, longer=False):
    """Long chains, rings of blocks and layered graphs."""
    from pybbn.graph import dag, pdag
    from pybbn.graph.edge import Edge, EdgeType
    g = graphs.new_graph(kind)
    shape = gen.pick(rng, ["chain", "layers", "comb"])
    n = int(rng.integers(300, 700)) if ctx.tier == "quick" else int(rng.integers(300, 1500))
    if longer:
        shape, n = "chain", int(rng.integers(1080, 1160))
        ctx.ev("longer_than_any_stack")
    nodes = [graphs.new_node(i) for i in range(n)]
    for x in nodes:
        g.add_node(x)
    E = set()
    if shape == "chain":
        cut = int(rng.integers(1, 12)) if longer else int(rng.integers(1, n))
        E = {(i, i + 1) for i in range(n - 1) if i != cut}
    elif shape == "layers":
        w = 8
        for i in range(w, n):
            for j in rng.choice(w, size=2, replace=False):
                E.add(((i // w - 1) * w + int(j), i))
    else:
        E = {(i, i + 2) for i in range(n - 2)}
    # edges offered backwards keep the acceptance test short
    acc = []
    for a, b in sorted(E, reverse=True):
        g.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
        acc.append((a, b))
    ctx.eq(len(g.get_edges()), len(acc), "edges that break nothing were not added", shape=shape)
    D = dag.PathDetector if kind != "pdag" else pdag.PathDetector
    if shape == "chain" and cut + 2 < n:
        ctx.check(D(g, cut + 1, n - 1).exists() and not D(g, n - 1, cut + 1).exists() and not D(g, 0, n - 1).exists(), "path detection in a long chain is wrong", n=n, cut=cut, kind=kind)
    ctx.note.update(kind=kind, shape=shape, n=n)
    for _ in range(40):
        a, b = int(rng.integers(n)), int(rng.integers(n))
        if rng.random() < 0.3:
            a, b = min(a, b) // 8, max(a, b)
        want = b in reached(acc, a)
        ctx.eq(bool(D(g, a, b).exists()), want, "path detection in a large graph disagrees with reachability", start=a, stop=b, shape=shape)
        ctx.ev("queries")
        if want and b - a > 200:
            ctx.ev("long_paths")
    ctx.ev("large_graphs")


def case(ctx, rng, idx):
    from pybbn.graph import dag, jointree, pdag
    from pybbn.pptc.inferencecontroller import InferenceController
    kind = ["dag", "bbn", "pdag", "tree"][idx % 4]
    if idx % 150 < 4 and kind != "tree":
        big(ctx, rng, kind, idx < 4)
    if kind == "tree":
        if idx % 40 == 3:
            n = int(rng.integers(20, 70))
            spec = gen.make_spec(rng, min_n=n, max_n=n, max_joint=float("inf"), max_card=2, max_family=16, shape=gen.pick(rng, ["forest", "blocks", "tree", "chain", "few_chains"]))
            ctx.ev("large_trees")
        else:
            spec = gen.make_spec(rng, min_n=1, max_n=9, max_joint=400)
        bbn, _ = gen.build(spec, rng)
        jt = InferenceController.apply(bbn)
        ctx.note["network"] = spec.describe()
        arcs = []
        for e in jt.get_edges():
            for x in (e.i.id, e.j.id):
                arcs += [(x, e.sep_set.id), (e.sep_set.id, x)]
        n = ctx.events["queries"]
        judge(ctx, jointree.PathDetector, jt, arcs, "join tree", rng, 200)
        if arcs:
            # all pairs of one part, however small a share of the tree it is
            part = sorted(reached(arcs, gen.pick(rng, arcs)[0]), key=str)
            for a in part[:12]:
                for b in part[-12:]:
                    ctx.check(jointree.PathDetector(jt, a, b).exists(), "path detection in a join tree misses a path", start=a, stop=b, arcs=arcs[:60])
            ctx.ev("tree_parts")
        ctx.ev("tree_queries", ctx.events["queries"] - n)
        judge(ctx, dag.PathDetector, bbn, [(e.i.id, e.j.id) for e in bbn.get_edges()], "network")
        return
    D = pdag.PathDetector if kind == "pdag" else dag.PathDetector
    d = graphs.Driver(kind, graphs.pool_ids(rng, 2, 9, texts=True))
    ctx.note.update(kind=kind, ids=d.ids, history=d.trace)
    rem = gen.pick(rng, [0.02, 0.1])
    gone = False
    for t in range(int(rng.integers(6, 40))):
        d.apply(ctx, d.random_op(rng, rem))
        gone = gone or d.trace[-1][0] == "remove"
        if t % 9 == 8:
            n = ctx.events["queries"]
            judge(ctx, D, d.g, [(a, b) for a, b, x in d.m.edges if x], kind, rng, 90)
            if gone:
                ctx.ev("after_removal", ctx.events["queries"] - n)
    judge(ctx, D, d.g, [(a, b) for a, b, x in d.m.edges if x], kind, rng, 90)
    ctx.sample({"kind": kind, "history": d.trace[:12]})
