"""C30 moralisation and triangulation are correct."""
from itertools import combinations

from vmon import gen, graphs

CASES = {"quick": 30000, "thorough": 60000}
FLOORS = {"moralised": 3000, "triangulated": 1500, "already_chordal": 200, "filled": 600, "cliques_judged": 8000, "large": 200}
RULE = ("random directed acyclic structures of 1-30 variables (all shapes, ids and 1-7 values), as Dag or Bbn, also after node removals; moral graph compared with its "
        "definition, filled graph by simplicial elimination, cliques with the maximal cliques of the filled graph; non-trivial = distinct structures with an edge")


def adjacency(edges, nodes):
    adj = {n: set() for n in nodes}
    for e in edges:
        a, b = tuple(e)
        adj[a].add(b)
        adj[b].add(a)
    return adj


def chordal(adj):
    """Repeatedly removes a vertex whose neighbours are pairwise adjacent."""
    adj = {k: set(v) for k, v in adj.items()}
    while adj:
        for v in adj:
            ns = adj[v]
            if all(b in adj[a] for a, b in combinations(ns, 2)):
                break
        else:
            return False
        for a in adj[v]:
            adj[a].discard(v)
        del adj[v]
    return True


def undirected(g):
    return {frozenset((e.i.id, e.j.id)) for e in g.get_edges()}


def case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn, Dag
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.pptc.moralizer import Moralizer
    from pybbn.pptc.triangulator import Triangulator
    large = idx % 6 == 0
    n = int(rng.integers(10, 31)) if large else int(rng.integers(1, 11))
    shape = gen.pick(rng, gen.SHAPES + ["loop", "grid", "random", "web", "web"])
    if shape == "dense":
        n = min(n, 7)
    E = gen._dag_edges(rng, n, shape) if n > 1 else []
    ids = gen.make_ids(rng, n, gen.pick(rng, gen.ID_STYLES))
    card = {i: int(rng.integers(1, 8)) if rng.random() < 0.4 else 2 for i in ids}
    edges = [(ids[a], ids[b]) for a, b in E]
    edges = [edges[k] for k in rng.permutation(len(edges))]
    g = (Bbn if rng.random() < 0.6 else Dag)()
    node = {i: graphs.new_node(i, ["v%d" % k for k in range(card[i])]) for i in ids}
    for k in rng.permutation(n):
        g.add_node(node[ids[k]])
    for a, b in edges:
        g.add_edge(Edge(node[a], node[b], EdgeType.DIRECTED))
    if rng.random() < 0.2 and n > 2:
        i = gen.pick(rng, ids)
        g.remove_node(i)
        ids = [x for x in ids if x != i]
        edges = [e for e in edges if i not in e]
        ctx.ev("after_removal")
    ctx.note.update(ids=ids, edges=edges, card=card)
    before = str(g)
    want = {frozenset(e) for e in edges}
    for c in ids:
        want |= {frozenset(p) for p in combinations([a for a, b in edges if b == c], 2)}
    u = Moralizer.moralize(g)
    ctx.ev("moralised")
    ctx.eq(str(g), before, "moralising changed the network")
    ctx.eq(sorted(x.id for x in u.get_nodes()), sorted(x.id for x in g.get_nodes()), "moral graph is over other variables")
    ctx.check(all(e.type == EdgeType.UNDIRECTED for e in u.get_edges()), "moral graph has a directed edge")
    ctx.eq(undirected(u), want, "moral graph does not link exactly variables with parents and co-parents")
    ctx.eq(len(u.get_edges()), len(want), "moral graph has an edge twice")
    for i in ids:
        ctx.eq(set(u.get_neighbors(i)), {j for j in ids if frozenset((i, j)) in want}, "neighbours in the moral graph are wrong", id=i)
    ctx.eq(undirected(Moralizer.moralize(g)), want, "moralising again gives another graph")
    ctx.ev("moralised")
    # triangulation, in place
    was_chordal = chordal(adjacency(want, ids))
    cliques = Triangulator.triangulate(u)
    ctx.ev("triangulated")
    filled = undirected(u)
    ctx.eq({x.id for x in u.get_nodes()}, set(ids), "triangulated graph is over other variables")
    ctx.check(want <= filled, "triangulation lost an edge", lost=[sorted(e) for e in want - filled][:5])
    ctx.check(all(len(e) == 2 and set(e) <= set(ids) for e in filled), "triangulation added an edge that is not between two variables")
    ctx.check(chordal(adjacency(filled, ids)), "triangulated graph is not chordal", added=[sorted(e) for e in filled - want][:10])
    if was_chordal:
        ctx.eq(filled, want, "a graph that is already chordal got extra edges")
        ctx.ev("already_chordal")
    else:
        ctx.ev("filled")
    sets = [frozenset(x.id for x in c.nodes) for c in cliques]
    ctx.ev("cliques_judged", len(sets))
    for c, s in zip(cliques, sets):
        ctx.eq(len(c.nodes), len(s), "a clique holds a variable twice")
        ctx.eq(set(c.get_node_ids()), set(s), "a clique's ids are not those of its nodes")
        ctx.check(all(frozenset(p) in filled for p in combinations(s, 2)), "a clique is not complete in the triangulated graph", clique=sorted(s))
        ctx.check(all(node[x.id] is x for x in c.nodes), "a clique refers to other variables")
        w = 1
        for i in s:
            w *= card[i]
        ctx.eq(c.get_weight(), w, "weight of a clique is not the product of its variables' sizes")
    for a, b in combinations(sets, 2):
        ctx.check(not (a <= b or b <= a), "a clique is contained in another or occurs twice", cliques=(sorted(a), sorted(b)))
    ctx.eq(set().union(*sets) if sets else set(), set(ids), "the cliques do not cover the variables")
    ctx.eq({frozenset(p) for s in sets for p in combinations(s, 2)}, filled, "the cliques do not cover the edges")
    adj = adjacency(filled, ids)
    for s in sets:
        common = set.intersection(*[adj[i] for i in s]) if s else set()
        ctx.check(not common, "a clique is not maximal", clique=sorted(s), more=sorted(common))
    ctx.eq(str(g), before, "triangulating changed the network")
    if large:
        ctx.ev("large")
    if edges:
        ctx.nontrivial((tuple(sorted(edges)), tuple(sorted(card.items()))))
    ctx.sample({"edges": edges[:30], "cliques": [sorted(s) for s in sets][:10]})
