"""Elementary set model of the four graph kinds, an edit-history workload, and a driver."""
from vmon.gen import make_ids, pick, ID_STYLES

KINDS = ["ug", "dag", "bbn", "pdag"]


class Model(object):
    def __init__(self, kind):
        self.kind = kind
        self.nodes = []
        self.edges = []     # (a, b, directed)
        self.obj = {}       # id -> the node object that was offered first

    # -- elementary views
    def adj(self, i):
        return {b if a == i else a for a, b, _ in self.edges if i in (a, b)}

    def parents(self, i):
        return [a for a, b, d in self.edges if d and b == i]

    def children(self, i):
        return [b for a, b, d in self.edges if d and a == i]

    def reaches(self, a, b):
        seen, stack = {a}, [a]
        while stack:
            x = stack.pop()
            if x == b:
                return True
            for c in self.children(x):
                if c not in seen:
                    seen.add(c)
                    stack.append(c)
        return False

    def verdict(self, a, b, directed):
        """True: must be accepted, False: must be ignored, None: either."""
        if a == b:
            return False
        if self.kind == "ug":
            return None if directed else b not in self.adj(a)
        if self.kind in ("dag", "bbn"):
            return directed and b not in self.adj(a) and not self.reaches(b, a)
        if b in self.adj(a):
            return False
        if directed:
            return not self.reaches(b, a)
        return True if not (self.reaches(a, b) or self.reaches(b, a)) else None

    def add_node(self, i, obj=None):
        if i not in self.nodes:
            self.nodes.append(i)
            self.obj[i] = obj

    def remove(self, i):
        if i in self.nodes:
            self.nodes.remove(i)
        self.edges = [e for e in self.edges if i not in e[:2]]

    def state(self):
        return (tuple(self.nodes), tuple(self.edges))


def new_graph(kind):
    from pybbn.graph.dag import Bbn, Dag
    from pybbn.graph.graph import Ug
    from pybbn.graph.pdag import Pdag
    return {"ug": Ug, "dag": Dag, "bbn": Bbn, "pdag": Pdag}[kind]()


def new_node(i, values=("t", "f"), probs=(0.5, 0.5)):
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    return BbnNode(Variable(i, "n%s" % i, list(values)), list(probs))


def edge_set(g):
    """Edges as reported, undirected ones with ends sorted."""
    from pybbn.graph.edge import EdgeType
    out = []
    for e in g.get_edges():
        d = e.type == EdgeType.DIRECTED
        a, b = e.i.id, e.j.id
        out.append((a, b, True) if d else (min(a, b), max(a, b), False))
    return out


def canon(edges):
    return sorted((a, b, True) if d else (min(a, b), max(a, b), False) for a, b, d in edges)


class Driver(object):
    """Applies one operation to the real graph and to the model."""

    def __init__(self, kind, ids):
        self.kind, self.ids = kind, ids
        self.g = new_graph(kind)
        self.m = Model(kind)
        self.pool = {}
        self.made = []
        self.trace = []

    def node(self, i, fresh=False):
        if fresh or i not in self.pool:
            self.pool[i] = new_node(i)
        return self.pool[i]

    def random_op(self, rng, p_remove=0.08):
        r = rng.random()
        if r < 0.06:
            return ("add_node", pick(rng, self.ids), bool(rng.random() < 0.3))
        if r < 0.06 + p_remove and self.m.nodes:
            i = pick(rng, self.m.nodes) if rng.random() < 0.9 else pick(rng, self.ids)
            return ("remove", i)
        r = rng.random()
        if r < 0.08 and self.made:
            return ("again", int(rng.integers(len(self.made))))
        a, b = pick(rng, self.ids), pick(rng, self.ids)
        if r < 0.35 and self.m.edges:      # aim at existing edges and at closing a cycle over a long path
            x, y, _ = pick(rng, self.m.edges)
            if rng.random() < 0.35:
                a, b = pick(rng, [(x, y), (y, x)])
            else:
                end = y
                for _ in range(int(rng.integers(1, 8))):
                    ch = self.m.children(end)
                    if not ch:
                        break
                    end = pick(rng, ch)
                a, b = (end, x)
        if self.kind == "ug":
            d = False
        elif self.kind == "pdag":
            d = bool(rng.random() < 0.6)
        else:
            d = bool(rng.random() < 0.93)
        return ("edge", a, b, d, bool(rng.random() < 0.1))

    def apply(self, ctx, op):
        from pybbn.graph.edge import Edge, EdgeType
        g, m = self.g, self.m
        self.trace.append(op)
        if op[0] == "add_node":
            x = self.node(op[1], op[2])
            g.add_node(x)
            m.add_node(op[1], x)
            ctx.ev("op_add_node")
        elif op[0] == "remove":
            g.remove_node(op[1])
            m.remove(op[1])
            ctx.ev("op_remove_node")
        else:
            if op[0] == "again":
                e, (a, b, d) = self.made[op[1]]
            else:
                _, a, b, d, fresh = op
                e = Edge(self.node(a, fresh), self.node(b, fresh and a != b), EdgeType.DIRECTED if d else EdgeType.UNDIRECTED)
                self.made.append((e, (a, b, d)))
            before = canon(m.edges)
            g.add_edge(e)
            m.add_node(a, e.i)
            m.add_node(b, e.j)
            v = m.verdict(a, b, d)
            got = sorted(edge_set(g))
            added = canon([(a, b, d)])[0]
            if v is None:
                v = got == sorted(before + [added])
                ctx.ev("edges_free_choice")
            if v:
                m.edges.append((a, b, d))
                ctx.ev("edges_accepted")
                ctx.eq(got, canon(m.edges), "an edge that breaks nothing was not added (or changed others)", offered=(a, b, d), history=self.trace[-40:])
            else:
                ctx.ev("edges_ignored")
                ctx.eq(got, before, "an offered edge that must be ignored changed the edges", offered=(a, b, d), history=self.trace[-40:])


def invariants(ctx, g, kind, **detail):
    """Judged from the reported edges alone."""
    edges = edge_set(g)
    pairs = set()
    for a, b, d in edges:
        ctx.check(a != b, "self loop", edge=(a, b), **detail)
        p = frozenset((a, b))
        ctx.check(p not in pairs, "more than one edge between two nodes", edge=(a, b), **detail)
        pairs.add(p)
        if kind in ("dag", "bbn"):
            ctx.check(d, "undirected edge in a directed graph", edge=(a, b), **detail)
    # no directed cycle: repeatedly remove sources
    ch, indeg = {}, {}
    for a, b, d in edges:
        if d:
            ch.setdefault(a, []).append(b)
            indeg[b] = indeg.get(b, 0) + 1
            indeg.setdefault(a, 0)
    ready = [x for x in indeg if indeg[x] == 0]
    n = 0
    while ready:
        x = ready.pop()
        n += 1
        for y in ch.get(x, []):
            indeg[y] -= 1
            if indeg[y] == 0:
                ready.append(y)
    ctx.check(n == len(indeg), "directed cycle", edges=edges[:60], **detail)
    ctx.ev("acyclicity_judged")
    ids = {n.id for n in g.get_nodes()}
    for a, b, d in edges:
        ctx.check(a in ids and b in ids, "edge to a node that is not in the graph", edge=(a, b), **detail)


def views(ctx, g, m, probe, **detail):
    """Every view against the model. probe: ids to ask about, also unknown ones."""
    kind = m.kind
    ctx.eq([n.id for n in g.get_nodes()], m.nodes, "node list differs from the model", **detail)
    ctx.eq(sorted(edge_set(g)), canon(m.edges), "edge list differs from the model", **detail)
    for i in m.nodes:
        ctx.eq(g.get_node(i).id, i, "get_node gives another node", **detail)
        ctx.check(m.obj.get(i) is None or g.get_node(i) is m.obj[i], "a node was replaced by a later one with its id", id=i, **detail)
    for i in probe:
        ctx.eq(set(g.get_neighbors(i)), m.adj(i), "neighbours differ from the model", id=i, **detail)
        if kind in ("dag", "bbn"):
            ctx.eq(sorted(g.get_parents(i)), sorted(m.parents(i)), "parents differ from the model", id=i, **detail)
            ctx.eq(sorted(g.get_children(i)), sorted(m.children(i)), "children differ from the model", id=i, **detail)
        if kind == "bbn":
            ctx.eq(list(g.get_parents_ordered(i)), sorted(m.parents(i)), "ordered parents differ from the model", id=i, **detail)
        if kind == "pdag":
            ctx.eq(sorted(g.get_parents(i)), sorted(m.parents(i)), "parents differ from the model", id=i, **detail)
            ctx.eq(sorted(g.get_out_nodes(i)), sorted(m.adj(i) - set(m.parents(i))), "out nodes differ from the model", id=i, **detail)
        for j in probe:
            if i == j:
                continue
            if kind in ("dag", "bbn"):
                want = (i, j, True) in m.edges
            else:
                want = j in m.adj(i)
            ctx.eq(bool(g.edge_exists(i, j)), want, "edge_exists differs from the model", ids=(i, j), **detail)
            if kind == "pdag":
                ctx.eq(bool(g.directed_edge_exists(i, j)), (i, j, True) in m.edges, "directed_edge_exists differs from the model", ids=(i, j), **detail)
    if kind in ("dag", "bbn"):
        ctx.eq(g.get_i2n(), {i: "n%s" % i for i in m.nodes}, "id to name map differs from the model", **detail)
        ctx.eq(g.get_n2i(), {"n%s" % i: i for i in m.nodes}, "name to id map differs from the model", **detail)
        x, labels = g.to_nx_graph()
        ctx.eq(sorted(x.nodes), sorted(m.nodes), "networkx nodes differ from the model", **detail)
        ctx.eq(sorted(x.edges), sorted((a, b) for a, b, _ in m.edges), "networkx edges differ from the model", **detail)
        ctx.eq(dict(labels), {i: "n%s" % i for i in m.nodes}, "networkx labels differ from the model", **detail)
    if kind == "bbn":
        from pybbn.graph.dag import Bbn
        ctx.eq([(e["pa"], e["ch"]) for e in sorted(Bbn.to_dict(g)["edges"], key=lambda e: e["ch"])],
               [(a, b) for a, b, _ in sorted(m.edges, key=lambda e: e[1])], "recorded parents (and their order) differ from the model", **detail)
    lines = str(g).split("\n")
    ctx.eq(sorted(s for s in lines if s), sorted(["%s|n%s|t,f" % (i, i) for i in m.nodes] + [("%s->%s" if d else "%s--%s") % (a, b) for a, b, d in canon(m.edges)]),
           "string form differs from the model", **detail)
    ctx.ev("views_judged")


def pool_ids(rng, lo=3, hi=9, texts=False):
    n = int(rng.integers(lo, hi + 1))
    if texts and rng.random() < 0.08:
        pool = ["a", "b", "aa", "A", "1", "10", "2", "x y", "é", "n1", "node", "a1", "0", "_", "B", "ab", "Z9", "3"]
        return [pool[k] for k in rng.permutation(len(pool))[:n]]
    return make_ids(rng, n, pick(rng, ID_STYLES))
