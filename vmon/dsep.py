"""Graph oracles for causal queries, on plain parent/child sets."""
from vmon import gen


class G(object):
    def __init__(self, nodes, edges):
        self.nodes, self.edges = list(nodes), list(edges)
        self.ch = {n: set() for n in nodes}
        self.pa = {n: set() for n in nodes}
        for a, b in edges:
            self.ch[a].add(b)
            self.pa[b].add(a)

    def closure(self, xs, nxt):
        seen, stack = set(xs), list(xs)
        while stack:
            for y in nxt[stack.pop()]:
                if y not in seen:
                    seen.add(y)
                    stack.append(y)
        return seen

    def descendants(self, x):
        return self.closure([x], self.ch) - {x}

    def separated(self, x, y, Z):
        """d-separation by the moralised ancestral graph (no paths involved)."""
        A = self.closure([x, y] + list(Z), self.pa)
        adj = {n: set() for n in A}
        for b in A:
            ps = [p for p in self.pa[b] if p in A]
            for i, p in enumerate(ps):
                adj[p].add(b)
                adj[b].add(p)
                for q in ps[i + 1:]:
                    adj[p].add(q)
                    adj[q].add(p)
        seen, stack = {x}, [x]
        while stack:
            for n in adj[stack.pop()]:
                if n not in seen and n not in Z:
                    seen.add(n)
                    stack.append(n)
        return y not in seen

    def paths(self, x, y):
        out = []

        stack = [(x,)]
        while stack:
            p = stack.pop()
            if p[-1] == y:
                out.append(p)
                continue
            for n in sorted(self.ch[p[-1]] | self.pa[p[-1]], key=repr):
                if n not in p:
                    stack.append(p + (n,))
        return out

    def colliders(self, p):
        return [p[k] for k in range(1, len(p) - 1) if p[k] in self.ch[p[k - 1]] and p[k] in self.ch[p[k + 1]]]

    def active(self, p, Z=frozenset()):
        col = set(self.colliders(p))
        for n in p[1:-1]:
            if n in col:
                if not (({n} | self.descendants(n)) & set(Z)):
                    return False
            elif n in Z:
                return False
        return True


def long_edges(rng, n):
    """Few paths, but long ones: a cycle or a path with trees hanging off it, arcs in random directions (mostly along it)."""
    k = n - int(rng.integers(0, n // 3))
    flip = gen.pick(rng, [0.0, 0.05, 0.5])
    E = {(j - 1, j) if rng.random() >= flip else (j, j - 1) for j in range(1, k)}
    for j in range(k, n):
        i = int(rng.integers(0, j))
        E.add((i, j) if rng.random() < 0.7 else (j, i))
    E = sorted(gen._relabel_topo(E, n))
    if rng.random() < 0.6:  # close one or two cycles
        for _ in range(int(rng.integers(1, 3))):
            a, b = sorted(int(v) for v in rng.permutation(n)[:2])
            if (a, b) not in E:
                E.append((a, b))
    return E


def random_graph(rng, max_n=8, long=False):
    """(nx.DiGraph, G): labels are strings or integers, insertion order random."""
    import networkx as nx
    if long:
        n = int(rng.integers(10, 41))
        E = long_edges(rng, n)
    else:
        n = int(rng.integers(2, max_n + 1))
        shape = gen.pick(rng, [s for s in gen.SHAPES if s != "empty"])
        if shape == "dense":
            n = min(n, 6)
        E = gen._dag_edges(rng, n, shape)
    style = gen.pick(rng, ["letters", "ints", "xyz", "words", "mixedcase", "mixed"])
    pool = {"letters": list("abcdefghi"), "ints": [10, 1, 2, 0, 11, 3, 100, 5, 21], "xyz": ["x", "y", "z", "x1", "y1", "z1", "x2", "u", "d"], "words": ["rain", "wet", "sun", "a b", "1", "10", "é", "", "path"], "mixedcase": list("aAbBcCdDe"),
            "mixed": ["x", 0, ("a", 1), frozenset([1, 2]), "1", 1, 2.5, b"q", ("a", "b")]}[style]
    pool = pool + ["q%d" % k if style != "ints" else 1000 + k for k in range(max(0, n - len(pool)))]
    lab = [pool[k] for k in rng.permutation(len(pool))][:n]
    d = nx.DiGraph()
    for k in rng.permutation(n):
        d.add_node(lab[k])
    edges = [(lab[a], lab[b]) for a, b in E]
    for k in rng.permutation(len(edges)):
        d.add_edge(*edges[k])
    return d, G(lab, edges)
