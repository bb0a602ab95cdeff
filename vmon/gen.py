"""Hostile workload generation: network specifications independent of py-bbn objects."""
import numpy as np


class Spec(object):
    """A discrete network: plain data, the oracle's input and the source of py-bbn objects.

    order   : node ids in insertion order
    names   : id -> name (unique);  values : id -> list of values
    parents : id -> parent ids, in the order the CPT is laid out (last varies fastest)
    cpt     : id -> array of shape (|pa1|, ..., |pak|, |self|)
    edges   : (pa, ch) in insertion order, consistent with parents
    """

    def __init__(self, order, names, values, parents, cpt, edges, tag=""):
        self.order, self.names, self.values = list(order), dict(names), {k: list(v) for k, v in values.items()}
        self.parents = {k: list(v) for k, v in parents.items()}
        self.cpt = {k: np.array(v, dtype=float) for k, v in cpt.items()}
        self.edges = list(edges)
        self.tag = tag

    def card(self, i):
        return len(self.values[i])

    def flat(self, i):
        return [float(x) for x in self.cpt[i].reshape(-1)]

    def children(self, i):
        return [c for p, c in self.edges if p == i]

    def components(self):
        adj = {i: set() for i in self.order}
        for p, c in self.edges:
            adj[p].add(c)
            adj[c].add(p)
        seen, out = set(), []
        for i in self.order:
            if i in seen:
                continue
            stack, comp = [i], []
            seen.add(i)
            while stack:
                a = stack.pop()
                comp.append(a)
                for b in sorted(adj[a]):
                    if b not in seen:
                        seen.add(b)
                        stack.append(b)
            out.append(sorted(comp, key=self.order.index))
        return out

    def topo(self):
        left = {i: set(self.parents[i]) for i in self.order}
        out = []
        while left:
            i = next(k for k in left if not left[k])
            del left[i]
            out.append(i)
            for s in left.values():
                s.discard(i)
        return out

    def copy(self):
        return Spec(self.order, self.names, self.values, self.parents, {k: v.copy() for k, v in self.cpt.items()}, self.edges, self.tag)

    def key(self):
        return (tuple(self.order), tuple(sorted(self.names.items())), tuple((k, tuple(map(repr, v))) for k, v in sorted(self.values.items())),
                tuple(self.edges), tuple(self.cpt[i].tobytes() for i in self.order))

    def shape_key(self):
        return (tuple(self.order), tuple(self.edges), tuple(self.card(i) for i in self.order))

    def describe(self):
        return {"tag": self.tag, "nodes": [[i, self.names[i], self.values[i], self.parents[i], [float("%.6g" % x) for x in self.flat(i)[:40]]] for i in self.order[:14]],
                "edges": self.edges[:40], "n": len(self.order)}


# ---------------------------------------------------------------- structure

def _dag_edges(rng, n, shape):
    """Edges over 0..n-1 with i < j meaning i may be an ancestor of j."""
    E = set()
    if shape == "random":
        p = rng.choice([0.15, 0.3, 0.5])
        maxpa = int(rng.choice([2, 3, 4]))
        for j in range(n):
            pas = [i for i in range(j) if rng.random() < p]
            rng.shuffle(pas)
            for i in pas[:maxpa]:
                E.add((i, j))
    elif shape == "tree":
        for j in range(1, n):
            E.add((int(rng.integers(0, j)), j))
    elif shape == "polytree":
        for j in range(1, n):
            i = int(rng.integers(0, j))
            E.add((i, j) if rng.random() < 0.5 else (j, i))
        # relabel topologically
        E = _relabel_topo(E, n)
    elif shape == "chain":
        for j in range(1, n):
            E.add((j - 1, j))
    elif shape == "star_out":
        for j in range(1, n):
            E.add((0, j))
    elif shape == "star_in":
        k = min(n - 1, 4)
        for j in range(k):
            E.add((j, n - 1))
        for j in range(k, n - 1):
            E.add((j % k, j))
        E = _relabel_topo(E, n)
    elif shape == "fan_in":
        # one variable with many parents
        k = min(n - 1, 7)
        E = {(j, k) for j in range(k)} | {(int(rng.integers(0, j)), j) for j in range(k + 1, n)}
        if k > 2 and rng.random() < 0.5:
            E.add((0, k - 1))
    elif shape == "loop":
        # one undirected cycle through all nodes with random orientation
        perm = list(rng.permutation(n))
        for a, b in zip(perm, perm[1:] + perm[:1]):
            a, b = int(a), int(b)
            if a != b:
                E.add((min(a, b), max(a, b)))
    elif shape == "dense":
        for j in range(n):
            for i in range(j):
                if rng.random() < 0.8:
                    E.add((i, j))
    elif shape == "forest":
        for j in range(1, n):
            if rng.random() < 0.55:
                E.add((int(rng.integers(0, j)), j))
    elif shape == "few_chains":
        # mostly variables on their own, and one or two chains
        a = 0
        for _ in range(int(rng.integers(1, 3))):
            b = min(n, a + int(rng.integers(4, 8)))
            for j in range(a + 1, b):
                E.add((j - 1, j))
            a = b
    elif shape == "blocks":
        # several multiply connected components and isolated nodes
        a = 0
        while a < n:
            b = min(n, a + int(rng.integers(1, 5)))
            for j in range(a + 1, b):
                E.add((int(rng.integers(a, j)), j))
                if rng.random() < 0.4:
                    E.add((int(rng.integers(a, j)), j))
            a = b
    elif shape == "web":
        # a tree with a few far links: long chordless cycles
        for j in range(1, n):
            E.add((int(rng.integers(max(0, j - 3), j)), j))
        for _ in range(int(rng.integers(1, 2 + n // 4))):
            a, b = sorted(int(x) for x in rng.integers(0, n, 2))
            if a != b and sum(1 for e in E if e[1] == b) < 3:
                E.add((a, b))
    elif shape == "empty":
        pass
    elif shape == "grid":
        w = 2 if n < 9 else 3
        for j in range(n):
            if j % w:
                E.add((j - 1, j))
            if j >= w:
                E.add((j - w, j))
    return sorted(E)


def _relabel_topo(E, n):
    pa = {j: {a for a, b in E if b == j} for j in range(n)}
    order = []
    while len(order) < n:
        for j in range(n):
            if j not in order and pa[j] <= set(order):
                order.append(j)
                break
    pos = {j: k for k, j in enumerate(order)}
    return {(pos[a], pos[b]) for a, b in E}


SHAPES = ["random", "random", "random", "tree", "polytree", "polytree", "chain", "star_out", "star_in", "loop", "loop", "dense", "forest", "blocks", "blocks", "grid", "empty", "fan_in"]

ID_STYLES = ["seq", "seq", "shuffled", "reversed", "borders", "sparse", "big", "negative", "glued"]


def make_ids(rng, n, style):
    if style == "seq":
        return list(range(n))
    if style == "shuffled":
        return [int(x) for x in rng.permutation(n)]
    if style == "reversed":
        return list(range(n))[::-1]
    if style == "borders":
        pool = [1, 2, 9, 10, 11, 12, 19, 20, 21, 99, 100, 101, 110, 111, 112, 121, 199, 200, 211, 1000, 1001, 1011]
        while len(pool) < n:
            pool.append(pool[-1] + 7)
        return [int(x) for x in rng.choice(pool, size=n, replace=False)]
    if style == "glued":
        # ids whose digits written one after the other can be split in several ways
        k = 3
        while 2 ** (k + 1) - 2 < 1.5 * n:
            k += 1
        pool = [int("".join("12"[(m >> j) & 1] for j in range(w))) for w in range(1, k + 1) for m in range(2 ** w)]
        return [int(x) for x in rng.choice(pool, size=n, replace=False)]
    if style == "negative":
        return [int(x) - 11 for x in rng.choice(max(23, 2 * n), size=n, replace=False)]
    if style == "sparse":
        return [int(x) for x in rng.choice(10 * n + 50, size=n, replace=False)]
    return [int(10 ** 6 + x) for x in rng.choice(10 ** 6, size=n, replace=False)]


NAME_STYLES = ["n", "letters", "digits", "prefix", "words", "words_safe", "unicode", "weird", "punct", "literals"]
SAFE_NAME_STYLES = ["n", "letters", "prefix", "words_safe"]


def make_names(rng, ids, style):
    n = len(ids)
    if style == "n":
        out = ["n%d" % i for i in ids]
    elif style == "letters":
        out = [chr(97 + k % 26) + (str(k // 26) if k >= 26 else "") for k in range(n)]
        rng.shuffle(out)
    elif style == "digits":
        # numeric strings that are other nodes' ids
        p = list(rng.permutation(ids))
        out = [str(int(x)) for x in p]
    elif style == "prefix":
        out = ["a" * (k + 1) if k < 4 else "a1" + "1" * k for k in range(n)]
        rng.shuffle(out)
    elif style == "words_safe":
        base = ["on", "off", "Node", "node", "NODE", "states", "parents", "probs", "x_1", "x_10", "T", "F", "directed", "undirected", "n", "N"]
        out = base[:n] + ["w%d" % k for k in range(max(0, n - len(base)))]
        rng.shuffle(out)
    elif style == "words":
        base = ["on", "off", "Node", "node", "low rate", "a b", "a  b", "x=1", "x-y", "x--y", "None", "nan", "id", "true", "[0]", "(a)"]
        out = base[:n] + ["w%d" % k for k in range(max(0, n - len(base)))]
        rng.shuffle(out)
    elif style == "unicode":
        base = ["é", "e", "ß", "日本", "日", "π", "Π", "ñ", "n", "𝛼", "a", "ü", "u", "ø", "o", "Ж"]
        out = base[:n] + ["ω%d" % k for k in range(max(0, n - len(base)))]
        rng.shuffle(out)
    elif style == "literals":
        base = LITERALS
        out = base[:n] + ["1e%d" % k for k in range(max(0, n - len(base)))]
        rng.shuffle(out)
    elif style == "punct":
        base = ["a,b", "a|b", "", " ", " a", "a ", "a\nb", "0=t", "a->b", "a--b", "\t", ",", "|", "a,b,|,0.5,0.5", "0,1,directed", "-"]
        out = base[:n] + ["w,%d" % k for k in range(max(0, n - len(base)))]
        rng.shuffle(out)
    else:
        base = ["'", '"', "it's", 'say "x"', "{x}", "%s", "\\", "a/b", "<b>", "&", "#1", ";", "a:b", "?", "~", "*"]
        out = base[:n] + ["w*%d" % k for k in range(max(0, n - len(base)))]
        rng.shuffle(out)
    return {i: str(s) for i, s in zip(ids, out)}


VALUE_STYLES = ["tf", "onoff", "digits", "prefix", "shared", "mixed", "unicode", "int", "number", "bool", "weird", "words", "punct", "literals"]
SAFE_VALUE_STYLES = ["tf", "onoff", "digits", "prefix", "shared"]


# words that data formats and languages take for something else
LITERALS = ["NaN", "Infinity", "null", "true", "None", "-0", "1e-5", "0x1F", "1_0", "False", "-Infinity", "inf", "0.10", "+1", "no", "2020-01-01", "undefined"]


def confuse(rng, spec):
    """Values that read alike, alone or joined with the ids of other variables."""
    how = int(rng.integers(3))
    for i in spec.order:
        k = spec.card(i)
        near = [j for j in spec.order if j != i] or [0]
        if how == 0:
            pool = [1, "1", "1.0", 1.5, "1.5", None, "None", -1, "-1"]
        else:
            pool = ["x"]
            while len(pool) < k + 3:
                j = pick(rng, near)
                new = gen_join(pick(rng, pool), j, "x", how)
                if new not in pool:
                    pool.append(new)
        pool = pool + ["s%d" % j for j in range(k)]
        spec.values[i] = list(shuffled_first(rng, pool, k))
    return spec


def gen_join(a, j, b, how):
    return "%s,%d=%s" % (a, j, b) if how == 1 else "%s|%d=%s" % (a, j, b)


def shuffled_first(rng, pool, k):
    head = pool[:k]
    return [head[j] for j in rng.permutation(k)]


def make_values(rng, i, k, style, name=""):
    if style == "tf":
        v = ["t", "f", "u", "w", "x", "y", "z"][:k]
    elif style == "onoff":
        v = ["on", "off", "dim", "auto", "none", "null", "err"][:k]
    elif style == "digits":
        v = [str(j) for j in range(k)]
    elif style == "prefix":
        v = ["a", "ab", "abc", "b", "ba", "aa", "c"][:k]
    elif style == "shared":
        v = ["v%d" % j for j in range(k)]
    elif style == "mixed":
        v = ["true", "True", "TRUE", "1", "1.0", "01", "one"][:k]
    elif style == "unicode":
        v = ["é", "è", "日", "本", "ß", "ss", "Ω"][:k]
    elif style == "int":
        return list(range(k))
    elif style == "number":     # numbers of any kind, in any order
        pool = [10, 9, -1, 0, 2.5, 100, 3, 1e-3, 7, 11, -2.5, 8]
        v = pool[:k] + list(range(1000, 1000 + max(0, k - len(pool))))
        return [v[j] for j in rng.permutation(k)]
    elif style == "bool":
        v = [True, False]
        rng.shuffle(v)
        return [bool(x) for x in v[:k]] + list(range(2, k))
    elif style == "words":
        v = ["directed", "undirected", "node", "states", "NATURE", "TRUE", "parents"][:k]
    elif style == "literals":
        v = [LITERALS[j] for j in rng.permutation(len(LITERALS))][:k]
    elif style == "punct":
        v = ["a,b", "", " ", "a|b", "a\nb", "t,1=f", "a "][:k]
    else:
        v = ["a b", "it's", 'x"y', "{v}", "%d", "a=b", "-"][:k]
    v = list(v)
    v += ["s%d" % j for j in range(len(v), k)]
    if rng.random() < 0.6:
        rng.shuffle(v)
    return [str(x) for x in v]


def make_row(rng, k, style):
    if style == "dirichlet":
        r = rng.dirichlet(np.ones(k))
    elif style == "skew":
        r = rng.dirichlet(np.full(k, 0.3)) + 1e-6
    elif style == "positive":
        r = rng.dirichlet(np.full(k, 2.0)) + 0.05
    elif style == "uniform":
        r = np.ones(k)
    elif style == "det":
        r = np.zeros(k)
        r[int(rng.integers(k))] = 1.0
    elif style == "zeros":
        r = rng.dirichlet(np.ones(k))
        if k > 1:
            z = rng.choice(k, size=int(rng.integers(1, k)), replace=False)
            r[z] = 0.0
    elif style == "tiny":
        r = rng.dirichlet(np.ones(k))
        r[int(rng.integers(k))] = 1e-9
    elif style == "decimal":
        r = np.array([int(x) for x in rng.integers(1, 20, size=k)], dtype=float)
        r = np.round(r / r.sum(), 2)
        r[-1] = 1.0 - r[:-1].sum()
        if r[-1] < 0:
            r = np.ones(k) / k
    else:
        raise ValueError(style)
    return r / r.sum()


ROW_STYLES = ["dirichlet", "skew", "uniform", "det", "zeros", "tiny", "decimal"]
CPT_MODES = ["dirichlet", "skew", "decimal", "mixed", "mixed", "zeros", "same", "detish"]


def make_cpt(rng, shape, mode):
    rows = int(np.prod(shape[:-1])) if len(shape) > 1 else 1
    k = shape[-1]
    if mode == "same":  # identical rows: the parents do not matter
        r = make_row(rng, k, "dirichlet")
        out = np.array([r] * rows)
    elif mode == "mixed":
        out = np.array([make_row(rng, k, ROW_STYLES[int(rng.integers(len(ROW_STYLES)))]) for _ in range(rows)])
    elif mode == "detish":
        out = np.array([make_row(rng, k, "det" if rng.random() < 0.6 else "dirichlet") for _ in range(rows)])
    else:
        out = np.array([make_row(rng, k, mode) for _ in range(rows)])
    return out.reshape(shape)


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def _splits(text, low=0):
    """All ways to read text as increasing numbers."""
    out = [[int(text)]] if text[0] != "0" and int(text) > low else []
    for k in range(1, len(text)):
        a = int(text[:k])
        if text[0] != "0" and text[k] != "0" and a > low:
            out += [[a] + r for r in _splits(text[k:], a)]
    return out


def _colliding(rng, n):
    """Families whose ids, written one after the other, are the same text."""
    for _ in range(40):
        text = "".join(str(int(x)) for x in np.sort(rng.integers(1, 6, size=int(rng.integers(3, 8)))))
        sp = [s for s in _splits(text) if len(s) >= 2]
        if len(sp) < 2:
            continue
        a, b = (sp[int(k)] for k in rng.choice(len(sp), size=2, replace=False))
        ids = sorted(set(a) | set(b))
        if len(ids) > n:
            continue
        edges = {(ids.index(x), ids.index(s[-1])) for s in (a, b) for x in s[:-1]}
        for k in range(1000, 1000 + n - len(ids)):
            edges.add((int(rng.integers(len(ids))), len(ids)))
            ids.append(k)
        return ids, sorted(edges)
    return None, None


def make_spec(rng, n=None, shape=None, max_joint=4096, max_family=256, id_style=None, name_style=None, value_style=None,
              cpt_mode=None, max_card=4, sorted_parents=False, edges=None, min_n=1, max_n=9):
    """A random network. Bounded so that dense oracles (per component) and py-bbn are both fast."""
    if n is None:
        n = int(rng.integers(min_n, max_n + 1))
    shape = shape or pick(rng, SHAPES)
    if shape == "dense":
        n = min(n, 6)
    if shape == "empty":
        n = min(n, 4)
    if shape == "grid":
        n = min(n, 9)
    id_style = id_style or pick(rng, ID_STYLES)
    ids = None
    if edges is None and id_style == "glued" and n >= 5 and rng.random() < 0.3:
        ids, edges = _colliding(rng, n)
    if edges is None:
        edges = _dag_edges(rng, n, shape) if n > 1 else []
    if ids is None:
        ids = make_ids(rng, n, id_style)
    pos = list(range(n))
    # positions are topological; ids are assigned to positions at random
    lab = {k: ids[k] for k in pos}
    E = [(lab[a], lab[b]) for a, b in edges]
    # cardinalities under a budget per component
    style = value_style or pick(rng, VALUE_STYLES)
    card = {i: 2 for i in ids}
    for i in ids:
        if rng.random() < 0.45:
            card[i] = int(rng.integers(2, max_card + 1))
        if rng.random() < 0.03:
            card[i] = 7 if max_card >= 4 else max_card
        if rng.random() < 0.02:
            card[i] = 1
    if max_card >= 4 and rng.random() < 0.04:    # one variable with many values
        card[pick(rng, ids)] = int(rng.integers(8, 28))
    order = list(ids)
    tmp = Spec(order, {}, {i: [0] * card[i] for i in ids}, {i: [] for i in ids}, {}, E)
    for comp in tmp.components():
        while np.prod([float(card[i]) for i in comp]) > max_joint:
            c = max(comp, key=lambda i: card[i])
            if card[c] <= 2:
                break
            card[c] -= 1
    pa = {i: [a for a, b in E if b == i] for i in ids}
    for i in ids:
        while np.prod([float(card[j]) for j in pa[i] + [i]]) > max_family:
            c = max(pa[i] + [i], key=lambda j: card[j])
            if card[c] <= 2:
                break
            card[c] -= 1
    values = {}
    for i in ids:
        st = style if rng.random() < 0.8 else pick(rng, [style, "tf", "digits"])
        values[i] = make_values(rng, i, card[i], st)
    names = make_names(rng, ids, name_style or pick(rng, NAME_STYLES))
    # parents in arbitrary order; edges interleaved across children
    E = [E[k] for k in rng.permutation(len(E))]
    if sorted_parents:
        E.sort()
    parents = {i: [a for a, b in E if b == i] for i in ids}
    mode = cpt_mode or pick(rng, CPT_MODES)
    cpt = {i: make_cpt(rng, [card[j] for j in parents[i]] + [card[i]], mode) for i in ids}
    if rng.random() < 0.5:
        rng.shuffle(order)
        order = [int(i) for i in order]
    return Spec(order, names, values, parents, cpt, E, tag="%s/%s/%s" % (shape, style, mode))


def make_big(rng, name_style=None, value_style=None, sorted_parents=False, kind=None):
    """A network too large for inference here, for what only reads or writes it: a table of thousands of probabilities,
    a variable of hundreds of values, or many variables."""
    kind = kind or pick(rng, ["table", "values", "variables"])
    cards, edges = [], []
    if kind == "table":
        size = 1
        goal = int(rng.integers(4200, 20000))
        while size < goal:
            cards.append(int(rng.integers(2, 6)))
            size *= cards[-1]
        edges = [(k, len(cards) - 1) for k in range(len(cards) - 1)]
        cards += [2, 3]
        edges.append((len(cards) - 3, len(cards) - 1))
    elif kind == "values":
        cards = [int(rng.integers(80, 400)), int(rng.integers(2, 12)), int(rng.integers(80, 200))]
        edges = [(0, 1), (1, 2)]
    else:
        cards = [int(rng.integers(2, 4)) for _ in range(int(rng.integers(40, 160)))]
        edges = [(j, k) for k in range(1, len(cards)) for j in {int(x) for x in rng.integers(max(0, k - 20), k, size=int(rng.integers(1, 3)))}]
    n = len(cards)
    ids = make_ids(rng, n, pick(rng, ID_STYLES))
    E = [(ids[a], ids[b]) for a, b in edges]
    E = [E[k] for k in rng.permutation(len(E))]
    if sorted_parents:
        E.sort()
    card = dict(zip(ids, cards))
    style = value_style or pick(rng, VALUE_STYLES)
    parents = {i: [a for a, b in E if b == i] for i in ids}
    cpt = {i: rng.dirichlet(np.ones(card[i]), size=[card[j] for j in parents[i]]) if parents[i] else rng.dirichlet(np.ones(card[i])) for i in ids}
    order = [int(i) for i in rng.permutation(ids)]
    return Spec(order, make_names(rng, ids, name_style or pick(rng, NAME_STYLES)), {i: make_values(rng, i, card[i], style) for i in ids}, parents, cpt, E,
                tag="big %s/%s" % (kind, style))


# ---------------------------------------------------------------- py-bbn objects

def build(spec, rng=None, probs="list", interleave=False):
    """Builds the py-bbn network through the public API. Returns (bbn, {id: BbnNode})."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable

    def P(i):
        f = spec.flat(i)
        st = probs if probs != "any" else pick(rng, ["list", "array", "tuple", "list", "ints"])
        if st == "ints":        # zeros and ones written as integers
            g = [int(x) if x in (0.0, 1.0) else x for x in f]
            return np.array(g) if all(type(x) is int for x in g) and rng is not None and rng.random() < 0.5 else g
        if st == "array":
            return np.array(f)
        if st == "tuple":
            return tuple(f)
        return f

    nodes = {i: BbnNode(Variable(i, spec.names[i], list(spec.values[i])), P(i)) for i in spec.order}
    bbn = Bbn()
    if interleave and rng is not None:
        # nodes keep their order but edges are offered as soon as possible in a mixed stream
        k = 0
        for i in spec.order:
            bbn.add_node(nodes[i])
            while k < len(spec.edges) and all(x in bbn.nodes for x in spec.edges[k]) and rng.random() < 0.7:
                a, b = spec.edges[k]
                bbn.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
                k += 1
        for a, b in spec.edges[k:]:
            bbn.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    else:
        for i in spec.order:
            bbn.add_node(nodes[i])
        for a, b in spec.edges:
            bbn.add_edge(Edge(nodes[a], nodes[b], EdgeType.DIRECTED))
    return bbn, nodes


def spec_of(bbn):
    """Reads a network back into plain data (via public attributes)."""
    order = [n.id for n in bbn.get_nodes()]
    nodes = {n.id: n for n in bbn.get_nodes()}
    values = {i: list(nodes[i].variable.values) for i in order}
    parents = {i: list(bbn.parents.get(i, [])) for i in order}
    cpt = {i: np.array([float(x) for x in nodes[i].probs]).reshape([len(values[j]) for j in parents[i]] + [len(values[i])]) for i in order}
    edges = [(e.i.id, e.j.id) for e in bbn.get_edges()]
    return Spec(order, {i: nodes[i].variable.name for i in order}, values, parents, cpt, edges)


# ---------------------------------------------------------------- evidence

def random_likelihood(rng, k, kind=None):
    kind = kind or pick(rng, ["hard", "hard", "finding", "soft", "soft01", "softone", "softsingle", "tiny"])
    if kind == "hard":
        v = np.zeros(k)
        v[int(rng.integers(k))] = 1.0
    elif kind == "finding":
        v = (rng.random(k) < 0.6).astype(float)
        if v.sum() == 0:
            v[int(rng.integers(k))] = 1.0
    elif kind == "soft":
        v = rng.random(k)
    elif kind == "soft01":
        v = rng.random(k)
        v[int(rng.integers(k))] = 0.0
    elif kind == "softsingle":      # rules out all values but one, without being an observation
        v = np.zeros(k)
        v[int(rng.integers(k))] = float(rng.uniform(0.05, 0.95))
    elif kind == "softone":
        v = rng.random(k)
        v[int(rng.integers(k))] = 1.0
    else:
        v = rng.random(k)
        v[int(rng.integers(k))] = 1e-6
    return kind, v
