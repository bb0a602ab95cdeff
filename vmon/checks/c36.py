"""C36 work follows the size of the tree: steps taken grow as the algorithms promise."""
import copy
import math

import numpy as np

from vmon import exact, gen, session  # noqa: F401
from vmon.checks.c34 import cost

CASES = {"quick": 112, "thorough": 1200}
FLOORS = {"steps_counted": 2000, "growth_judged": 1000, "batches_judged": 200, "histories": 50, "shapes": 6}
RULE = ("families of networks of one shape (chain, tree, star, random tree, caterpillar, ladder, blocks, polytree) doubled in size twice; calls made by each operation "
        "counted and their growth per doubling bounded: linear ones at most 2^1.5, building and reading back at most 2^3.5; evidence on k variables given at once "
        "against one; the same update at the start and at the end of a history; non-trivial = distinct (shape, size, operation)")
ASSUMPTIONS = ["calls of Python and C functions stand for work; constants are free, only growth is judged; width of the networks is bounded"]
LINEAR = 1.5
BUILD = 3.5
CASE_CPU_S = 600


def parents(shape, i, rng):
    if i == 0:
        return []
    if shape == "chain":
        return [i - 1]
    if shape == "tree":
        return [(i - 1) // 2]
    if shape == "star":
        return [0]
    if shape == "random_tree":
        return [int(rng.integers(max(0, i - 12), i))]
    if shape == "caterpillar":
        return [i - 2] if i % 2 == 0 else [i - 1]
    if shape == "ladder":
        return [j for j in (i - 1, i - 2) if j >= 0]
    if shape == "blocks":
        return [i - 1 - int(k) for k in range(min(i % 3, i))] if i % 3 else [i - 3]
    if shape == "polytree":
        return [i - 2, i - 1] if i % 2 == 0 else []
    return []


SHAPES = ["chain", "tree", "star", "random_tree", "caterpillar", "ladder", "blocks", "polytree"]


def network(shape, n, seed):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    rng = np.random.default_rng([seed, n])
    b = Bbn()
    ns, E = [], []
    for i in range(n):
        pa = parents(shape, i, rng)
        rows = rng.dirichlet([2.0, 2.0], 2 ** len(pa))
        ns.append(BbnNode(Variable(i, "x%d" % i, ["t", "f"]), [float(x) for x in rows.flatten()]))
        E += [(j, i) for j in pa]
    for x in ns:
        b.add_node(x)
    for a, c in E:
        b.add_edge(Edge(ns[a], ns[c], EdgeType.DIRECTED))
    return b


class Meter(object):
    def __init__(self, ctx):
        self.ctx, self.steps, self.box = ctx, {}, {}

    def __call__(self, name, f):
        box = []
        self.steps[name] = cost(lambda: box.append(f()))
        self.ctx.ev("steps_counted")
        return box[0]


def obs(jt, *pairs):
    from pybbn.graph.jointree import EvidenceBuilder
    return [EvidenceBuilder().with_node(jt.get_bbn_node(i)).with_evidence(v, 1.0).build() for i, v in pairs]


def measure(ctx, shape, n, seed):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    rng = np.random.default_rng([seed, n, 1])
    m = Meter(ctx)
    b = network(shape, n, seed)
    jt = m("apply*", lambda: InferenceController.apply(b))
    k = min(n, 10)
    ids = [int(x) for x in rng.choice(n, size=k, replace=False)]
    m("observe", lambda: jt.update_evidences(obs(jt, (ids[0], "t"))))
    m("change", lambda: jt.update_evidences(obs(jt, (ids[0], "f"))))
    m("retract", lambda: jt.unobserve_all())
    m("toggle", lambda: jt.set_observation(obs(jt, (ids[0], "f"))[0]))
    m("untoggle", lambda: jt.set_observation(obs(jt, (ids[0], "f"))[0]))
    m("batch", lambda: jt.update_evidences(obs(jt, *[(i, "t") for i in ids])))
    m("unbatch", lambda: jt.unobserve([jt.get_bbn_node(i) for i in ids]))
    # batches on every variable, the propagation left aside
    everything = [obs(jt, *[(i, v) for i in range(n)]) for v in "tf"]
    nodes = jt.get_bbn_nodes()
    listener, jt.listener = jt.listener, None
    m("observe all", lambda: jt.update_evidences(everything[0]))
    m("change all", lambda: jt.update_evidences(everything[1]))
    m("unobserve list", lambda: jt.unobserve(nodes))
    jt.update_evidences(everything[0])
    m("unobserve all", lambda: jt.unobserve_all())
    m("kinds of change", lambda: [e.compare(jt.evidences[e.node.id]) for e in everything[0]])
    m("nodes", lambda: jt.get_bbn_nodes())
    m("nodes and parents", lambda: list(jt.get_bbn_node_and_parents()))
    m("cliques and separators", lambda: (jt.get_cliques(), jt.get_sep_sets(), jt.get_nodes(), jt.get_edges()))
    m("text", lambda: str(jt))
    m("text of the network", lambda: str(b))
    m("families in cliques*", lambda: [jt.find_cliques_with_node_and_parents(i) for i in range(n)])
    jt.listener = listener
    jt.unobserve_all()
    m("query", jt.get_posteriors)
    m("copy", lambda: copy.deepcopy(jt))
    m("copy network", lambda: copy.deepcopy(b))
    m("reapply", lambda: InferenceController.reapply(jt, {0: [0.5, 0.5]}))
    d = m("tree to dictionary", lambda: JoinTree.to_dict(jt, b))
    m("tree from dictionary*", lambda: InferenceController.apply_from_serde(JoinTree.from_dict(d)))
    d = m("network to dictionary", lambda: Bbn.to_dict(b))
    m("network from dictionary*", lambda: Bbn.from_dict(d))
    s = m("sampler*", lambda: LogicSampler(b))
    m("samples", lambda: s.get_samples(n_samples=5, seed=3))
    # one update of k variables is one propagation, not k
    one = max(m.steps["observe"], m.steps["change"])
    ctx.check(m.steps["batch"] <= 2.5 * one + 400 * k, "evidence on many variables at once costs as much as giving it one by one", variables=k, batch=m.steps["batch"], single=one)
    ctx.check(m.steps["unbatch"] <= 2.5 * one + 400 * k, "retracting many variables at once costs as much as one by one", variables=k, batch=m.steps["unbatch"], single=one)
    ctx.ev("batches_judged", 2)
    # the same update again, much later
    for j in range(12):
        jt.update_evidences(obs(jt, *[(i, "tf"[(i + j) % 2]) for i in ids]))
    jt.unobserve_all()
    again = cost(lambda: jt.update_evidences(obs(jt, (ids[0], "t"))))
    ctx.check(again <= 1.1 * m.steps["observe"] + 50, "the same update takes more steps later in a history", before=m.steps["observe"], after=again)
    ctx.ev("histories")
    return m.steps


def case(ctx, rng, idx):
    shape = SHAPES[idx % len(SHAPES)]
    n = int(rng.integers(14, 24)) if ctx.tier == "quick" else int(rng.integers(14, 40))
    seed = int(rng.integers(2 ** 31))
    ctx.note.update(shape=shape, n=n, seed=seed)
    prev = first = None
    for size in ([n, 2 * n, 4 * n] if shape != "star" or ctx.tier != "quick" else [n, 2 * n]):
        got = measure(ctx, shape, size, seed)
        if prev is not None:
            for k in got:
                e = math.log2(got[k] / prev[k])
                ctx.check(e <= (BUILD if k.endswith("*") else LINEAR), "steps grow faster than promised when the network doubles: " + k.rstrip("*"), shape=shape, size=size,
                          before=prev[k], after=got[k], exponent=e)
                ctx.ev("growth_judged")
                ctx.nontrivial((shape, seed, size, k))
        prev = got
    ctx.ev("evaluations")
    ctx.ev("shape_" + shape)
    if ctx.events["shape_" + shape] == 1:
        ctx.ev("shapes")
    ctx.sample({"shape": shape, "n": n, "steps": prev})
