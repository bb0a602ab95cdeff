"""C31 reading never changes anything, and answers are reproducible."""
import copy
import json
import os
import sys
import threading

from vmon import exact, gen, session

CASES = {"quick": 3000, "thorough": 20000}
FLOORS = {"reads": 12000, "answers_judged": 4000, "networks_compared": 12000, "unknown_lookups": 600, "results_spoiled": 300, "thread_reads": 3000, "kinds_of_read": 30}
RULE = ("histories that mix ~35 kinds of reads of tree, network and potentials (each called twice, results compared) with evidence updates; the network is "
        "fingerprinted before and after, every answer is judged offline against the evidence model, returned results are spoiled by the caller; in 1 case of 6 three threads read the tree at once; non-trivial = "
        "distinct networks x read sequences")
ASSUMPTIONS = ["callers may modify returned posterior dictionaries and potentials (they are the caller's own), not the live node, edge or neighbour objects"]


def fp_network(bbn):
    """All that defines a network, bit-exactly, without its own string form."""
    out = []
    for n in bbn.get_nodes():
        v = n.variable
        out.append((n.id, v.id, v.name, tuple(map(repr, v.values)), tuple(float(p).hex() for p in n.probs), n.get_weight()))
    edges = [(e.i.id, e.j.id, str(e.type)) for e in bbn.get_edges()]
    return sorted(out), sorted(edges), sorted((k, tuple(v)) for k, v in bbn.parents.items() if len(v)), sorted((e[0], e[1]) for e in edges if bbn.edge_exists(e[0], e[1]))


def pot(p):
    return [(sorted((k, repr(v)) for k, v in e.entries.items()), float(e.value).hex()) for e in p.entries]


def cl(c):
    return sorted(n.id for n in c.nodes)


TREE_READS = {}
NET_READS = {}


def read(table):
    def deco(f):
        table[f.__name__] = f
        return f
    return deco


@read(TREE_READS)
def posteriors(w):
    return {k: {a: float(b).hex() for a, b in v.items()} for k, v in w.jt.get_posteriors().items()}


@read(TREE_READS)
def potential(w):
    n = w.node()
    return pot(w.jt.get_bbn_potential(n)), str(w.jt.get_bbn_potential(n)), repr(w.jt.get_bbn_potential(n))


@read(TREE_READS)
def potential_dict(w):
    from pybbn.graph.potential import Potential
    ps = [w.jt.get_bbn_potential(n) for n in w.jt.get_bbn_nodes()]
    return Potential.to_dict(ps)


@read(TREE_READS)
def clique_potentials(w):
    return {c.id: pot(w.jt.potentials[c.id]) for c in w.jt.get_cliques()}


@read(TREE_READS)
def bbn_nodes(w):
    return sorted((n.id, n.variable.name) for n in w.jt.get_bbn_nodes())


@read(TREE_READS)
def by_id(w):
    n = w.jt.get_bbn_node(w.i)
    m = w.jt.get_bbn_node_by_name(w.spec.names[w.i])
    w.ctx.eq((n.id, n.variable.name), (m.id, m.variable.name), "lookups by id and by name return different variables", id=w.i)
    w.ctx.eq((n.id, n.variable.name, list(n.variable.values)), (w.i, w.spec.names[w.i], w.spec.values[w.i]), "lookup returns another variable")
    return n.id


@read(TREE_READS)
def unknown(w):
    w.ctx.ev("unknown_lookups")
    alien = max(w.spec.order) + w.k % 3 + 1
    other = [x for x in ("no such variable", str(alien), "", "n%d" % alien, w.spec.names[w.i] + " ", w.spec.names[w.i].swapcase(), w.i, str(w.i), "n%d" % w.i, "x%d" % w.i, w.spec.names[w.i][:-1], None)
             if x not in w.spec.names.values()]
    for x in other:
        w.ctx.check(w.jt.get_bbn_node_by_name(x) is None, "a lookup by an unknown name returns something", name=x)
    for x in (alien, -1 if -1 not in w.spec.names else alien, w.spec.names[w.i], str(w.i), None):
        if x not in w.spec.names:
            w.ctx.check(w.jt.get_bbn_node(x) is None, "a lookup by an unknown id returns something", id=x)
    return len(other)


@read(TREE_READS)
def cliques(w):
    return sorted((c.id, cl(c), c.get_sid(), str(c), c.get_weight(), c.is_marked()) for c in w.jt.get_cliques())


@read(TREE_READS)
def sep_sets(w):
    return sorted((s.id, cl(s), str(s), s.cost, s.mass, s.is_empty) for s in w.jt.get_sep_sets())


@read(TREE_READS)
def edges(w):
    return sorted((str(e), cl(e.i), cl(e.j), cl(e.sep_set), e.key) for e in w.jt.get_edges())


@read(TREE_READS)
def flat_edges(w):
    out = [(e.i.id, e.j.id, str(e)) for e in w.jt.get_flattened_edges()]
    w.ctx.eq(len(out), 2 * len(w.jt.get_edges()), "flattened edges are not two for each separator")
    return sorted(out)


@read(TREE_READS)
def neighbours(w):
    ids = sorted(n.id for n in w.jt.get_nodes())
    return [(i, sorted(w.jt.get_neighbors(i)), [j for j in ids if w.jt.edge_exists(i, j)]) for i in ids]


@read(TREE_READS)
def text(w):
    return str(w.jt)


@read(TREE_READS)
def to_dict(w):
    from pybbn.graph.jointree import JoinTree
    return json.dumps(JoinTree.to_dict(w.jt, w.bbn), sort_keys=True)


@read(TREE_READS)
def from_dict(w):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    d = JoinTree.to_dict(w.jt, w.bbn)
    t = InferenceController.apply_from_serde(JoinTree.from_dict(d))
    return sorted(map(str, t.get_posteriors().items()))


@read(TREE_READS)
def unobserved(w):
    e = w.jt.get_unobserved_evidence(w.node())
    return e.node.id, str(e.type), dict(e.values)


@read(TREE_READS)
def evidence(w):
    n = w.jt.get_bbn_node(w.i)
    return [pot(w.jt.get_evidence(n, v)) for v in n.variable.values]


@read(TREE_READS)
def change_type(w):
    e = session.make_evidence(w.spec, w.jt, None, w.ev)
    e.validate()
    return w.jt.get_change_type([e]).name, dict(e.values)


@read(TREE_READS)
def make_evidence(w):
    e = session.make_evidence(w.spec, w.jt, None, w.ev, "name")
    f = session.make_evidence(w.spec, w.jt, None, w.ev)
    return dict(e.values), dict(f.values), e.type.name, f.type.name


@read(TREE_READS)
def family_cliques(w):
    return sorted(cl(c) for c in w.jt.find_cliques_with_node_and_parents(w.i))


@read(TREE_READS)
def node_and_parents(w):
    got = {n.id: sorted(p.id for p in ps) for n, ps in w.jt.get_bbn_node_and_parents().items()}
    w.ctx.eq(got, {i: sorted(w.spec.parents[i]) for i in w.spec.order}, "variables and parents of a tree are not the network's")
    return sorted(got.items())


@read(TREE_READS)
def copy_tree(w):
    t = copy.deepcopy(w.jt)
    t.unobserve_all()
    return sorted(map(str, t.get_posteriors().items()))


@read(TREE_READS)
def reapply(w):
    from pybbn.pptc.inferencecontroller import InferenceController
    t = InferenceController.reapply(w.jt, {})
    return sorted(map(str, t.get_posteriors().items()))


@read(TREE_READS)
def pass_no_evidence(w):
    w.jt.update_evidences([])
    w.jt.unobserve([])
    return 0


@read(NET_READS)
def n_dict(w):
    from pybbn.graph.dag import Bbn
    return repr(Bbn.to_dict(w.bbn))


@read(NET_READS)
def n_json(w):
    from pybbn.graph.dag import Bbn
    p = os.path.join(w.ctx.scratch, "c31-%d.json" % os.getpid())
    Bbn.to_json(w.bbn, p)
    t = open(p).read()
    Bbn.from_json(p)
    os.remove(p)
    return t


@read(NET_READS)
def n_csv(w):
    from pybbn.graph.dag import Bbn
    p = os.path.join(w.ctx.scratch, "c31-%d.csv" % os.getpid())
    Bbn.to_csv(w.bbn, p)
    t = open(p, encoding="utf-8", errors="replace").read()
    os.remove(p)
    return t


@read(NET_READS)
def n_dne(w):
    from pybbn.graph.dag import Bbn
    return Bbn.to_dne(w.bbn)


@read(NET_READS)
def n_text(w):
    return str(w.bbn), [str(n) + repr(n) + str(n.variable) for n in w.bbn.get_nodes()], [str(e) for e in w.bbn.get_edges()]


@read(NET_READS)
def n_maps(w):
    w.ctx.eq(w.bbn.get_i2n(), w.spec.names, "id to name map is wrong")
    w.ctx.eq(w.bbn.get_n2i(), {v: k for k, v in w.spec.names.items()}, "name to id map is wrong")
    return sorted(w.bbn.get_i2n().items())


@read(NET_READS)
def n_views(w):
    b, i = w.bbn, w.i
    w.ctx.eq(list(b.get_parents_ordered(i)), sorted(w.spec.parents[i]), "ordered parents are wrong", id=i)
    w.ctx.eq(sorted(b.get_parents(i)), sorted(w.spec.parents[i]), "parents are wrong", id=i)
    w.ctx.eq(sorted(b.get_children(i)), sorted(w.spec.children(i)), "children are wrong", id=i)
    return sorted(b.get_neighbors(i)), b.get_node(i).id, len(b.get_edges())


@read(NET_READS)
def n_nx(w):
    g, labels = w.bbn.to_nx_graph()
    return sorted(map(str, g.nodes(data=True))), sorted(g.edges()), sorted(map(str, labels.items()))


@read(NET_READS)
def n_drawing(w):
    from pybbn.generator.bbngenerator import convert_for_drawing
    g = convert_for_drawing(w.bbn)
    return sorted(map(str, g.nodes)), sorted(map(str, g.edges))


@read(NET_READS)
def n_sample(w):
    from pybbn.sampling.sampling import LogicSampler
    return LogicSampler(w.bbn).get_samples(n_samples=3, seed=w.k)


@read(NET_READS)
def n_apply(w):
    from pybbn.pptc.inferencecontroller import InferenceController
    return sorted(map(str, InferenceController.apply(w.bbn).get_posteriors().items()))


@read(NET_READS)
def n_copy(w):
    return fp_network(copy.deepcopy(w.bbn))


@read(NET_READS)
def n_moralize(w):
    from pybbn.pptc.moralizer import Moralizer
    return sorted(sorted((e.i.id, e.j.id)) for e in Moralizer.moralize(w.bbn).get_edges())


@read(NET_READS)
def n_ace(w):
    from pybbn.causality.ace import Ace
    if not w.positive or len(w.spec.order) < 2 or len(w.spec.components()) > 1:
        return None
    x, y = w.i, next(j for j in w.spec.order if j != w.i)
    return str(Ace(w.bbn).get_ace(w.spec.names[x], w.spec.names[y], w.spec.values[y][0]))


def read_together(ctx, rng, jt, spec):
    """Several threads read one tree at once; every answer is the one a single reader gets."""
    ids = spec.order
    reads = [lambda: {k: {a: float(b).hex() for a, b in v.items()} for k, v in jt.get_posteriors().items()},
             lambda: [pot(jt.get_bbn_potential(jt.get_bbn_node(i))) for i in ids],
             lambda: [jt.get_bbn_node_by_name(spec.names[i]).id for i in ids],
             lambda: sorted(cl(c) for c in jt.get_cliques()) + sorted(cl(s) for s in jt.get_sep_sets()),
             lambda: [sorted(cl(c) for c in jt.find_cliques_with_node_and_parents(i)) for i in ids],
             lambda: sorted(str(e) for e in jt.get_flattened_edges()),
             lambda: sorted((n.id, sorted(p.id for p in ps)) for n, ps in jt.get_bbn_node_and_parents().items()),
             lambda: sorted(map(str, copy.deepcopy(jt).get_posteriors().items()))]
    alone = [f() for f in reads]
    plans = [[int(k) for k in rng.integers(0, len(reads), 4)] for _ in range(3)]
    got, errs = [], []

    def body(plan):
        try:
            barrier.wait(30)
            for k in plan:
                got.append((k, reads[k]()))
        except BaseException as e:
            errs.append(e)

    barrier = threading.Barrier(len(plans))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=body, args=(p,)) for p in plans]
        for x in th:
            x.start()
        for x in th:
            x.join()
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0]
    for k, r in got:
        ctx.eq(r, alone[k], "threads that read one tree together get other answers than a single reader", read=k)
        ctx.ev("thread_reads")
    ctx.eq([f() for f in reads], alone, "reading from several threads changed the tree")


class World(object):
    def node(self):
        return self.nodes[self.i] if self.k % 2 else self.jt.get_bbn_node(self.i)


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    positive = rng.random() < 0.3
    spec = gen.make_spec(rng, min_n=1, max_n=6, max_joint=300, cpt_mode="positive" if positive else None,
                         name_style=gen.pick(rng, ["n", "letters", "prefix", "digits", "weird", "unicode"]))
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any")
    fp = fp_network(bbn)
    jt = InferenceController.apply(bbn)
    ctx.eq(fp_network(bbn), fp, "applying inference changed the network")
    s = session.Session(spec, jt, nodes)
    w = World()
    w.ctx, w.spec, w.bbn, w.nodes, w.jt = ctx, spec, bbn, nodes, jt
    text_values = all(isinstance(v, str) for vs in spec.values.values() for v in vs)
    w.positive = positive and text_values and all(c.min() > 0 for c in spec.cpt.values())
    model = session.EvidenceModel(spec)
    s.query()
    log = []
    reads = list(TREE_READS.items()) * 2 + [kv for kv in NET_READS.items() if kv[0] not in ("n_csv", "n_dne") or text_values]
    for _ in range(int(rng.integers(15, 35))):
        if rng.random() < 0.25:
            op = session.random_op(rng, spec, query=0.0, model=model)
            s.run(op)
            model.step(op)
            log.append(op["op"])
            if rng.random() < 0.5:
                s.query()
            continue
        if rng.random() < 0.1:
            # a caller spoils what it was given
            r = jt.get_posteriors()
            for v in r.values():
                for k in v:
                    v[k] = -1.0
            r.clear()
            p = jt.get_bbn_potential(jt.get_bbn_node(gen.pick(rng, spec.order)))
            for e in p.entries:
                e.value = 7.0
                e.entries.clear()
            p.entries.clear()
            ctx.ev("results_spoiled")
            log.append("spoil")
        w.i, w.k, w.ev = gen.pick(rng, spec.order), int(rng.integers(1000)), session.random_evidence(rng, spec)
        name, f = gen.pick(rng, reads)
        ctx.note["read"] = name
        ctx.note["log"] = log[-20:]
        a = f(w)
        if rng.random() < 0.5:
            s.query()
        ctx.eq(f(w), a, "the same read gives another result when repeated", read=name)
        log.append(name)
        ctx.ev("reads")
        ctx.ev("read_" + name)
        if ctx.events["read_" + name] == 1:
            ctx.ev("kinds_of_read")
        ctx.eq(fp_network(bbn), fp, "a read changed the network", read=name)
        ctx.ev("networks_compared")
        if rng.random() < 0.4:
            s.query()
    if idx % 6 == 0:
        read_together(ctx, rng, jt, spec)
    s.query()
    session.judge(ctx, spec, s.events, what="after reads %s: " % log[-8:])
    ctx.eq(InferenceController.apply(bbn).get_posteriors(), InferenceController.apply(bbn).get_posteriors(), "applying twice gives different priors")
    ctx.nontrivial((spec.key(), tuple(log)))
    ctx.sample({"network": spec.describe(), "history": log[:30]})
