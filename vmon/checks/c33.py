"""C33 pickled objects carry on where they were."""
import copy
import os
import pickle
import subprocess
import sys

import numpy as np

from vmon import exact, gauss, gen, graphs, session
from vmon.checks import c15

CASES = {"quick": 1500, "thorough": 20000}
FLOORS = {"round_trips": 1400, "answers_judged": 4000, "trees_under_evidence": 500, "other_process": 60, "graphs": 120, "long": 1, "models": 100, "samplers": 80,
          "reapplied_after": 60}
RULE = ("trees in the middle of an evidence history, networks, graphs after edit histories, samplers, potentials, Gaussian models and effect estimators pickled "
        "(every protocol, alone or in a container) and loaded in the same or in a fresh interpreter with another string-hash seed; both sides carry on and are judged "
        "offline; non-trivial = distinct (object, history) pairs")
ASSUMPTIONS = ["the reading interpreter runs the same version of the library and of Python; names and values are picklable"]
PROCESS_EVERY = 40
BATCH = 14


def hop(ctx, rng, x):
    ctx.ev("round_trips")
    ctx.ev("evaluations")
    return pickle.loads(pickle.dumps(x, protocol=int(rng.integers(0, pickle.HIGHEST_PROTOCOL + 1))))


def grow(rng, s, model, n, query=0.3):
    for _ in range(n):
        op = session.random_op(rng, s.spec, query=query, model=model)
        s.run(op)
        model.step(op)


def tree(rng, max_joint=500):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=max_joint)
    bbn, nodes = gen.build(spec, rng, probs=gen.pick(rng, ["list", "any"]))
    s = session.Session(spec, InferenceController.apply(bbn))
    return spec, bbn, s


def evidence_only(events):
    return [e for e in events if e["op"] not in ("query", "bad")]


def tree_case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec, bbn, s = tree(rng)
    ctx.note["network"] = spec.describe()
    m = session.EvidenceModel(spec)
    grow(rng, s, m, int(rng.integers(0, 6)))
    pairs = [(s, m)]
    for k in range(int(rng.integers(1, 4))):
        a, ma = pairs[int(rng.integers(len(pairs)))]
        if rng.random() < 0.3:
            b, t = hop(ctx, rng, [bbn, a.jt])
            ctx.eq(c15.snap_graph(b, "bbn"), c15.snap_graph(bbn, "bbn"), "a pickled network differs from the original")
        else:
            t = hop(ctx, rng, a.jt)
        ctx.check(t is not a.jt, "a pickled tree is the same object")
        if any((v != 1.0).any() for v in ma.lik.values()):
            ctx.ev("trees_under_evidence")
        c15.unshared(ctx, {k: v for k, v in vars(a.jt).items() if k != "listener"}, {k: v for k, v in vars(t).items() if k != "listener"}, "pickled tree")
        c = session.Session(spec, t)
        c.events = evidence_only(a.events)
        mc = session.EvidenceModel(spec)
        for e in c.events:
            mc.step(e)
        c.query()
        pairs.append((c, mc))
        for _ in range(int(rng.integers(3, 9))):
            x, mm = pairs[int(rng.integers(len(pairs)))]
            grow(rng, x, mm, 1, 0.4)
        # observable tree is the same
        ctx.eq(c15.links(c.jt), c15.links(a.jt), "a pickled tree has other links")
        ctx.eq(sorted(sorted(n.id for n in q.nodes) for q in c.jt.get_cliques()), sorted(sorted(n.id for n in q.nodes) for q in a.jt.get_cliques()), "a pickled tree has other cliques")
    for x, _ in pairs:
        x.query()
    for k, (x, _) in enumerate(pairs):
        session.judge(ctx, spec, x.events, what="original tree: " if k == 0 else "pickled tree: ")
    c = pairs[-1][0]
    if rng.random() < 0.35:
        cpts = {j: gen.make_cpt(rng, list(spec.cpt[j].shape), "mixed") for j in spec.order if rng.random() < 0.5}
        sp2 = spec.copy()
        for j in cpts:
            sp2.cpt[j] = cpts[j]
        s3 = session.Session(sp2, InferenceController.reapply(c.jt, {j: sp2.flat(j) for j in cpts}))
        s3.query()
        session.judge(ctx, sp2, s3.events, what="re-applied pickled tree: ")
        ctx.ev("reapplied_after")
    ctx.nontrivial((spec.key(), str([session.slim(x.events) for x, _ in pairs])))
    ctx.sample({"network": spec.describe(), "trees": len(pairs)})


def network_case(ctx, rng, idx):
    """Networks, before and after inference, and what was made of them."""
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    spec = gen.make_spec(rng, min_n=1, max_n=7, max_joint=400)
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs=gen.pick(rng, ["list", "any"]))
    for n in nodes.values():
        n.probs = np.array(n.probs) if rng.random() < 0.5 else list(n.probs)
    c15.decorate(rng, nodes.values())
    if rng.random() < 0.5:
        InferenceController.apply(bbn)
    before = c15.snap_graph(bbn, "bbn")
    b = hop(ctx, rng, bbn)
    ctx.eq(c15.snap_graph(b, "bbn"), before, "a pickled network differs from the original")
    ctx.eq(c15.snap_graph(bbn, "bbn"), before, "pickling changed the network")
    ctx.ev("graphs")
    s = session.Session(spec, InferenceController.apply(b))
    s.query()
    s.run({"op": "update", "ev": [session.random_evidence(rng, spec)]})
    s.query()
    session.judge(ctx, spec, s.events, what="inference on a pickled network: ")
    q = LogicSampler(bbn)
    r = hop(ctx, rng, q)
    seed = int(rng.integers(10 ** 6))
    ctx.eq(r.get_samples(n_samples=20, seed=seed), q.get_samples(n_samples=20, seed=seed), "a pickled sampler draws other samples")
    ctx.ev("samplers")
    jt = s.jt
    ps = [jt.get_bbn_potential(n) for n in jt.get_bbn_nodes()]
    for p, p2 in zip(ps, hop(ctx, rng, ps)):
        ctx.eq([(e.entries, float(e.value).hex()) for e in p2.entries], [(e.entries, float(e.value).hex()) for e in p.entries], "a pickled potential differs")
    ev = session.random_evidence(rng, spec)
    e = hop(ctx, rng, session.make_evidence(spec, jt, None, ev))
    jt.unobserve_all()
    jt.update_evidences([e])
    s2 = session.Session(spec, jt)
    s2.events.append({"op": "update", "ev": [ev]})
    s2.query()
    session.judge(ctx, spec, s2.events, what="pickled evidence: ")
    done = c15.both_sides(ctx, rng, bbn, b, lambda x: c15.snap_graph(x, "bbn"), lambda x: c15.mutate_graph(rng, x, "bbn"), "pickled network")
    ctx.nontrivial((spec.key(), "net", str(done)))


def graph_case(ctx, rng, idx):
    kind = graphs.KINDS[int(rng.integers(len(graphs.KINDS)))]
    d = graphs.Driver(kind, graphs.pool_ids(rng))
    ctx.note.update(kind=kind, history=d.trace)
    for _ in range(int(rng.integers(3, 25))):
        d.apply(ctx, d.random_op(rng, 0.06))
    before = c15.snap_graph(d.g, kind)
    g = hop(ctx, rng, d.g)
    ctx.eq(c15.snap_graph(g, kind), before, "a pickled graph differs from the original")
    ctx.ev("graphs")
    # the edit history carries on in the loaded graph
    d.g = g
    d.pool = {n.id: n for n in g.get_nodes()}
    d.m.obj.update(d.pool)
    d.made = []
    for _ in range(int(rng.integers(3, 15))):
        d.apply(ctx, d.random_op(rng, 0.06))
        graphs.invariants(ctx, d.g, kind, history=d.trace)
    graphs.views(ctx, d.g, d.m, d.ids, history=d.trace)
    ctx.nontrivial((kind, before, str(d.trace)))


def gaussian_case(ctx, rng, idx):
    from pybbn.gaussian.inference import GaussianInference
    H, mu, cov = gauss.model(rng)
    ctx.note["model"] = {"H": H, "mu": mu, "cov": cov}
    g = GaussianInference(H, mu.copy(), cov.copy())
    if rng.random() < 0.6:
        g = g.do_inferences(gauss.observations(rng, H, mu, cov))
    before = repr(gauss.snap(g))
    c = hop(ctx, rng, g)
    ctx.eq(repr(gauss.snap(c)), before, "a pickled Gaussian model differs from the original")
    left = list(g.H)
    if left:
        h = left[int(rng.integers(len(left)))]
        ctx.eq(repr(gauss.snap(c.do_inference(h, 0.5))), repr(gauss.snap(g.do_inference(h, 0.5))), "a pickled Gaussian model answers differently")
    ctx.ev("models")
    ctx.nontrivial((H, mu.tobytes(), cov.tobytes()))


def long_case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    n = int(rng.integers(500, 1500))
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    b = Bbn()
    rows = rng.dirichlet([1.0, 1.0], 2 * n)
    nodes = [BbnNode(Variable(i, "x%d" % i, ["t", "f"]), list(rows[2 * i]) + (list(rows[2 * i + 1]) if i else [])) for i in range(n)]
    for x in nodes:
        b.add_node(x)
    for i in range(1, n):
        b.add_edge(Edge(nodes[i - 1], nodes[i], EdgeType.DIRECTED))
    p = rows[0]
    want = [p]
    for i in range(1, n):
        p = p @ np.array([rows[2 * i], rows[2 * i + 1]])
        want.append(p)
    ctx.note["chain"] = n
    t = hop(ctx, rng, InferenceController.apply(hop(ctx, rng, b)))
    got = t.get_posteriors()
    for i in range(n):
        ctx.close([got["x%d" % i]["t"], got["x%d" % i]["f"]], want[i], "a pickled long network gives other marginals", id=i)
    ctx.ev("long")
    ctx.nontrivial(("chain", n))


def process_case(ctx, rng, idx):
    """A fresh interpreter takes over in the middle of the histories."""
    specs, items, pre = [], [], []
    for _ in range(BATCH):
        spec, bbn, s = tree(rng, 200)
        m = session.EvidenceModel(spec)
        grow(rng, s, m, int(rng.integers(0, 6)), 0.2)
        ops = []
        m2 = copy.deepcopy(m)
        for _ in range(int(rng.integers(2, 6))):
            ops.append(session.random_op(rng, spec, query=0.3, model=m2))
            m2.step(ops[-1])
        specs.append(spec)
        pre.append(evidence_only(s.events))
        items.append({"tree": pickle.dumps([bbn, s.jt], protocol=int(rng.integers(0, 6))), "spec": spec, "ops": ops})
    src, dst = [os.path.join(ctx.scratch, "c33-%d-%d.%s" % (os.getpid(), idx, x)) for x in ("in", "out")]
    with open(src, "wb") as f:
        pickle.dump(items, f)
    env = dict(os.environ, PYTHONHASHSEED=str(1 + int(rng.integers(10 ** 6))))
    p = subprocess.run([sys.executable, "-B", "-m", "vmon.pickle_child", src, dst], env=env, capture_output=True, text=True, timeout=600)
    if p.returncode != 0:
        ctx.fail("a pickled tree cannot be used in another process", stderr=p.stderr[-1500:])
    with open(dst, "rb") as f:
        out = pickle.load(f)
    os.remove(src)
    os.remove(dst)
    ctx.eq(len(out), BATCH, "harness: answers are missing")
    for spec, before, r in zip(specs, pre, out):
        ctx.note["network"] = spec.describe()
        session.judge(ctx, spec, before + r["events"], what="tree loaded in another process: ")
        s = session.Session(spec, pickle.loads(r["tree"])[1])
        s.events = evidence_only(before + r["events"])
        s.query()
        s.run({"op": "unobserve_all"})
        s.query()
        session.judge(ctx, spec, s.events, what="tree back from another process: ")
        ctx.ev("other_process")
        ctx.ev("round_trips")
        ctx.nontrivial((spec.key(), str(session.slim(s.events))))


def case(ctx, rng, idx):
    if idx % PROCESS_EVERY == 3:
        return process_case(ctx, rng, idx)
    if idx % 400 == 7:
        return long_case(ctx, rng, idx)
    r = idx % 8
    if r == 5:
        return graph_case(ctx, rng, idx)
    if r == 6:
        return network_case(ctx, rng, idx)
    if r == 7:
        return gaussian_case(ctx, rng, idx)
    if r == 4 and idx % 16 == 4:
        return network_case(ctx, rng, idx)
    return tree_case(ctx, rng, idx)
