"""C43 separate objects may be used from separate threads."""
import copy
import json
import os
import pickle
import sys
import threading
import time

import networkx as nx
import numpy as np
import pandas as pd

from vmon import dsep, exact, gauss, gen, graphs, session

CASES = {"quick": 880, "thorough": 16000}
FLOORS = {"tasks": 1500, "kinds_of_task": 14, "switches": 5000, "results_compared": 1500, "pairs_of_kinds": 90, "distinct_schedules": 100, "pauses": 5000, "stops": 2500}
RULE = ("2-6 threads, each doing tasks of ~16 kinds on objects of its own (networks built, inferred, updated, copied, pickled, written and read, moralised, triangulated, learned, imported, sampled, "
        "generated; graphs edited; paths and effects asked; Gaussian models conditioned; potentials multiplied), switched every microsecond and made to pause at random library calls, or one stopped at a random line of the library while another runs from start to end; every "
        "result is compared with that of the same task run alone before and after; non-trivial = distinct orders in which the threads entered library functions, and distinct stops")
ASSUMPTIONS = ["threads do not share objects of the library; numbers drawn at random depend on the process-wide generator, so of samples and generated networks only validity is judged",
               "comparison to 1e-9 relative for numbers, exactly otherwise"]


# ---- tasks: each takes a generator and a folder and returns plain data that depends on the generator's seed only

def t_infer(rng, folder):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=2, max_n=6, max_joint=200)
    bbn, nodes = gen.build(spec, rng, probs="any")
    s = session.Session(spec, InferenceController.apply(bbn), nodes)
    model = session.EvidenceModel(spec)
    for _ in range(6):
        op = session.random_op(rng, spec, query=0.3, bad=0.1, model=model)
        s.run(op)
        model.step(op)
    s.query()
    return [e.get("result", e.get("raised")) for e in s.events], str(s.jt)


def t_copy(rng, folder):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=2, max_n=5, max_joint=100)
    bbn, nodes = gen.build(spec, rng)
    jt = InferenceController.apply(bbn)
    s = session.Session(spec, jt)
    s.run(session.random_op(rng, spec, query=0))
    a = session.Session(spec, copy.deepcopy(jt))
    b = session.Session(spec, pickle.loads(pickle.dumps(jt)))
    c = session.Session(spec, InferenceController.reapply(jt, {spec.order[0]: spec.flat(spec.order[0])}))
    for x in (a, b, c):
        x.run(session.random_op(rng, spec, query=0))
    return [x.query() for x in (s, a, b, c)]


def t_files(rng, folder):
    from pybbn.graph.dag import Bbn
    spec = gen.make_spec(rng, min_n=1, max_n=6, max_joint=200, name_style="n", value_style="tf")
    bbn, _ = gen.build(spec, rng, interleave=True)
    p = os.path.join(folder, "x")
    Bbn.to_json(bbn, p)
    t1 = open(p).read()
    a = Bbn.from_json(p)
    Bbn.to_csv(a, p)
    t2 = open(p).read()
    b = Bbn.from_csv(p)
    return t1, t2, Bbn.to_dict(b), Bbn.to_dne(b), str(b)


def t_tree_document(rng, folder):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=5, max_joint=100)
    bbn, _ = gen.build(spec, rng)
    d = json.dumps(JoinTree.to_dict(InferenceController.apply(bbn), bbn))
    jt = InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(d)))
    return d, jt.get_posteriors()


def t_graph(rng, folder):
    kind = graphs.KINDS[int(rng.integers(len(graphs.KINDS)))]
    from pybbn.graph.edge import Edge, EdgeType
    g = graphs.new_graph(kind)
    ids = graphs.pool_ids(rng)
    nodes = {i: graphs.new_node(i) for i in ids}
    out = []
    for _ in range(25):
        a, b = gen.pick(rng, ids), gen.pick(rng, ids)
        r = rng.random()
        if r < 0.2:
            g.add_node(nodes[a])
        elif r < 0.9:
            g.add_edge(Edge(nodes[a], nodes[b], EdgeType.UNDIRECTED if kind == "ug" else EdgeType.DIRECTED))
        else:
            g.remove_node(a)
        out.append(([n.id for n in g.get_nodes()], [str(e) for e in g.get_edges()], [sorted(map(str, g.get_neighbors(n.id))) for n in g.get_nodes()]))
    return out, str(copy.deepcopy(g))


def t_shape(rng, folder):
    from pybbn.pptc.moralizer import Moralizer
    from pybbn.pptc.potentialinitializer import PotentialInitializer
    from pybbn.pptc.transformer import Transformer
    from pybbn.pptc.triangulator import Triangulator
    spec = gen.make_spec(rng, min_n=1, max_n=8, max_joint=1000)
    bbn, _ = gen.build(spec, rng)
    PotentialInitializer.init(bbn)
    ug = Moralizer.moralize(bbn)
    moral = sorted(sorted([e.i.id, e.j.id]) for e in ug.get_edges())
    cliques = Triangulator.triangulate(ug)
    ids = [sorted(n.id for n in c.nodes) for c in cliques]
    jt = Transformer.transform(cliques)
    return moral, ids, [(c.id, sorted(n.id for n in c.nodes)) for c in jt.get_nodes()], [str(e) for e in jt.get_edges()]


def t_paths(rng, folder):
    from pybbn.causality import do
    d, G = dsep.random_graph(rng)
    g = do.get_graph(d)
    out = []
    for _ in range(4):
        x, y = [G.nodes[k] for k in rng.permutation(len(G.nodes))[:2]]
        out.append((sorted(map(repr, do.get_all_paths(g, x, y))), sorted(map(repr, do.get_all_confounders(g, x, y))), sorted(map(repr, do.get_minimal_mediators(g, x, y))),
                    [(repr(m["path"]), m["is_active"], m["backdoor"], sorted(map(repr, m["z"]))) for m in sorted(do.get_paths(g, x, y), key=lambda m: repr(m["path"]))],
                    sorted(map(repr, do.get_minimal_confounders(g, x, y)))))
        for path in sorted(do.get_all_paths(g, x, y), key=repr)[:12]:
            z = {v for v in G.nodes if v not in (x, y) and rng.random() < 0.4}
            out.append((repr(path), do.is_active_path(g, path, z), do.get_colliders(g, path)))
    return out


def t_effect(rng, folder):
    from pybbn.causality.ace import Ace
    spec = gen.make_spec(rng, min_n=2, max_n=4, max_joint=32, max_card=2, cpt_mode="positive", name_style="n", value_style="tf", shape="tree")
    bbn, _ = gen.build(spec, rng)
    x, y = [spec.order[k] for k in rng.permutation(len(spec.order))[:2]]
    return Ace(bbn).get_ace(spec.names[x], spec.names[y], spec.values[y][0])


def t_gauss(rng, folder):
    from pybbn.gaussian.inference import GaussianInference
    H, mu, cov = gauss.model(rng)
    g = GaussianInference(H, mu.copy(), cov.copy())
    h = g.do_inferences(gauss.observations(rng, H, mu, cov))
    return list(h.H), np.asarray(h.M, float).tolist(), np.asarray(h.E, float).tolist(), repr(h.marginals), repr(g)


def t_learn(rng, folder):
    from pybbn.graph.dag import Bbn
    from pybbn.graph.factory import Factory
    n = int(rng.integers(4, 30))
    df = pd.DataFrame({c: ["xyz"[k] for k in rng.integers(0, 3, n)] for c in "abcd"})
    return Bbn.to_dict(Factory.from_data({"a": [], "b": ["a"], "c": ["a", "b"], "d": []}, df))


def t_import(rng, folder):
    from vmon.checks import c19
    from pybbn.graph.dag import Bbn
    from pybbn.graph.factory import Factory
    spec = gen.make_spec(rng, min_n=1, max_n=5, max_joint=100, name_style="n", value_style="tf")
    return Bbn.to_dict(Factory.from_libpgm_discrete_json(json.dumps(c19.document(rng, spec))))


def t_potentials(rng, folder):
    from pybbn.graph.potential import PotentialUtil as U
    from vmon.checks import c28
    nodes = c28.make_nodes(rng, int(rng.integers(1, 4)))
    shape = [len(x.variable.values) for x in nodes]
    p = c28.fill(rng, nodes, rng.random(shape))
    q = c28.fill(rng, nodes[:1], rng.random(shape[:1]))
    U.multiply(p, q)
    r = U.divide(p, p)
    U.normalize(p)
    return [[(sorted(map(str, e.entries.items())), float(e.value)) for e in x.entries] for x in (p, q, r)]


def t_views(rng, folder):
    spec = gen.make_spec(rng, min_n=1, max_n=6, max_joint=100)
    bbn, nodes = gen.build(spec, rng, interleave=True)
    g, labels = bbn.to_nx_graph()
    return list(g.nodes), list(g.edges), labels, bbn.get_i2n(), bbn.get_n2i(), str(copy.deepcopy(bbn)), [bbn.get_parents(i) for i in spec.order], [bbn.get_children(i) for i in spec.order]


def t_update(rng, folder):
    """A wide clique: long stretches of table work within single calls."""
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, n=5, max_joint=600, shape="fan_in", value_style="shared")
    bbn, nodes = gen.build(spec, rng)
    s = session.Session(spec, InferenceController.apply(bbn), nodes)
    for _ in range(2):
        s.run({"op": "update", "ev": [session.random_evidence(rng, spec)]})
        s.query()
    return [e.get("result") for e in s.events]


def t_sample(rng, folder):
    from pybbn.sampling.sampling import LogicSampler
    spec = gen.make_spec(rng, min_n=1, max_n=5, max_joint=100, cpt_mode="mixed")
    bbn, _ = gen.build(spec, rng)
    i = gen.pick(rng, spec.order)
    k = int(np.argmax([exact.Exact(spec).prob({i: j}) for j in range(spec.card(i))]))
    got = LogicSampler(bbn).get_samples(evidence={i: spec.values[i][k]}, n_samples=12, seed=int(rng.integers(1000)))
    at = {j: {v: n for n, v in enumerate(spec.values[j])} for j in spec.order}
    ok = len(got) == 12
    for s in got:
        ok = ok and set(s) == set(spec.order) and s[i] == spec.values[i][k]
        ok = ok and all(spec.cpt[j][tuple(at[p][s[p]] for p in spec.parents[j]) + (at[j][s[j]],)] > 0 for j in spec.order)
    return bool(ok)


def t_generate(rng, folder):
    from pybbn.generator.bbngenerator import convert_for_exact_inference, generate_multi_bbn, generate_singly_bbn
    f = gen.pick(rng, [generate_multi_bbn, generate_singly_bbn])
    n = int(rng.integers(2, 6))
    g, p = f(n, max_iter=3, max_values=3)
    b = convert_for_exact_inference(g, p)
    ok = nx.is_directed_acyclic_graph(g) and nx.is_connected(g.to_undirected()) and len(b.get_nodes()) == n
    for x in b.get_nodes():
        k = len(x.variable.values)
        rows = np.array(x.probs, float).reshape(-1, k)
        want = int(np.prod([len(b.get_node(j).variable.values) for j in b.get_parents_ordered(x.id)]))
        ok = ok and len(rows) == want and bool(np.allclose(rows.sum(axis=1), 1.0))
    return bool(ok)


TASKS = [t_infer, t_copy, t_files, t_tree_document, t_graph, t_shape, t_paths, t_effect, t_gauss, t_learn, t_import, t_potentials, t_views, t_update, t_sample, t_generate]


def alike(a, b):
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return bool(abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12) or (a != a and b != b)
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(alike(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


class Lines:
    """Traces the calling thread; at the k-th line of library code it runs `then` to its end in another thread."""

    def __init__(self, root, at=0, then=None):
        self.root, self.at, self.then, self.n = root, at, then, 0

    def trace(self, frame, event, arg):
        return self.line if frame.f_code.co_filename.startswith(self.root) else None

    def line(self, frame, event, arg):
        if event == "line":
            self.n += 1
            if self.n == self.at:
                t = threading.Thread(target=self.then)
                t.start()
                t.join(300)
        return self.line

    def run(self, f):
        sys.settrace(self.trace)
        try:
            return f()
        finally:
            sys.settrace(None)


def stopped_case(ctx, rng, idx, root):
    """One task stopped at some line of the library while another one runs from start to end."""
    a = idx % len(TASKS)
    b = a if rng.random() < 0.6 else int(rng.integers(len(TASKS)))
    sa, sb = int(rng.integers(2 ** 31)), int(rng.integers(2 ** 31))
    names = [TASKS[a].__name__[2:], TASKS[b].__name__[2:]]
    ctx.note.update(kinds=names, seeds=[sa, sb])
    folders = []
    for t in range(2):
        f = os.path.join(ctx.scratch, "c43-s%d-%d" % (os.getpid(), t))
        os.makedirs(f, exist_ok=True)
        folders.append(f)

    def one():
        return TASKS[a](np.random.default_rng(sa), folders[0])

    def other():
        return TASKS[b](np.random.default_rng(sb), folders[1])
    alone = [one(), other()]
    count = Lines(root)
    count.run(one)
    out, errs = [None], []

    def second():
        try:
            out[0] = other()
        except BaseException as e:
            errs.append(e)
    for _ in range(6):
        out[0] = None
        at = int(rng.integers(1, count.n + 1)) if rng.random() < 0.7 else min(count.n, int(np.exp(rng.uniform(0, np.log(count.n)))))
        ctx.note["at"] = at
        lines = Lines(root, at, second)
        got = lines.run(one)
        if lines.n < at:        # draws differ from run to run
            continue
        if errs:
            raise errs[0]
        ctx.check(alike(got, alone[0]), "work that stops while another thread does something gives another result than alone", task=names[0], beside=names[1], at_line=at, of=count.n, got=repr(got)[:600], alone=repr(alone[0])[:600])
        ctx.check(alike(out[0], alone[1]), "work done while another thread is stopped gives another result than alone", task=names[1], beside=names[0], at_line=at, of=count.n, got=repr(out[0])[:600], alone=repr(alone[1])[:600])
        ctx.ev("stops")
        ctx.nontrivial((names, sa, sb, at))
    for f in folders:
        for x in os.listdir(f):
            os.unlink(os.path.join(f, x))
        os.rmdir(f)
    ctx.ev("evaluations")
    ctx.sample({"stopped": names[0], "beside": names[1], "lines": count.n})


def case(ctx, rng, idx):
    import pybbn
    root = os.path.dirname(os.path.abspath(pybbn.__file__))
    if idx % 4:
        return stopped_case(ctx, rng, idx // 4 * 3 + idx % 4, root)
    idx //= 4
    n = int(rng.integers(2, 7))
    per = 2 if n > 3 else 3
    if idx % 3 == 0:        # everybody does the same kind of thing
        kinds = [[int(idx // 3 % len(TASKS))] * per for _ in range(n)]
    else:
        kinds = [[int(k) for k in rng.integers(len(TASKS), size=per)] for _ in range(n)]
    seeds = [[int(x) for x in rng.integers(2 ** 31, size=per)] for _ in range(n)]
    ctx.note.update(kinds=[[TASKS[k].__name__ for k in ks] for ks in kinds], seeds=seeds)
    folders = []
    for t in range(n):
        f = os.path.join(ctx.scratch, "c43-%d-%d" % (os.getpid(), t))
        os.makedirs(f, exist_ok=True)
        folders.append(f)

    def run(t, j):
        return TASKS[kinds[t][j]](np.random.default_rng(seeds[t][j]), folders[t])

    # numpy's error state is per thread and starts as numpy's own
    alone = [[run(t, j) for j in range(per)] for t in range(n)]
    got = [[None] * per for _ in range(n)]
    errs, trace = [], []
    rate = float(gen.pick(rng, [0.0, 0.002, 0.02]))
    barrier = threading.Barrier(n)
    pauses = [0] * n

    def body(t):
        coin = np.random.default_rng(seeds[t][0] + 1)
        coins = iter(coin.random(200000).tolist())

        def prof(frame, event, arg):
            if event == "call" and frame.f_code.co_filename.startswith(root):
                trace.append(t)
                if next(coins, 1.0) < rate:
                    pauses[t] += 1
                    time.sleep(0)
        try:
            barrier.wait(60)
            sys.setprofile(prof)
            for j in range(per):
                got[t][j] = run(t, j)
        except BaseException as e:
            errs.append((t, e))
        finally:
            sys.setprofile(None)

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=body, args=(t,)) for t in range(n)]
        for x in th:
            x.start()
        for x in th:
            x.join(300)
        ctx.check(not any(x.is_alive() for x in th), "a thread does not come to an end")
    finally:
        sys.setswitchinterval(old)
    if errs:
        raise errs[0][1]
    names = [[TASKS[k].__name__[2:] for k in ks] for ks in kinds]
    for t in range(n):
        for j in range(per):
            ctx.check(alike(got[t][j], alone[t][j]), "work done beside other threads gives another result than alone", task=names[t][j], beside=names, got=repr(got[t][j])[:600], alone=repr(alone[t][j])[:600])
            if kinds[t][j] >= len(TASKS) - 2:
                ctx.check(got[t][j] is True, "work done beside other threads gives an invalid result", task=names[t][j])
            ctx.ev("tasks")
            ctx.ev("results_compared")
            ctx.ev("did_" + names[t][j])
            if ctx.events["did_" + names[t][j]] == 1:
                ctx.ev("kinds_of_task")
    # and nothing stays behind
    t, j = int(rng.integers(n)), int(rng.integers(per))
    ctx.check(alike(run(t, j), alone[t][j]), "after work in several threads the same task gives another result", task=names[t][j], beside=names)
    sw = sum(1 for a, b in zip(trace, trace[1:]) if a != b)
    ctx.ev("switches", sw)
    ctx.ev("library_calls", len(trace))
    ctx.ev("pauses", sum(pauses))
    ctx.ev("evaluations")
    together = {tuple(sorted((x, y))) for a in range(n) for b in range(a + 1, n) for x in names[a] for y in names[b]}
    for pair in together - ctx.__dict__.setdefault("pairs", set()):
        ctx.pairs.add(pair)
        ctx.ev("pairs_of_kinds")
    if sw > 10:
        ctx.ev("distinct_schedules")
        ctx.nontrivial((seeds, tuple(trace[:3000])))
    for f in folders:
        for p in os.listdir(f):
            os.unlink(os.path.join(f, p))
        os.rmdir(f)
    ctx.sample({"threads": names, "switches": sw})
