"""C21 generated networks convert, serialise and draw faithfully."""
import json
import os
import re

import networkx as nx
import numpy as np

from vmon import exact, gen

CASES = {"quick": 7800, "thorough": 32000}
FLOORS = {"conversions": 1500, "cpts_judged": 8000, "files": 800, "documents": 2500, "drawings": 1500, "hand_made": 800, "answers_judged": 250, "more_than_ten_values": 200}
RULE = ("generated pairs (both kinds) and hand-made structure/parameter pairs (arbitrary ids, 1-14 values, parents recorded in edge order), converted, written as "
        "JSON text, drawn, and written to CSV/JSON files under equal random states; every CPT judged semantically; non-trivial = distinct pairs with an edge")
ASSUMPTIONS = ["hand-made pairs record each node's parents in the order of the graph's edges"]


def hand_made(rng):
    spec = gen.make_spec(rng, min_n=1, max_n=8, max_joint=2000) if rng.random() < 0.8 else gen.make_spec(rng, min_n=1, max_n=3, max_joint=3000, max_card=14)
    g = nx.DiGraph()
    for i in spec.order:
        g.add_node(i)
    for a, b in spec.edges:
        g.add_edge(a, b)
    p = {}
    for i in (spec.order if rng.random() < 0.5 else spec.order[::-1]):
        pas = [a for a, b in g.edges if b == i]
        dims = [spec.card(j) for j in pas] + [spec.card(i)]
        t = gen.make_cpt(rng, dims, gen.pick(rng, gen.CPT_MODES)).reshape(-1, spec.card(i))
        p[i] = {"parents": pas, "params": t, "shape": [int(t.shape[0]), int(t.shape[1])]}
    return g, p


def content(g, p):
    return repr((list(g.nodes), list(g.edges), [(i, list(p[i]["parents"]), list(p[i]["shape"]), np.asarray(p[i]["params"]).tolist()) for i in p]))


def judge_bbn(ctx, g, p, bbn, what):
    nodes = {n.id: n for n in bbn.get_nodes()}
    ctx.eq(sorted(nodes), sorted(g.nodes), what + "nodes are not the structure's")
    ctx.eq(sorted((e.i.id, e.j.id) for e in bbn.get_edges()), sorted(tuple(e) for e in g.edges), what + "edges are not the structure's")
    for i in g.nodes:
        n = nodes[i]
        k = int(p[i]["shape"][1])
        ctx.eq((n.id, n.variable.id, n.variable.name, len(n.variable.values), len(set(n.variable.values))), (i, i, str(i), k, k), what + "variable is wrong")
        # values told apart by a number are in the order of the parameters' columns
        num = [re.findall(r"\d+", str(v)) for v in n.variable.values]
        if all(len(x) == 1 for x in num) and sorted(int(x[0]) for x in num) in (list(range(k)), list(range(1, k + 1))):
            ctx.eq([int(x[0]) for x in num], sorted(int(x[0]) for x in num), what + "values are not in the order of the parameters", node=i)
            if k > 10:
                ctx.ev("more_than_ten_values")
        rec = list(p[i]["parents"])
        mine = list(bbn.parents.get(i, []))
        ctx.eq(sorted(mine), sorted(rec), what + "parents are not the recorded ones", node=i)
        a = np.asarray(p[i]["params"], dtype=float).reshape([int(p[j]["shape"][1]) for j in rec] + [k])
        b = np.array([float(x) for x in n.probs]).reshape([int(p[j]["shape"][1]) for j in mine] + [k])
        b = np.transpose(b, [mine.index(j) for j in rec] + [len(rec)])
        ctx.eq(b.tolist(), a.tolist(), what + "a conditional probability changed", node=i, parents=rec)
        ctx.ev("cpts_judged")


def case(ctx, rng, idx):
    from pybbn.generator import bbngenerator as G
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    r = idx % 4
    if r == 3:
        return file_case(ctx, rng)
    if r < 2:
        g, p = hand_made(rng)
        ctx.ev("hand_made")
    else:
        np.random.seed(int(rng.integers(2 ** 32 - 1)))
        f = gen.pick(rng, [G.generate_singly_bbn, G.generate_multi_bbn])
        g, p = f(int(rng.integers(1, 9)), int(rng.integers(0, 30)), int(rng.integers(2, 4)), int(rng.integers(1, 12))) if rng.random() < 0.8 else f(int(rng.integers(1, 4)), 5, int(rng.integers(10, 16)), 5)
    ctx.note["pair"] = content(g, p)[:3000]
    before = content(g, p)
    bbn = G.convert_for_exact_inference(g, p)
    ctx.ev("conversions")
    ctx.eq(content(g, p), before, "converting changed the structure or the parameters")
    judge_bbn(ctx, g, p, bbn, "converted: ")
    # JSON form
    for pretty in (False, True):
        text = G.to_json(g, p, pretty)
        d = json.loads(text)
        ctx.ev("documents")
        ctx.eq(d["nodes"], list(g.nodes), "JSON form: nodes differ")
        ctx.eq([(e["pa"], e["ch"]) for e in d["edges"]], [tuple(e) for e in g.edges], "JSON form: edges differ")
        ctx.eq([x["node"] for x in d["parameters"]], list(p), "JSON form: parameters are for other nodes")
        for x in d["parameters"]:
            q = p[x["node"]]
            ctx.eq(([float(v) for v in x["params"]], list(x["shape"])), (np.asarray(q["params"]).flatten().tolist(), [int(v) for v in q["shape"]]), "JSON form: parameters differ", node=x["node"])
    ctx.eq(content(g, p), before, "writing the JSON form changed the structure or the parameters")
    # drawing form
    snap = repr(Bbn.to_dict(bbn))
    x = G.convert_for_drawing(bbn)
    ctx.ev("drawings")
    ctx.eq(sorted(x.nodes), sorted(g.nodes), "drawing form: nodes differ")
    ctx.eq(sorted(x.edges), sorted(g.edges), "drawing form: edges differ")
    ctx.check(x.is_directed(), "drawing form is not directed")
    y, labels = bbn.to_nx_graph()
    ctx.eq((sorted(y.nodes), sorted(y.edges), labels), (sorted(g.nodes), sorted(g.edges), {i: str(i) for i in g.nodes}), "networkx form differs")
    x.add_edge("extra", "node")
    ctx.eq(repr(Bbn.to_dict(bbn)), snap, "drawing changed the network")
    # a second conversion is the same and independent of the first
    two = G.convert_for_exact_inference(g, p)
    if bbn.get_nodes():
        n = list(bbn.get_nodes())[0]
        n.variable.values[0] = "spoiled"
    judge_bbn(ctx, g, p, two, "converted again: ")
    if rng.random() < 0.5:
        spec = gen.spec_of(two)
        if max([float(np.prod([float(spec.card(i)) for i in c])) for c in spec.components()]) < 20000:
            exact.compare_marginals(ctx, spec, InferenceController.apply(two).get_posteriors(), exact.Exact(spec).marginals(), "inference on the converted network")
            ctx.ev("answers_judged")
    if g.edges:
        ctx.nontrivial(before)
    ctx.sample({"nodes": list(g.nodes), "edges": [tuple(e) for e in g.edges]})


def file_case(ctx, rng):
    from pybbn.generator import bbngenerator as G
    from pybbn.graph.dag import Bbn
    for ext in ("csv", "json"):
        kind = gen.pick(rng, ["singly", "multi"])
        n, it, mv, ma = int(rng.integers(1, 13)), int(rng.integers(0, 30)), int(rng.integers(2, 4)), int(rng.integers(1, 12))
        seed = int(rng.integers(2 ** 32 - 1))
        ctx.note.update(kind=kind, n=n, max_iter=it, max_values=mv, max_alpha=ma, seed=seed, ext=ext)
        stem = gen.pick(rng, ["gen", "gen", "csv", "json", "x.csv", "x.json", "a b", "\u00e9", "singly", "directed"])
        folder = os.path.join(ctx.scratch, gen.pick(rng, ["", "", "csv", "json", "f.csv", "f.json"]), "c21-%d" % os.getpid())
        os.makedirs(folder, exist_ok=True)
        path = os.path.join(folder, "%s.%s" % (stem, ext))
        ctx.note["path"] = path
        np.random.seed(seed)
        G.generate_bbn_to_file(n, path, kind, it, mv, ma)
        try:
            back = Bbn.from_csv(path) if ext == "csv" else Bbn.from_json(path)
        finally:
            os.unlink(path)
        ctx.ev("files")
        ctx.eq(len(list(back.get_nodes())), n, "the file holds another number of variables")
        np.random.seed(seed)
        g, p = (G.generate_singly_bbn if kind == "singly" else G.generate_multi_bbn)(n, it, mv, ma)
        judge_bbn(ctx, g, p, back, "%s file: " % ext)
        for x in back.get_nodes():
            k = len(x.variable.values)
            ctx.close(np.array(x.probs).reshape(-1, k).sum(axis=1), np.ones(len(x.probs) // k), "a CPT row in the file does not sum to one")
        if g.edges:
            ctx.nontrivial((seed, kind, n, it))
