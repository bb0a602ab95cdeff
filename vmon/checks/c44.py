"""C44 a document means what it says, however it is laid out."""
import json
import os

from vmon import gen, session
from vmon.checks import c10, c11

CASES = {"quick": 9000, "thorough": 60000}
FLOORS = {"json_documents": 5000, "csv_documents": 2500, "tree_documents": 1500, "answers_judged": 3000, "edges_before_nodes": 500, "arrangements": 6000, "refused": 300}
RULE = ("one random network written by the monitor itself in many arrangements: JSON with nodes, edges and keys in any order, ids as numbers or text, foreign keys, any white space; CSV with node and edge lines "
        "mixed, blanks around items, numbers in any notation, either kind of line end, with or without a last one; join trees with sections shuffled; each read as dictionary, text or file and judged "
        "against the network that was written, in structure, CPTs and answers under evidence; documents that lack something are refused; non-trivial = distinct documents with an edge")
ASSUMPTIONS = ["the order of the parents of one variable is the order of its edges in the document"]


def shuffled(rng, xs):
    xs = list(xs)
    return [xs[k] for k in rng.permutation(len(xs))]


def number(rng, x):
    """The same double in some notation."""
    r = rng.random()
    if r < 0.3:
        s = repr(x)
    elif r < 0.5:
        s = "%.17e" % x
    elif r < 0.6:
        s = "%.25g" % x
    elif r < 0.7 and x == int(x):
        s = "%d" % x
    elif r < 0.8 and repr(x).startswith("0."):
        s = repr(x)[1:]
    elif r < 0.9:
        s = "+" + repr(x)
    else:
        s = ("%.17E" % x)
    assert float(s) == x, (s, x)
    return s


def spread(rng, spec):
    """Edges in any order that keeps the order of each variable's parents."""
    left = {i: list(spec.parents[i]) for i in spec.order if spec.parents[i]}
    out = []
    while left:
        i = gen.pick(rng, sorted(left))
        out.append((left[i].pop(0), i))
        if not left[i]:
            del left[i]
    return out


def dict_document(rng, spec, text):
    """text: keys as JSON would have them."""
    def key(i):
        return str(i) if text or rng.random() < 0.3 else i
    mixed = rng.random() < 0.5
    nodes = {}
    for i in shuffled(rng, spec.order):
        var = dict(shuffled(rng, {"id": i, "name": spec.names[i], "values": list(spec.values[i])}.items()))
        probs = [int(p) if p in (0.0, 1.0) and rng.random() < 0.5 else p for p in spec.flat(i)]
        body = {"probs": probs, "variable": var}
        if rng.random() < 0.2:
            body["comment"] = gen.pick(rng, ["a", None, 1, ["probs"]])
            var["unit"] = "none"
        nodes[key(i) if mixed else (str(i) if text else i)] = dict(shuffled(rng, body.items()))
    edges = []
    for a, b in spread(rng, spec):
        e = {"pa": a, "ch": b}
        if rng.random() < 0.2:
            e["weight"] = 1.0
        edges.append(dict(shuffled(rng, e.items())))
    d = {"nodes": nodes, "edges": edges}
    if rng.random() < 0.3:
        d["version"] = "1.0"
    return dict(shuffled(rng, d.items()))


def dump(rng, d):
    how = gen.pick(rng, [dict(), dict(indent=1), dict(indent=4), dict(separators=(",", ":")), dict(sort_keys=True), dict(indent="\t", separators=(" ,", " : "))])
    s = json.dumps(d, **how)
    return s if rng.random() < 0.7 else " \n\t" + s + "\r\n\n"


def pad(rng, s, loose):
    return " " * int(rng.integers(0, 3)) + s + " " * int(rng.integers(0, 3)) if loose else s


def csv_document(rng, spec, ctx):
    loose = rng.random() < 0.5
    lines = []
    for i in spec.order:
        items = [str(i), spec.names[i]] + spec.values[i] + ["|"] + [number(rng, p) for p in spec.flat(i)]
        lines.append(",".join(pad(rng, x, loose) for x in items))
    lines = shuffled(rng, lines)
    edges = [",".join(pad(rng, x, loose) for x in (str(a), str(b), "directed")) for a, b in spread(rng, spec)]
    # edges keep their order; each goes to any place among the lines
    at = sorted(int(rng.integers(0, len(lines) + 1)) for _ in edges) if rng.random() < 0.6 else [len(lines)] * len(edges)
    if at and at[0] < len(lines):
        ctx.ev("edges_before_nodes")
    out, k = [], 0
    for pos in range(len(lines) + 1):
        while k < len(edges) and at[k] == pos:
            out.append(edges[k])
            k += 1
        if pos < len(lines):
            out.append(lines[pos])
    end = gen.pick(rng, ["\n", "\n", "\r\n"])
    return end.join(out) + (end if rng.random() < 0.7 else "")


def answers(ctx, rng, spec, jt, what):
    s = session.Session(spec, jt)
    s.query()
    for _ in range(2):
        s.run(session.random_op(rng, spec, query=0))
    s.query()
    session.judge(ctx, spec, s.events, what=what)


def json_case(ctx, rng, path):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, max_n=8, max_joint=600, value_style=gen.pick(rng, gen.VALUE_STYLES))
    ctx.note["network"] = spec.describe()
    for _ in range(3):
        how = gen.pick(rng, ["dict", "text", "file"])
        d = dict_document(rng, spec, how != "dict")
        ctx.note["document"] = repr(d)[:3000]
        if how == "dict":
            b = Bbn.from_dict(d)
        else:
            t = dump(rng, d)
            if how == "text":
                b = Bbn.from_dict(json.loads(t))
            else:
                with open(path, "w") as f:
                    f.write(t)
                b = Bbn.from_json(path)
        c10.same(ctx, spec, b, "a JSON document in another arrangement (%s)" % how)
        ctx.ev("json_documents")
        ctx.ev("arrangements")
        if spec.edges:
            ctx.nontrivial(repr(d))
    answers(ctx, rng, spec, InferenceController.apply(b), "a network read from a JSON document in another arrangement: ")
    # a document that lacks something is not a network
    d = dict_document(rng, spec, False)
    i = gen.pick(rng, list(d["nodes"]))
    hurt = gen.pick(rng, ["node", "probs", "variable", "name", "values", "id", "edges", "nodes", "pa"])
    if hurt in ("edges", "nodes"):
        del d[hurt]
    elif hurt in ("pa", "node"):
        d["edges"].append({"ch": d["nodes"][i]["variable"]["id"]} if hurt == "pa" else {"pa": d["nodes"][i]["variable"]["id"], "ch": max(spec.order) + 1})
    elif hurt in ("name", "values", "id"):
        del d["nodes"][i]["variable"][hurt]
    else:
        del d["nodes"][i][hurt]
    ctx.expect_raises(lambda: Bbn.from_dict(d), "a document without %s is read as if it were complete" % hurt)
    ctx.ev("refused")


def csv_case(ctx, rng, path):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    style = gen.pick(rng, [v for v in gen.VALUE_STYLES if v not in ("int", "number", "bool", "punct")])
    spec = gen.make_spec(rng, max_n=8, max_joint=600, value_style=style)
    if not all(c11.safe(x) for i in spec.order for x in [spec.names[i]] + spec.values[i]):
        return
    ctx.note["network"] = spec.describe()
    for _ in range(2):
        t = csv_document(rng, spec, ctx)
        ctx.note["document"] = t[:3000]
        with open(path, "w", newline="") as f:
            f.write(t)
        b = Bbn.from_csv(path)
        c11.same(ctx, spec, b, "a CSV document in another arrangement")
        ctx.ev("csv_documents")
        ctx.ev("arrangements")
        if spec.edges:
            ctx.nontrivial(t)
    answers(ctx, rng, spec, InferenceController.apply(b), "a network read from a CSV document in another arrangement: ")


def tree_case(ctx, rng, path):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, max_n=8, max_joint=600)
    ctx.note["network"] = spec.describe()
    bbn, _ = gen.build(spec, rng)
    d0 = JoinTree.to_dict(InferenceController.apply(bbn), bbn)
    for _ in range(2):
        text = rng.random() < 0.5
        d = json.loads(json.dumps(d0))
        if not text:
            d["bbn_nodes"] = {int(k): v for k, v in d["bbn_nodes"].items()}
        mix = {"bbn_nodes": {k: dict(shuffled(rng, v.items())) for k, v in shuffled(rng, d["bbn_nodes"].items())},
               "jt": {"nodes": {k: dict(shuffled(rng, v.items())) for k, v in shuffled(rng, d["jt"]["nodes"].items())}, "edges": shuffled(rng, d["jt"]["edges"]),
                      "parent_info": dict(shuffled(rng, d["jt"]["parent_info"].items()))}}
        if rng.random() < 0.2:
            mix["comment"] = "x"
            mix["jt"]["comment"] = None
        mix["jt"] = dict(shuffled(rng, mix["jt"].items()))
        mix = dict(shuffled(rng, mix.items()))
        ctx.note["document"] = repr(mix)[:3000]
        if rng.random() < 0.5:
            mix = json.loads(dump(rng, mix))
        jt = InferenceController.apply_from_serde(JoinTree.from_dict(mix))
        ctx.eq(len(jt.get_edges()), len(d0["jt"]["edges"]), "links of a join tree are lost when its document is in another order")
        answers(ctx, rng, spec, jt, "a join tree read from a document in another order: ")
        ctx.ev("tree_documents")
        ctx.ev("arrangements")
        if spec.edges:
            ctx.nontrivial(repr(mix))


def case(ctx, rng, idx):
    path = os.path.join(ctx.scratch, "c44-%d" % os.getpid())
    try:
        [json_case, csv_case, tree_case, json_case][idx % 4](ctx, rng, path)
    finally:
        if os.path.exists(path):
            os.unlink(path)
    ctx.ev("evaluations")
    ctx.sample({"document": ctx.note.get("document", "")[:1500]})
