"""C27 DNE export describes the same network."""
import re

import numpy as np

from vmon import exact, gen

CASES = {"quick": 21000, "thorough": 80000}
FLOORS = {"documents": 5000, "declarations": 10000, "multi_parent_nodes": 1500, "answers_judged": 1000, "big_networks": 30, "values_not_text": 5000}
RULE = ("documents of random networks (parents in any order, names that are keywords of the format, prefixes of each other or numbers; also tables of thousands of probabilities) read by an independent "
        "tokeniser; declarations compared with the network bit-exactly and the joint of the document with that of the network; non-trivial = distinct networks with an edge")
ASSUMPTIONS = ["names and values are words (letters, digits, underscore)"]


def parse(text):
    """name -> {attribute: word or list of words}, plus the network's own attributes."""
    text = re.sub(r"//[^\n]*", " ", text)
    toks = re.findall(r"[(){};,=]|[^\s(){};,=]+", text)
    pos = 0

    def take(want=None):
        nonlocal pos
        t = toks[pos]
        if want is not None and t != want:
            raise ValueError("expected %r, found %r at token %d" % (want, t, pos))
        pos += 1
        return t

    take("bnet")
    title = take()
    take("{")
    nodes, attrs = [], {}
    while toks[pos] != "}":
        if toks[pos] == "node" and toks[pos + 2] == "{":
            take()
            name = take()
            take("{")
            body = {}
            while toks[pos] != "}":
                k = take()
                take("=")
                if toks[pos] == "(":
                    take()
                    v = []
                    while toks[pos] != ")":
                        v.append(take())
                        if toks[pos] != ")":
                            take(",")
                    take(")")
                else:
                    v = take()
                take(";")
                if k in body:
                    raise ValueError("attribute %s given twice" % k)
                body[k] = v
            take("}")
            take(";")
            nodes.append((name, body))
        else:
            k = take()
            take("=")
            attrs[k] = take()
            take(";")
    take("}")
    take(";")
    if pos != len(toks):
        raise ValueError("text after the end of the network")
    return title, attrs, nodes


def case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn
    names = gen.pick(rng, ["n", "letters", "digits", "prefix", "words_safe"])
    values = gen.pick(rng, ["tf", "onoff", "digits", "prefix", "shared", "words", "int", "number", "bool"])
    big = idx % 300 == 7
    spec = gen.make_big(rng, name_style=names, value_style=values) if big else gen.make_spec(rng, min_n=1, max_n=9, max_joint=1500, name_style=names, value_style=values)
    if big:
        ctx.ev("big_networks")
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=rng.random() < 0.5)
    if rng.random() < 0.3:
        bbn = Bbn.from_dict(Bbn.to_dict(bbn))
    before = repr(Bbn.to_dict(bbn)), str(bbn)
    title = gen.pick(rng, [None, "mine", "network2"])
    text = Bbn.to_dne(bbn) if title is None else Bbn.to_dne(bbn, title)
    ctx.eq(Bbn.to_dne(bbn) if title is None else Bbn.to_dne(bbn, bnet_name=title), text, "exporting twice gives different documents")
    ctx.eq((repr(Bbn.to_dict(bbn)), str(bbn)), before, "exporting changed the network")
    ctx.note["document"] = text[:3000]
    ctx.ev("documents", 2)
    name, attrs, decl = parse(text)
    ctx.eq(name, title or "network", "the document has another title")
    ctx.eq(sorted(n for n, _ in decl), sorted(spec.names.values()), "declared variables are not exactly the network's")
    back = {v: k for k, v in spec.names.items()}
    doc = spec.copy()
    for n, body in decl:
        i = back[n]
        ctx.ev("declarations")
        if not all(isinstance(v, str) for v in spec.values[i]):
            ctx.ev("values_not_text")
        ctx.eq(body["states"], [str(v) for v in spec.values[i]], "declared values differ", variable=n)
        ctx.eq(sorted(body["parents"]), sorted(spec.names[j] for j in spec.parents[i]), "declared parents differ", variable=n)
        pa = [back[p] for p in body["parents"]]
        ctx.eq(len(body["probs"]), int(np.prod([spec.card(j) for j in pa] + [spec.card(i)])), "declared number of probabilities differs", variable=n)
        t = np.array([float(x) for x in body["probs"]]).reshape([spec.card(j) for j in pa] + [spec.card(i)])
        u = np.transpose(t, [pa.index(j) for j in spec.parents[i]] + [len(pa)])
        ctx.eq(u.tolist(), spec.cpt[i].tolist(), "declared probabilities differ for the declared parent order", variable=n, parents=body["parents"])
        ctx.eq((body.get("kind"), body.get("discrete")), ("NATURE", "TRUE"), "variable is not declared as a discrete chance variable", variable=n)
        doc.parents[i], doc.cpt[i] = pa, t
        if len(pa) > 1:
            ctx.ev("multi_parent_nodes")
    if not big and rng.random() < 0.5:
        a, b = exact.Exact(doc).marginals(), exact.Exact(spec).marginals()
        for i in spec.order:
            ctx.close(a[i], b[i], "the distribution read from the document differs", id=i)
        ctx.ev("answers_judged")
    if spec.edges:
        ctx.nontrivial(spec.key())
    ctx.sample({"document": text[:1200]})
