"""C10 JSON serialisation of a network is lossless."""
import json
import os

import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 10500, "thorough": 30000}
FLOORS = {"round_trips": 2000, "answers_compared": 800, "file_round_trips": 800, "big_networks": 30, "undecodable_names": 100}
RULE = ("random networks (all name and value styles, array/list/tuple CPTs, parents in any order, before and after inference) through dictionary, JSON text and "
        "file, twice in a row, also tables of thousands of probabilities and variables of hundreds of values; the document is also read by the monitor itself; non-trivial = has an edge or an unusual name, distinct by content")


def same(ctx, spec, bbn, what):
    got = gen.spec_of(bbn)
    ctx.eq(set(got.order), set(spec.order), what + ": variables differ")
    for i in spec.order:
        n = bbn.get_node(i)
        ctx.eq((n.id, n.variable.id), (i, i), what + ": id differs")
        ctx.check(type(n.id) is int, what + ": id is not a number any more", got=repr(n.id))
        ctx.eq(n.variable.name, spec.names[i], what + ": name differs")
        ctx.eq(list(n.variable.values), spec.values[i], what + ": values differ", id=i)
        ctx.check([type(v) for v in n.variable.values] == [type(v) for v in spec.values[i]], what + ": value types differ", id=i)
        ctx.eq([float(x) for x in n.probs], spec.flat(i), what + ": probabilities differ", id=i)
        ctx.eq(got.parents[i], spec.parents[i], what + ": parents or their order differ", id=i)
    ctx.eq(sorted(got.edges), sorted(spec.edges), what + ": edges differ")


def case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    big = idx % 150 == 7
    if big:
        spec = gen.make_big(rng)
        ctx.ev("big_networks")
    else:
        spec = gen.make_spec(rng, max_n=9, max_joint=1500, value_style=gen.pick(rng, gen.VALUE_STYLES))
        if rng.random() < 0.04:
            # a file name in another encoding, as os.listdir gives it: text that no file in UTF-8 can hold as it is
            i = gen.pick(rng, spec.order)
            spec.names[i] += "\udc80"
            ctx.ev("undecodable_names")
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=True)
    if not big and rng.random() < 0.4:
        jt = InferenceController.apply(bbn)
        session.Session(spec, jt, nodes).run(session.random_op(rng, spec, query=0))
    d = Bbn.to_dict(bbn)
    same(ctx, spec, bbn, "serialising changed the network")
    text = json.dumps(d)
    # the monitor's own reading of the document
    doc = json.loads(text)
    ctx.eq({int(k): (v["variable"]["name"], v["variable"]["values"], v["probs"]) for k, v in doc["nodes"].items()},
           {i: (spec.names[i], spec.values[i], spec.flat(i)) for i in spec.order}, "the document does not describe the network's variables")
    ctx.eq({i: [e["pa"] for e in doc["edges"] if e["ch"] == i] for i in spec.order}, spec.parents, "the document does not list the parents in order")
    ctx.eq(len(doc["edges"]), len(spec.edges), "the document lists superfluous edges")
    b1 = Bbn.from_dict(d)
    same(ctx, spec, b1, "dictionary round trip")
    b2 = Bbn.from_dict(doc)
    same(ctx, spec, b2, "JSON text round trip")
    ctx.ev("round_trips", 2)
    path = os.path.join(ctx.scratch, "c10-%d.json" % os.getpid())
    Bbn.to_json(bbn, path)
    ctx.eq(json.load(open(path)), doc, "the JSON file differs from the dictionary")
    b3 = Bbn.from_json(path)
    same(ctx, spec, b3, "JSON file round trip")
    first = open(path).read()
    Bbn.to_json(b3, path)
    ctx.eq(open(path).read(), first, "a second round trip gives a different document")
    os.unlink(path)
    ctx.eq(json.loads(json.dumps(Bbn.to_dict(b2))), doc, "a second round trip gives a different dictionary")
    ctx.eq(json.dumps(Bbn.to_dict(bbn)), text, "serialising twice gives different documents")
    ctx.ev("file_round_trips")
    same(ctx, spec, bbn, "serialising changed the network")
    if spec.edges or any(not str(x).isalnum() for x in spec.names.values()):
        ctx.nontrivial(spec.key())
        ctx.sample(spec.describe())
    if big:
        return
    # the copies are networks in their own right
    b = gen.pick(rng, [b1, b2, b3])
    s = session.Session(spec, InferenceController.apply(b))
    s.query()
    s.run(session.random_op(rng, spec, query=0))
    s.query()
    session.judge(ctx, spec, s.events, what="after a JSON round trip: ")
    ctx.ev("answers_compared")
