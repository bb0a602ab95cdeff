"""C11 CSV serialisation of a network is lossless."""
import os

from vmon import gen, session
from vmon.checks.c10 import same

CASES = {"quick": 10500, "thorough": 30000}
FLOORS = {"round_trips": 2000, "answers_compared": 800, "big_networks": 20}
RULE = ("random networks with CSV-safe but otherwise hostile names and values (spaces inside, quotes, unicode, numbers, words such as 'directed'), 1-7 values, "
        "through CSV twice, also tables of thousands of probabilities and variables of hundreds of values; non-trivial = has an edge, distinct by content")

BAD = set(",|\n\r")


def safe(s):
    return isinstance(s, str) and s and s == s.strip() and not (BAD & set(s))


def case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    big = idx % 150 == 7
    style = gen.pick(rng, [v for v in gen.VALUE_STYLES if v not in ("int", "number", "bool", "punct")])
    spec = gen.make_big(rng, value_style=style) if big else gen.make_spec(rng, max_n=10, max_joint=1500, value_style=style)
    for i in spec.order:
        if not safe(spec.names[i]) or not all(safe(v) for v in spec.values[i]):
            ctx.ev("skipped_unsafe")
            return
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=True)
    if not big and rng.random() < 0.3:
        InferenceController.apply(bbn)
    path = os.path.join(ctx.scratch, "c11-%d.csv" % os.getpid())
    Bbn.to_csv(bbn, path)
    same(ctx, spec, bbn, "exporting changed the network")
    b = Bbn.from_csv(path)
    same(ctx, spec, b, "CSV round trip")
    ctx.ev("round_trips")
    Bbn.to_csv(b, path)
    b2 = Bbn.from_csv(path)
    same(ctx, spec, b2, "second CSV round trip")
    ctx.ev("round_trips")
    os.unlink(path)
    if spec.edges:
        ctx.nontrivial(spec.key())
        ctx.sample(spec.describe())
    if big:
        ctx.ev("big_networks")
        return
    s = session.Session(spec, InferenceController.apply(gen.pick(rng, [b, b2])))
    s.query()
    s.run(session.random_op(rng, spec, query=0))
    s.query()
    session.judge(ctx, spec, s.events, what="after a CSV round trip: ")
    ctx.ev("answers_compared")
