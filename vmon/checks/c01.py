"""C01 prior marginals are exact."""
from vmon import exact, gen

CASES = {"quick": 18000, "thorough": 60000}
FLOORS = {"marginals_compared": 5000, "disconnected": 200, "isolated_nodes": 50, "values_alike": 700}
RULE = ("random networks: 12 structure families, 7 id styles, 7 name styles, 9 value styles, 8 CPT modes (zeros, deterministic, tiny), shuffled "
        "parent and insertion orders, some with values that read alike (1 and \"1\"); non-trivial = at least one edge or two components, distinct by full content")


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    big = rng.random() < 0.12
    spec = gen.make_spec(rng, max_n=16 if big else 9, shape=gen.pick(rng, ["tree", "polytree", "forest", "chain", "blocks"]) if big else None,
                         max_joint=2 ** 16 if big else 4096)
    if rng.random() < 0.08:
        gen.confuse(rng, spec)
        ctx.ev("values_alike")
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=rng.random() < 0.5)
    jt = InferenceController.apply(bbn)
    ctx.ev("trees_built")
    want = exact.Exact(spec).marginals()
    exact.compare_marginals(ctx, spec, jt.get_posteriors(), want, "prior marginal differs from the network's joint distribution")
    # the per-node view, through every way of getting hold of a node
    got = jt.get_bbn_nodes()
    ctx.eq(sorted(n.id for n in got), sorted(spec.order), "a variable is missing or reported twice")
    for n in got:
        p = jt.get_bbn_potential(gen.pick(rng, [n, nodes[n.id], jt.get_bbn_node(n.id)]))
        ctx.eq([dict(e.entries) for e in p.entries], [{n.id: v} for v in spec.values[n.id]], "potential does not list the variable's values once each in order")
        ctx.close([e.value for e in p.entries], want[n.id], "prior potential differs from the network's joint distribution", id=n.id)
        ctx.ev("potentials_compared")
    comps = spec.components()
    if len(comps) > 1:
        ctx.ev("disconnected")
    ctx.ev("isolated_nodes", sum(1 for c in comps if len(c) == 1 and len(spec.order) > 1))
    if spec.edges or len(comps) > 1:
        ctx.nontrivial(spec.key())
        ctx.sample(spec.describe())
