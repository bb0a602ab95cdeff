"""C24 average causal effects equal the truncated factorisation."""
import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 900, "thorough": 22000}
FLOORS = {"effects": 2500, "confounded": 2000, "dependent_parents": 120, "multi_parent_causes": 400, "repeated": 500, "values_not_text": 300, "rare_configurations": 150}
RULE = ("networks of all shapes, every kind of ordered pair (cause with 0-4 parents, parents with values as rare as 1e-7, effect anywhere, also upstream), all values, random query sequences on one "
        "estimator; judged by exact summation in the network whose cause is cut from its parents; non-trivial = distinct (network, cause, effect) with a parent")
ASSUMPTIONS = ["every configuration of the cause's parents and every value of the cause have joint probability above 1e-13"]
STYLES = ["tf", "onoff", "digits", "prefix", "shared", "mixed", "unicode", "weird", "int", "number", "bool", "punct"]


def intervened(spec, x, k):
    s = spec.copy()
    s.edges = [(a, b) for a, b in s.edges if b != x]
    s.parents[x] = []
    row = np.zeros(spec.card(x))
    row[k] = 1.0
    s.cpt[x] = row
    return exact.Exact(s).marginals()


def rare(rng, spec):
    """Makes one value of some variable with children rare."""
    ps = [i for i in spec.order if any(i in spec.parents[j] for j in spec.order)]
    for i in [p for p in ps if rng.random() < 0.6]:
        c = spec.cpt[i] = spec.cpt[i].copy()
        k = int(rng.integers(c.shape[-1]))
        eps = 10.0 ** -rng.uniform(2, 7)
        rows = c.reshape(-1, c.shape[-1])
        for r in rows:
            rest = r.sum() - r[k]
            if rest > 1e-3:
                r *= (1.0 - eps) / rest
                r[k] = eps
        spec.cpt[i] = rows.reshape(c.shape)


def case(ctx, rng, idx):
    from pybbn.causality.ace import Ace
    from pybbn.graph.dag import Bbn
    shape = None if rng.random() < 0.6 else gen.pick(rng, ["random", "dense", "loop", "star_in"])
    spec = gen.make_spec(rng, min_n=2, max_n=7, max_joint=500, max_family=64, shape=shape, value_style=gen.pick(rng, STYLES),
                         cpt_mode=gen.pick(rng, ["positive", "positive", "skew", "dirichlet", "mixed", "decimal"]), max_card=3)
    if rng.random() < 0.3:
        rare(rng, spec)
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=rng.random() < 0.5)
    orc = exact.Exact(spec)
    ok = [x for x in spec.order if min_joint(orc, spec, spec.parents[x] + [x]) > 1e-13 and np.prod([spec.card(p) for p in spec.parents[x]] or [1]) <= 40]
    if not ok or len(spec.order) < 2:
        ctx.ev("skipped")
        return
    before = repr(Bbn.to_dict(bbn)), str(bbn)
    ace = Ace(bbn)
    deep = [x for x in ok if spec.parents[x]]
    asked = {}
    for _ in range(int(rng.integers(3, 7))):
        if asked and rng.random() < 0.35:
            x, y, v = gen.pick(rng, list(asked))
            ctx.ev("repeated")
        else:
            x = gen.pick(rng, deep) if deep and rng.random() < 0.8 else gen.pick(rng, ok)
            y = gen.pick(rng, [i for i in spec.order if i != x])
            v = int(rng.integers(spec.card(y)))
        got = ace.get_ace(spec.names[x], spec.names[y], spec.values[y][v])
        ctx.ev("effects")
        ctx.ev("evaluations")
        if not isinstance(spec.values[y][v], str) or not all(isinstance(z, str) for p in spec.parents[x] for z in spec.values[p]):
            ctx.ev("values_not_text")
        ctx.eq(list(got), spec.values[x], "the effect is not reported for exactly the values of the cause", cause=spec.names[x])
        for k, xv in enumerate(spec.values[x]):
            want = intervened(spec, x, k)[y][v]
            ctx.close(got[xv], want, "reported effect differs from the intervention", cause=(spec.names[x], xv), effect=(spec.names[y], spec.values[y][v]), parents=[spec.names[p] for p in spec.parents[x]], asked_before=[str(a) for a in asked])
            cond = orc.joint([x, y])[k, v] / orc.joint([x])[k] if orc.comp_of[x] == orc.comp_of[y] else want
            if abs(cond - want) > 1e-6:
                ctx.ev("confounded")
        if (x, y, v) in asked:
            ctx.eq([float(p) for p in got.values()], asked[(x, y, v)], "asking again gives another effect")
        asked[(x, y, v)] = [float(p) for p in got.values()]
        if len(spec.parents[x]) > 1:
            ctx.ev("multi_parent_causes")
            J = orc.joint(spec.parents[x]) if len({orc.comp_of[p] for p in spec.parents[x]}) == 1 else None
            prod = np.ones(1)
            for p in spec.parents[x]:
                prod = np.multiply.outer(prod, orc.joint([p]))
            if J is not None and np.max(np.abs(J - prod[0])) > 1e-6:
                ctx.ev("dependent_parents")
            if J is not None and 0 < J.min() < 1e-4:
                ctx.ev("rare_configurations")
        elif spec.parents[x] and orc.joint(spec.parents[x]).min() < 1e-4:
            ctx.ev("rare_configurations")
        if spec.parents[x]:
            ctx.nontrivial((spec.key(), x, y, v))
        if rng.random() < 0.2:
            got[spec.values[x][0]] = -1.0       # what is returned belongs to the caller
    ctx.eq((repr(Bbn.to_dict(bbn)), str(bbn)), before, "estimating effects changed the network")
    if rng.random() < 0.4:
        from pybbn.pptc.inferencecontroller import InferenceController
        exact.compare_marginals(ctx, spec, InferenceController.apply(bbn).get_posteriors(), orc.marginals(), "inference after estimating effects")
    ctx.sample({"network": spec.describe(), "asked": [str(a) for a in asked]})


def min_joint(orc, spec, ids):
    if len({orc.comp_of[i] for i in ids}) != 1:
        return 0.0
    return float(orc.joint(ids).min())
