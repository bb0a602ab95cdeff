"""C16 every sample is complete, possible and honours the evidence."""
import copy

import numpy as np

from vmon import exact, gen

CASES = {"quick": 2600, "thorough": 30000}
FLOORS = {"samples_judged": 20000, "with_evidence": 500, "evidence_on_leaf": 150, "requests_of_zero": 40, "reseeded": 500, "rare_evidence": 12, "large_networks": 15, "very_rare_evidence": 2}
RULE = ("networks of all shapes with zeros and deterministic rows, evidence (of probability at least 0.02, sometimes of 0.0003, twice of 0.00001) on any subset (leaves, roots, isolated variables), 0-60 "
        "samples, arbitrary seeds; each sample judged alone; networks of 1200-3000 variables; non-trivial = distinct (network, evidence, seed) with at least 2 variables")
ASSUMPTIONS = ["evidence has probability at least 0.00001, mostly at least 0.02 (rejection sampling)", "values of one variable differ in their text and contain no comma followed by id=value"]


def case(ctx, rng, idx):
    from pybbn.graph.dag import Bbn
    from pybbn.sampling.sampling import LogicSampler
    if idx % 100 == 50:
        return large_case(ctx, rng)
    if idx % 1300 == 77:
        return rare_case(ctx, rng)
    spec = gen.make_spec(rng, min_n=1, max_n=9, max_joint=2000)
    if rng.random() < 0.1:
        gen.confuse(rng, spec)
        ctx.ev("values_alike")
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=rng.random() < 0.5)
    orc = exact.Exact(spec)
    before = (repr(Bbn.to_dict(bbn)), str(bbn), {i: [float(x) for x in nodes[i].probs] for i in spec.order})
    sampler = LogicSampler(bbn)
    for rep in range(int(rng.integers(1, 4))):
        ev = {}
        rare = idx % 20 == 13 and rep == 0
        least = 3e-4 if rare else 0.02
        if rare or rng.random() < 0.75:
            # ancestral draw gives a possible assignment, evidence is taken from it
            full = {}
            for i in spec.topo():
                row = spec.cpt[i][tuple(full[j] for j in spec.parents[i])]
                full[i] = int(rng.choice(len(row), p=row / row.sum()))
            m = int(rng.integers(1, min(4, len(spec.order)) + 1))
            ids = [spec.order[k] for k in rng.choice(len(spec.order), size=m, replace=False)]
            leaves = [i for i in spec.order if not spec.children(i)]
            if rng.random() < 0.5:
                ids = [gen.pick(rng, leaves)] + ids
            if rare:
                # the least likely possible value of some variable comes first
                first = min(((orc.prob({i: k}), i, k) for i in spec.order for k in range(spec.card(i)) if orc.prob({i: k}) >= least))
                ev = {first[1]: first[2]}
            for i in ids:
                trial = dict(ev, **{}) if i in ev else {**ev, i: full[i]}
                if orc.prob(trial) >= least:
                    ev = trial
        evidence = {i: spec.values[i][k] for i, k in ev.items()}
        n = int(gen.pick(rng, [0, 1, 2, 7, 30, 60])) if not rare else int(rng.integers(1, 9))
        if ev and orc.prob(ev) < 2e-3:
            ctx.ev("rare_evidence")
        seed = int(rng.integers(0, 2 ** 32 - 1)) if rng.random() < 0.7 else int(rng.integers(0, 50))
        ctx.note.update(evidence=evidence, n=n, seed=seed)
        keep = copy.deepcopy(evidence)
        kw = {}
        if evidence or rng.random() < 0.5:
            kw["evidence"] = evidence
        got = sampler.get_samples(n_samples=n, seed=seed, **kw)
        ctx.ev("evaluations")
        ctx.eq(len(got), n, "wrong number of samples")
        ctx.eq(evidence, keep, "the evidence passed in was modified")
        idx_of = {i: {v: k for k, v in enumerate(spec.values[i])} for i in spec.order}
        for s in got:
            ctx.eq(set(s), set(spec.order), "a sample does not assign exactly the variables")
            for i, v in s.items():
                ctx.check(v in idx_of[i] and type(v) is type(spec.values[i][idx_of[i][v]]), "a sample assigns something that is not a value of the variable", id=i, value=v)
            for i, v in evidence.items():
                ctx.eq(s[i], v, "a sample contradicts the evidence", id=i)
            for i in spec.order:
                p = spec.cpt[i][tuple(idx_of[j][s[j]] for j in spec.parents[i]) + (idx_of[i][s[i]],)]
                ctx.check(p > 0, "a sample is impossible under the network", id=i, sample=s)
            ctx.ev("samples_judged")
        ctx.eq(len({id(s) for s in got}), len(got), "samples are the same object")
        if n == 0:
            ctx.ev("requests_of_zero")
        if evidence:
            ctx.ev("with_evidence")
            if any(not spec.children(i) for i in evidence):
                ctx.ev("evidence_on_leaf")
        # same seed, same samples; from the same sampler, from a new one, after other draws
        other = sampler if rng.random() < 0.5 else LogicSampler(bbn)
        if rng.random() < 0.5:
            other.get_samples(n_samples=3, seed=seed + 1 if seed < 2 ** 32 - 1 else 0)
            np.random.random(int(rng.integers(1, 5)))
        again = other.get_samples(n_samples=n, seed=seed, **kw)
        ctx.eq(again, got, "the same seed gives other samples")
        if n > 3:
            k = int(rng.integers(1, n))
            ctx.eq(len(other.get_samples(n_samples=k, seed=seed, **kw)), k, "wrong number of samples")
        if n and got and rng.random() < 0.5:
            i = gen.pick(rng, spec.order)
            for s in got:
                s[i] = "spoiled"
            ctx.eq(sampler.get_samples(n_samples=n, seed=seed, **kw), again, "changing returned samples changes later ones")
        ctx.ev("reseeded")
        after = (repr(Bbn.to_dict(bbn)), str(bbn), {i: [float(x) for x in nodes[i].probs] for i in spec.order})
        ctx.eq(after, before, "sampling changed the network")
        if len(spec.order) > 1 and n:
            ctx.nontrivial((spec.key(), sorted(ev.items()), n, seed))
    ctx.sample({"network": spec.describe(), "evidence": evidence})


def large_case(ctx, rng):
    """Thousands of variables in chains, trees or on their own; a tenth of them seen for certain."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    from pybbn.sampling.sampling import LogicSampler
    n = int(rng.integers(1200, 3000))
    shape = gen.pick(rng, ["chain", "tree", "alone", "random", "two"])
    ctx.note.update(shape=shape, n=n)
    ids = [int(x) for x in rng.permutation(n)]
    bbn, cpt, pas = Bbn(), {}, {}
    xs = {}
    for k, i in enumerate(ids):
        j = []
        if k and shape == "chain":
            j = [ids[k - 1]]
        elif k and shape == "tree":
            j = [ids[(k - 1) // 2]]
        elif k and shape == "random" and rng.random() < 0.9:
            j = [ids[int(rng.integers(k))]]
        elif k > 1 and shape == "two":
            j = [ids[k - 2], ids[k - 1]]
        rows = rng.random((2 ** len(j), 2)) + 0.01
        rows[rng.random(len(rows)) < 0.3] = [1.0, 0.0] if rng.random() < 0.5 else [0.0, 1.0]
        rows /= rows.sum(axis=1, keepdims=True)
        pas[i], cpt[i] = j, rows
        xs[i] = BbnNode(Variable(i, "x%d" % i, ["t", "f"]), [float(v) for v in rows.flatten()])
    put = ids if rng.random() < 0.5 else [ids[k] for k in rng.permutation(n)]
    for i in put:
        bbn.add_node(xs[i])
    for i in put:
        for j in pas[i]:
            bbn.add_edge(Edge(xs[j], xs[i], EdgeType.DIRECTED))
    # evidence that is certain: roots with one possible value
    ev = {i: "tf"[int(np.argmax(cpt[i][0]))] for i in ids if not pas[i] and cpt[i].max() == 1.0}
    ev = {i: v for i, v in ev.items() if rng.random() < 0.5}
    m, seed = int(rng.integers(1, 6)), int(rng.integers(2 ** 31))
    s = LogicSampler(bbn)
    got = s.get_samples(evidence=dict(ev), n_samples=m, seed=seed)
    ctx.eq(len(got), m, "wrong number of samples")
    for x in got:
        ctx.eq(set(x), set(ids), "a sample does not assign exactly the variables")
        for i, v in ev.items():
            ctx.eq(x[i], v, "a sample contradicts the evidence", id=i)
        for i in ids:
            r = 0
            for j in pas[i]:
                r = 2 * r + (x[j] == "f")
            ctx.check(x[i] in ("t", "f") and cpt[i][r]["tf".index(x[i])] > 0, "a sample is impossible under the network", id=i)
        ctx.ev("samples_judged")
    ctx.eq(s.get_samples(evidence=dict(ev), n_samples=m, seed=seed), got, "the same seed gives other samples")
    ctx.ev("large_networks")
    ctx.ev("evaluations")


def rare_case(ctx, rng):
    """Evidence so rare that some hundred thousand draws are needed."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    from pybbn.sampling.sampling import LogicSampler
    p = float(rng.uniform(0.8e-5, 1.2e-5)) if ctx.tier == "quick" else float(rng.uniform(2e-6, 1e-5))
    a = BbnNode(Variable(1, "a", ["t", "f"]), [p, 1 - p])
    b = BbnNode(Variable(0, "b", ["t", "f"]), [1.0, 0.0, 0.5, 0.5])
    bbn = Bbn().add_node(a).add_node(b).add_edge(Edge(a, b, EdgeType.DIRECTED))
    seed = int(rng.integers(2 ** 31))
    ctx.note.update(p=p, seed=seed)
    got = LogicSampler(bbn).get_samples(evidence={1: "t"}, n_samples=2, seed=seed)
    ctx.eq(got, [{1: "t", 0: "t"}] * 2, "samples for evidence of probability %.2g" % p)
    ctx.ev("samples_judged", 2)
    ctx.ev("rare_evidence")
    ctx.ev("very_rare_evidence")
    ctx.ev("evaluations")
