"""C39 learning from a network's own samples gives the network back."""
import itertools

import pandas as pd

from vmon import exact, gen, session, stats

CASES = {"quick": 420, "thorough": 2400}
FLOORS = {"rows_judged": 1500, "values_judged": 4000, "marginals_judged": 400, "multi_parent_rows": 400, "with_evidence": 40, "second_generation": 40, "large_frames": 3}
RULE = ("random networks sampled by the library, the samples tabulated under the variables' names, and a network learned over the same structure: its structure equal, "
        "every CPT row and every marginal within Chernoff bounds (1e-12 each) of the original's; also under evidence (rows downstream of roots fixed) and over two "
        "generations; frames of up to 70000 rows; non-trivial = distinct networks with at least one edge")
ASSUMPTIONS = ["a value that was never drawn is not part of the learned variable; variables have textual values"]
DELTA = 1e-12


def table(spec, bbn, samples):
    i2n = bbn.get_i2n()
    return pd.DataFrame([{i2n[i]: v for i, v in s.items()} for s in samples])


def learned(ctx, bbn):
    """name -> (values, parents in CPT order, {config: row})."""
    out = {}
    for n in bbn.get_nodes():
        pas = [bbn.get_node(p) for p in (bbn.parents[n.id] if n.id in bbn.parents else [])]
        k = len(n.variable.values)
        rows = {}
        for r, cfg in enumerate(itertools.product(*[p.variable.values for p in pas])):
            rows[tuple(zip([p.variable.name for p in pas], cfg))] = list(n.probs[r * k:(r + 1) * k])
        out[n.variable.name] = (list(n.variable.values), [p.variable.name for p in pas], rows)
    return out


def judge(ctx, spec, got, df, fixed=(), what=""):
    ids = {v: k for k, v in spec.names.items()}
    ctx.eq(set(got), set(ids), what + "learned variables are not the network's")
    total = len(df)
    for name, (vals, pas, rows) in got.items():
        i = ids[name]
        ctx.eq(set(pas), {spec.names[p] for p in spec.parents[i]}, what + "learned parents are not the network's", variable=name)
        ctx.check(set(vals) <= set(spec.values[i]), what + "a learned value is not the variable's", variable=name)
        if i in fixed:
            continue
        for cfg, row in rows.items():
            at = dict(cfg)
            sel = df
            for p, v in cfg:
                sel = sel[sel[p] == v]
            m = len(sel)
            if m == 0:
                continue
            true = spec.cpt[i][tuple(spec.values[p].index(at[spec.names[p]]) for p in spec.parents[i])]
            ctx.close(sum(row), 1.0, what + "a learned row does not sum to 1", variable=name, config=cfg)
            for k, v in enumerate(spec.values[i]):
                est = row[vals.index(v)] if v in vals else 0.0
                ctx.close(est * m, round(est * m), what + "a learned probability is not a frequency", atol=1e-6, variable=name, config=cfg, rows=m)
                ctx.check(stats.plausible(round(est * m), m, float(true[k]), DELTA), what + "a learned row is not the network's", variable=name, config=cfg, value=v,
                          learned=est, true=float(true[k]), rows=m, samples=total)
                ctx.ev("values_judged")
            ctx.ev("rows_judged")
            if len(pas) > 1:
                ctx.ev("multi_parent_rows")


def case(ctx, rng, idx):
    from pybbn.graph.factory import Factory
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    large = idx % 40 == 7
    spec = gen.make_spec(rng, min_n=2 if large else 1, max_n=3 if large else 7, max_joint=400, max_family=64, value_style=gen.pick(rng, ["tf", "digits"]),
                         cpt_mode=gen.pick(rng, ["mixed", "positive", "zeros", None]))
    if not all(isinstance(v, str) for vs in spec.values.values() for v in vs):
        spec.values = {i: [str(v) for v in vs] for i, vs in spec.values.items()}
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    n = int(rng.integers(1500, 5000)) if ctx.tier == "quick" else int(rng.integers(1500, 12000))
    if large:
        n = int(gen.pick(rng, [12000, 33000, 70000]))
        ctx.ev("large_frames")
    evidence, fixed = {}, set()
    if idx % 3 == 0:
        # a root that is fixed leaves the rows of all others as they are
        roots = [i for i in spec.order if not spec.parents[i]]
        r = gen.pick(rng, roots)
        ok = [k for k in range(spec.card(r)) if spec.cpt[r][k] > 0.15]
        if ok:
            evidence, fixed = {r: spec.values[r][gen.pick(rng, ok)]}, {r}
            ctx.ev("with_evidence")
    df = table(spec, bbn, LogicSampler(bbn).get_samples(evidence=evidence, n_samples=n, seed=int(rng.integers(2 ** 31))))
    ctx.eq((len(df), set(df.columns)), (n, set(spec.names.values())), "samples do not cover the variables")
    structure = {spec.names[i]: [spec.names[p] for p in spec.parents[i]] for i in spec.order}
    structure = {k: structure[k] for k in (list(structure)[j] for j in rng.permutation(len(structure)))}
    b2 = Factory.from_data(structure, df)
    ctx.eq(sorted((e.i.variable.name, e.j.variable.name) for e in b2.get_edges()), sorted((p, c) for c, ps in structure.items() for p in ps), "learned edges are not the network's")
    got = learned(ctx, b2)
    judge(ctx, spec, got, df, fixed)
    # inference on the learned network against exact marginals of the samples' own network
    s2 = gen.spec_of(b2)
    post = InferenceController.apply(b2).get_posteriors()
    exact.compare_marginals(ctx, s2, post, exact.Exact(s2).marginals(), "inference on the learned network")
    lik = {i: session.normalise(spec.values[i], "OBSERVATION", [(evidence[i], 1.0)]) if i in evidence else session.normalise(spec.values[i], "UNOBSERVE", []) for i in spec.order}
    want = exact.Exact(spec).marginals(lik)
    for i in spec.order:
        # roots, and children of one variable, have the samples' own frequencies as marginals
        if len(spec.parents[i]) > 1 or any(spec.parents[p] for p in spec.parents[i]):
            continue
        col = df[spec.names[i]]
        for k, v in enumerate(spec.values[i]):
            c = int((col == v).sum())
            p = post[spec.names[i]].get(str(v), 0.0)
            ctx.close(p, c / n, "a learned marginal is not the frequency in the data", variable=spec.names[i], value=v)
            ctx.check(stats.plausible(c, n, float(want[i][k]), DELTA), "a learned marginal is not the network's", variable=spec.names[i], value=v, learned=p, true=float(want[i][k]))
            ctx.ev("marginals_judged")
    if idx % 3 == 1:
        # the learned network is a network like any other: its own samples teach it back
        df3 = table(s2, b2, LogicSampler(b2).get_samples(n_samples=n, seed=int(rng.integers(2 ** 31))))
        judge(ctx, s2, learned(ctx, Factory.from_data(structure, df3)), df3, what="(second generation) ")
        ctx.ev("second_generation")
    if spec.edges:
        ctx.nontrivial(spec.key())
    ctx.sample({"network": spec.describe(), "samples": n, "evidence": {str(k): v for k, v in evidence.items()}})
