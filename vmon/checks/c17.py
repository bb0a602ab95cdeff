"""C17 samples follow the exact conditional distribution."""
import itertools
import math

import numpy as np

from vmon import exact, gen, stats

CASES = {"quick": 600, "thorough": 9000}
FLOORS = {"frequencies_judged": 10000, "samples": 200000, "table_lookups": 15000, "conditioned": 60, "serial_pairs": 500, "distinct_samples": 5000, "numbers_changed": 60, "short_requests": 10000, "counts_judged": 400, "values_alike": 40, "fine_draws": 300000}
RULE = ("networks with parents declared in arbitrary order, shuffled ids, mixed cardinalities and, some, values that read alike; some with numbers changed in place after a first sampling; frequencies of every value, of every configuration of each "
        "family and of random pairs, and of consecutive samples, compared with the exact conditional probability under a Chernoff bound of false-alarm "
        "probability 1e-12 each; networks of 44-60 nearly fair variables in which no two samples may agree; variables of a million equally likely values; hundreds of requests for 1-40 samples, whose counts must be binomial; sampling tables looked up on a grid of uniform numbers; non-trivial = distinct (network, evidence)")
ASSUMPTIONS = ["evidence has probability at least 0.1", "deviations below the Chernoff radius for the sample size (about 0.06 at n=4000, p=0.5) are not seen in one case; a systematic defect is seen across many"]
DELTA = 1e-12


def case(ctx, rng, idx):
    if idx % 3 == 0:
        return table_case(ctx, rng, idx)
    if idx % 15 == 1:
        return coins_case(ctx, rng, idx)
    if idx % 15 == 5:
        return short_case(ctx, rng, idx)
    if idx % 120 == 7:
        return fine_case(ctx, rng, idx)
    from pybbn.sampling.sampling import LogicSampler
    large = idx % 30 == 4
    spec = gen.make_spec(rng, min_n=2, max_n=3 if large else 6, max_joint=400, cpt_mode=gen.pick(rng, ["skew", "dirichlet", "detish", "mixed"]))
    if rng.random() < 0.2:
        gen.confuse(rng, spec)
        ctx.ev("values_alike")
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any", interleave=rng.random() < 0.5)
    orc = exact.Exact(spec)
    ev = {}
    if rng.random() < 0.6:
        full = {}
        for i in spec.topo():
            row = spec.cpt[i][tuple(full[j] for j in spec.parents[i])]
            full[i] = int(rng.choice(len(row), p=row / row.sum()))
        for i in [spec.order[k] for k in rng.permutation(len(spec.order))[:3]]:
            if orc.prob({**ev, i: full[i]}) >= 0.1:
                ev[i] = full[i]
    n = (4000 if ctx.tier == "quick" else 12000) * (12 if large else 1)
    seed = int(rng.integers(0, 2 ** 31))
    ctx.note.update(evidence=ev, seed=seed, n=n)
    if idx % 4 == 1:
        # the network had other numbers before, and was sampled with them
        was = {i: [float(x) for x in nodes[i].probs] for i in spec.order}
        for i in spec.order:
            k = spec.card(i)
            nodes[i].probs = list(was[i]) if rng.random() < 0.5 else np.array(was[i])
            rows = np.roll(np.array(was[i]).reshape(-1, k), 1, axis=1).flatten()
            for j, x in enumerate(rows):
                nodes[i].probs[j] = float(x)
        LogicSampler(bbn).get_samples(n_samples=5, seed=seed)
        whole = rng.random() < 0.3
        for i in spec.order:
            if whole:
                nodes[i].probs = list(was[i])
            else:
                for j, x in enumerate(was[i]):
                    nodes[i].probs[j] = x
        ctx.ev("numbers_changed")
    sampler = LogicSampler(bbn)
    # in several requests with different seeds, as a user would
    parts = int(rng.integers(1, 4))
    got = []
    for k in range(parts):
        got += sampler.get_samples(evidence={i: spec.values[i][k2] for i, k2 in ev.items()}, n_samples=n // parts, seed=(seed + k * 7919) % (2 ** 32))
    n = len(got)
    ctx.ev("samples", n)
    ctx.ev("evaluations")
    if ev:
        ctx.ev("conditioned")
    col = {}
    for i in spec.order:
        at = {v: k for k, v in enumerate(spec.values[i])}
        col[i] = np.array([at[s[i]] for s in got])
    pe = orc.prob(ev)

    def P(assign):
        for i, k in assign.items():
            if i in ev and ev[i] != k:
                return 0.0
        return orc.prob({**ev, **assign}) / pe

    def judge(ids, what):
        cells = list(itertools.product(*[range(spec.card(i)) for i in ids]))
        if len(cells) > 60:
            cells = [cells[k] for k in rng.choice(len(cells), size=60, replace=False)]
        for c in cells:
            hit = np.ones(n, dtype=bool)
            for i, k in zip(ids, c):
                hit &= col[i] == k
            p = P(dict(zip(ids, c)))
            ctx.check(stats.plausible(int(hit.sum()), n, p, DELTA), what, event={spec.names[i]: spec.values[i][k] for i, k in zip(ids, c)}, seen=int(hit.sum()), of=n, exact=p)
            ctx.ev("frequencies_judged")

    for i in spec.order:
        judge([i], "frequency of a value is off")
        if spec.parents[i]:
            judge(spec.parents[i] + [i], "frequency of a value together with its parents' is off")
    for _ in range(3):
        if len(spec.order) >= 2:
            judge([spec.order[k] for k in rng.choice(len(spec.order), size=2, replace=False)], "joint frequency of two variables is off")
    # independence of consecutive samples: disjoint pairs of a variable with itself
    m = n // 2
    for i in spec.order:
        for a in range(spec.card(i)):
            p = P({i: a})
            both = int(((col[i][0:2 * m:2] == a) & (col[i][1:2 * m:2] == a)).sum())
            ctx.check(stats.plausible(both, m, p * p, DELTA), "consecutive samples are not independent", variable=spec.names[i], seen=both, of=m, exact=p * p)
            ctx.ev("serial_pairs")
    if parts == 1:
        # also further apart: blocks that repeat or complement each other
        for lag in sorted({2, 8, 64, n // 4, n // 2}):
            a0 = np.arange(0, n - lag)
            a0 = a0[(a0 // lag) % 2 == 0]       # disjoint pairs
            for i in spec.order:
                a = int(np.argmax([P({i: k}) * (1 - P({i: k})) for k in range(spec.card(i))]))
                p = P({i: a})
                both = int(((col[i][a0] == a) & (col[i][a0 + lag] == a)).sum())
                ctx.check(stats.plausible(both, len(a0), p * p, DELTA), "samples some way apart are not independent", variable=spec.names[i], lag=lag, seen=both, of=len(a0), exact=p * p)
                ctx.ev("lagged_pairs")
    # other seeds give other draws, unless agreement is likely by chance
    top = max(P(dict(zip(spec.order, c))) for c in itertools.islice(itertools.product(*[range(spec.card(i)) for i in spec.order]), 500)) if len(spec.order) < 5 else 1.0
    if top ** 100 < 1e-13:
        x = sampler.get_samples(evidence={i: spec.values[i][k2] for i, k2 in ev.items()}, n_samples=100, seed=seed % 1000)
        y = sampler.get_samples(evidence={i: spec.values[i][k2] for i, k2 in ev.items()}, n_samples=100, seed=seed % 1000 + 1)
        ctx.check(x != y, "two seeds give the same samples")
        ctx.ev("seed_pairs")
    ctx.nontrivial((spec.key(), sorted(ev.items())))
    ctx.sample({"network": spec.describe(), "evidence": ev, "n": n})


def table_case(ctx, rng, idx):
    """The table of one node looked up at uniform numbers, judged by the interval that contains them."""
    from pybbn.sampling.sampling import Table
    spec = gen.make_big(rng, sorted_parents=True) if idx % 30 == 0 else gen.make_spec(rng, min_n=1, max_n=6, max_joint=2000, sorted_parents=True)
    if rng.random() < 0.3:
        gen.confuse(rng, spec)
        ctx.ev("values_alike")
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any")
    for i in spec.order:
        pas = [nodes[j] for j in spec.parents[i]]
        if spec.parents[i] != sorted(spec.parents[i]):
            ctx.fail("harness: parents not sorted")
        table = Table(nodes[i], pas) if pas or rng.random() < 0.5 else Table(nodes[i])
        ctx.eq(bool(table.has_parents()), bool(pas), "table disagrees about having parents")
        rows = list(itertools.product(*[range(spec.card(j)) for j in spec.parents[i]]))
        if len(rows) > 8:
            rows = [rows[k] for k in rng.choice(len(rows), size=8, replace=False)]
        for r in rows:
            sample = {j: spec.values[j][k] for j, k in zip(spec.parents[i], r)}
            for j in spec.order:      # other variables sampled before do not matter
                if j != i and j not in sample and rng.random() < 0.3:
                    sample[j] = spec.values[j][0]
            row = [float(x) for x in spec.cpt[i][r]]
            cum = np.cumsum(row)
            us = list(rng.random(6)) + [0.0, 1e-9, float(np.nextafter(1.0, 0.0)), 0.5]
            for c in (cum if len(cum) < 30 else rng.choice(cum, size=30)):
                us += [max(0.0, c - 1e-6), min(c + 1e-6, 1 - 1e-9)]
            for u in us:
                v = table.get_value(float(u), sample=sample) if pas or rng.random() < 0.5 else table.get_value(float(u))
                ctx.ev("table_lookups")
                k = spec.values[i].index(v) if v in spec.values[i] else None
                ctx.check(k is not None, "table gives something that is not a value", u=u, value=v)
                ctx.check(row[k] > 0, "table gives a value that has no probability", u=u, value=v, row=row, id=i)
                lo = cum[k] - row[k]
                ctx.check(lo - 1e-9 <= u <= cum[k] + 1e-9, "table gives a value whose interval does not contain the number", u=u, value=v, row=row, id=i, parents=sample)
        ctx.nontrivial((spec.key(), i))
    ctx.ev("evaluations")


def short_case(ctx, rng, idx):
    """Hundreds of short requests with seeds of their own: the number of times a value occurs in one is binomial, and its places are independent."""
    from scipy.stats import binom

    from pybbn.sampling.sampling import LogicSampler
    spec = gen.make_spec(rng, min_n=1, max_n=3, max_joint=60, cpt_mode=gen.pick(rng, ["skew", "dirichlet", "mixed"]))
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng, probs="any")
    orc = exact.Exact(spec)
    ev = {}
    if rng.random() < 0.4:
        i = gen.pick(rng, spec.order)
        k = int(np.argmax([orc.prob({i: k}) for k in range(spec.card(i))]))
        if orc.prob({i: k}) >= 0.2:
            ev[i] = k
    n = int(gen.pick(rng, [1, 2, 3, 5, 10, 20, 40]))
    R = max(150, 3000 // n)
    seeds = rng.choice(2 ** 31, size=R, replace=False)
    if rng.random() < 0.3:
        seeds = np.arange(R) + int(rng.integers(1000))
    sampler = LogicSampler(bbn)
    evidence = {i: spec.values[i][k] for i, k in ev.items()}
    got = []
    for r in range(R):
        if rng.random() < 0.1:
            sampler = LogicSampler(bbn)
        got.append(sampler.get_samples(evidence=dict(evidence), n_samples=n, seed=int(seeds[r])))
    ctx.note.update(evidence=ev, n=n, requests=R)
    ctx.eq({len(g) for g in got}, {n}, "number of samples")
    pe = orc.prob(ev)
    for i in spec.order:
        if i in ev:
            continue
        at = {v: k for k, v in enumerate(spec.values[i])}
        col = np.array([[at[s[i]] for s in g] for g in got])
        for a in range(spec.card(i)):
            p = orc.prob({**ev, i: a}) / pe
            where = dict(variable=spec.names[i], value=spec.values[i][a], exact=p, requests=R, n=n)
            hit = col == a
            for place in sorted({0, n // 2, n - 1}):
                ctx.check(stats.plausible(int(hit[:, place].sum()), R, p, DELTA), "frequency at one place of short requests is off", place=place, seen=int(hit[:, place].sum()), **where)
            for x, y in {(0, n - 1), (0, min(1, n - 1)), (max(0, n - 2), n - 1)}:
                if x != y:
                    both = int((hit[:, x] & hit[:, y]).sum())
                    ctx.check(stats.plausible(both, R, p * p, DELTA), "places of short requests are not independent", places=(x, y), seen=both, **where)
            cnt = hit.sum(axis=1)
            for c in range(n + 1):
                # point and tail probabilities of the count
                q, t = float(binom.pmf(c, n, p)), float(binom.cdf(c, n, p))
                if q > 1e-6:
                    ctx.check(stats.plausible(int((cnt == c).sum()), R, q, DELTA), "the number of times a value occurs in a request is not binomial", count=c, seen=int((cnt == c).sum()), wanted=q, **where)
                if c < n and 1e-6 < t < 1 - 1e-6:
                    ctx.check(stats.plausible(int((cnt <= c).sum()), R, t, DELTA), "the number of times a value occurs in a request is not binomial", count="at most %d" % c, seen=int((cnt <= c).sum()), wanted=t, **where)
                ctx.ev("counts_judged")
    # each seed has a request of its own
    ctx.ev("short_requests", R)
    ctx.ev("samples", n * R)
    ctx.ev("evaluations")
    ctx.nontrivial((spec.key(), n, R, sorted(ev.items())))


def fine_case(ctx, rng, idx):
    """Variables of a million equally likely values: as many different ones must come up as independent draws of full resolution give."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    from pybbn.sampling.sampling import LogicSampler
    K = int(gen.pick(rng, [2 ** 20, 10 ** 6, 999983, 2 ** 20 + 7]))
    m, n = 6, 60000
    values, probs = list(range(K)), np.full(K, 1.0 / K)
    bbn = Bbn()
    for i in range(m):
        bbn.add_node(BbnNode(Variable(i, "x%d" % i, values), probs))
    seed = int(rng.integers(2 ** 31))
    ctx.note.update(values=K, variables=m, samples=n, seed=seed)
    got = LogicSampler(bbn).get_samples(n_samples=n, seed=seed)
    ctx.eq(len(got), n, "number of samples")
    rows = np.array([[x[i] for i in range(m)] for x in got])
    # one draw changes the number of different values by at most one (McDiarmid)
    want = m * K * (1 - (1 - 1.0 / K) ** n)
    radius = math.sqrt(m * n * math.log(2 / DELTA) / 2)
    seen = sum(len(np.unique(rows[:, i])) for i in range(m))
    ctx.check(abs(seen - want) <= radius, "among a million equally likely values, as many different ones do not come up as independent draws give", seen=seen, wanted=want, radius=radius)
    # and every residue and every stretch is as likely as the next
    for i in range(m):
        for q in (2, 3, 10, 16):
            for r in range(q):
                p = len(range(r, K, q)) / K
                ctx.check(stats.plausible(int((rows[:, i] % q == r).sum()), n, p, DELTA), "values of one residue come up too often or too rarely", variable=i, modulus=q, residue=r)
                ctx.check(stats.plausible(int((rows[:, i] * q // K == r).sum()), n, len(range(-(-r * K // q), -(-(r + 1) * K // q))) / K, DELTA), "values of one stretch come up too often or too rarely", variable=i, parts=q, part=r)
    ctx.ev("fine_draws", m * n)
    ctx.ev("samples", n)
    ctx.ev("evaluations")
    ctx.nontrivial((K, seed))


def coins_case(ctx, rng, idx):
    """So many nearly fair variables that no two samples may agree, however rare the evidence."""
    from pybbn.sampling.sampling import LogicSampler
    m = int(rng.integers(44, 60))
    from pybbn.graph.dag import Bbn
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    bbn, nodes = Bbn(), []
    ids = [int(x) for x in rng.permutation(m)]
    seen = int(rng.integers(0, 6))
    for k, i in enumerate(ids):
        pa = nodes[int(rng.integers(max(0, k - 6), k))] if k and rng.random() < 0.5 else None
        if k < seen:
            pa = None
        rows = []
        for _ in range(2 if pa is not None else 1):
            p = float(rng.uniform(0.4, 0.6)) if k >= seen else float(rng.uniform(0.25, 0.6))
            rows += [p, 1 - p]
        x = BbnNode(Variable(i, "x%d" % i, ["t", "f"]), rows)
        nodes.append(x)
        bbn.add_node(x)
        if pa is not None:
            bbn.add_edge(Edge(pa, x, EdgeType.DIRECTED))
    ev = {i: "t" for i in ids[:seen]}
    n = 300
    seed = int(rng.integers(2 ** 31))
    ctx.note.update(variables=m, observed=seen, seed=seed)
    s = LogicSampler(bbn)
    got = s.get_samples(evidence=ev, n_samples=n, seed=seed)
    ctx.eq(len(got), n, "number of samples")
    rows = np.array([[x[i] == "t" for i in ids[seen:]] for x in got])
    ctx.check(all(x[i] == "t" for x in got for i in ev), "a sample contradicts the evidence")
    # two independent samples agree with probability at most 0.52^(m-seen) < 1e-10
    ctx.eq(len({r.tobytes() for r in rows}), n, "samples of a network with more than 2^38 likely states repeat", observed=seen)
    # nor are two samples suspiciously alike or unlike: each pair agrees in about half of the variables
    free = rows.shape[1]
    agree = (2 * rows - 1.0) @ (2 * rows - 1.0).T
    worst = float(np.abs(agree[np.triu_indices(n, 1)]).max())
    ctx.check(worst < free, "two samples are complementary or the same", agreement=worst)
    more = s.get_samples(evidence=ev, n_samples=n, seed=seed + 1)
    ctx.eq(len({r.tobytes() for r in rows} & {np.array([x[i] == "t" for i in ids[seen:]]).tobytes() for x in more}), 0, "samples for one seed are repeated for the next")
    ctx.ev("samples", 2 * n)
    ctx.ev("distinct_samples", n)
    ctx.ev("evaluations")
    ctx.nontrivial((m, seen, seed))
