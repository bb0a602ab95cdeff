"""C32 generators reach every network of their kind."""
import itertools
import math

import numpy as np

CASES = {"quick": 48, "thorough": 600}
FLOORS = {"generated": 15000, "structures_reached": 200, "rows_seen": 40000, "moments_judged": 40, "rivals_judged": 60, "rivals_refuted": 30}
RULE = ("batches of 400-2400 networks from consecutive random states; per batch the set of structures, links, value counts and CPT rows is recorded and judged: every "
        "connected acyclic structure (or polytree) on three variables, every ordered pair of 4-7 variables linked, every number of values, first and second moments "
        "of CPT rows against the Dirichlet mixture (Hoeffding, 1e-12 per test), likelihood ratios of the rows against other choices of hyper-parameters (alarm above e**30); non-trivial = distinct structures")
ASSUMPTIONS = ["at least 20 (singly) or 60 (multi) iterations, where each structure on three variables has a frequency above 2 %: a batch misses one with probability "
               "below e**-40", "two variables: only 0 -> 1, since the generator never reverses its only link"]


def structures(n, singly):
    pairs = list(itertools.combinations(range(n), 2))
    out = set()
    for c in itertools.product((0, 1, 2), repeat=len(pairs)):
        E = frozenset((a, b) if k == 1 else (b, a) for (a, b), k in zip(pairs, c) if k)
        if len(E) < n - 1 or singly and len(E) != n - 1:
            continue
        left, ok = set(range(n)), True
        while left and ok:
            src = {x for x in left if not any(a in left and b == x for a, b in E)}
            ok = bool(src)
            left -= src
        comp = {0}
        for _ in range(n):
            comp |= {y for e in E for y in e if comp & set(e)}
        if ok and len(comp) == n:
            out.add(E)
    return out


def second_moment(k, limit):
    """E[p_0^2] of a Dirichlet draw of length k with parameters uniform in 1..limit; exact for two values and for limit 1."""
    if limit == 1:
        return 2.0 / (k * (k + 1))
    tot = 0.0
    for c in itertools.product(range(1, limit + 1), repeat=k):
        s = sum(c)
        tot += c[0] * (c[0] + 1) / (s * (s + 1))
    return tot / limit ** k


def log_density(R, alphas):
    """Log density of each row under the uniform mixture of Dirichlet(a) for a in alphas, up to the same constant for all."""
    from scipy.special import gammaln
    L = np.log(np.maximum(R, 1e-300))
    out = np.full(len(R), -np.inf)
    for a in alphas:
        a = np.array(a, dtype=float)
        out = np.logaddexp(out, L @ (a - 1) + gammaln(a.sum()) - gammaln(a).sum())
    return out - math.log(len(alphas))


def rivals(k, limit):
    """Other ways of choosing hyper-parameters that a mistake could make of it."""
    full = lambda lo, hi: list(itertools.product(range(lo, hi + 1), repeat=k))
    out = {"up to %d" % m: full(1, m) for m in {1, limit - 1, limit + 1} if m >= 1 and m != limit}
    if limit > 1:
        out["from two"] = full(2, limit)
        out["always the limit"] = [(limit,) * k]
        out["the same for all values of a row"] = [(a,) * k for a in range(1, limit + 1)]
        out["different ones"] = [c for c in full(1, limit) if len(set(c)) > 1]
        out["the first one fixed"] = [c for c in full(1, limit) if c[0] == 1]
        out["the last one fixed"] = [c for c in full(1, limit) if c[-1] == 1]
        out["in order"] = [c for c in full(1, limit) if list(c) == sorted(c)]
    return out


def case(ctx, rng, idx):
    from pybbn.generator import bbngenerator as G
    kind = ["multi", "singly"][idx % 2]
    f = {"multi": G.generate_multi_bbn, "singly": G.generate_singly_bbn}[kind]
    mode = idx // 2 % 3
    it = {"multi": 60, "singly": 20}[kind]
    mv, ma = 2, 1
    if mode == 0:
        n, batch = 3, 2400
    elif mode == 1:
        n, batch, it = int(rng.integers(4, 8)), 700, 80
        mv = int(rng.integers(2, 4))
    elif idx % 4 < 2:
        # many rows for a small limit, to see its ends
        n, batch, it, mv = int(rng.integers(6, 9)), 1500, 25, 2 + int(rng.random() < 0.3)
        ma = int(rng.choice([1, 2, 2, 3, 3, 4]))
    else:
        n, batch, it, mv = int(rng.integers(3, 7)), 1200, 4, int(rng.integers(2, 4))
        ma = int(rng.choice([1, 1, 2, 5, 12] if mv == 3 else [1, 1, 2, 10, 40]))
    seed = int(rng.integers(0, 2 ** 31))
    ctx.note.update(kind=kind, n=n, max_iter=it, max_values=mv, max_alpha=ma, networks=batch, first_seed=seed)
    seen, links, counts, rows = {}, {}, {}, {}
    dup = 0
    for k in range(batch):
        np.random.seed(seed + k)
        g, p = f(n, it, mv, ma)
        E = frozenset(tuple(e) for e in g.edges)
        seen[E] = seen.get(E, 0) + 1
        for e in E:
            links[e] = links.get(e, 0) + 1
        first = set()
        for i in p:
            t = np.asarray(p[i]["params"], dtype=float)
            c = t.shape[1]
            counts[c] = counts.get(c, 0) + 1
            rows.setdefault(c, []).extend(t.tolist())
            dup += t.shape[0] - len({tuple(r) for r in t.tolist()})
        ctx.ev("generated")
    ctx.ev("evaluations", batch)
    ctx.ev("structures_reached", len(seen))
    if mode == 0:
        want = structures(n, kind == "singly")
        ctx.check(set(seen) <= want, "a generated structure is no structure of its kind", extra=[sorted(e) for e in set(seen) - want][:3])
        ctx.eq(sorted(map(sorted, seen)), sorted(map(sorted, want)), "the generator never reaches some structures of its kind")
    elif mode == 1:
        want = {(i, j) for i in range(n) for j in range(n) if i != j}
        ctx.eq(set(links), want, "the generator never links some ordered pairs of variables")
        more = sum(c for e, c in seen.items() if len(e) > n - 1)
        ctx.check(kind == "singly" or more > 0, "the multi-connected generator never gives a multi-connected network")
        ctx.check(sum(c for e, c in seen.items() if len(e) == n - 1) > 0 or kind == "multi", "the singly-connected generator never gives a polytree")
    ctx.eq(sorted(counts), list(range(2, mv + 1)), "some allowed number of values never occurs", counts=counts)
    ctx.eq(dup, 0, "two rows of one CPT are the same draw")
    for c, R in rows.items():
        ctx.ev("rows_seen", len(R))
        if len(R) < 1500:
            continue
        R = np.array(R)
        eps = math.sqrt(math.log(2e12) / (2 * len(R)))
        m2 = second_moment(c, ma)
        for j in range(c):
            ctx.check(abs(R[:, j].mean() - 1.0 / c) <= eps, "mean of a CPT entry is off", got=R[:, j].mean(), want=1.0 / c, radius=eps, rows=len(R), values=c)
            ctx.check(abs((R[:, j] ** 2).mean() - m2) <= eps, "spread of a CPT entry does not fit the hyper-parameter limit", got=(R[:, j] ** 2).mean(), want=m2, radius=eps, rows=len(R), values=c)
            ctx.ev("moments_judged")
        # a likelihood ratio against the true mixture exceeds e**30 with probability below e**-30, whatever the rival
        if ma <= 5 and c <= 3:
            keep = np.all(R > 1e-12, axis=1)
            true = log_density(R[keep], list(itertools.product(range(1, ma + 1), repeat=c)))
            for what, alphas in rivals(c, ma).items():
                gain = float((log_density(R[keep], alphas) - true).sum())
                ctx.check(gain < 30, "rows of CPTs fit other hyper-parameters than the integers from one to the limit: " + what, limit=ma, values=c, rows=len(R), log_ratio=gain)
                ctx.ev("rivals_judged")
                if gain < -30:
                    ctx.ev("rivals_refuted")
    for e in seen:
        ctx.nontrivial((kind, n, tuple(sorted(e))))
    ctx.sample({"kind": kind, "n": n, "structures": len(seen), "rows": {c: len(R) for c, R in rows.items()}})
