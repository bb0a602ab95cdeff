"""C20 generated networks are valid."""
import numpy as np

from vmon import gen

CASES = {"quick": 4500, "thorough": 40000}
FLOORS = {"generated": 3000, "singly": 1000, "multi": 1000, "rows_judged": 20000, "changed_structures": 800, "sizes_over_forty": 150}
RULE = ("singly and multi generators over sizes 1-25 and up to 130, iterations 0-200, 2-6 values, alpha limits 1-20, random global states; graph judged by an independent "
        "connectivity/cycle/edge-count check, parameters by shape and simplex checks; equal random states must reproduce; non-trivial = distinct structures")
ASSUMPTIONS = ["sizes at least 1, value limit at least 2, alpha limit at least 1"]


def judge_graph(ctx, g, n, kind):
    ctx.eq(sorted(g.nodes), list(range(n)), "nodes are not exactly the requested ones")
    E = [tuple(e) for e in g.edges]
    ctx.eq(len(set(frozenset(e) for e in E)), len(E), "duplicate or antiparallel edge", edges=E)
    ctx.check(all(a != b and 0 <= a < n and 0 <= b < n for a, b in E), "edge outside the nodes or self loop", edges=E)
    # connected
    adj = {i: set() for i in range(n)}
    for a, b in E:
        adj[a].add(b)
        adj[b].add(a)
    seen, stack = {0}, [0]
    while stack:
        for y in adj[stack.pop()]:
            if y not in seen:
                seen.add(y)
                stack.append(y)
    ctx.eq(len(seen), n, "generated graph is not connected", edges=E)
    # acyclic
    indeg = {i: 0 for i in range(n)}
    for a, b in E:
        indeg[b] += 1
    ready = [i for i in indeg if not indeg[i]]
    done = 0
    while ready:
        x = ready.pop()
        done += 1
        for a, b in E:
            if a == x:
                indeg[b] -= 1
                if not indeg[b]:
                    ready.append(b)
    ctx.eq(done, n, "generated graph has a directed cycle", edges=E)
    if kind == "singly":
        ctx.eq(len(E), n - 1, "generated graph is not singly connected", edges=E)
    return E


def judge_params(ctx, g, p, n, max_values, E):
    ctx.eq(sorted(p), list(range(n)), "parameters are not for exactly the nodes")
    card = {i: int(p[i]["shape"][1]) for i in p}
    for i in range(n):
        pas = list(p[i]["parents"])
        ctx.eq(sorted(pas), sorted(a for a, b in E if b == i), "recorded parents are not the graph's", node=i)
        ctx.check(2 <= card[i] <= max_values, "number of values out of range", node=i, values=card[i], max_values=max_values)
        rows = 1
        for q in pas:
            rows *= card[q]
        ctx.eq([int(x) for x in p[i]["shape"]], [rows, card[i]], "recorded shape is wrong", node=i)
        t = np.asarray(p[i]["params"])
        ctx.eq(t.shape, (rows, card[i]), "CPT has the wrong shape", node=i)
        ctx.check(bool(np.all(np.isfinite(t)) and np.all(t >= 0)), "CPT entry is not a probability", node=i)
        ctx.close(t.sum(axis=1), np.ones(rows), "a CPT row does not sum to one", rtol=1e-9, node=i)
        ctx.ev("rows_judged", rows)


def plain(g, p):
    return (list(g.nodes), [tuple(e) for e in g.edges], [(i, list(map(int, p[i]["parents"])), list(map(int, p[i]["shape"])), np.asarray(p[i]["params"]).tolist()) for i in p])


def case(ctx, rng, idx):
    from pybbn.generator import bbngenerator as G
    for _ in range(2):
        kind = gen.pick(rng, ["singly", "multi"])
        n = int(gen.pick(rng, [1, 2, 3, 4, 5, 6, 8, 12, 25], ) if rng.random() < 0.8 else rng.integers(1, 16))
        it = int(gen.pick(rng, [0, 1, 3, 10, 40, 200]))
        if rng.random() < 0.03:
            n = int(gen.pick(rng, [45, 60, 90, 130]))
            ctx.ev("sizes_over_forty")
        if n > 10:
            it = min(it, 40)
        mv = int(gen.pick(rng, [2, 2, 3, 4, 6]))
        ma = int(gen.pick(rng, [1, 2, 10, 20]))
        seed = int(rng.integers(0, 2 ** 32 - 1))
        ctx.note.update(kind=kind, n=n, max_iter=it, max_values=mv, max_alpha=ma, seed=seed)
        f = G.generate_singly_bbn if kind == "singly" else G.generate_multi_bbn
        # a guard: dense parents make tables explode, not the generator's fault
        np.random.seed(seed)
        if kind == "multi" and n > 6:
            mv = 2 if n > 10 else min(mv, 3)
            it = min(it, 60 if n < 40 else n // 2)
        defaults = rng.random() < 0.1
        args = (n,) if defaults else (n, it, mv, ma)
        if defaults:
            mv = 2
        g, p = f(*args)
        ctx.ev("generated")
        ctx.ev(kind)
        ctx.ev("evaluations")
        E = judge_graph(ctx, g, n, kind)
        judge_params(ctx, g, p, n, mv, E)
        if E != [(i, i + 1) for i in range(n - 1)]:
            ctx.ev("changed_structures")
        one = plain(g, p)
        # an equal random state gives an equal network, whatever happened in between
        if rng.random() < 0.5:
            np.random.seed(int(rng.integers(1000)))
            f(3, 4, 3, 5)
        np.random.seed(seed)
        two = plain(*f(*args))
        ctx.eq(repr(two), repr(one), "equal random states give different networks")
        ctx.eq(repr(plain(g, p)), repr(one), "generating again changed an earlier network")
        ctx.nontrivial((kind, n, tuple(E), tuple(int(p[i]["shape"][1]) for i in p)))
    ctx.sample({"kind": kind, "n": n, "max_iter": it, "edges": E})
