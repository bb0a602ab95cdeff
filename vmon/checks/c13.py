"""C13 directed graphs can never become cyclic."""
from vmon import gen, graphs

CASES = {"quick": 6000, "thorough": 60000}
FLOORS = {"edges_accepted": 20000, "edges_ignored": 20000, "op_remove_node": 3000, "acyclicity_judged": 50000, "long_cycles_refused": 20, "deep_paths_pdag": 1, "deep_paths_bbn": 1, "ladders": 3}
RULE = ("random edit histories (add node, offer edge of either type incl. repeats, reversals, closings of directed paths of any length, ladders with 2**30 paths, known and fresh node "
        "objects, remove node) on Dag, Bbn and Pdag; edges judged after every step against an acceptance model and by an independent cycle search; "
        "non-trivial = distinct reached graphs with at least 3 edges")
ASSUMPTIONS = ["node ids are integers", "a partially directed graph is only required to be free of fully directed cycles"]


def case(ctx, rng, idx):
    kind = gen.pick(rng, ["dag", "bbn", "pdag"])
    if idx % 600 == 0:
        kind = ["pdag", "dag", "bbn"][idx // 600 % 3]
    if idx % 600 == 300:
        return ladder_case(ctx, rng, ["pdag", "dag", "bbn"][idx // 600 % 3])
    if idx % 60 == 0:
        return long_case(ctx, rng, kind, idx)
    d = graphs.Driver(kind, graphs.pool_ids(rng, texts=True))
    ctx.note.update(kind=kind, ids=d.ids, history=d.trace)
    steps = int(rng.integers(10, 60))
    rem = gen.pick(rng, [0.0, 0.05, 0.15])
    for _ in range(steps):
        d.apply(ctx, d.random_op(rng, rem))
        graphs.invariants(ctx, d.g, kind, history=d.trace[-40:])
        if len(d.m.edges) >= 3:
            ctx.nontrivial((kind, d.m.state()))
    ctx.sample({"kind": kind, "history": d.trace[:12]})


def ladder_case(ctx, rng, kind):
    """Two nodes per layer, each linked to both of the next: the number of paths doubles with every layer, the work to
    judge an edge must not (a case has a budget of CPU time)."""
    n = 2 * int(rng.integers(30, 45))
    ids = gen.make_ids(rng, n, gen.pick(rng, ["seq", "shuffled", "sparse"]))
    d = graphs.Driver(kind, ids)
    ctx.note.update(kind=kind, ids=ids, shape="ladder")
    e = [(a, b) for k in range(0, n - 2, 2) for a in (k, k + 1) for b in (k + 2, k + 3)]
    if rng.random() < 0.5:
        e = [e[int(k)] for k in rng.permutation(len(e))]
    for a, b in e:
        d.apply(ctx, ("edge", ids[a], ids[b], True, False))
    for _ in range(6):
        a, b = int(rng.integers(0, n // 3)), int(rng.integers(2 * n // 3, n))
        d.apply(ctx, ("edge", ids[b], ids[a], True, False))
        d.apply(ctx, ("edge", ids[a], ids[b], True, False))
    d.apply(ctx, ("edge", ids[0], ids[1], True, False))
    d.apply(ctx, ("edge", ids[n - 1], ids[n - 2], True, False))
    graphs.invariants(ctx, d.g, kind)
    ctx.ev("ladders")
    ctx.nontrivial((kind, d.m.state()))


def long_case(ctx, rng, kind, idx):
    """The path that an edge would close is long."""
    deep = idx % 600 == 0
    n = int(rng.integers(1050, 1300)) if deep else int(rng.integers(30, 240))
    ids = gen.make_ids(rng, n, gen.pick(rng, ["seq", "shuffled", "reversed", "sparse"]))
    d = graphs.Driver(kind, ids)
    ctx.note.update(kind=kind, ids=ids)
    order = list(range(n - 1))
    if not deep and rng.random() < 0.5:
        order = [int(k) for k in rng.permutation(n - 1)]
    for k in order:
        d.apply(ctx, ("edge", ids[k], ids[k + 1], True, False))
    for _ in range(6):
        a = int(rng.integers(0, n // 3))
        b = int(rng.integers(2 * n // 3, n))
        d.apply(ctx, ("edge", ids[b], ids[a], True, False))
        ctx.ev("long_cycles_refused")
        d.apply(ctx, ("edge", ids[a], ids[b], True, False))
    k = int(rng.integers(n // 3, 2 * n // 3))
    if deep:
        d.apply(ctx, ("edge", ids[n - 1], ids[0], True, False))     # the longest cycle there is
        ctx.ev("deep_paths_" + kind)
    d.apply(ctx, ("remove", ids[k]))
    d.apply(ctx, ("edge", ids[n - 1], ids[k], True, False))
    d.apply(ctx, ("edge", ids[k], ids[0], True, False))
    graphs.invariants(ctx, d.g, kind)
    ctx.nontrivial((kind, d.m.state()))
