"""C14 graph views agree with each other and with a set model under any edit history."""
from vmon import gen, graphs

CASES = {"quick": 13500, "thorough": 40000}
FLOORS = {"views_judged": 10000, "op_remove_node": 3000, "readded_after_removal": 500}
RULE = ("random edit histories on Ug, Dag, Bbn and Pdag (re-adding removed nodes included); every view judged against a model that is just a list of nodes and a "
        "list of edges, every few steps and at the end; non-trivial = distinct judged graphs with at least 2 edges")
ASSUMPTIONS = ["node ids of one graph are all integers or all texts, names unique", "undirected graphs are offered undirected edges only"]


def case(ctx, rng, idx):
    kind = graphs.KINDS[idx % 4]
    d = graphs.Driver(kind, graphs.pool_ids(rng, 2, 8, texts=True))
    ctx.note.update(kind=kind, ids=d.ids, history=d.trace)
    unknown = max(d.ids) + 3 if isinstance(d.ids[0], int) else "zz"
    removed = set()
    rem = gen.pick(rng, [0.05, 0.12, 0.25])
    every = int(rng.integers(1, 6))
    for t in range(int(rng.integers(8, 45))):
        d.apply(ctx, d.random_op(rng, rem))
        op = d.trace[-1]
        if op[0] == "remove":
            removed.add(op[1])
        back = removed & set(d.m.nodes)
        if back:
            ctx.ev("readded_after_removal")
            removed -= back
        if t % every == 0 or op[0] == "remove":
            graphs.views(ctx, d.g, d.m, d.ids + [unknown], history=d.trace[-40:])
            if len(d.m.edges) >= 2:
                ctx.nontrivial((kind, d.m.state()))
    graphs.views(ctx, d.g, d.m, d.ids + [unknown], history=d.trace[-40:])
    ctx.sample({"kind": kind, "history": d.trace[:12]})
