"""C26 confounder and mediator sets are graphically sound."""
from vmon import dsep

CASES = {"quick": 18000, "thorough": 150000}
FLOORS = {"pairs": 10000, "with_open_back_door": 3000, "confounders_judged": 3000, "mediators_judged": 1500, "mediated_paths": 1500, "blocked_back_door_colliders": 500, "with_long_paths": 300}
RULE = ("random directed acyclic graphs of 2-8 nodes and sparse ones of 10-40 with long paths, all ordered pairs (up to 6 per graph); complete set compared with its definition on an own path enumeration, "
        "minimal sets judged by soundness and by touching every open back-door path; non-trivial = distinct (graph, pair) with an open back-door or a directed path")


def case(ctx, rng, idx):
    from pybbn.causality import do
    long = idx % 12 == 7
    d, G = dsep.random_graph(rng, long=long)
    ctx.note.update(nodes=list(d.nodes), edges=list(d.edges))
    snap = (list(d.nodes), list(d.edges))
    g = do.get_graph(d)
    pairs = [(x, y) for x in G.nodes for y in G.nodes if x != y]
    pairs = [pairs[k] for k in rng.permutation(len(pairs))[:6]]
    for x, y in pairs:
        paths = G.paths(x, y)
        desc = G.descendants(x)
        back = [p for p in paths if p[1] in G.pa[x]]
        open_back = [p for p in back if G.active(p)]
        blocked = [p for p in back if not G.active(p)]
        directed = [p for p in paths if all(b in G.ch[a] for a, b in zip(p, p[1:]))]
        col = set()
        for p in blocked:
            col |= set(G.colliders(p))
        where = dict(x=x, y=y, edges=list(G.edges))
        ctx.ev("pairs")
        if open_back:
            ctx.ev("with_open_back_door")
        if any(len(p) > 10 for p in open_back + directed):
            ctx.ev("with_long_paths")
        if col:
            ctx.ev("blocked_back_door_colliders")
        # complete set
        full = list(do.get_all_confounders(g, x, y))
        ctx.eq(len(set(full)), len(full), "a confounder is reported twice", **where)
        want = {n for p in open_back for n in p[1:-1]} - desc - col - {x, y}
        ctx.eq(set(full), want, "complete confounder set is not the admissible interior of the open back-door paths", **where)
        # minimal set
        mini = list(do.get_minimal_confounders(g, x, y))
        ctx.eq(len(set(mini)), len(mini), "a minimal confounder is reported twice", **where)
        for c in mini:
            ctx.check(c in G.nodes and c not in (x, y) and c not in desc, "a confounder is the cause, the effect, or an effect of the cause", confounder=c, **where)
            ctx.check(any(c in p[1:-1] for p in open_back), "a confounder lies on no open back-door path", confounder=c, **where)
            ctx.ev("confounders_judged")
        for p in open_back:
            if set(p[1:-1]) - desc:
                ctx.check(set(p[1:-1]) & set(mini), "the minimal confounder set leaves an open back-door path untouched", path=p, reported=mini, **where)
                ctx.check(any(not G.active(p, {c}) for c in mini if c in p[1:-1]), "no reported confounder blocks an open back-door path", path=p, reported=mini, **where)
        # mediators
        med = list(do.get_minimal_mediators(g, x, y))
        ctx.eq(len(set(med)), len(med), "a mediator is reported twice", **where)
        for m in med:
            ctx.check(any(m in p[1:-1] for p in directed), "a mediator is not strictly inside a directed path from cause to effect", mediator=m, **where)
            ctx.ev("mediators_judged")
        allcol = set()
        for p in paths:
            allcol |= set(G.colliders(p))
        for p in directed:
            if len(p) > 2 and not set(p[1:-1]) & allcol:
                ctx.check(set(p[1:-1]) & set(med), "a directed path from cause to effect has no reported mediator", path=p, reported=med, **where)
                ctx.ev("mediated_paths")
        # asking again
        ctx.eq(set(do.get_all_confounders(g, x, y)), set(full), "asking again gives another confounder set", **where)
        ctx.eq(set(do.get_minimal_confounders(g, x, y)), set(mini), "asking again gives another minimal set", **where)
        if open_back or directed:
            ctx.nontrivial((sorted(map(repr, G.edges)), repr(x), repr(y)))
    ctx.eq((list(d.nodes), list(d.edges)), snap, "the graph was modified")
    ctx.sample({"edges": list(d.edges), "x": x, "y": y})
