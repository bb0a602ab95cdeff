"""C25 path activity is d-separation."""
from vmon import dsep, gen

CASES = {"quick": 21000, "thorough": 120000}
FLOORS = {"pairs": 4000, "paths_judged": 20000, "separations_judged": 8000, "separated": 1500, "connected": 1500, "opened_by_descendant": 100, "long_paths_judged": 800}
RULE = ("random directed acyclic graphs of 2-8 nodes, and sparse ones of 10-40 with long paths, with string and integer labels, all kinds of pairs, random conditioning sets; path sets judged against an own "
        "enumeration, activity per path against the definition and over paths against moralised-ancestral separation; non-trivial = distinct (graph, pair, set) with a path")


def case(ctx, rng, idx):
    from pybbn.causality import do
    long = idx % 12 == 7
    d, G = dsep.random_graph(rng, long=long)
    ctx.note.update(nodes=list(d.nodes), edges=list(d.edges))
    snap = (list(d.nodes), list(d.edges))
    g = do.get_graph(d)
    ctx.eq(({frozenset(e) for e in g.u.edges}, set(g.u.nodes), g.u.is_directed()), ({frozenset(e) for e in G.edges}, set(G.nodes), False), "undirected skeleton is wrong")
    ctx.eq((set(g.d.edges), set(g.d.nodes)), (set(G.edges), set(G.nodes)), "directed graph is wrong")
    for _ in range(4):
        x, y = [G.nodes[k] for k in rng.permutation(len(G.nodes))[:2]]
        want = G.paths(x, y)
        got = [tuple(p) for p in do.get_all_paths(g, x, y)]
        ctx.eq(sorted(got, key=repr), sorted(want, key=repr), "simple paths are missing, repeated or invented", x=x, y=y)
        ctx.ev("pairs")
        meta = list(do.get_paths(g, x, y))
        ctx.eq(sorted((tuple(m["path"]) for m in meta), key=repr), sorted(want, key=repr), "reported paths are missing, repeated or invented", x=x, y=y)
        for m in meta:
            p = tuple(m["path"])
            col = G.colliders(p)
            ctx.eq((m["x"], m["y"]), (x, y), "a path is reported for another pair", path=p)
            ctx.eq(sorted(m["colliders"], key=repr), sorted(col, key=repr), "colliders of a path are wrong", path=p)
            ctx.eq(sorted(m["z"], key=repr), sorted(set(p[1:-1]) - set(col), key=repr), "non-colliders of a path are wrong", path=p)
            ctx.eq(bool(m["is_active"]), G.active(p), "activity of a path is wrong", path=p)
            ctx.eq((bool(m["backdoor"]), bool(m["frontdoor"])), (p[1] in G.pa[x], p[1] in G.ch[x]), "front or back door of a path is wrong", path=p)
            ctx.ev("paths_judged")
            if len(p) > 10:
                ctx.ev("long_paths_judged")
        others = [n for n in G.nodes if n not in (x, y)]
        for rep in range(3):
            m = int(rng.integers(0, len(others) + 1)) if rng.random() < 0.5 else min(len(others), int(rng.integers(0, 3)))
            Z = {others[k] for k in rng.permutation(len(others))[:m]}
            keep = set(Z)
            acts = []
            for p in want:
                a = bool(do.is_active_path(g, list(p), Z)) if Z or rng.random() < 0.5 else bool(do.is_active_path(g, list(p)))
                ctx.eq(a, G.active(p, Z), "activity of a path under conditioning is wrong", path=p, given=sorted(Z, key=repr))
                acts.append(a)
                if a and set(G.colliders(p)) - Z:
                    ctx.ev("opened_by_descendant")
                ctx.eq(bool(do.is_active_path(g, list(p)[::-1], Z)), a, "activity depends on the direction a path is read in", path=p)
                if len(p) > 2:
                    k = int(rng.integers(1, len(p) - 1))
                    t = (p[k - 1], p[k], p[k + 1])
                    ctx.eq(bool(do.is_active_triplet(g, *t, Z)), G.active(t, Z), "activity of a triplet is wrong", triplet=t, given=sorted(Z, key=repr))
            sep = G.separated(x, y, Z)
            ctx.eq(any(acts), not sep, "some path is active although the nodes are separated, or the reverse", x=x, y=y, given=sorted(Z, key=repr))
            ctx.ev("separations_judged")
            ctx.ev("separated" if sep else "connected")
            ctx.eq(Z, keep, "the conditioning set was modified")
            if want:
                ctx.nontrivial((sorted(map(repr, G.edges)), repr(x), repr(y), sorted(map(repr, Z))))
    ctx.eq((list(d.nodes), list(d.edges)), snap, "the graph was modified")
    ctx.sample({"edges": list(d.edges), "x": x, "y": y})
