"""C07 the join tree is a valid junction tree."""
import copy

from vmon import gen

CASES = {"quick": 18000, "thorough": 60000}
FLOORS = {"cliques_seen": 8000, "separators_seen": 4000, "forests": 300, "large_structures": 20, "running_intersection_checks": 8000}
RULE = ("random structures (up to 24 nodes, some up to 219, when only the structure is built, up to 9 through full inference; copies and re-applications too); every clique, "
        "separator and link is checked; non-trivial = at least two cliques, distinct by structure, ids and cardinalities")


def check_tree(ctx, spec, jt, what=""):
    cliques = jt.get_cliques()
    seps = jt.get_sep_sets()
    edges = jt.get_edges()
    C = {}
    for c in cliques:
        ids = [n.id for n in c.nodes]
        ctx.eq(len(ids), len(set(ids)), what + "a clique lists a variable twice", clique=ids)
        ctx.eq(set(c.get_node_ids()), set(ids), what + "clique id set and nodes disagree")
        C[c.id] = set(ids)
    ctx.eq(len(C), len(cliques), what + "duplicate cliques")
    ctx.ev("cliques_seen", len(cliques))
    # family cover
    for i in spec.order:
        fam = set(spec.parents[i]) | {i}
        cover = {k for k, v in C.items() if fam <= v}
        ctx.check(cover, what + "no clique covers a variable with its parents", id=i, family=fam, cliques=list(C.values()))
    ctx.eq(set().union(*C.values()) if C else set(), set(spec.order), what + "cliques do not cover exactly the variables")
    # maximality
    L = list(C.values())
    for a in range(len(L)):
        for b in range(len(L)):
            ctx.check(a == b or not (L[a] <= L[b]), what + "a clique is contained in another", a=L[a], b=L[b])
    # edges, separators
    comps = spec.components()
    ctx.eq(len(edges), len(cliques) - len(comps), what + "not one tree per connected component (edge count)", cliques=L)
    ctx.eq(len(seps), len(edges), what + "separators and links disagree in number")
    adj = {k: [] for k in C}
    used = set()
    for e in edges:
        a, b, s = e.i.id, e.j.id, e.sep_set
        ctx.check(a in C and b in C and a != b, what + "a link does not join two cliques")
        ctx.eq({s.left.id, s.right.id}, {a, b}, what + "a separator does not belong to the cliques it joins")
        sn = {n.id for n in s.nodes}
        ctx.eq(len(s.nodes), len(sn), what + "a separator lists a variable twice")
        ctx.eq(sn, C[a] & C[b], what + "a separator is not the intersection of its cliques", left=C[a], right=C[b])
        ctx.check(sn, what + "an empty separator joins unrelated cliques", left=C[a], right=C[b])
        ctx.check(jt.get_node(s.id) is s, what + "separator is not a node of the tree")
        adj[a].append((b, sn))
        adj[b].append((a, sn))
        used.add(s.id)
        ctx.eq(set(jt.get_neighbors(s.id)), {a, b}, what + "neighbours of a separator are not its cliques")
        ctx.ev("separators_seen")
    ctx.eq(used, {s.id for s in seps}, what + "separators and links disagree")
    for k in C:
        nb = [s for s in jt.get_neighbors(k)] if k in jt.neighbors else []
        ctx.eq(len(nb), len(adj[k]), what + "links seen from a clique disagree with the list of links")
        ctx.eq({s for s in nb}, {e.sep_set.id for e in edges if k in (e.i.id, e.j.id)}, what + "separators seen from a clique disagree with the list of links")
    linked = {(s.id, x) for s in seps for x in (s.left.id, s.right.id)}
    flat = sorted(tuple(sorted(map(str, (f.i.id, f.j.id)))) for f in jt.get_flattened_edges())
    ctx.eq(flat, sorted(tuple(sorted(map(str, x))) for x in linked), what + "flattened links differ from the links")
    if len(C) <= 8:
        every = list(C) + [s.id for s in seps]
        for x in every:
            for y in every:
                if x != y:
                    ctx.eq(bool(jt.edge_exists(x, y)), (x, y) in linked or (y, x) in linked, what + "edge_exists disagrees with the list of links", ends=(x, y))
    ctx.eq(len(jt.get_flattened_edges()), 2 * len(edges), what + "flattened links")
    # one tree per component and no cycle: n-1 links per component plus connectivity
    root = {}
    for k in C:
        if k in root:
            continue
        root[k] = k
        st = [k]
        while st:
            x = st.pop()
            for y, _ in adj[x]:
                if y not in root:
                    root[y] = k
                    st.append(y)
    ctx.eq(len(set(root.values())), len(comps), what + "not one tree per connected component")
    where = {}
    for k, comp in enumerate(comps):
        for i in comp:
            where[i] = k
    for k, v in C.items():
        ctx.eq(len({where[i] for i in v}), 1, what + "a clique spans unconnected parts of the network")
    # running intersection
    for i in spec.order:
        mine = [k for k in C if i in C[k]]
        seen = {mine[0]}
        st = [mine[0]]
        while st:
            x = st.pop()
            for y, sn in adj[x]:
                if i in sn and y not in seen:
                    seen.add(y)
                    st.append(y)
        ctx.eq(seen, set(mine), what + "running intersection fails for a variable", id=i, cliques=[sorted(C[k]) for k in mine])
        ctx.ev("running_intersection_checks")
    if len(comps) > 1:
        ctx.ev("forests")
    if len(cliques) > 1:
        ctx.nontrivial(spec.shape_key())
        ctx.sample({"network": spec.describe(), "cliques": [sorted(v) for v in L]})


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.pptc.moralizer import Moralizer
    from pybbn.pptc.transformer import Transformer
    from pybbn.pptc.triangulator import Triangulator
    if idx % 600 == 1:
        spec = gen.make_spec(rng, n=int(rng.integers(66, 220)), max_joint=10 ** 80, max_card=3, cpt_mode="same", shape=gen.pick(rng, ["tree", "polytree", "forest", "blocks", "loop", "chain"]))
        ctx.note["network"] = spec.describe()
        bbn, nodes = gen.build(spec, rng, interleave=True)
        jt = Transformer.transform(Triangulator.triangulate(Moralizer.moralize(bbn)))
        check_tree(ctx, spec, jt, "(large structure) ")
        ctx.ev("large_structures")
    elif idx % 3:
        spec = gen.make_spec(rng, min_n=1, max_n=24, max_joint=10 ** 12, max_card=7, cpt_mode="uniform" if False else "same",
                             shape=gen.pick(rng, [s for s in gen.SHAPES if s not in ("dense",)]))
        ctx.note["network"] = spec.describe()
        bbn, nodes = gen.build(spec, rng, interleave=True)
        jt = Transformer.transform(Triangulator.triangulate(Moralizer.moralize(bbn)))
        check_tree(ctx, spec, jt, "(structure only) ")
    else:
        spec = gen.make_spec(rng, min_n=1, max_n=9, max_joint=2000)
        ctx.note["network"] = spec.describe()
        bbn, nodes = gen.build(spec, rng, interleave=True)
        jt = InferenceController.apply(bbn)
        check_tree(ctx, spec, jt)
        for i in spec.order:
            fam = set(spec.parents[i]) | {i}
            got = {c.id for c in jt.find_cliques_with_node_and_parents(i)}
            ctx.eq(got, {c.id for c in jt.get_cliques() if fam <= set(c.get_node_ids())}, "wrong cliques found for a variable and its parents", id=i)
        for other in (copy.deepcopy(jt), InferenceController.reapply(jt, {})):
            check_tree(ctx, spec, other, "(copied or re-applied tree) ")
