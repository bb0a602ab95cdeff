"""C37 cliques and separators do the algebra of their sets of variables."""
import copy
import pickle

from vmon import gen

CASES = {"quick": 9000, "thorough": 60000}
FLOORS = {"pairs_judged": 60000, "separators_judged": 30000, "empty_separators": 5000, "supersets": 3000, "family_lookups": 10000, "trees": 1500, "marks": 5000, "huge_weights": 100}
RULE = ("pools of variables with hostile ids, names and numbers of values; all ordered pairs of random cliques over them judged against plain Python sets; families of "
        "some of up to 90 variables with weights past 2^63; cliques of live trees (applied, copied, re-applied, read back, pickled) judged against the network; non-trivial = distinct pairs of overlapping cliques")
ASSUMPTIONS = ["a clique has at least one variable and lists each once"]


def product(xs):
    out = 1
    for x in xs:
        out *= x
    return out


def judge_clique(ctx, c, ids, spec):
    ctx.eq(c.id, "-".join(str(i) for i in sorted(ids)), "the id of a clique is not its sorted variable ids")
    ctx.eq(c.get_sid(), "-".join(sorted(spec.names[i] for i in ids)), "the name of a clique is not its sorted variable names")
    ctx.eq(str(c), "(%s)" % ",".join(sorted(spec.names[i] for i in ids)), "the text of a clique is not its sorted variable names")
    ctx.eq(set(c.get_node_ids()), set(ids), "ids of a clique are not those of its variables")
    ctx.eq([n.id for n in c.nodes], list(ids), "a clique does not keep its variables")
    ctx.eq(c.get_weight(), product(spec.card(i) for i in ids), "the weight of a clique is not the product of the numbers of values", ids=ids)
    for i in spec.order:
        ctx.eq(c.contains(i), i in ids, "membership of a variable is wrong", id=i, ids=ids)
    for x in (max(spec.order) + 1, str(ids[0]) if isinstance(ids[0], int) else 0, None):
        ctx.eq(c.contains(x), False, "a clique contains something unknown", id=x)


def judge_pair(ctx, a, b, A, B, spec):
    from pybbn.graph.node import SepSet
    both = set(A) & set(B)
    yes, lhs, rhs, inter = a.intersects(b)
    ctx.eq(bool(yes), bool(both), "two cliques overlap or not", a=A, b=B)
    ctx.eq((sorted(lhs), sorted(rhs), sorted(inter)), (sorted(A), sorted(B), sorted(both)), "the intersection information is wrong", a=A, b=B)
    ctx.eq(bool(a.is_superset(b)), set(A) >= set(B), "superset is wrong", a=A, b=B)
    if set(A) >= set(B):
        ctx.ev("supersets")
    ctx.eq(a.id == b.id, set(A) == set(B), "ids of cliques do not tell them apart", a=A, b=B)
    for s in (a.get_sep_set(b), SepSet(a, b), SepSet(a, b, *a.intersects(b)[1:])):
        ctx.check(s.left is a and s.right is b, "a separator does not know its cliques")
        ctx.eq(sorted(n.id for n in s.nodes), sorted(both), "a separator is not the intersection", a=A, b=B)
        ctx.eq(set(s.get_node_ids()), both, "ids of a separator are not those of its variables", a=A, b=B)
        ctx.eq((s.mass, s.get_mass()), (len(both), len(both)), "the mass is not the number of common variables", a=A, b=B)
        w = product(spec.card(i) for i in A) + product(spec.card(i) for i in B)
        ctx.eq((s.cost, s.get_cost()), (w, w), "the cost is not the sum of the weights of the two cliques", a=A, b=B)
        ctx.eq(bool(s.is_empty), not both, "a separator is empty or not", a=A, b=B)
        ctx.eq(s.get_weight(), product(spec.card(i) for i in both), "the weight of a separator is not the product of the numbers of values", a=A, b=B)
        ctx.eq(s.get_sid(), "-".join(sorted(spec.names[i] for i in both)), "the name of a separator is not its sorted variable names")
        ctx.check(a.is_superset(s) and b.is_superset(s), "a separator is not within its cliques", a=A, b=B)
        ctx.eq(s.is_marked(), False, "a new separator is marked")
        for i in set(A) | set(B):
            ctx.eq(s.contains(i), i in both, "membership of a separator is wrong", id=i)
        ctx.ev("separators_judged")
        if not both:
            ctx.ev("empty_separators")
    ctx.ev("pairs_judged")
    if both and set(A) != set(B):
        ctx.nontrivial((tuple(A), tuple(B), tuple(spec.card(i) for i in A), tuple(spec.card(i) for i in B)))


def trees(rng, spec, bbn):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    jt = InferenceController.apply(bbn)
    kind = gen.pick(rng, ["apply", "copy", "reapply", "dict", "pickle"])
    if kind == "copy":
        return kind, copy.deepcopy(jt)
    if kind == "reapply":
        return kind, InferenceController.reapply(jt, {})
    if kind == "dict":
        return kind, InferenceController.apply_from_serde(JoinTree.from_dict(JoinTree.to_dict(jt, bbn)))
    if kind == "pickle":
        return kind, pickle.loads(pickle.dumps(jt))
    return kind, jt


def case(ctx, rng, idx):
    from pybbn.graph.node import Clique
    live = idx % 3 == 0
    if idx % 50 == 1:
        return huge_case(ctx, rng)
    spec = gen.make_spec(rng, min_n=1, max_n=8 if live else 12, max_joint=500 if live else 10 ** 9, max_card=4)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    sets = []
    for _ in range(int(rng.integers(2, 6))):
        k = int(rng.integers(1, min(len(spec.order), 6) + 1))
        sets.append([spec.order[j] for j in rng.choice(len(spec.order), size=k, replace=False)])
    if rng.random() < 0.5:
        s = gen.pick(rng, sets)
        sets.append([s[j] for j in rng.permutation(len(s))][: int(rng.integers(1, len(s) + 1))])
    made = [Clique([nodes[i] for i in s]) for s in sets]
    # marks belong to one clique each
    on = [bool(rng.random() < 0.5) for _ in made]
    for c, m in zip(made, on):
        ctx.eq(c.is_marked(), False, "a new clique is marked")
        if m:
            c.mark()
        elif rng.random() < 0.3:
            c.mark()
            c.unmark()
    for c, s in zip(made, sets):
        judge_clique(ctx, c, s, spec)
    for a, A in zip(made, sets):
        for b, B in zip(made, sets):
            judge_pair(ctx, a, b, A, B, spec)
    ctx.eq([c.is_marked() for c in made], on, "marks of cliques changed")
    ctx.ev("marks", len(made))
    for c, s in zip(made, sets):
        judge_clique(ctx, c, s, spec)
    if not live:
        return
    kind, jt = trees(rng, spec, bbn)
    ctx.note["tree"] = kind
    ctx.ev("trees")
    for _ in range(2):
        C = [(c, [n.id for n in c.nodes]) for c in jt.get_cliques()]
        for c, ids in C:
            judge_clique(ctx, c, ids, spec)
        for s in jt.get_sep_sets():
            L, R = [n.id for n in s.left.nodes], [n.id for n in s.right.nodes]
            ctx.eq(s.cost, product(spec.card(i) for i in L) + product(spec.card(i) for i in R), "the cost in a tree is wrong", tree=kind)
            ctx.eq(s.mass, len(set(L) & set(R)), "the mass in a tree is wrong", tree=kind)
            ctx.eq((bool(s.is_empty), s.get_weight(), set(s.get_node_ids())), (False, product(spec.card(i) for i in set(L) & set(R)), set(L) & set(R)), "a separator in a tree is wrong", tree=kind)
            ctx.ev("separators_judged")
        for i in spec.order:
            fam = set(spec.parents[i]) | {i}
            got = sorted(sorted(n.id for n in c.nodes) for c in jt.find_cliques_with_node_and_parents(i))
            ctx.eq(got, sorted(sorted(ids) for _, ids in C if fam <= set(ids)), "cliques with a variable and its parents are wrong", id=i, tree=kind)
            ctx.ev("family_lookups")
        jt.unmark_cliques()
        ctx.eq([c.is_marked() for c, _ in C], [False] * len(C), "unmarking the cliques of a tree leaves a mark")
        for c, _ in C[::2]:
            c.mark()
        ctx.eq([c.is_marked() for c, _ in C], [k % 2 == 0 for k in range(len(C))], "marks of cliques in a tree are shared")
    ctx.sample({"network": spec.describe(), "tree": kind, "cliques": [ids for _, ids in C]})


def huge_case(ctx, rng):
    """Cliques whose weights do not fit into machine integers."""
    from pybbn.graph.node import BbnNode, Clique
    from pybbn.graph.variable import Variable

    class Pool(object):
        pass
    n = int(rng.integers(30, 90))
    spec = Pool()
    ids = gen.make_ids(rng, n, gen.pick(rng, ["seq", "shuffled", "sparse"]))
    spec.order = list(ids)
    cards = {i: int(rng.integers(2, 12)) for i in ids}
    spec.card = cards.get
    spec.names = {i: "n%d" % k for k, i in enumerate(ids)}
    nodes = {i: BbnNode(Variable(i, spec.names[i], ["v%d" % k for k in range(cards[i])]), []) for i in ids}
    ctx.note["values"] = cards
    sets = []
    for _ in range(3):
        k = int(rng.integers(1, n + 1))
        sets.append([ids[j] for j in rng.permutation(n)[:k]])
    sets.append(list(ids))
    made = [Clique([nodes[i] for i in s]) for s in sets]
    for c, s in zip(made, sets):
        judge_clique(ctx, c, s, spec)
        if c.get_weight() >= 2 ** 63:
            ctx.ev("huge_weights")
    for a, A in zip(made, sets):
        for b, B in zip(made, sets):
            judge_pair(ctx, a, b, A, B, spec)
    ctx.ev("evaluations")
