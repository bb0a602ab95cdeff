"""C28 potential operations are factor algebra."""
import itertools

import numpy as np

from vmon import gen

CASES = {"quick": 15000, "thorough": 70000}
FLOORS = {"multiplications": 2000, "marginalisations": 2000, "divisions": 2000, "normalisations": 2000, "lookups": 4000, "cpts": 2000, "messages": 1500, "zero_divisions": 500, "big_potentials": 30, "values_of_one_text": 400}
RULE = ("random potentials over 1-5 variables with 1-4 values, some of thousands of entries (zeros, all-zero, tiny, huge and integer entries; entry order as built or shuffled), some variables with values that differ in type only (1 and \"1\"), operands over "
        "any subset in any order; results compared with numpy arrays, operands snapshotted; non-trivial = distinct operand tables over at least 2 variables")


def make_nodes(rng, n):
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    ids = gen.make_ids(rng, n, gen.pick(rng, gen.ID_STYLES))
    st = gen.pick(rng, gen.VALUE_STYLES)
    out = []
    alike = rng.random() < 0.1
    for i in ids:
        k = int(rng.integers(2, 5)) if rng.random() < 0.93 else 1
        v = gen.make_values(rng, i, k, st)
        if alike and rng.random() < 0.7:
            # different values with one text
            pool = [1, "1", 2.5, "2.5", None, "None", ("a",), "('a',)", False, "False", b"x", "b'x'"]
            j = 2 * int(rng.integers(6))
            v = [pool[(j + q) % len(pool)] for q in rng.permutation(k)]
        out.append(BbnNode(Variable(i, "n%d" % i, v), []))
    return out


def table(rng, shape):
    r = rng.random()
    t = rng.random(shape)
    if r < 0.35:
        t = t * (rng.random(shape) < 0.6)
    elif r < 0.42:
        t = np.zeros(shape)
    elif r < 0.52:
        t = t * 10.0 ** -float(gen.pick(rng, [200, 200, 290, 300, 305, 307]))
    elif r < 0.6:
        t = t * 10.0 ** rng.integers(-12, 12, size=shape)
    elif r < 0.7:
        t = rng.integers(0, 4, size=shape).astype(float)
    return t


def fill(rng, nodes, t):
    """A potential over the nodes with the values of t; entries in the order they are built or shuffled."""
    from pybbn.graph.potential import PotentialUtil
    p = PotentialUtil.get_potential_from_nodes(nodes)
    for e, x in zip(p.entries, t.reshape(-1)):
        e.value = float(x)
    return p


def shuffle(rng, p):
    p.entries = [p.entries[k] for k in rng.permutation(len(p.entries))]
    return p


def read(ctx, nodes, p, what):
    """Potential -> array with axes in the order of nodes; checks that every combination occurs exactly once."""
    shape = [len(n.variable.values) for n in nodes]
    out = np.full(shape, np.nan)
    at = [{v: k for k, v in enumerate(n.variable.values)} for n in nodes]
    ctx.eq(len(p.entries), int(np.prod(shape)), what + ": wrong number of entries")
    for e in p.entries:
        ctx.eq(set(e.entries), {n.id for n in nodes}, what + ": an entry is over other variables")
        k = tuple(a[e.entries[n.id]] for n, a in zip(nodes, at))
        ctx.check(np.isnan(out[k]), what + ": a combination occurs twice", entry=str(e))
        out[k] = e.value
    return out


def snap(p):
    return [(tuple(e.entries.items()), e.value) for e in p.entries]


def order_of(nodes):
    return [tuple(zip((n.id for n in nodes), c)) for c in itertools.product(*[n.variable.values for n in nodes])]


def big_case(ctx, rng):
    """A table of thousands of entries: building, layout, normalising, dividing and looking up one entry."""
    from pybbn.graph.potential import PotentialEntry, PotentialUtil as U
    spec = gen.make_big(rng, kind=gen.pick(rng, ["table", "values"]))
    bbn, nodes = gen.build(spec, rng, probs="any")
    i = max(spec.order, key=lambda j: spec.cpt[j].size)
    family = [nodes[j] for j in spec.parents[i]] + [nodes[i]]
    ctx.note["family"] = [len(n.variable.values) for n in family]
    flat = [float(x) for x in nodes[i].probs]
    p = U.get_potential(nodes[i], family[:-1])
    ctx.eq([(tuple(e.entries.items()), float(e.value)) for e in p.entries], list(zip(order_of(family), flat)), "a large CPT is not laid out over parents then node, node fastest")
    total = sum(flat)
    q = U.divide(p, U.get_potential_from_nodes(family))
    ctx.eq([float(e.value) for e in q.entries], flat, "dividing a large potential by ones changes it")
    k = int(rng.integers(len(flat)))
    ent = PotentialEntry()
    for a, b in order_of(family)[k]:
        ent.add(a, b)
    ctx.check([e is p.entries[k] for e in p.get_matching_entries(ent)] == [True], "looking up one entry of a large potential does not give that entry")
    U.normalize(q)
    ctx.close(np.array([e.value for e in q.entries]), np.array(flat) / total, "normalising a large potential", rtol=1e-9, atol=0)
    # multiplying by a potential over one or two of its variables, and summing down to them
    few = [family[k] for k in sorted(rng.choice(len(family), size=min(len(family), int(rng.integers(1, 3))), replace=False))]
    small = U.get_potential_from_nodes(few)
    for e in small.entries:
        e.value = float(rng.choice([0.0, 1.0, 0.5, rng.random()]))
    U.multiply(p, small)
    factor = {tuple(e.entries.items()): e.value for e in small.entries}
    ids = {n.id for n in few}
    want = [x * factor[tuple((a, b) for a, b in o if a in ids)] for x, o in zip(flat, order_of(family))]
    ctx.eq([float(e.value) for e in p.entries], want, "multiplying a large potential by a small one", variables=[n.id for n in few])
    ctx.eq([e.value for e in small.entries], list(factor.values()), "multiplying changed the smaller operand")
    ctx.ev("big_potentials")
    ctx.ev("evaluations")
    ctx.nontrivial((tuple(n.id for n in family), tuple(flat[:50])))


def case(ctx, rng, idx):
    from pybbn.graph.jointree import JoinTree
    from pybbn.graph.node import Clique, SepSet
    from pybbn.graph.potential import Potential, PotentialEntry, PotentialUtil as U
    if idx % 200 == 7:
        return big_case(ctx, rng)
    n = int(rng.integers(1, 6))
    nodes = make_nodes(rng, n)
    while np.prod([len(x.variable.values) for x in nodes]) > 300:
        nodes.pop()
    n = len(nodes)
    shape = [len(x.variable.values) for x in nodes]
    ctx.note["nodes"] = [(x.id, x.variable.values) for x in nodes]
    one_text = any(len(set(map(str, x.variable.values))) < len(x.variable.values) for x in nodes)
    if one_text:
        ctx.ev("values_of_one_text")
    # -- building
    p = U.get_potential_from_nodes(nodes)
    ctx.eq([tuple(e.entries.items()) for e in p.entries], order_of(nodes), "building from nodes does not enumerate the combinations in declared order, last variable fastest")
    ctx.check(all(e.value == 1.0 for e in p.entries), "a new potential is not all ones")
    ctx.eq([tuple(x) for x in U.get_cartesian_product([x.variable.values for x in nodes])], list(itertools.product(*[x.variable.values for x in nodes])), "cartesian product is wrong")
    # -- CPT layout
    child, parents = nodes[-1], nodes[:-1]
    cpt = table(rng, shape)
    child.probs = [float(x) for x in cpt.reshape(-1)] if rng.random() < 0.7 else cpt.reshape(-1)
    keep = list(child.probs)
    q = U.get_potential(child, parents)
    ctx.eq([(tuple(e.entries.items()), float(e.value)) for e in q.entries], list(zip(order_of(nodes), [float(x) for x in keep])), "a CPT is not laid out over parents then node, node fastest")
    ctx.check(list(child.probs) == keep and len(parents) == n - 1, "building a node's potential changed the node")
    for e in q.entries:
        e.value = -1.0
    ctx.check(list(child.probs) == keep, "changing a potential changed the CPT it was built from")
    ctx.ev("cpts")
    # -- lookup
    A = table(rng, shape)
    big = fill(rng, nodes, A)
    if rng.random() < 0.5:
        shuffle(rng, big)
    before = snap(big)
    for _ in range(2):
        m = int(rng.integers(0, n + 1))
        sub = [nodes[k] for k in rng.permutation(n)[:m]]
        want = {x.id: gen.pick(rng, x.variable.values) for x in sub}
        ent = PotentialEntry()
        for k, v in want.items():
            ent.add(k, v)
        if rng.random() < 0.15:
            want["other"] = 1
            ent.add("other", 1)
        got = big.get_matching_entries(ent)
        ctx.check(all(any(g is e for e in big.entries) for g in got), "lookup returns something that is not an entry of the potential")
        ctx.eq(sorted(map(str, [sorted(g.entries.items(), key=str) for g in got])), sorted(str(sorted(e.entries.items(), key=str)) for e in big.entries if all(e.entries.get(k, None) == v and k in e.entries for k, v in want.items())), "lookup does not return exactly the entries that agree", wanted=want)
        for e in big.entries:
            ctx.eq(bool(e.matches(ent)), all(k in e.entries and e.entries[k] == v for k, v in want.items()), "matches is wrong", wanted=want)
        ctx.ev("lookups")
    e = gen.pick(rng, big.entries)
    d = e.duplicate()
    ctx.eq((d.entries, d.value), (e.entries, e.value), "a duplicated entry differs")
    d.value, d.entries[nodes[0].id] = -5.0, "spoiled"
    ctx.eq(snap(big), before, "changing a duplicated entry changed the original")
    if not one_text and not any(c in str(x) for y in nodes for x in y.variable.values for c in "|="):
        dd = Potential.to_dict([big])
        ctx.eq(dd, {"|".join("%s=%s" % (i, dict(k)[i]) for i in sorted(dict(k))): v for k, v in before}, "dictionary form differs from the entries")
    str(big), repr(big)
    ctx.eq(snap(big), before, "a lookup changed the potential")
    # -- multiplication by a potential over a subset, in any order
    m = int(rng.integers(0 if n > 1 else 1, n + 1))
    pos = [int(k) for k in rng.permutation(n)[:m]]
    sub = [nodes[k] for k in pos]
    B = table(rng, [shape[k] for k in pos])
    small = fill(rng, sub, B)
    if rng.random() < 0.4:
        shuffle(rng, small)
    sb = snap(small)
    U.multiply(big, small)
    dims = [1] * n
    for k in pos:
        dims[k] = shape[k]
    Bb = np.transpose(B, np.argsort(pos)).reshape(dims) if m else B.reshape(dims)
    ctx.close(read(ctx, nodes, big, "multiply"), A * Bb, "multiplication does not scale each entry by its matching entry", rtol=1e-12, atol=0)
    ctx.eq([k for k, _ in snap(big)], [k for k, _ in before], "multiplication reordered the entries")
    ctx.eq(snap(small), sb, "multiplication changed the smaller operand")
    ctx.ev("multiplications")
    # -- marginalisation
    jt = JoinTree()
    cl = Clique(nodes)
    jt.add_node(cl)
    jt.add_potential(cl, fill(rng, nodes, A))
    if rng.random() < 0.4:
        shuffle(rng, jt.potentials[cl.id])
    b2 = snap(jt.potentials[cl.id])
    M = U.marginalize_for(jt, cl, sub)
    want = np.transpose(A.sum(axis=tuple(k for k in range(n) if k not in pos)), [sorted(pos).index(k) for k in pos]) if m else A.sum()
    ctx.close(read(ctx, sub, M, "marginalise"), want, "marginalisation does not sum exactly the matching entries", rtol=1e-12, atol=0)
    ctx.eq([tuple(e.entries.items()) for e in M.entries], order_of(sub), "a marginal is not in declared order")
    ctx.eq(snap(jt.potentials[cl.id]), b2, "marginalisation changed the clique's potential")
    ctx.ev("marginalisations")
    # -- normalisation
    C = table(rng, shape)
    N = fill(rng, nodes, C)
    R = U.normalize(N)
    tot = C.sum()
    ctx.close(read(ctx, nodes, R, "normalise"), C / tot if tot != 0 else C, "normalisation does not preserve ratios and sum to one (or changes an all-zero potential)", rtol=1e-12, atol=0)
    ctx.check(R is N or snap(R) == snap(N), "normalisation returns one thing and leaves another")
    ctx.ev("normalisations")
    # -- division
    Nn, Dd = table(rng, [shape[k] for k in pos]), table(rng, [shape[k] for k in pos])
    num, den = fill(rng, sub, Nn), fill(rng, sub, Dd)
    s1, s2 = snap(num), snap(den)
    with np.errstate(all="ignore"):
        Q = np.where((Nn == 0) | (Dd == 0), 0.0, Nn / np.where(Dd == 0, 1.0, Dd))
    if np.all(np.isfinite(Q)):
        r = U.divide(num, den)
        ctx.close(read(ctx, sub, r, "divide"), Q, "division is not entrywise with x/0 = 0", rtol=1e-12, atol=0)
        ctx.eq((snap(num), snap(den)), (s1, s2), "division changed an operand")
        for e in r.entries:
            e.value = -3.0
        ctx.eq((snap(num), snap(den)), (s1, s2), "the quotient shares entries with an operand")
        ctx.ev("divisions")
        if np.any((Dd == 0) & (Nn != 0)):
            ctx.ev("zero_divisions")
    # -- a message between two cliques through what they share
    if n >= 2:
        message_case(ctx, rng, nodes, shape)
        ctx.nontrivial((tuple(x.id for x in nodes), A.tobytes(), B.tobytes(), tuple(pos)))
    ctx.ev("evaluations")
    ctx.sample({"nodes": ctx.note["nodes"], "subset": [x.id for x in sub], "table": A.reshape(-1)[:12]})


def message_case(ctx, rng, nodes, shape):
    from pybbn.graph.edge import JtEdge
    from pybbn.graph.jointree import JoinTree
    from pybbn.graph.node import Clique
    from pybbn.graph.potential import PotentialUtil as U
    n = len(nodes)
    perm = [int(k) for k in rng.permutation(n)]
    s = int(rng.integers(1, n)) if n > 2 else 1
    shared = perm[:s]
    rest = perm[s:]
    cut = int(rng.integers(0, len(rest) + 1)) if len(rest) > 1 else 1
    xs, ys = sorted(shared + rest[:cut]), sorted(shared + rest[cut:])
    if set(xs) == set(ys):
        return
    X, Y = Clique([nodes[k] for k in xs]), Clique([nodes[k] for k in ys])
    S = X.get_sep_set(Y)
    ctx.eq({x.id for x in S.nodes}, {nodes[k].id for k in shared}, "a separator is not the intersection of its cliques")
    ctx.eq((S.get_mass(), S.get_cost()), (len(shared), int(np.prod([shape[k] for k in xs]) + np.prod([shape[k] for k in ys]))), "mass or cost of a separator is wrong")
    jt = JoinTree()
    jt.add_edge(JtEdge(S))
    tx, ty = table(rng, [shape[k] for k in xs]), table(rng, [shape[k] for k in ys])
    so = [next(k for k in shared if nodes[k].id == x.id) for x in S.nodes]
    ts = table(rng, [shape[k] for k in so]) if rng.random() < 0.6 else np.ones([shape[k] for k in so])
    jt.add_potential(X, fill(rng, [nodes[k] for k in xs], tx))
    jt.add_potential(Y, fill(rng, [nodes[k] for k in ys], ty))
    jt.add_potential(S, fill(rng, S.nodes, ts))
    U.pass_single_message(jt, X, S, Y)
    m = tx.sum(axis=tuple(a for a, k in enumerate(xs) if k not in shared))          # axes: shared in xs order
    xo = [k for k in xs if k in shared]
    m = np.transpose(m, [xo.index(k) for k in so])
    with np.errstate(all="ignore"):
        ratio = np.where((m == 0) | (ts == 0), 0.0, m / np.where(ts == 0, 1.0, ts))
    dims = [shape[k] if k in shared else 1 for k in ys]
    yo = [k for k in ys if k in shared]
    full = np.transpose(ratio, [so.index(k) for k in yo]).reshape(dims)
    with np.errstate(all="ignore"):
        want = ty * full
    if not np.all(np.isfinite(want)):
        return
    ctx.close(read(ctx, [nodes[k] for k in xs], jt.potentials[X.id], "message source"), tx, "a message changed its source", rtol=0, atol=0)
    ctx.close(read(ctx, S.nodes, jt.potentials[S.id], "separator"), m, "a message does not leave the new marginal in the separator", rtol=1e-12, atol=0)
    ctx.close(read(ctx, [nodes[k] for k in ys], jt.potentials[Y.id], "message target"), want, "a message does not scale its target by new over old separator", rtol=1e-11, atol=0)
    ctx.ev("messages")
