"""C34 use does not wear anything out: no growth of state or cost with history, dropped objects are released."""
import copy
import gc
import json
import sys
import types

import numpy as np

from vmon import gauss, gen, graphs, session

CASES = {"quick": 700, "thorough": 9000}
FLOORS = {"cycles": 20000, "sizes_compared": 500, "costs_compared": 500, "releases_judged": 60, "kinds_of_object": 6, "on_edited_network": 50, "answers_judged": 250}
RULE = ("one object (tree, graph of each kind, sampler, effect estimator, Gaussian model, network with its trees, network extended and cut back) put through the same cycle of operations 40-150 times, "
        "each cycle ending in the state it began with; objects reachable from it and calls made by a cycle are counted after the warm-up and at the end; live "
        "instances of library classes are counted before and after whole sessions; non-trivial = distinct (object, cycle) pairs")
ASSUMPTIONS = ["growth of state counts if it exceeds 0.5% plus one container element per four cycles, of cost 5% plus one call per four cycles, so caches that are keyed by what is asked and filled during the warm-up are free"]
WARM = 5
ATOMS = (str, bytes, int, float, complex, bool, type(None), np.generic, type, types.ModuleType, types.FunctionType, types.BuiltinFunctionType)


def size(x):
    """Containers and instances reachable from x, plus their elements."""
    import enum
    import inspect  # noqa: F401
    seen, todo, n = {id(x)}, [x], 0
    keep = []
    while todo:
        y = todo.pop()
        n += 1
        if isinstance(y, (list, tuple, set, frozenset, dict)):
            n += len(y)
        elif isinstance(y, np.ndarray):
            n += y.size
            if y.dtype != object:
                continue
        for z in gc.get_referents(y):
            if isinstance(z, ATOMS) or isinstance(z, enum.Enum) or id(z) in seen:
                continue
            seen.add(id(z))
            keep.append(z)
            todo.append(z)
    return n


def cost(f):
    """Python and C calls made by f."""
    n = [0]

    def prof(frame, event, arg):
        if event in ("call", "c_call"):
            n[0] += 1
    sys.setprofile(prof)
    try:
        f()
    finally:
        sys.setprofile(None)
    return n[0]


def wear(ctx, rng, kind, roots, cycle, n=None, key=None):
    """roots: () -> objects that make up the state; cycle: () -> None, ends where it began."""
    n = int(rng.integers(40, 150)) if n is None else n
    for _ in range(WARM):
        cycle()
    gc_was = gc.isenabled()
    c0 = cost(cycle)
    s0 = size(roots())
    for _ in range(n):
        cycle()
    s1 = size(roots())
    c1 = cost(cycle)
    if gc_was:
        gc.enable()
    ctx.ev("cycles", n + WARM + 2)
    ctx.ev("evaluations")
    ctx.check(s1 <= s0 * 1.005 + n / 4.0, "state grows with use (%s)" % kind, cycles=n, before=s0, after=s1)
    ctx.ev("sizes_compared")
    ctx.check(c1 <= c0 * 1.05 + n / 4.0, "an operation takes more and more steps with use (%s)" % kind, cycles=n, before=c0, after=c1)
    ctx.ev("costs_compared")
    ctx.ev("on_" + kind)
    if ctx.events["on_" + kind] == 1:
        ctx.ev("kinds_of_object")
    ctx.nontrivial((kind, key, n, s0))


def library_roots():
    """What the library itself holds on to."""
    out = []
    for name, m in sorted(sys.modules.items()):
        if name == "pybbn" or name.startswith("pybbn."):
            for k, v in sorted(vars(m).items()):
                if k.startswith("__") and k.endswith("__") and isinstance(v, (str, dict)):
                    continue
                if isinstance(v, types.ModuleType):
                    continue
                out.append(v)
    more = []
    for v in out:
        if isinstance(v, type) and str(v.__module__).startswith("pybbn"):
            more += list(vars(v).values())
        elif isinstance(v, types.FunctionType):
            more.append(v)
    fs = [f.__func__ if isinstance(f, (staticmethod, classmethod)) else f for f in out + more]
    held = [x for x in fs if not isinstance(x, ATOMS) and not callable(x)]
    for f in fs:
        g = f
        while g is not None and not isinstance(g, types.FunctionType):
            if hasattr(g, "cache_info"):
                held.append([None] * int(g.cache_info().currsize))
            g = getattr(g, "__wrapped__", None)
        if isinstance(g, types.FunctionType):
            held.append([g.__defaults__, g.__kwdefaults__, dict(vars(g)), [c.cell_contents for c in (g.__closure__ or ()) if filled(c)]])
    return held


def filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


# ------------------------------------------------------------------ objects

def tree_case(ctx, rng, idx):
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=6, max_joint=200)
    ctx.note["network"] = spec.describe()
    bbn, nodes = gen.build(spec, rng)
    jt = InferenceController.apply(bbn)
    if rng.random() < 0.2:
        jt = copy.deepcopy(jt)
    elif rng.random() < 0.2:
        jt = InferenceController.apply_from_serde(JoinTree.from_dict(JoinTree.to_dict(jt, bbn)))
    s = session.Session(spec, jt)
    m = session.EvidenceModel(spec)
    ops = []
    for _ in range(int(rng.integers(2, 9))):
        if rng.random() < 0.15:
            ops.append({"op": gen.pick(rng, ["copy", "dict", "lookups", "reapply", "apply"])})
            continue
        ops.append(session.random_op(rng, spec, query=0.3, model=m, bad=0.08))
        m.step(ops[-1])
    # a cycle ends with the same evidence in force whatever it began with
    end = [{"op": "update", "ev": [session.random_evidence(rng, spec)]}] if rng.random() < 0.5 else []
    ops += [{"op": "unobserve_all"}] + end + [{"op": "query", "how": "posteriors", "id": None}]
    ctx.note["cycle"] = ops

    def cycle():
        for op in ops:
            k = op["op"]
            if k == "copy":
                copy.deepcopy(jt).unobserve_all()
            elif k == "dict":
                JoinTree.to_dict(jt, bbn)
            elif k == "reapply":
                InferenceController.reapply(jt, {})
            elif k == "apply":
                InferenceController.apply(bbn)
            elif k == "lookups":
                for i in spec.order:
                    jt.get_bbn_node_by_name(spec.names[i])
                    jt.get_bbn_node_by_name("nobody")
                    jt.find_cliques_with_node_and_parents(i)
                    jt.get_bbn_node(i)
                str(jt), jt.get_flattened_edges(), jt.get_bbn_node_and_parents()
            else:
                s.run(op)
        s.events = [e for e in s.events[-(len(ops) + 1):]]
    wear(ctx, rng, "tree", lambda: [jt, bbn], cycle, key=(spec.key(), str(ops)))
    s.events = [dict(op) for op in [{"op": "unobserve_all"}] + end]
    s.query()
    session.judge(ctx, spec, s.events, what="after many cycles: ")
    ctx.sample({"network": spec.describe(), "cycle": ops})


def graph_case(ctx, rng, idx):
    kind = graphs.KINDS[int(rng.integers(len(graphs.KINDS)))]
    from pybbn.graph.edge import Edge, EdgeType
    g = graphs.new_graph(kind)
    ids = graphs.pool_ids(rng)
    nodes = {i: graphs.new_node(i) for i in ids}
    stay = [i for i in ids if rng.random() < 0.4]
    for i in stay:
        g.add_node(nodes[i])
    plan = []
    for _ in range(int(rng.integers(4, 25))):
        a, b = gen.pick(rng, ids), gen.pick(rng, ids)
        plan.append(gen.pick(rng, [("add", a), ("edge", a, b), ("edge", a, b), ("remove", a), ("views", a), ("copy", a)]))
    goes = [i for i in ids]
    goes = [int(x) for x in rng.permutation(goes)]
    order = [int(x) for x in rng.permutation(stay)] if stay else []
    # nodes that come and go: every cycle brings ids never seen before
    passing = int(rng.integers(0, 4))
    ctx.note.update(kind=kind, plan=plan, passing=passing)
    fresh = [10 ** 7]

    def cycle():
        for _ in range(passing):
            fresh[0] += 3
            x, y = graphs.new_node(fresh[0]), graphs.new_node(fresh[0] + 1)
            t = EdgeType.UNDIRECTED if kind == "ug" else EdgeType.DIRECTED
            g.add_edge(Edge(x, y, t))
            g.add_edge(Edge(y, nodes[ids[0]], t))
            g.add_edge(Edge(nodes[ids[-1]], x, t))
            for n in (x, y, nodes[ids[0]], nodes[ids[-1]]):
                g.remove_node(n.id)
        for p in plan:
            if p[0] == "add":
                g.add_node(nodes[p[1]])
            elif p[0] == "edge":
                t = EdgeType.UNDIRECTED if kind == "ug" else EdgeType.DIRECTED
                g.add_edge(Edge(nodes[p[1]], nodes[p[2]], t))
            elif p[0] == "remove":
                g.remove_node(p[1])
            elif p[0] == "copy":
                copy.deepcopy(g)
            else:
                for n in g.get_nodes():
                    g.get_neighbors(n.id)
                g.get_edges()
                g.edge_exists(p[1], p[1])
                str(g)
        for i in goes:
            g.remove_node(i)
        for i in order:
            g.add_node(nodes[i])
    wear(ctx, rng, "graph_" + kind, lambda: [g], cycle, key=(str(plan), str(ids), passing))
    ctx.eq([n.id for n in g.get_nodes()], order, "nodes are left over or missing after cycles of edits")
    ctx.eq(len(g.get_edges()), 0, "edges are left over after cycles of edits")


def edits_case(ctx, rng, idx):
    """A network that is extended and cut back again and again, with inference applied to every version."""
    from pybbn.graph.edge import Edge, EdgeType
    from pybbn.graph.node import BbnNode
    from pybbn.graph.variable import Variable
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=5, max_joint=100)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    m = int(rng.integers(1, 3))
    fresh = max(spec.order) + 1
    pas = [[spec.order[k] for k in rng.permutation(len(spec.order))[:int(rng.integers(0, 3))]] for _ in range(m)]
    drop = rng.random() < 0.5       # the last leaf goes and comes back, too
    leaf = gen.pick(rng, [i for i in spec.order if not spec.children(i)])
    drop = drop and len(spec.order) > 1 and not any(leaf in p for p in pas)

    def cycle():
        for k, p in enumerate(pas):
            rows = int(np.prod([spec.card(i) for i in p])) if p else 1
            x = BbnNode(Variable(fresh + k, "fresh%d" % k, ["t", "f"]), [0.25, 0.75] * rows)
            bbn.add_node(x)
            for i in p:
                bbn.add_edge(Edge(bbn.get_node(i), x, EdgeType.DIRECTED))
        jt = InferenceController.apply(bbn)
        i = spec.order[0]
        jt.set_observation(session.make_evidence(spec, jt, None, (i, "OBSERVATION", [(spec.values[i][0], 1.0)])))
        jt.get_posteriors()
        for k in range(m):
            bbn.remove_node(fresh + k)
        if drop:
            bbn.remove_node(leaf)
            InferenceController.apply(bbn).get_posteriors()
            bbn.add_node(nodes[leaf])
            for i in spec.parents[leaf]:
                bbn.add_edge(Edge(nodes[i], nodes[leaf], EdgeType.DIRECTED))
        InferenceController.apply(bbn).get_posteriors()
    wear(ctx, rng, "edited_network", lambda: [bbn, nodes], cycle, n=int(rng.integers(12, 40)), key=(spec.key(), str(pas), bool(drop)))
    s = session.Session(spec, InferenceController.apply(bbn))
    s.query()
    session.judge(ctx, spec, s.events, what="after many edits: ")


def sampler_case(ctx, rng, idx):
    from pybbn.sampling.sampling import LogicSampler
    spec = gen.make_spec(rng, min_n=1, max_n=6, max_joint=200, cpt_mode="positive")
    bbn, nodes = gen.build(spec, rng)
    sm = LogicSampler(bbn)
    i = gen.pick(rng, spec.order)
    ev = {i: spec.values[i][int(np.argmax(rng.random(spec.card(i))))]} if rng.random() < 0.3 else {}
    seed = int(rng.integers(10 ** 6))
    wear(ctx, rng, "sampler", lambda: [sm, bbn], lambda: sm.get_samples(evidence=ev, n_samples=3, seed=seed), n=40, key=spec.key())


def ace_case(ctx, rng, idx):
    from pybbn.causality.ace import Ace
    spec = gen.make_spec(rng, min_n=2, max_n=4, max_joint=60, max_family=16, cpt_mode="positive", value_style="tf", name_style="n", max_card=2)
    if len(spec.components()) > 1 or min(float(c.min()) for c in spec.cpt.values()) < 0.01:
        return sampler_case(ctx, rng, idx)
    bbn, nodes = gen.build(spec, rng)
    ace = Ace(bbn)
    x, y = [spec.order[int(k)] for k in rng.choice(len(spec.order), size=2, replace=False)]
    wear(ctx, rng, "ace", lambda: [ace, bbn], lambda: ace.get_ace(spec.names[x], spec.names[y], spec.values[y][0]), n=16, key=spec.key())


def gaussian_case(ctx, rng, idx):
    from pybbn.gaussian.inference import GaussianInference
    H, mu, cov = gauss.model(rng)
    g = GaussianInference(H, mu.copy(), cov.copy())
    obs = gauss.observations(rng, H, mu, cov)

    def cycle():
        h = g.do_inferences(obs)
        h.P, h.marginals, repr(h)
        GaussianInference(H, mu, cov).do_inferences(obs)
    wear(ctx, rng, "gaussian", lambda: [g], cycle, n=40, key=(tuple(H), mu.tobytes(), cov.tobytes()))


# ------------------------------------------------------------------ whole sessions

def work(rng, tmp):
    """One user's session with everything in it; the objects die with the call."""
    from pybbn.causality.ace import Ace
    from pybbn.causality.do import get_graph, get_minimal_confounders, get_minimal_mediators
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    spec = gen.make_spec(rng, min_n=2, max_n=5, max_joint=100, value_style="tf", name_style="n", cpt_mode="positive")
    bbn, nodes = gen.build(spec, rng)
    jt = InferenceController.apply(bbn)
    s = session.Session(spec, jt, nodes)
    for _ in range(6):
        s.run(session.random_op(rng, spec, bad=0.1))
    s.query()
    copy.deepcopy(jt).unobserve_all()
    copy.deepcopy(bbn)
    InferenceController.reapply(jt, {spec.order[0]: spec.flat(spec.order[0])})
    InferenceController.apply_from_serde(JoinTree.from_dict(json.loads(json.dumps(JoinTree.to_dict(jt, bbn))))).get_posteriors()
    Bbn.from_dict(Bbn.to_dict(bbn))
    Bbn.to_dne(bbn)
    bbn.to_nx_graph()
    LogicSampler(bbn).get_samples(n_samples=3, seed=1)
    names = [spec.names[i] for i in spec.order]
    if len(spec.components()) == 1:
        Ace(bbn).get_ace(names[0], names[1], spec.values[spec.order[1]][0])
    a, b = spec.order[:2]
    g = get_graph(bbn.to_nx_graph()[0])
    get_minimal_confounders(g, a, b)
    get_minimal_mediators(g, a, b)


def live():
    gc.collect()
    return sum(1 for o in gc.get_objects() if str(type(o).__module__).startswith("pybbn") and not isinstance(o, type))


def release_case(ctx, rng, idx):
    seed = int(rng.integers(2 ** 31))
    rounds = 12
    distinct = rng.random() < 0.5

    def go(k):
        work(np.random.default_rng([seed, k if distinct else 0]), ctx.scratch)
    # nothing of the library's instances survives a session
    for k in range(3):
        go(k)
    base, held = live(), size(library_roots())
    for k in range(3, 3 + rounds):
        go(k)
    after = live()
    ctx.ev("releases_judged")
    ctx.ev("evaluations")
    ctx.check(after <= base + rounds, "dropped networks and trees are not released", before=base, after=after, sessions=rounds, distinct=bool(distinct))
    if not distinct:
        now = size(library_roots())
        ctx.check(now <= held + rounds / 2.0, "the library keeps more and more after sessions that only repeat themselves", before=held, after=now, sessions=rounds)
        ctx.ev("library_state_judged")
    ctx.nontrivial(("release", seed))


def case(ctx, rng, idx):
    if idx % 8 == 7:
        return release_case(ctx, rng, idx)
    r = idx % 16
    if r in (1, 5, 9):
        return graph_case(ctx, rng, idx)
    if r == 3:
        return sampler_case(ctx, rng, idx)
    if r == 11:
        return ace_case(ctx, rng, idx)
    if r == 13:
        return gaussian_case(ctx, rng, idx)
    if r in (2, 10):
        return edits_case(ctx, rng, idx)
    return tree_case(ctx, rng, idx)
