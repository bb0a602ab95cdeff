"""C05 join trees are isolated from each other."""
import copy
import json
import sys
import threading

from vmon import exact, gen, session

CASES = {"quick": 2700, "thorough": 9000}
FLOORS = {"answers_judged": 4000, "trees": 900, "thread_runs": 20, "refused_updates": 50, "interleavings": 100}
RULE = ("families of 3-7 trees over one network (repeated apply, deep copy at any moment, re-application, serialised form, copies of copies), random "
        "interleavings of evidence operations, refused updates and queries; 1 case in 6 runs the trees from concurrent threads with a 1 microsecond switch "
        "interval; each tree's own history is judged offline as if it were alone; non-trivial = at least 3 trees with distinct evidence, distinct by schedule")


class Tree(object):
    def __init__(self, spec, s, kind):
        self.spec, self.s, self.kind = spec, s, kind
        self.model = session.EvidenceModel(spec)
        for e in s.events:
            if e["op"] not in ("query", "bad"):
                self.model.step(e)


def spawn(rng, kind, base, bbn, nodes):
    """Makes a further tree out of an existing one."""
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = base.spec
    if kind == "apply":
        return None
    if kind == "copy":
        s = session.Session(spec, copy.deepcopy(base.s.jt))
        s.events = [e for e in base.s.events if e["op"] not in ("query", "bad")]   # the copy inherits the evidence in force
        return Tree(spec, s, kind)
    if kind == "reapply":
        spec2 = spec.copy()
        cpts = {}
        for i in spec.order:
            if rng.random() < 0.5:
                spec2.cpt[i] = gen.make_cpt(rng, list(spec.cpt[i].shape), "mixed")
                cpts[i] = spec2.flat(i)
        return Tree(spec2, session.Session(spec2, InferenceController.reapply(base.s.jt, cpts)), kind)
    d = JoinTree.to_dict(base.s.jt, bbn)
    if kind == "json":
        d = json.loads(json.dumps(d))
    return Tree(spec, session.Session(spec, InferenceController.apply_from_serde(JoinTree.from_dict(d))), kind)


def drive(rng, tree, steps):
    for _ in range(steps):
        op = session.random_op(rng, tree.spec, bad=0.1, query=0.4, model=tree.model)
        tree.s.run(op)
        tree.model.step(op)


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=2, max_n=6, max_joint=300)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    trees = [Tree(spec, session.Session(spec, InferenceController.apply(bbn), nodes), "apply")]
    schedule = []
    threaded = idx % 6 == 0

    def grow():
        kind = gen.pick(rng, ["apply", "copy", "copy", "reapply", "dict", "json"])
        base = gen.pick(rng, trees)
        if kind == "apply":
            t = Tree(spec, session.Session(spec, InferenceController.apply(bbn), nodes), kind)
        else:
            if kind in ("dict", "json") and base.spec is not spec:
                base = trees[0]
            t = spawn(rng, kind, base, bbn, nodes)
        schedule.append((kind, trees.index(base)))
        trees.append(t)
        ctx.ev("trees")
        ctx.ev("tree_by_" + kind)

    while len(trees) < int(rng.integers(3, 6)):
        drive(rng, gen.pick(rng, trees), int(rng.integers(0, 3)))
        grow()
    ctx.note["trees"] = [t.kind for t in trees]
    if threaded:
        old = sys.getswitchinterval()
        errs = []
        import numpy as np
        seeds = [int(rng.integers(1 << 30)) for _ in trees]

        def body(t, sd):
            try:
                barrier.wait(30)
                drive(np.random.default_rng(sd), t, 10)
                t.s.query()
            except BaseException as e:
                errs.append((t, e))

        barrier = threading.Barrier(len(trees))
        sys.setswitchinterval(1e-6)
        try:
            th = [threading.Thread(target=body, args=(t, sd)) for t, sd in zip(trees, seeds)]
            for x in th:
                x.start()
            for x in th:
                x.join()
        finally:
            sys.setswitchinterval(old)
        if errs:
            raise errs[0][1]
        ctx.ev("thread_runs")
    else:
        for _ in range(int(rng.integers(15, 40))):
            k = int(rng.integers(len(trees)))
            schedule.append(k)
            drive(rng, trees[k], 1)
            if rng.random() < 0.04 and len(trees) < 8:
                grow()
        ctx.ev("interleavings")
    for k, t in enumerate(trees):
        t.s.query()
        session.judge(ctx, t.spec, t.s.events, what="tree %d of %s (%s) is influenced by another tree or ignores its own evidence: " % (k, [x.kind for x in trees], t.kind))
    if len({session.state_key(t.model) for t in trees}) >= 3:
        ctx.nontrivial((spec.key(), tuple(map(str, schedule)), tuple(session.state_key(t.model) for t in trees)))
        ctx.sample({"network": spec.describe(), "trees": [t.kind for t in trees], "schedule": [str(x) for x in schedule][:30]})
