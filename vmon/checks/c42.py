"""C42 an operation interrupted part way is made good by the next."""
import copy
import pickle
import sys

import numpy as np

from vmon import exact, gen, session
from vmon.checks.c31 import fp_network

CASES = {"quick": 1100, "thorough": 8000}
FLOORS = {"interruptions": 9000, "updates_interrupted": 3500, "retries_of_the_same": 1000, "answers_judged": 10000, "points_in_propagation": 4000, "builds_interrupted": 700,
          "reads_interrupted": 1500, "effects_interrupted": 150, "draws_interrupted": 300}
RULE = ("an exception (a KeyboardInterrupt, MemoryError or an ordinary one) raised on entry to the k-th function call inside the library, k spread over the whole operation, "
        "for evidence updates, observations, retractions, inference, re-application, reading back, queries, copies, exports, draws and effects; then the same operation "
        "again, another one, or a copy that carries on, all answers judged against the evidence the tree reports; non-trivial = distinct (operation, function interrupted)")
ASSUMPTIONS = ["interruptions arrive at function calls; evidence of the interrupted operation counts as given or not as the tree reports it"]


class Odd(Exception):
    pass


KINDS = [KeyboardInterrupt, MemoryError, Odd]


def run_interrupted(f, k, kind, repo):
    """Runs f with an exception at the k-th call into library code. Returns (finished, result, calls, name of the function interrupted)."""
    box = [0, None]

    def prof(frame, event, arg):
        if event == "call" and repo in frame.f_code.co_filename:
            box[0] += 1
            if box[0] == k:
                sys.setprofile(None)
                box[1] = "%s:%s" % (frame.f_code.co_filename.rsplit("/", 1)[-1], frame.f_code.co_name)
                raise kind("interrupted on purpose")

    sys.setprofile(prof)
    try:
        r = f()
        return True, r, box[0], None
    except (KeyboardInterrupt, MemoryError, Odd):
        if box[1] is None:
            raise
        return False, None, box[0], box[1]
    finally:
        sys.setprofile(None)


class Rig(object):
    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        import pybbn
        self.repo = pybbn.__file__.rsplit("/", 1)[0]

    def size(self, f):
        return run_interrupted(f, -1, Odd, self.repo)[2]

    def cut(self, f, n, what):
        k = int(self.rng.integers(1, n + 1)) if self.rng.random() < 0.8 else int(self.rng.integers(1, min(n, 12) + 1))
        kind = gen.pick(self.rng, KINDS)
        done, r, calls, where = run_interrupted(f, k, kind, self.repo)
        self.ctx.note.update(interrupted=what, call=k, of=n, where=where, kind=kind.__name__)
        if not done:
            self.ctx.ev("interruptions")
            self.ctx.nontrivial((what, where))
            if "propagator" in where or "collector" in where or "distributor" in where or "potential" in where or "initializer" in where:
                self.ctx.ev("points_in_propagation")
        return done


def in_force(spec, jt):
    return {i: np.array([float(jt.get_evidence(jt.get_bbn_node(i), v).entries[0].value) for v in spec.values[i]]) for i in spec.order}


def judge(ctx, spec, orc, jt, lik, what):
    want = orc.marginals(lik)
    exact.compare_marginals(ctx, spec, jt.get_posteriors(), want, what)
    ctx.ev("answers_judged")


def updates(ctx, rng, rig, spec, orc, jt):
    """One interrupted change of evidence, then life goes on."""
    model = session.EvidenceModel(spec)
    s = session.Session(spec, jt)
    for i, v in in_force(spec, jt).items():
        model.lik[i] = v
    op = session.random_op(rng, spec, query=0.0, model=model)
    trial = copy.deepcopy(jt)
    n = rig.size(lambda: session.Session(spec, trial).run(op))
    model.step(op)
    after = {i: v.copy() for i, v in model.lik.items()}
    done = rig.cut(lambda: s.run(op), max(n, 1), op["op"])
    ctx.note["op"] = op
    if done:
        judge(ctx, spec, orc, jt, after, "an operation that was not interrupted gives wrong answers: ")
        return jt
    ctx.ev("updates_interrupted")
    now = in_force(spec, jt)
    ctx.ev("kept_given" if all(np.array_equal(now[i], after[i]) for i in spec.order) else "kept_not_given")
    r = rng.random()
    if r < 0.15:
        jt = copy.deepcopy(jt)
        ctx.ev("carried_on_in_a_copy")
    elif r < 0.25:
        jt = pickle.loads(pickle.dumps(jt, protocol=int(rng.integers(2, 6))))
        ctx.ev("carried_on_from_a_pickle")
    s2 = session.Session(spec, jt)
    model.lik = {i: v.copy() for i, v in now.items()}
    r = rng.random()
    if r < 0.45 and op["op"] != "observe":
        nxt = op
        ctx.ev("retries_of_the_same")
    elif r < 0.6:
        nxt = {"op": "unobserve_all"}
    elif r < 0.7:
        # the evidence that is in force already, once more
        nxt = {"op": "update", "ev": [(i, "VIRTUAL", [(v, float(p)) for v, p in zip(spec.values[i], now[i])]) for i in spec.order]}
    else:
        nxt = session.random_op(rng, spec, query=0.0, model=model)
    if rng.random() < 0.2:
        # interrupted twice
        if not rig.cut(lambda: s2.run(nxt), max(n, 1), nxt["op"]):
            ctx.ev("interrupted_again")
            model.lik = in_force(spec, jt)
            if nxt["op"] == "observe":
                nxt = {"op": "unobserve_all"}
        else:
            model.step(nxt)
            judge(ctx, spec, orc, jt, model.lik, "after an interrupted %s and then %s: " % (op["op"], nxt["op"]))
            return jt
    s2.run(nxt)
    model.step(nxt)
    ctx.note["next"] = nxt
    judge(ctx, spec, orc, jt, model.lik, "after an interrupted %s and then %s: " % (op["op"], nxt["op"]))
    for _ in range(2):
        nxt = session.random_op(rng, spec, query=0.0, model=model)
        s2.run(nxt)
        model.step(nxt)
        judge(ctx, spec, orc, jt, model.lik, "later, after an interrupted %s: " % op["op"])
    return jt


def case(ctx, rng, idx):
    from pybbn.causality.ace import Ace
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    rig = Rig(ctx, rng)
    positive = rng.random() < 0.5
    spec = gen.make_spec(rng, min_n=2, max_n=6, max_joint=200, cpt_mode="positive" if positive else None)
    orc = exact.Exact(spec)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    fp = fp_network(bbn)
    zero = session.EvidenceModel(spec).lik
    # inference itself
    n = rig.size(lambda: InferenceController.apply(bbn))
    for _ in range(2):
        if not rig.cut(lambda: InferenceController.apply(bbn), n, "apply"):
            ctx.ev("builds_interrupted")
        ctx.eq(fp_network(bbn), fp, "interrupted inference changed the network")
    jt = InferenceController.apply(bbn)
    judge(ctx, spec, orc, jt, zero, "inference after it was interrupted: ")
    for _ in range(5):
        jt = updates(ctx, rng, rig, spec, orc, jt)
    # things that only read the tree or the network
    model = session.EvidenceModel(spec)
    jt.unobserve_all()
    op = session.random_op(rng, spec, query=0.0, model=model)
    session.Session(spec, jt).run(op)
    model.step(op)
    new = {i: spec.flat(i)[::-1] for i in spec.order[:2]}
    d = JoinTree.to_dict(jt, bbn)
    reads = {"query": jt.get_posteriors, "copy": lambda: copy.deepcopy(jt), "reapply": lambda: InferenceController.reapply(jt, new), "export": lambda: JoinTree.to_dict(jt, bbn),
             "read back": lambda: InferenceController.apply_from_serde(JoinTree.from_dict(d)), "network copy": lambda: copy.deepcopy(bbn), "network export": lambda: Bbn.to_dict(bbn)}
    for what in (list(reads)[k] for k in rng.permutation(len(reads))[:4]):
        f = reads[what]
        n = rig.size(f)
        if n and not rig.cut(f, n, what):
            ctx.ev("reads_interrupted")
        judge(ctx, spec, orc, jt, model.lik, "after an interrupted %s: " % what)
        op = session.random_op(rng, spec, query=0.0, model=model)
        session.Session(spec, jt).run(op)
        model.step(op)
        judge(ctx, spec, orc, jt, model.lik, "updated after an interrupted %s: " % what)
        ctx.eq(fp_network(bbn), fp, "interrupted reading changed the network", read=what)
        r = f()
        if what in ("read back",):
            judge(ctx, spec, orc, r, zero, "read back after it was interrupted: ")
        if what == "copy":
            judge(ctx, spec, orc, r, model.lik, "copied after it was interrupted: ")
    # draws
    smp = LogicSampler(bbn)
    want = smp.get_samples(n_samples=20, seed=idx)
    n = rig.size(lambda: smp.get_samples(n_samples=20, seed=idx))
    if not rig.cut(lambda: smp.get_samples(n_samples=20, seed=idx), n, "samples"):
        ctx.ev("draws_interrupted")
    ctx.eq(smp.get_samples(n_samples=20, seed=idx), want, "samples differ after a draw was interrupted")
    # effects
    names = spec.names
    texts = all(isinstance(v, str) for vs in spec.values.values() for v in vs)
    if positive and texts and len(spec.components()) == 1 and all(c.min() > 0 for c in spec.cpt.values()) and max(len(spec.parents[i]) for i in spec.order) < 3:
        x, y = (spec.order[k] for k in rng.choice(len(spec.order), size=2, replace=False))
        ace = Ace(bbn)
        v = spec.values[y][0]
        want = Ace(bbn).get_ace(names[x], names[y], v)
        n = rig.size(lambda: ace.get_ace(names[x], names[y], v))
        for _ in range(2):
            if not rig.cut(lambda: ace.get_ace(names[x], names[y], v), n, "effect"):
                ctx.ev("effects_interrupted")
            # the same effect again, or another one before
            other = [i for i in spec.order if i not in (x, y)]
            if rng.random() < 0.5:
                a, b = gen.pick(rng, [(y, x)] + [(o, y) for o in other] + [(o, x) for o in other])
                got, want2 = (z.get_ace(names[a], names[b], spec.values[b][-1]) for z in (ace, Ace(bbn)))
                for k in want2:
                    ctx.close(got[k], want2[k], "another effect differs after a computation was interrupted", value=k, x=a, y=b)
                ctx.ev("other_effects")
            got = ace.get_ace(names[x], names[y], v)
            ctx.eq(list(got), list(want), "the effect after an interruption is over other values")
            for k in want:
                ctx.close(got[k], want[k], "the effect differs after its computation was interrupted", value=k)
    ctx.sample({"network": spec.describe()})
