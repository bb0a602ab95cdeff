"""C40 listeners hear of every change of evidence, once, after it took place."""
import copy
import pickle

import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 2700, "thorough": 20000}
FLOORS = {"changes_heard": 8000, "unchanged_hard": 800, "refused": 800, "batches": 2000, "listeners_replaced": 1500, "copies_heard": 500, "queries_between": 3500, "states_read": 8000, "changed_while_called": 600}
RULE = ("random evidence histories with custom listeners (delegating to the engine, replaced midway, removed, raising, shared by copies): each operation's notifications "
        "counted, the evidence the listener can read when it is called compared with the model, answers judged afterwards; non-trivial = distinct (network, state) at a "
        "notification")
ASSUMPTIONS = ["repeating evidence other than a single observed value may be announced again; which of the two methods is called is the tree's choice"]


class Odd(BaseException):
    pass


FAILURES = [RuntimeError, KeyError, ValueError, TypeError, IndexError, AttributeError, StopIteration, ZeroDivisionError, NotImplementedError, LookupError, OSError, AssertionError,
            MemoryError, RecursionError, KeyboardInterrupt, SystemExit, GeneratorExit, Odd]


def case(ctx, rng, idx):
    from pybbn.graph.jointree import JoinTreeListener
    from pybbn.pptc.inferencecontroller import InferenceController
    spec = gen.make_spec(rng, min_n=1, max_n=6, max_joint=200)
    bbn, nodes = gen.build(spec, rng)
    ctx.note["network"] = spec.describe()
    orc = exact.Exact(spec)
    heard = []

    class Ear(JoinTreeListener):
        def __init__(self, name, inner, fail=False):
            self.name, self.inner, self.fail = name, inner, fail

        def note(self, method, tree):
            state = {i: [tree.get_evidence(tree.get_bbn_node(i), v).entries[0].value for v in spec.values[i]] for i in spec.order}
            heard.append((self.name, method, tree, state))
            if self.fail:
                raise self.fail("listener fails")
            if self.inner is not None:
                getattr(self.inner, method)(tree)

        def evidence_retracted(self, tree):
            self.note("evidence_retracted", tree)

        def evidence_updated(self, tree):
            self.note("evidence_updated", tree)

    class Empty(Ear):
        """Counts for nothing when asked for its truth, and for the same as any other."""

        def __len__(self):
            return 0

        def __eq__(self, other):
            return isinstance(other, Ear)

        __hash__ = Ear.__hash__

    class Plain(object):
        """Has the two methods and is no JoinTreeListener."""
        __init__, note, evidence_retracted, evidence_updated = Ear.__init__, Ear.note, Ear.evidence_retracted, Ear.evidence_updated

    def ear(*a, **kw):
        k = gen.pick(rng, [Ear, Empty, Plain])
        ctx.ev("listeners_" + k.__name__.lower())
        return k(*a, **kw)

    jt = InferenceController.apply(bbn)
    engine = jt.listener
    ctx.check(isinstance(engine, JoinTreeListener), "a tree that inference was applied to has no listener")
    who = "a"
    jt.set_listener(ear(who, engine))
    s = session.Session(spec, jt, nodes)
    model = session.EvidenceModel(spec)
    for t in range(int(rng.integers(8, 22))):
        r = rng.random()
        if r < 0.10:
            who = "ear%d" % t
            jt.set_listener(ear(who, engine))
            ctx.ev("listeners_replaced")
            continue
        if r < 0.14:
            # a copy has the same listener, which is told which tree it is
            twin = copy.deepcopy(jt)
            ctx.check(twin.listener is jt.listener, "a copy has another listener")
            i = gen.pick(rng, spec.order)
            if spec.card(i) < 2:
                continue
            heard.clear()
            twin.unobserve([twin.get_bbn_node(i)])
            heard.clear()
            twin.set_observation(session.make_evidence(spec, twin, None, (i, "OBSERVATION", [(spec.values[i][0], 1.0)])))
            ctx.eq([(h[0], h[2] is twin) for h in heard], [(who, True)], "updating a copy does not notify the listener once, with the copy")
            ctx.ev("copies_heard")
            continue
        if r < 0.17:
            # without a listener evidence is kept all the same, and nothing is announced
            jt.set_listener(None)
            op = session.random_op(rng, spec, query=0.0, model=model)
            heard.clear()
            session_op = dict(op)
            s.run(session_op)
            model.step(op)
            ctx.eq(heard, [], "a listener that was removed is notified")
            state = {i: [jt.get_evidence(jt.get_bbn_node(i), v).entries[0].value for v in spec.values[i]] for i in spec.order}
            for i in spec.order:
                ctx.eq(state[i], model.lik[i].tolist(), "evidence is not kept without a listener", id=i)
            jt.set_listener(ear(who, engine))
            # reconnect: announce something new so that the engine catches up
            s.run({"op": "unobserve_all"})
            model.step({"op": "unobserve_all"})
            i = gen.pick(rng, spec.order)
            w = np.full(spec.card(i), 0.5).tolist()
            op = {"op": "update", "ev": [(i, "VIRTUAL", list(zip(spec.values[i], w)))]}
            s.run(op)
            model.step(op)
            ctx.ev("detached")
            continue
        if 0.20 <= r < 0.25:
            # a listener that changes the tree while it is called: evidence on another variable, or its own successor
            how = gen.pick(rng, ["more", "more", "more_after", "successor", "leaves"])
            inner = None
            if how.startswith("more"):
                if len(spec.order) < 2:
                    continue
                i, j = [spec.order[k] for k in rng.permutation(len(spec.order))[:2]]
                inner = session.random_evidence(rng, spec, j)
            else:
                i = gen.pick(rng, spec.order)
            # something new, so that the listener is called
            outer = (i, "VIRTUAL", [(v, 0.125 + 0.0625 * ((k + t) % 14)) for k, v in enumerate(spec.values[i])])
            if np.array_equal(model.lik[i], session.normalise(spec.values[i], outer[1], outer[2])):
                continue
            busy = []
            successor = ear("successor%d" % t, engine)

            class Meddler(Ear):
                def tell(self, method, tree):
                    self.note(method + "!", tree)
                    if busy:
                        getattr(engine, method)(tree)
                        return
                    busy.append(1)
                    if how == "more_after":
                        getattr(engine, method)(tree)
                    if inner is not None:
                        tree.update_evidences([session.make_evidence(spec, tree, None, inner)])
                    else:
                        tree.set_listener(successor if how == "successor" else None)
                    if how != "more_after":
                        getattr(engine, method)(tree)

                def evidence_retracted(self, tree):
                    self.tell("evidence_retracted", tree)

                def evidence_updated(self, tree):
                    self.tell("evidence_updated", tree)

            jt.set_listener(Meddler("meddler", None))
            heard.clear()
            op = {"op": "update", "ev": [outer]}
            s.run(op)
            model.step(op)
            first = {i: v.tolist() for i, v in model.lik.items()}
            old = model.lik[inner[0]].copy() if inner else None
            if inner:
                op = {"op": "update", "ev": [inner]}
                s.events.append(dict(op))
                model.step(op)
            ctx.check(1 <= len(heard) <= (2 if inner else 1), "a listener that changes the tree while it is called is not called once per change", heard=[h[:2] for h in heard], how=how)
            ctx.eq({h[0] for h in heard}, {"meddler"}, "another listener is called instead of the one in force", how=how)
            ctx.eq(heard[0][3], first, "the listener is called before the evidence is in place", how=how)
            if inner and not np.array_equal(old, model.lik[inner[0]]):
                ctx.eq(len(heard), 2, "evidence given by a listener while it is called is not announced", how=how)
                ctx.eq(heard[1][3], {i: v.tolist() for i, v in model.lik.items()}, "the listener is called before the evidence is in place", how=how)
            if how == "successor":
                ctx.check(jt.listener is successor, "the listener set while another was called is not in force")
                i = gen.pick(rng, spec.order)
                op = {"op": "update", "ev": [(i, "VIRTUAL", [(v, 0.4375 + 0.0625 * ((k + t) % 5)) for k, v in enumerate(spec.values[i])])]}
                was = model.lik[i].copy()
                heard.clear()
                s.run(op)
                model.step(op)
                if not np.array_equal(was, model.lik[i]):
                    ctx.eq([h[0] for h in heard], ["successor%d" % t], "the listener set while another was called does not hear of the next change")
            s.query()
            jt.set_listener(ear(who, engine))
            ctx.ev("changed_while_called")
            ctx.ev("while_called_" + how)
            continue
        if 0.17 <= r < 0.20 and len(spec.order) > 0:
            # a listener that fails is reported to the caller
            i = gen.pick(rng, spec.order)
            new = [(v, 0.25 + 0.125 * k) for k, v in enumerate(spec.values[i][:6])]
            failure = FAILURES[int(rng.integers(len(FAILURES)))]
            jt.set_listener(ear("failing", engine, fail=failure))
            heard.clear()
            e = session.make_evidence(spec, jt, None, (i, "VIRTUAL", new))
            try:
                jt.update_evidences([e])
                ctx.fail("the failure of a listener is swallowed", failure=failure.__name__)
            except failure as x:
                ctx.eq(str(x.args[0]), "listener fails", "another failure than the listener's reaches the caller", failure=failure.__name__)
            ctx.eq(len(heard), 1, "a failing listener is not notified once")
            jt.set_listener(ear(who, engine))
            op = {"op": "update", "ev": [(i, "VIRTUAL", new)]}
            s.run(op)
            model.step(op)
            ctx.ev("failing_listeners")
            continue
        op = session.random_op(rng, spec, bad=0.12, query=0.2, model=model, hostile=rng.random() < 0.1)
        before = {i: v.copy() for i, v in model.lik.items()}
        model.step(op)
        changed = [i for i in spec.order if not np.array_equal(before[i], model.lik[i])]
        heard.clear()
        s.run(op)
        ctx.note["op"] = op
        if op["op"] == "query":
            ctx.eq(heard, [], "a query notifies the listener")
            ctx.ev("queries_between")
            continue
        if op["op"] == "bad":
            ctx.eq([h[1] for h in heard], [], "an update that is refused notifies the listener")
            ctx.ev("refused")
            continue
        ctx.check(len(heard) <= 1, "one operation notifies the listener more than once", n=len(heard))
        if len(changed) > 1:
            ctx.ev("batches")
        if changed:
            ctx.eq([(h[0], h[2] is jt) for h in heard], [(who, True)], "a change of evidence does not notify the current listener once, with its tree", changed=changed)
            ctx.ev("changes_heard")
        elif op["op"] in ("unobserve", "unobserve_all") or all(session.is_hard(before[e[0]]) for e in op.get("ev", [])):
            if op["op"] != "update" or len({e[0] for e in op["ev"]}) == len(op["ev"]):
                if all(session.is_hard(before[i]) or (before[i] == 1).all() for i in spec.order):
                    ctx.eq([h[1] for h in heard], [], "the listener is notified though the same observations are in force")
                    ctx.ev("unchanged_hard")
        for h in heard:
            for i in spec.order:
                ctx.eq(h[3][i], model.lik[i].tolist(), "the listener is called before the evidence is in place", id=i)
            ctx.ev("states_read")
            ctx.nontrivial((spec.key(), session.state_key(model)))
        if rng.random() < 0.3:
            s.query()
    s.query()
    session.judge(ctx, spec, s.events, orc, what="with custom listeners: ")
    ctx.sample({"network": spec.describe(), "history": session.slim(s.events)})
