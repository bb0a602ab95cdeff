"""Recorder (at the API boundary) and offline checker for evidence histories on one join tree."""
import numpy as np

from vmon import exact as ex
from vmon.gen import pick, random_likelihood


# ------------------------------------------------------------- the model

def normalise(values, kind, pairs):
    """Likelihood vector that an evidence of the given type stands for. pairs: [(value, likelihood)] as given."""
    given = {}
    for v, p in pairs:
        given[v] = p
    if kind == "UNOBSERVE":
        return np.ones(len(values))
    raw = [float(given.get(v, 0.0)) for v in values]
    if kind == "VIRTUAL":
        return np.array([min(1.0, max(0.0, p)) for p in raw])
    if kind == "FINDING":
        out = np.array([1.0 if p > 0.0 else 0.0 for p in raw])
        return out if out.sum() > 0 else np.ones(len(values))
    if kind == "OBSERVATION":
        order = list(given) + [v for v in values if v not in given]
        best = max(float(given.get(v, 0.0)) for v in order)
        win = next(v for v in order if float(given.get(v, 0.0)) == best)
        return np.array([1.0 if v == win else 0.0 for v in values])
    raise ValueError(kind)


def is_hard(v):
    return int((v == 1.0).sum()) == 1 and int((v == 0.0).sum()) == len(v) - 1


class EvidenceModel(object):
    def __init__(self, spec):
        self.spec = spec
        self.lik = {i: np.ones(spec.card(i)) for i in spec.order}

    def step(self, op):
        k = op["op"]
        if k == "update":
            for i, kind, pairs in op["ev"]:
                self.lik[i] = normalise(self.spec.values[i], kind, pairs)
        elif k == "observe":
            i, kind, pairs = op["ev"][0]
            new = normalise(self.spec.values[i], kind, pairs)
            if is_hard(self.lik[i]) and is_hard(new) and np.array_equal(self.lik[i], new):
                new = np.ones(len(new))
            self.lik[i] = new
        elif k == "unobserve":
            for i in op["ids"]:
                self.lik[i] = np.ones(self.spec.card(i))
        elif k == "unobserve_all":
            for i in self.lik:
                self.lik[i] = np.ones(self.spec.card(i))
        # 'bad' updates and queries change nothing
        return self


# ------------------------------------------------------------- operations

def random_evidence(rng, spec, i=None, kinds=None, hostile=False):
    i = pick(rng, spec.order) if i is None else i
    vals = spec.values[i]
    kind = pick(rng, kinds or ["VIRTUAL", "VIRTUAL", "FINDING", "OBSERVATION", "OBSERVATION", "OBSERVATION", "UNOBSERVE"])
    _, v = random_likelihood(rng, len(vals), {"OBSERVATION": "hard", "FINDING": "finding"}.get(kind))
    if hostile:
        r = rng.random()
        if r < 0.3:
            v = rng.normal(0, 1, len(vals))
        elif r < 0.5:
            v = np.full(len(vals), float(pick(rng, [0.0, 1.0, 0.5, 2.0])))
        elif r < 0.6:
            v = rng.integers(-1, 3, len(vals)).astype(float)
        elif r < 0.7:
            v = rng.random(len(vals)) * pick(rng, [1e-7, 1e-14, 1e-30, 0.9999999, 1.0000001])
    elif kind == "VIRTUAL" and v.sum() == 0:
        v[0] = 0.5
    pairs = [(vals[k], float(v[k])) for k in range(len(vals))]
    if rng.random() < 0.3:
        # the same numbers in other clothes
        cls = pick(rng, [int, int, bool, np.float64, np.int64, np.bool_])
        pairs = [(a, cls(p)) if p == int(p) and (p in (0.0, 1.0) or cls not in (bool, np.bool_)) else (a, p) for a, p in pairs]
    if rng.random() < 0.5:
        pairs = [pairs[k] for k in rng.permutation(len(pairs))]
    if rng.random() < (0.4 if hostile else 0.25):
        # not mentioning impossible values is the usual way to write evidence
        keep = [p for p in pairs if p[1] != 0]
        pairs = keep or pairs[:1]
    if hostile and rng.random() < 0.1:
        pairs = pairs[: int(rng.integers(0, len(pairs) + 1))]
    return (i, kind, pairs)


def random_op(rng, spec, hostile=False, bad=0.0, query=0.35, model=None):
    """model (the current state) lets the workload aim at toggles and repeats."""
    r = rng.random()
    if r < query:
        return {"op": "query", "how": pick(rng, ["posteriors", "posteriors", "potential", "one"]), "id": pick(rng, spec.order)}
    r = rng.random()
    if r < bad:
        return {"op": "bad", "how": pick(rng, ["value", "value", "node", "value_set", "value_only"]), "id": pick(rng, spec.order),
                "ev": [random_evidence(rng, spec, hostile=hostile) for _ in range(int(rng.integers(1, 4)))], "seed": int(rng.integers(1 << 30))}
    r = rng.random()
    if r < 0.40:
        m = int(rng.integers(1, min(4, len(spec.order)) + 1)) if rng.random() < 0.6 else 1
        if rng.random() < 0.15:
            ids = [pick(rng, spec.order) for _ in range(m + 1)]   # repeated variables: the last one counts
        else:
            ids = [spec.order[k] for k in rng.choice(len(spec.order), size=m, replace=False)]
        return {"op": "update", "ev": [random_evidence(rng, spec, i, hostile=hostile) for i in ids]}
    if r < 0.72:
        i = pick(rng, spec.order)
        hard = [j for j in spec.order if model is not None and is_hard(model.lik[j])]
        if hard and rng.random() < 0.5:
            i = pick(rng, hard)
            if rng.random() < 0.6:
                v = spec.values[i][int(np.argmax(model.lik[i]))]
                return {"op": "observe", "ev": [(i, "OBSERVATION", [(v, 1.0)])]}
        return {"op": "observe", "ev": [random_evidence(rng, spec, i, kinds=["OBSERVATION", "OBSERVATION", "OBSERVATION", "VIRTUAL", "FINDING"], hostile=hostile)]}
    if r < 0.9:
        m = int(rng.integers(1, min(3, len(spec.order)) + 1))
        return {"op": "unobserve", "ids": [spec.order[k] for k in rng.choice(len(spec.order), size=m, replace=False)]}
    return {"op": "unobserve_all"}


# ------------------------------------------------------------- the recorder

def make_evidence(spec, jt, nodes, ev, how="id"):
    from pybbn.graph.jointree import Evidence, EvidenceBuilder, EvidenceType
    i, kind, pairs = ev
    if how == "name":
        node = jt.get_bbn_node_by_name(spec.names[i])
    elif how == "own" and nodes is not None:
        node = nodes[i]
    else:
        node = jt.get_bbn_node(i)
    t = getattr(EvidenceType, kind)
    if how == "name":
        e = Evidence(node, t)
        for v, p in pairs:
            e.add_value(v, p)
        return e
    b = EvidenceBuilder().with_node(node)
    if kind != "OBSERVATION" or len(pairs) % 2:
        b = b.with_type(t)
    for v, p in pairs:
        b = b.with_evidence(v, p)
    return b.build()


class Session(object):
    """Drives one tree and records every operation with what it returned."""

    def __init__(self, spec, jt, nodes=None, keep=False):
        self.spec, self.jt, self.nodes = spec, jt, nodes
        self.events = []
        # keep: one list, and one evidence object per variable, are filled anew and given again
        self.keep, self.kept, self.list = keep, {}, []

    def make(self, ev, how):
        if not self.keep:
            return make_evidence(self.spec, self.jt, self.nodes, ev, how)
        from pybbn.graph.jointree import EvidenceType
        i, kind, pairs = ev
        e = self.kept.get(i)
        if e is None:
            e = self.kept[i] = make_evidence(self.spec, self.jt, self.nodes, ev, how)
            return e
        # values not mentioned are impossible; a used object may still hold numbers for them
        e.type = getattr(EvidenceType, kind)
        e.values = {}
        for v, p in pairs:
            e.add_value(v, p)
        return e

    def batch(self, evs, how):
        if not self.keep:
            return [self.make(e, how) for e in evs]
        self.list.clear()
        seen = set()
        for e in evs:
            # a variable named twice has two objects
            self.list.append(self.make(e, how) if e[0] not in seen else make_evidence(self.spec, self.jt, self.nodes, e, how))
            seen.add(e[0])
        return self.list

    def query(self):
        return self.run({"op": "query", "how": "posteriors", "id": None})

    def run(self, op, how="id"):
        jt, spec = self.jt, self.spec
        rec = dict(op)
        k = op["op"]
        if k == "query":
            if op["how"] == "posteriors":
                rec["result"] = jt.get_posteriors()
            elif op["how"] == "potential":
                rec["result"] = {n.variable.name: read_potential(jt.get_bbn_potential(n), n.id) for n in jt.get_bbn_nodes()}
            else:
                n = jt.get_bbn_node(op["id"])
                rec["result"] = {n.variable.name: read_potential(jt.get_bbn_potential(n), n.id)}
        elif k == "update":
            jt.update_evidences(self.batch(op["ev"], how))
        elif k == "observe":
            jt.set_observation(self.make(op["ev"][0], how))
        elif k == "unobserve":
            jt.unobserve([jt.get_bbn_node(i) for i in op["ids"]])
        elif k == "unobserve_all":
            jt.unobserve_all()
        elif k == "bad":
            rec["raised"] = self._bad(op, how)
        self.events.append(rec)
        return rec.get("result")

    def _bad(self, op, how):
        from pybbn.graph.jointree import EvidenceBuilder
        from pybbn.graph.node import BbnNode
        from pybbn.graph.variable import Variable
        jt, spec = self.jt, self.spec
        good = [make_evidence(spec, jt, self.nodes, e, how) for e in op["ev"]]
        if op["how"] == "node":
            alien = BbnNode(Variable(max(spec.order) + 1 + op["seed"] % 5, "alien", ["t", "f"]), [0.5, 0.5])
            b = EvidenceBuilder().with_node(alien).with_evidence("t", 1.0).build()
        else:
            b = EvidenceBuilder().with_node(jt.get_bbn_node(op["id"])).with_evidence("no such value", 1.0)
            if op["how"] == "value":
                b = b.with_evidence(spec.values[op["id"]][0], 0.25)
            b = b.build()
        try:
            if op["how"] == "value_set":
                jt.set_observation(b)
            else:
                good.insert(op["seed"] % (len(good) + 1), b)
                jt.update_evidences(good)
        except Exception as e:
            return type(e).__name__
        return None


def read_potential(p, i):
    return [(e.entries[i], e.value) if set(e.entries) == {i} else ("?", repr(e)) for e in p.entries]


# ------------------------------------------------------------- the offline checker

def judge(ctx, spec, events, orc=None, what="", rtol=1e-9):
    """Replays the recorded events on the model and compares every recorded answer with the oracle."""
    orc = orc or ex.Exact(spec)
    model = EvidenceModel(spec)
    cache = {}
    asked = 0
    for t, rec in enumerate(events):
        if rec["op"] == "bad":
            ctx.check(rec["raised"] is not None, what + "evidence with an unknown node or value was accepted", step=t, history=slim(events[: t + 1]))
            ctx.ev("refused_updates")
            continue
        if rec["op"] != "query":
            model.step(rec)
            ctx.ev("op_" + rec["op"])
            continue
        key = tuple(model.lik[i].tobytes() for i in spec.order)
        if key not in cache:
            cache[key] = orc.marginals(model.lik)
        want = cache[key]
        asked += 1
        ctx.ev("answers_judged")
        if any(want[i].sum() == 0 for i in spec.order):
            ctx.ev("answers_under_impossible_evidence")
        try:
            if rec["how"] == "posteriors":
                ex.compare_marginals(ctx, spec, rec["result"], want, what + "posterior differs from Bayes' rule", rtol=rtol)
            else:
                got = rec["result"]
                ids = [rec["id"]] if rec["how"] == "one" else spec.order
                ctx.eq(set(got), {spec.names[i] for i in ids}, what + "wrong variables reported")
                for i in ids:
                    ctx.eq([v for v, _ in got[spec.names[i]]], list(spec.values[i]), what + "wrong values in potential", id=i)
                    ctx.close([p for _, p in got[spec.names[i]]], want[i], what + "posterior potential differs from Bayes' rule", rtol=rtol, id=i)
        except Exception as v:
            if hasattr(v, "detail"):
                v.detail.update(step=t, history=slim(events[: t + 1]), likelihoods={i: model.lik[i].tolist() for i in spec.order}, network=spec.describe())
            raise
    return model, asked


def slim(events):
    return [{k: v for k, v in e.items() if k != "result"} for e in events][-25:]


def state_key(model):
    return tuple(model.lik[i].tobytes() for i in model.spec.order)
