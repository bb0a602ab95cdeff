"""C09 answers do not depend on representation."""
import json
import os
import subprocess
import sys

import numpy as np

from vmon import exact, gen, session

CASES = {"quick": 640, "thorough": 14000}
FLOORS = {"variants": 1500, "hash_seed_runs": 8, "marginals_compared": 10000}
RULE = ("each network is re-encoded 3 times (node order, edge and parent order with CPT axes permuted, one-to-one relabelling of ids, names, values and value "
        "order, CPT containers, construction order) and judged under the same evidence against the original and the oracle; 1 case in 160 re-runs a batch "
        "of networks in subprocesses under 3 string-hash seeds; non-trivial = the re-encoding changed parent or id order, distinct by content")
HASH_EVERY = 160


def reencode(rng, spec):
    """Another way of writing the same distribution down. Returns spec2 and the maps id->id2, (id, value index) -> index2."""
    n = len(spec.order)
    idmap = {i: j for i, j in zip(spec.order, gen.make_ids(rng, n, gen.pick(rng, gen.ID_STYLES)))} if rng.random() < 0.6 else {i: i for i in spec.order}
    order = [idmap[i] for i in spec.order]
    if rng.random() < 0.7:
        order = [order[k] for k in rng.permutation(n)]
    names = gen.make_names(rng, [idmap[i] for i in spec.order], gen.pick(rng, gen.NAME_STYLES)) if rng.random() < 0.5 else {idmap[i]: spec.names[i] for i in spec.order}
    values, vmap, cpt, parents = {}, {}, {}, {}
    revalue = rng.random() < 0.5
    for i in spec.order:
        k = spec.card(i)
        perm = [int(x) for x in rng.permutation(k)] if revalue else list(range(k))       # new position p holds old index perm[p]
        vmap[i] = perm
        if revalue and rng.random() < 0.5:
            values[idmap[i]] = gen.make_values(rng, i, k, gen.pick(rng, gen.VALUE_STYLES))
        else:
            values[idmap[i]] = [spec.values[i][o] for o in perm]
    edges = [(idmap[a], idmap[b]) for a, b in spec.edges]
    if rng.random() < 0.8:
        edges = [edges[k] for k in rng.permutation(len(edges))]
    back = {j: i for i, j in idmap.items()}
    for i in spec.order:
        j = idmap[i]
        parents[j] = [a for a, b in edges if b == j]
        axes = [spec.parents[i].index(back[a]) for a in parents[j]] + [len(spec.parents[i])]
        t = np.transpose(spec.cpt[i], axes)
        for ax, f in enumerate([back[a] for a in parents[j]] + [i]):
            t = np.take(t, vmap[f], axis=ax)
        cpt[j] = t
    return gen.Spec(order, names, values, parents, cpt, edges, spec.tag + "/re"), idmap, vmap


def hash_case(ctx, rng, idx):
    from vmon import hashseed_child
    n = 12
    mine = json.loads(json.dumps(hashseed_child.answers(ctx.seed, idx, n)))
    hashes = set()
    for hs in [1, 2 + int(rng.integers(10 ** 6)), "random"]:
        env = dict(os.environ, PYTHONHASHSEED=str(hs))
        p = subprocess.run([sys.executable, "-B", "-m", "vmon.hashseed_child", str(ctx.seed), str(idx), str(n)], env=env, capture_output=True, text=True, timeout=600)
        if p.returncode != 0:
            ctx.fail("fails under another string-hash seed", hash_seed=hs, stderr=p.stderr[-1500:])
        r = json.loads(p.stdout)
        hashes.add(r["hash"])
        for k, (a, b) in enumerate(zip(mine, r["answers"])):
            ctx.eq(set(a["post"]), set(b["post"]), "variables reported depend on the hash seed", hash_seed=hs, batch=k)
            for v in a["post"]:
                ctx.close([b["post"][v][x] for x in a["post"][v]], list(a["post"][v].values()), "answer depends on the string-hash seed", hash_seed=hs, batch=k, variable=v)
        ctx.ev("hash_seed_runs")
    ctx.check(len(hashes) == 3, "harness: hash seeds had no effect")


def case(ctx, rng, idx):
    from pybbn.pptc.inferencecontroller import InferenceController
    if idx % HASH_EVERY == 0:
        return hash_case(ctx, rng, idx)
    spec = gen.make_spec(rng, min_n=2, max_n=8, max_joint=1000)
    orc = exact.Exact(spec)
    lik = {i: np.ones(spec.card(i)) for i in spec.order}
    if rng.random() < 0.7:
        for i in [spec.order[k] for k in rng.choice(len(spec.order), size=int(rng.integers(1, min(3, len(spec.order)) + 1)), replace=False)]:
            _, lik[i] = gen.random_likelihood(rng, spec.card(i))
    want = orc.marginals(lik)
    variants = [(spec, {i: i for i in spec.order}, {i: list(range(spec.card(i))) for i in spec.order})]
    variants += [reencode(rng, spec) for _ in range(3)]
    for sp, idmap, vmap in variants:
        ctx.note["original"], ctx.note["variant"] = spec.describe(), sp.describe()
        bbn, nodes = gen.build(sp, rng, probs="any", interleave=rng.random() < 0.5)
        jt = InferenceController.apply(bbn)
        s = session.Session(sp, jt, nodes)
        evs = []
        for i in spec.order:
            if not np.all(lik[i] == 1):
                v2 = sp.values[idmap[i]]
                evs.append((idmap[i], "VIRTUAL", [(v2[p], float(lik[i][o])) for p, o in enumerate(vmap[i])]))
        if evs:
            s.run({"op": "update", "ev": [evs[k] for k in rng.permutation(len(evs))]})
        w2 = {idmap[i]: want[i][vmap[i]] for i in spec.order}
        exact.compare_marginals(ctx, sp, s.query(), w2, "answer depends on how the same distribution is written down")
        ctx.ev("variants")
        ctx.ev("evaluations")
        if sp is not spec and (sp.order != spec.order or sp.edges != spec.edges):
            ctx.nontrivial(sp.key())
    ctx.sample({"original": spec.describe(), "variant": variants[1][0].describe()})
