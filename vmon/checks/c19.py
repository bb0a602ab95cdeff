"""C19 imported libpgm networks keep their distribution."""
import copy
import itertools
import json

import numpy as np

from vmon import exact, gen

CASES = {"quick": 6600, "thorough": 40000}
FLOORS = {"imports": 4000, "rows_judged": 30000, "multi_parent_nodes": 1000, "answers_judged": 500, "big_networks": 8}
RULE = ("random libpgm documents (ids in arbitrary order, entries of V, E and Vdata shuffled, null or empty parents, any parent order, a few with tables of thousands of probabilities) as object, dictionary and JSON "
        "text; CPT read back semantically and judged against the document, and inference judged against the exact joint of the document; non-trivial = "
        "distinct documents with an edge")
ASSUMPTIONS = ["names and values contain no quote characters (the libpgm key syntax has no escape)"]


class Obj(object):
    pass


def document(rng, spec):
    V = [spec.names[i] for i in spec.order]
    rank = {i: k for k, i in enumerate(spec.topo())} if rng.random() < 0.5 else {i: k for k, i in enumerate(spec.order)}
    if rng.random() < 0.3:
        rank = {i: int(k) for i, k in zip(spec.order, rng.choice(10 * len(spec.order), size=len(spec.order), replace=False))}
    vdata = {}
    for i in [spec.order[k] for k in rng.permutation(len(spec.order))]:
        pas = spec.parents[i]
        if not pas:
            cprob = [float(x) for x in spec.cpt[i]]
            parents = None if rng.random() < 0.6 else []
        else:
            keys = list(itertools.product(*[range(spec.card(j)) for j in pas]))
            keys = [keys[k] for k in rng.permutation(len(keys))] if rng.random() < 0.5 else keys
            cprob = {"[" + ", ".join("'%s'" % spec.values[j][v] for j, v in zip(pas, key)) + "]": [float(x) for x in spec.cpt[i][key]] for key in keys}
            parents = [spec.names[j] for j in pas]
        ch = [spec.names[j] for j in spec.children(i)]
        entry = {"ord": rank[i], "numoutcomes": spec.card(i), "vals": list(spec.values[i]), "parents": parents, "children": ch or None, "cprob": cprob}
        ks = list(entry)
        vdata[spec.names[i]] = {ks[k]: entry[ks[k]] for k in rng.permutation(len(ks))}
    E = [[spec.names[a], spec.names[b]] for a, b in spec.edges]
    return {"V": [V[k] for k in rng.permutation(len(V))], "E": [E[k] for k in rng.permutation(len(E))], "Vdata": vdata}


def read(ctx, bbn, spec):
    nodes = {n.id: n for n in bbn.get_nodes()}
    by = {n.variable.name: n for n in nodes.values()}
    ctx.eq(sorted(by), sorted(spec.names.values()), "imported variables are not the document's")
    out = {}
    for i in spec.order:
        n = by[spec.names[i]]
        ctx.eq(list(n.variable.values), spec.values[i], "imported values are not the document's", variable=spec.names[i])
        pa = [nodes[j].variable.name for j in bbn.parents.get(n.id, [])]
        ctx.eq(sorted(pa), sorted(spec.names[j] for j in spec.parents[i]), "imported parents are not the document's", variable=spec.names[i])
        flat = [float(x) for x in n.probs]
        want_pa = [spec.names[j] for j in spec.parents[i]]
        t = np.array(flat).reshape([spec.card(spec.parents[i][want_pa.index(p)]) for p in pa] + [spec.card(i)])
        t = np.transpose(t, [pa.index(p) for p in want_pa] + [len(pa)])
        ctx.eq(t.tolist(), spec.cpt[i].tolist(), "an imported conditional table differs from the document's", variable=spec.names[i], parents=pa)
        ctx.ev("rows_judged", int(np.prod(t.shape[:-1])) if pa else 1)
        if len(pa) > 1:
            ctx.ev("multi_parent_nodes")
        out[spec.names[i]] = (n.id, n.variable.name, list(n.variable.values), flat, pa)
    ctx.eq(sorted((e.i.variable.name, e.j.variable.name, e.type.name) for e in bbn.get_edges()), sorted((spec.names[a], spec.names[b], "DIRECTED") for a, b in spec.edges), "imported edges are not the document's")
    return out, [n.id for n in bbn.get_nodes()]


def case(ctx, rng, idx):
    from pybbn.graph.factory import Factory
    from pybbn.pptc.inferencecontroller import InferenceController
    names = gen.pick(rng, ["n", "letters", "digits", "prefix", "words_safe", "unicode", "literals", "punct"])
    values = gen.pick(rng, ["tf", "onoff", "digits", "prefix", "shared", "mixed", "unicode", "literals", "punct", "words"])
    big = idx % 300 == 7
    spec = gen.make_big(rng, name_style=names, value_style=values) if big else gen.make_spec(rng, min_n=1, max_n=8, max_joint=1500, name_style=names, value_style=values)
    if big:
        ctx.ev("big_networks")
    d = document(rng, spec)
    ctx.note["document"] = json.dumps(d)[:4000]
    keep = copy.deepcopy(d)
    o = Obj()
    o.V, o.E, o.Vdata = d["V"], d["E"], d["Vdata"]
    forms = [("dictionary", lambda: Factory.from_libpgm_discrete_dictionary(d)), ("object", lambda: Factory.from_libpgm_discrete_object(o)), ("JSON", lambda: Factory.from_libpgm_discrete_json(json.dumps(d)))]
    seen = []
    for k in rng.permutation(3):
        name, f = forms[k]
        bbn = f()
        ctx.ev("imports")
        ctx.eq(d, keep, "importing from a %s modified the input" % name)
        ctx.eq(list(d["Vdata"]), list(keep["Vdata"]), "importing from a %s reordered the input" % name)
        seen.append(read(ctx, bbn, spec))
        for i in spec.order:
            ctx.eq(seen[-1][0][spec.names[i]][0], d["Vdata"][spec.names[i]]["ord"], "imported id is not the document's order number")
        # the network and the input are not tied to each other
        if rng.random() < 0.3 and bbn.get_nodes():
            n = list(bbn.get_nodes())[0]
            n.probs[0] = 7.0
            n.variable.values[0] = "spoiled"
            ctx.eq(d, keep, "changing the imported network changes the input")
            bbn = f()
        last = bbn
    ctx.eq(seen[0], seen[1], "the input forms disagree")
    ctx.eq(seen[1], seen[2], "the input forms disagree")
    if not big and rng.random() < 0.5:
        exact.compare_marginals(ctx, spec, InferenceController.apply(last).get_posteriors(), exact.Exact(spec).marginals(), "inference on the imported network")
        ctx.ev("answers_judged")
    if spec.edges:
        ctx.nontrivial(json.dumps(d))
    ctx.sample({"document": json.dumps(d)[:1500]})
