"""Run under a given PYTHONHASHSEED: rebuilds the same cases and prints the answers as JSON."""
import json
import sys

import numpy as np

from vmon import gen, session


def answers(seed, idx, n):
    from pybbn.pptc.inferencecontroller import InferenceController
    out = []
    for k in range(n):
        rng = np.random.default_rng([seed, 909, idx, k])
        spec = gen.make_spec(rng, min_n=2, max_n=8, max_joint=600)
        bbn, nodes = gen.build(spec, rng)
        jt = InferenceController.apply(bbn)
        s = session.Session(spec, jt, nodes)
        model = session.EvidenceModel(spec)
        for _ in range(4):
            op = session.random_op(rng, spec, query=0.0, model=model)
            s.run(op)
            model.step(op)
        s.query()
        out.append({"post": s.events[-1]["result"], "cliques": sorted(sorted(c.node_ids) for c in jt.get_cliques())})
    return out


if __name__ == "__main__":
    import os
    import pybbn
    assert os.path.realpath(pybbn.__file__).startswith(os.path.realpath(os.environ.get("VMON_REPO", "/repo")) + "/")
    seed, idx, n = map(int, sys.argv[1:4])
    json.dump({"hash": hash("x"), "answers": answers(seed, idx, n)}, sys.stdout)
