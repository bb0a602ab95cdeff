"""Run in a fresh interpreter: takes over pickled trees, carries on with their histories and hands them back."""
import pickle
import sys

from vmon import session

if __name__ == "__main__":
    import os
    src, dst = sys.argv[1:3]
    with open(src, "rb") as f:
        items = pickle.load(f)
    out = []
    for it in items:
        bbn, jt = pickle.loads(it["tree"])
        s = session.Session(it["spec"], jt)
        s.query()
        for op in it["ops"]:
            s.run(op)
        s.query()
        out.append({"tree": pickle.dumps([bbn, jt]), "events": s.events})
    import pybbn
    assert os.path.realpath(pybbn.__file__).startswith(os.path.realpath(os.environ.get("VMON_REPO", "/repo")) + "/")
    with open(dst, "wb") as f:
        pickle.dump(out, f)
