"""C41 nothing happens beside what was asked for."""
import atexit
import builtins
import contextlib
import copy
import copyreg
import csv
import decimal
import faulthandler
import gc
import io
import json
import locale
import logging
import multiprocessing
import os
import pickle
import random
import resource
import signal
import socket
import sys
import threading
import tracemalloc
import warnings

import networkx as nx
import numpy as np
import pandas as pd

from vmon import exact, gauss, gen, session  # noqa: F401

CASES = {"quick": 640, "thorough": 6000}
FLOORS = {"operations_watched": 25000, "kinds_of_operation": 52, "file_operations": 2500, "random_states_compared": 25000, "settings_compared": 25000, "arguments_compared": 6000,
          "failures_watched": 4500, "opens_seen": 1500, "large_networks": 25}
RULE = ("~60 kinds of operation on networks (some of hundreds of variables), trees, files, samplers, generators, learners, effects and Gaussian models, failing ones included, each run under an audit hook "
        "(files opened, removed or renamed, processes, sockets, modules' code executed) with standard streams, descriptors, threads, random states, interpreter and library "
        "settings, environment, directory contents, default arguments and the caller's own arguments compared before and after; non-trivial = distinct (operation, network)")
ASSUMPTIONS = ["numpy's global random state may be moved by sampling, generating and drawing from a Gaussian model only; warnings may be issued, resource warnings not"]

WATCHED = ("os.", "shutil.", "subprocess.", "socket.", "tempfile.", "glob.", "urllib.", "http.", "ftplib.", "smtplib.", "sqlite3.", "ctypes.dlopen", "webbrowser.", "pty.", "fcntl.", "signal.",
           "syslog.", "mmap.")
HARMLESS = ("os.listdir", "os.scandir", "os.walk", "os.fwalk", "os.getxattr", "os.listxattr")
STATE = {"on": False, "log": []}


def hook(event, args):
    if not STATE["on"]:
        return
    if event == "open":
        STATE["log"].append((event, str(args[0]), str(args[1]), args[2]))
    elif event.startswith(WATCHED) and not event.startswith(HARMLESS):
        STATE["log"].append((event,) + tuple(str(a)[:80] for a in args))


def library_functions():
    """Every function of the library with its default arguments."""
    import importlib
    import inspect
    import pkgutil

    import pybbn
    out = {}
    for m in pkgutil.walk_packages(pybbn.__path__, "pybbn."):
        mod = importlib.import_module(m.name)
        for k, v in vars(mod).items():
            if inspect.isfunction(v) and v.__module__ == mod.__name__:
                out[mod.__name__, k] = v
            if inspect.isclass(v) and v.__module__ == mod.__name__:
                for k2, f in vars(v).items():
                    f = getattr(f, "__func__", f)
                    if inspect.isfunction(f):
                        out[mod.__name__, k, k2] = f
    return out


def settings():
    return {
        "random state of the random module": hash(random.getstate()),
        "recursion limit": sys.getrecursionlimit(),
        "numpy error handling": repr(np.geterr()),
        "numpy print options": repr(sorted(np.get_printoptions().items(), key=repr)),
        "pandas options": repr([pd.get_option(o) for o in ("display.max_rows", "display.max_columns", "display.precision", "mode.chained_assignment")]),
        "working directory": os.getcwd(),
        "environment": hash(tuple(sorted(os.environ.items()))),
        "warning filters": repr(warnings.filters),
        "threads": threading.active_count(),
        "garbage collection": (gc.isenabled(), gc.get_threshold()),
        "switch interval": sys.getswitchinterval(),
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "signal handlers": repr([signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)]),
        "hooks": (id(sys.excepthook), id(sys.displayhook), id(sys.settrace), sys.gettrace() is None, sys.getprofile() is None),
        "umask": _umask(),
        "open descriptors": len(os.listdir("/proc/self/fd")),
        "path": tuple(sys.path),
        "logging": (logging.root.level, tuple(map(id, logging.root.handlers)), logging.root.manager.disable, id(logging.getLoggerClass()), logging.raiseExceptions, len(logging._handlers)),
        "functions called at exit": atexit._ncallbacks(),
        "copying and pickling": (tuple(sorted(map(repr, copyreg.dispatch_table))), len(copy._deepcopy_dispatch)),
        "json": (id(json.JSONEncoder.default), id(json.JSONDecoder.decode), id(json._default_encoder), json._default_encoder.ensure_ascii, json._default_encoder.indent),
        "builtins": (len(vars(builtins)), hash(tuple((k, id(v)) for k, v in sorted(vars(builtins).items()) if k != "_"))),
        "limits": (sys.get_int_max_str_digits(), socket.getdefaulttimeout(), threading.stack_size(), resource.getrlimit(resource.RLIMIT_STACK), resource.getrlimit(resource.RLIMIT_NOFILE),
                   resource.getrlimit(resource.RLIMIT_AS)),
        "more hooks": (id(threading.excepthook), id(sys.unraisablehook), id(sys.breakpointhook), len(sys.meta_path), len(sys.path_hooks), len(gc.callbacks), sys.flags.dev_mode),
        "fault handler": faulthandler.is_enabled(),
        "csv settings": (csv.field_size_limit(), tuple(sorted(csv.list_dialects()))),
        "priority": os.getpriority(os.PRIO_PROCESS, 0),
        "tracing of memory": tracemalloc.is_tracing(),
        "byte code writing": sys.dont_write_bytecode,
        "more numpy settings": (repr(np.geterrcall()), np.getbufsize()),
        "scheduling": (len(os.sched_getaffinity(0)), multiprocessing.get_start_method(allow_none=True), len(multiprocessing.active_children())),
    }


def _umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def np_state():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:])


def freeze(x):
    """A comparable image of an argument, types included."""
    if isinstance(x, dict):
        return ("dict", tuple((freeze(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(freeze(v) for v in x))
    if isinstance(x, (set, frozenset)):
        return ("set", tuple(sorted(map(repr, x))))
    if isinstance(x, pd.DataFrame):
        return ("frame", tuple(map(str, x.columns)), tuple(map(str, x.dtypes)), tuple(x.index), x.to_csv())
    if isinstance(x, np.ndarray):
        return ("array", x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (nx.Graph, nx.DiGraph)):
        return ("nx", repr(list(x.nodes(data=True))), repr(list(x.edges(data=True))))
    if isinstance(x, float):
        return ("float", x.hex())
    return (type(x).__name__, repr(x)) if isinstance(x, (str, int, bool, type(None))) else ("object", id(x))


class Watch(object):
    def __init__(self, ctx, folder):
        self.ctx, self.folder = ctx, folder
        self.functions = library_functions()
        self.defaults = self.read_defaults()
        self.key = None

    def read_defaults(self):
        return {k: freeze((f.__defaults__, f.__kwdefaults__)) for k, f in self.functions.items()}

    def __call__(self, name, f, args=(), files=(), draws=False, fails=None):
        """files: paths the operation may open; draws: may move numpy's global state; fails: expected exception (any)."""
        ctx = self.ctx
        ctx.note["operation"] = name
        frozen = [freeze(a) for a in args]
        before, state = settings(), np_state()
        listing = {p: os.stat(os.path.join(self.folder, p)).st_mtime_ns for p in os.listdir(self.folder)}
        out, err = io.StringIO(), io.StringIO()
        caught, r = None, None
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            inside = repr(warnings.filters)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                STATE["log"] = []
                STATE["on"] = True
                try:
                    r = f(*args)
                except Exception as e:
                    caught = e
                finally:
                    STATE["on"] = False
            ctx.eq(repr(warnings.filters), inside, "the warning filters were changed", operation=name)
            res = [str(w.message) for w in ws if issubclass(w.category, ResourceWarning)]
        if fails is None and caught is not None:
            raise caught
        if fails:
            if caught is not None:
                ctx.ev("failures_watched")
            if caught is not None:
                caught.__traceback__ = None
        ctx.eq(res, [], "something was left open", operation=name)
        ctx.eq((out.getvalue(), err.getvalue()), ("", ""), "something was printed", operation=name)
        allowed = {os.path.abspath(p) for p in files}
        for e in STATE["log"]:
            if e[0] == "open":
                ctx.ev("opens_seen")
                p = os.path.abspath(e[1]) if not e[1].isdigit() else e[1]
                if p in allowed:
                    continue
                writes = any(c in e[2] for c in "wax+") or (isinstance(e[3], int) and e[3] & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
                library = p.startswith((sys.prefix, sys.base_prefix, "/usr/lib", "/proc/self", "/sys")) or p.endswith((".py", ".pyc", ".so"))
                ctx.check(library and not writes, "a file was opened that nobody asked for", operation=name, file=e[1], mode=e[2])
            else:
                ctx.fail("the system was asked for something beside the operation", operation=name, request=e)
        after = settings()
        for k in before:
            ctx.eq(after[k], before[k], "process-wide settings were changed: " + k, operation=name)
        ctx.ev("settings_compared")
        if not draws:
            ctx.check(np_state() == state, "the global random state was moved", operation=name)
            ctx.ev("random_states_compared")
        mine = {os.path.basename(p) for p in files}
        now = {p: os.stat(os.path.join(self.folder, p)).st_mtime_ns for p in os.listdir(self.folder)}
        ctx.eq({p: t for p, t in now.items() if p not in mine}, {p: t for p, t in listing.items() if p not in mine}, "other files in the folder were touched", operation=name)
        ctx.eq([freeze(a) for a in args], frozen, "an argument of the caller was changed", operation=name)
        ctx.ev("arguments_compared", len(args))
        d = self.read_defaults()
        ctx.eq({k: v for k, v in d.items() if v != self.defaults[k]}, {}, "default arguments were changed", operation=name)
        ctx.ev("operations_watched")
        ctx.ev("did_" + name)
        if ctx.events["did_" + name] == 1:
            ctx.ev("kinds_of_operation")
        if files:
            ctx.ev("file_operations")
        ctx.nontrivial((name, self.key))
        return r


INSTALLED = []


def watched(ctx, folder):
    if not INSTALLED:
        sys.addaudithook(hook)
        INSTALLED.append(1)
        library_functions()
        locale.setlocale(locale.LC_ALL)
    return Watch(ctx, folder)


def libpgm(spec):
    import itertools
    V = [spec.names[i] for i in spec.order]
    vd = {}
    for i in spec.order:
        pas = spec.parents[i]
        k = spec.card(i)
        flat = spec.flat(i)
        if pas:
            cfgs = list(itertools.product(*[spec.values[p] for p in pas]))
            cp = {"[" + ", ".join("'%s'" % v for v in c) + "]": flat[r * k:(r + 1) * k] for r, c in enumerate(cfgs)}
        else:
            cp = flat
        vd[spec.names[i]] = {"ord": i, "vals": list(spec.values[i]), "parents": [spec.names[p] for p in pas] or None, "children": None, "cprob": cp}
    return {"V": V, "E": [[spec.names[a], spec.names[b]] for a, b in spec.edges], "Vdata": vd}


def clear(folder):
    for p in os.listdir(folder):
        os.remove(os.path.join(folder, p))
    os.rmdir(folder)


def large(ctx, rng, idx, w, folder):
    """The same for networks of a hundred and more variables."""
    from pybbn.graph.dag import Bbn
    from pybbn.graph.jointree import JoinTree
    from pybbn.gaussian.inference import GaussianInference
    from pybbn.generator.bbngenerator import convert_for_drawing, generate_multi_bbn
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.sampling.sampling import LogicSampler
    n = int(rng.integers(70, 170)) if rng.random() < 0.9 else int(rng.integers(260, 300))
    spec = gen.make_spec(rng, min_n=n, max_n=n, max_joint=float("inf"), max_card=3, max_family=27, shape=gen.pick(rng, ["tree", "chain", "polytree", "forest", "star_out"]), name_style="n", value_style="tf")
    spec.values = {i: [str(v) for v in vs] for i, vs in spec.values.items()}
    w.key = spec.key()
    ctx.note["network"] = spec.describe()
    bbn, nodes = w("build", lambda: gen.build(spec))
    jt = w("apply", lambda: InferenceController.apply(bbn))
    some = [gen.pick(rng, spec.order) for _ in range(2)]
    w("update", jt.update_evidences, [[session.make_evidence(spec, jt, None, (i, "VIRTUAL", [(v, 0.5 + 0.25 * (k % 2)) for k, v in enumerate(spec.values[i])])) for i in some]])
    w("query", jt.get_posteriors)
    twin = w("copy", lambda: copy.deepcopy(jt))
    w("copy network", lambda: copy.deepcopy(bbn))
    w("unobserve_all", twin.unobserve_all)
    w("reapply", InferenceController.reapply, [jt, {spec.order[0]: spec.flat(spec.order[0])}])
    d = w("tree to dictionary", lambda: JoinTree.to_dict(jt, bbn))
    w("tree from dictionary", lambda x: InferenceController.apply_from_serde(JoinTree.from_dict(x)), [d])
    w("pickle", lambda: pickle.loads(pickle.dumps((jt, bbn))))
    w("text", lambda: (str(jt), str(bbn)))
    w("network to dictionary", lambda: Bbn.from_dict(Bbn.to_dict(bbn)))
    w("network to dne", lambda: Bbn.to_dne(bbn, "net"))
    pj, pc = os.path.join(folder, "b.json"), os.path.join(folder, "b.csv")
    w("to json file", lambda: Bbn.to_json(bbn, pj), files=[pj])
    w("from json file", lambda: Bbn.from_json(pj), files=[pj])
    w("to csv file", lambda: Bbn.to_csv(bbn, pc), files=[pc])
    w("from csv file", lambda: Bbn.from_csv(pc), files=[pc])
    w("for drawing", lambda: (convert_for_drawing(bbn), bbn.to_nx_graph()))
    smp = w("sampler", lambda: LogicSampler(bbn))
    w("samples", lambda e: smp.get_samples(evidence=e, n_samples=20, seed=idx), [{}], draws=True)
    w("generate multi", lambda: generate_multi_bbn(int(rng.integers(40, 80)), max_iter=20), draws=True)
    for i in spec.order[:3]:
        w("remove node", lambda: bbn.remove_node(i))
    H, mu, cov = gauss.model(rng, n=int(rng.integers(20, 60)))
    gi = w("gaussian", GaussianInference, [H, mu, cov])
    w("gaussian inference", gi.do_inferences, [gauss.observations(rng, H, mu, cov, 5)])
    ctx.ev("large_networks")


def case(ctx, rng, idx):
    from pybbn.causality.ace import Ace
    from pybbn.causality import do
    from pybbn.gaussian.inference import GaussianInference
    from pybbn.generator.bbngenerator import convert_for_drawing, convert_for_exact_inference, generate_bbn_to_file, generate_multi_bbn, generate_singly_bbn
    from pybbn.graph.dag import Bbn
    from pybbn.graph.factory import Factory
    from pybbn.graph.jointree import EvidenceBuilder, JoinTree
    from pybbn.graph.potential import Potential, PotentialUtil
    from pybbn.pptc.inferencecontroller import InferenceController
    from pybbn.pptc.moralizer import Moralizer
    from pybbn.pptc.triangulator import Triangulator
    from pybbn.sampling.sampling import LogicSampler
    folder = os.path.join(ctx.scratch, "c41-%d-%d" % (os.getpid(), idx))
    os.makedirs(folder)
    with open(os.path.join(folder, "bystander.txt"), "w") as f:
        f.write("x")
    w = watched(ctx, folder)
    if idx % 16 == 5:
        large(ctx, rng, idx, w, folder)
        return clear(folder)
    positive = rng.random() < 0.5
    spec = gen.make_spec(rng, min_n=2, max_n=6, max_joint=200, cpt_mode="positive" if positive else None, name_style="n", value_style="tf", id_style=gen.pick(rng, ["seq", "shuffled", "sparse"]))
    spec.values = {i: [str(v) for v in vs] for i, vs in spec.values.items()}
    w.key = spec.key()
    ctx.note["network"] = spec.describe()
    bbn, nodes = w("build", lambda: gen.build(spec))
    A = spec.order[0]
    jt = w("apply", lambda: InferenceController.apply(bbn))
    for _ in range(3):
        n = lambda i: jt.get_bbn_node(i)   # noqa: E731
        ev = [session.make_evidence(spec, jt, None, session.random_evidence(rng, spec)) for _ in range(2)]
        w("update", jt.update_evidences, [ev])
        w("observe", lambda: jt.set_observation(EvidenceBuilder().with_node(n(A)).with_evidence(spec.values[A][0], 1.0).build()))
        w("query", jt.get_posteriors)
        w("potential", lambda: jt.get_bbn_potential(n(A)))
        w("refused", lambda: jt.update_evidences([EvidenceBuilder().with_node(n(A)).with_evidence("no such value", 1.0).build()]), fails=True)
        w("unobserve", lambda: jt.unobserve([n(A)]))
        w("unobserve_all", jt.unobserve_all)
    w("text", lambda: (str(jt), str(bbn), repr(nodes[A]), str(jt.get_bbn_potential(jt.get_bbn_node(A)))))
    w("potentials to dictionary", lambda: Potential.to_dict([jt.get_bbn_potential(x) for x in jt.get_bbn_nodes()]))
    w("unknown", lambda: jt.get_bbn_node_by_name("nobody"))
    w("copy", lambda: copy.deepcopy(jt))
    w("copy network", lambda: copy.deepcopy(bbn))
    w("shallow copy", lambda: copy.copy(bbn))
    w("reapply", InferenceController.reapply, [jt, {A: spec.flat(A), spec.order[-1]: spec.flat(spec.order[-1])}])
    # things that cannot be done
    broken = copy.deepcopy(bbn)
    victim = broken.nodes[gen.pick(rng, spec.order)]
    victim.probs = [] if rng.random() < 0.3 else gen.pick(rng, [["a"] * len(victim.probs), list(victim.probs)[:-1], None, [None] * len(victim.probs)])
    w("apply to a broken network", lambda: InferenceController.apply(broken), fails=True)
    w("sampler of a broken network", lambda: LogicSampler(broken).get_samples(n_samples=3, seed=1), fails=True, draws=True)
    w("dictionary of a broken network", lambda: Bbn.from_dict(Bbn.to_dict(broken)), fails=True)
    w("reapply with broken tables", lambda: InferenceController.reapply(jt, {A: gen.pick(rng, [[], None, ["a"], spec.flat(A)[:-1]])}), fails=True)
    w("reapply to nothing", lambda: InferenceController.reapply(None, {}), fails=True)
    w("apply to nothing", lambda: InferenceController.apply(None), fails=True)
    w("apply to an empty network", lambda: InferenceController.apply(Bbn()), fails=True)
    lost = gen.pick(rng, sorted(JoinTree.to_dict(jt, bbn)))
    w("tree from a broken dictionary", lambda: InferenceController.apply_from_serde(JoinTree.from_dict({k: v for k, v in JoinTree.to_dict(jt, bbn).items() if k != lost})), fails=True)
    d = w("tree to dictionary", lambda: JoinTree.to_dict(jt, bbn))
    w("tree from dictionary", lambda x: InferenceController.apply_from_serde(JoinTree.from_dict(x)), [d])
    d2 = json.loads(json.dumps(d))
    w("tree from json", lambda x: InferenceController.apply_from_serde(JoinTree.from_dict(x)), [d2])
    d = w("network to dictionary", lambda: Bbn.to_dict(bbn))
    w("network from dictionary", Bbn.from_dict, [d])
    w("network from loaded json", Bbn.from_dict, [json.loads(json.dumps(d))])
    w("network to dne", lambda: Bbn.to_dne(bbn, "net"))
    # files
    pj, pc = os.path.join(folder, "b.json"), os.path.join(folder, "b.csv")
    for _ in range(2):
        w("to json file", lambda: Bbn.to_json(bbn, pj), files=[pj])
        w("from json file", lambda: Bbn.from_json(pj), files=[pj])
        w("to csv file", lambda: Bbn.to_csv(bbn, pc), files=[pc])
        w("from csv file", lambda: Bbn.from_csv(pc), files=[pc])
    none, bad = os.path.join(folder, "none.json"), os.path.join(folder, "bad.json")
    w("from a missing file", lambda: (Bbn.from_json if idx % 2 else Bbn.from_csv)(none), files=[none], fails=True)
    ctx.check(not os.path.exists(none), "reading made a file")
    with open(bad, "w") as f:
        f.write('{"nodes": {' if idx % 2 else "a,b|c\nx")
    w("from a broken file", lambda: (Bbn.from_json if idx % 2 else Bbn.from_csv)(bad), files=[bad], fails=True)
    w("to a folder that is not there", lambda: (Bbn.to_json if idx % 2 else Bbn.to_csv)(bbn, os.path.join(folder, "no", "b")), files=[os.path.join(folder, "no", "b")], fails=True)
    # graphs
    w("moralize", lambda: Triangulator.triangulate(Moralizer.moralize(bbn)))
    w("to networkx", bbn.to_nx_graph)
    w("for drawing", lambda: convert_for_drawing(bbn))
    w("potential algebra", lambda: PotentialUtil.multiply(PotentialUtil.get_potential_from_nodes(list(nodes.values())[:2]), nodes[A].potential), fails=True)
    # sampling and learning
    smp = w("sampler", lambda: LogicSampler(bbn))
    x = w("samples", lambda e: smp.get_samples(evidence=e, n_samples=30, seed=idx), [{}], draws=True)
    w("samples by default", lambda: smp.get_samples(n_samples=2), draws=True)
    w("samples with evidence", lambda e: smp.get_samples(evidence=e, n_samples=3, seed=idx), [{A: x[0][A]}], draws=True)
    df = pd.DataFrame([{spec.names[i]: v for i, v in s.items()} for s in x])
    w("learn", Factory.from_data, [{spec.names[i]: [spec.names[p] for p in spec.parents[i]] for i in spec.order}, df])
    w("learn from too little", Factory.from_data, [{"nobody": ["nothing"]}, df], fails=True)
    lp = libpgm(spec)
    w("from libpgm", Factory.from_libpgm_discrete_dictionary, [lp])
    w("from libpgm json", Factory.from_libpgm_discrete_json, [json.dumps(lp)])
    # generating
    size = int(rng.integers(3, 7))
    for name, g in (("generate multi", generate_multi_bbn), ("generate singly", generate_singly_bbn)):
        np.random.seed(idx)
        gg, pp = w(name, lambda: g(size, max_iter=5), draws=True)
        w("for inference", convert_for_exact_inference, [gg, pp])
    pg = os.path.join(folder, "g.csv")
    kind = gen.pick(rng, ["multi", "singly"])
    w("generate to file", lambda: generate_bbn_to_file(size, pg, bbn_type=kind, max_iter=5), files=[pg], draws=True)
    # effects and separation
    if positive and len(spec.components()) == 1 and all(c.min() > 0 for c in spec.cpt.values()):
        y = spec.order[-1]
        w("effect", lambda: Ace(bbn).get_ace(spec.names[A], spec.names[y], spec.values[y][0]))
    g = nx.DiGraph()
    g.add_nodes_from(spec.order)
    g.add_edges_from(spec.edges)
    gr = do.get_graph(g)
    y = spec.order[-1]
    w("paths", lambda a: do.get_paths(do.get_graph(a), A, y), [g])
    w("confounders", lambda a: (do.get_all_confounders(gr, A, y), do.get_minimal_confounders(gr, A, y)), [g])
    w("mediators", lambda a: do.get_minimal_mediators(gr, A, y), [g])
    # Gaussian models
    H, mu, cov = gauss.model(rng, n=int(rng.integers(2, 6)))
    gi = w("gaussian", GaussianInference, [H, mu, cov])
    obs = gauss.observations(rng, H, mu, cov, 1)
    g2 = w("gaussian inference", gi.do_inferences, [obs])
    w("gaussian text", lambda: (str(g2), repr(g2)))
    w("gaussian draw", lambda: g2.sample_marginals(size=5), draws=True)
    clear(folder)
    ctx.sample({"network": spec.describe(), "operations": ctx.events["operations_watched"]})
