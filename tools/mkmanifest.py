"""Writes /verif/MANIFEST.json from the check modules' own rules. Run with: /opt/venv/bin/python tools/mkmanifest.py"""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = {
    "C01": "runtime monitor: exact-joint oracle over recorded answers",
    "C02": "runtime monitor: Bayes-rule oracle over recorded answers under generated evidence",
    "C03": "offline history checker against an executable evidence model",
    "C04": "offline history checker against an executable evidence model, fault injection with malformed evidence",
    "C05": "per-tree history checkers over interleaved and multi-threaded runs",
    "C06": "differential monitor: re-applied tree vs. fresh exact oracle",
    "C07": "structural invariant monitor on live join trees",
    "C08": "online invariant checker hooked at every propagation (join-tree listener)",
    "C09": "metamorphic runtime monitor, including child interpreters with other hash seeds",
    "C10": "round-trip monitor with an independent reader",
    "C11": "round-trip monitor with an independent reader",
    "C12": "round-trip monitor with structural comparison and history checker",
    "C13": "online invariant monitor over edit histories",
    "C14": "model-based history monitor (set model of a graph)",
    "C15": "snapshot-and-mutate monitor over copies",
    "C16": "runtime monitor over recorded samples and draws",
    "C17": "exact table oracle plus statistical monitor (Chernoff bounds, fixed error budget)",
    "C18": "runtime monitor with an independent counting oracle",
    "C19": "runtime monitor with an independent libpgm interpreter",
    "C20": "runtime monitor of generated structures and CPTs",
    "C21": "round-trip and conversion monitor",
    "C22": "runtime monitor with exact Gaussian conditioning oracle",
    "C23": "metamorphic runtime monitor over observation histories",
    "C24": "runtime monitor with truncated-factorisation oracle",
    "C25": "runtime monitor with independent d-separation oracle",
    "C26": "runtime monitor with independent path oracle",
    "C27": "round-trip monitor with an independent DNE parser",
    "C28": "runtime monitor: potentials vs. numpy tensor model",
    "C29": "stress monitor with an iterative factor-graph oracle",
    "C30": "runtime monitor: moral and chordal graph definitions",
    "C31": "history monitor: repeated reads, fingerprints and evidence model",
    "C32": "statistical runtime monitor: coverage of structures, moments of CPT rows (Hoeffding bounds)",
    "C33": "offline history checker over pickled and reloaded objects, also in fresh interpreters",
    "C34": "resource monitor: reachable objects, live instances and calls counted over repeated cycles",
    "C35": "runtime monitor: string forms against text written from the model",
    "C36": "cost monitor: profiled calls and their growth with network size and history",
    "C37": "runtime monitor: cliques and separators against plain sets",
    "C38": "online monitor over edit histories against an independent reachability search",
    "C39": "statistical runtime monitor: sample, learn, compare (Chernoff bounds)",
    "C40": "event monitor: notifications counted and the state they see compared with an evidence model",
    "C41": "side-effect monitor: audit hook and before/after images of process, files, settings and arguments",
    "C43": "multi-threaded runs with injected pauses, each result compared with the same task alone",
    "C44": "differential monitor: one network written in many arrangements, read back and judged against the exact joint",
    "C42": "fault injection at library calls with an offline evidence-model oracle",
}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    mod = importlib.import_module("vmon.checks." + p["id"].lower())
    a = getattr(mod, "ASSUMPTIONS", [])
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check %s quick" % p["id"],
        "thorough_cmd": "./check %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": TECH[p["id"]],
        "level": "exploration",
        "level_note": "Held on the executions observed, counted in the evidence file; trusts numpy and the oracles in vmon/." +
                      (" Assumes: " + "; ".join(a) + "." if a else "")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import numpy, networkx, pandas' && mkdir -p evidence",
           "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo: all events are taken at the public API. ./check C05 --replay FILE re-runs the case of a replay file."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
