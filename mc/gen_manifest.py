"""Writes /verif/MANIFEST.json from the checks (run: PYTHONPATH=. /opt/venv/bin/python -m mc.gen_manifest)."""
import importlib
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
    "C31": "a statement about probability distributions over unbounded runs: no bounded exhaustive enumeration of executions decides how likely convergence is, and any sampled run would be a different technique",
}
TECH = {
    "default": "stateless model checking of the real code: exhaustive depth-first enumeration of every choice (random draws, costs, inputs, operations) within bounds, monitors and reference models as oracle",
    "C04": "stateless model checking: every best-cost sequence over an alphabet x ftol x ftol_iter, exact reference automaton of the stopping rule",
    "C08": "stateless model checking with fault injection at every evaluation, differential oracle against a fresh optimizer",
    "C09": "stateless model checking of the parallel evaluation under a controlled worker-pool scheduler (all completion orders), conformance runs against real worker processes",
    "C10": "exhaustive enumeration of operation sequences up to a depth, differential oracle against fresh construction under the same controlled draws",
    "C11": "exhaustive enumeration of interleavings of two optimizers (switch bound) under a controlled scheduler; input snapshots after every operation",
    "C18": "exhaustive enumeration of all outcomes of the neighbour draws on the real topology; graph oracle",
    "C21": "exhaustive enumeration of call sequences, differential oracle against fresh topologies",
    "C32": "exhaustive enumeration of malformed requests (argument x value x element x surrounding configuration) and of sequences of rejected requests; accept/reject table and differential oracle",
    "C33": "stateless model checking, differential: every explored execution is run a second way (other class, backend loop, other spelling) under the logged draws",
    "C34": "stateless model checking, differential: every explored execution is replayed under every recoding of its costs",
    "C35": "stateless model checking, differential: every explored execution is replayed in the transformed space under the transformed draws",
    "C36": "exhaustive enumeration of operation sequences up to a depth; the process state is compared after every operation",
    "C37": "exhaustive enumeration of the subsets of optional arguments and of the splits into positional and keyword arguments, executed on the real code and compared with the fully spelled-out call",
    "C38": "stateless model checking: the user's topology is a nondeterministic environment whose every sequence of answers is explored around the real optimizer; exhaustive enumeration of custom strategies, optimizers and searches",
    "C30": "exhaustive enumeration of operation sequences on real logging handlers in a scratch directory; reference model of the expected records",
}


def main():
    checks = []
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        i = p["id"]
        if i in NOT_APPLICABLE:
            continue
        m = importlib.import_module("mc.checks." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": TECH.get(i, TECH["default"]),
            "level": "model_checking",
            "level_note": "Every execution of the real code within these bounds is checked: %s. Assumes: %s." % (m.BOUNDS, "; ".join(m.ASSUMPTIONS)),
        })
    man = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": checks,
        "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()],
        "notes": "No hooks in /repo: randomness, the worker pool and logging configuration are intercepted from outside (mc/rng.py, mc/pool.py, mc/env.py). Replay a counterexample with ./check --replay replays/<id>.json.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
