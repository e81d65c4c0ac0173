"""Runs the checks:  python -m mc.runner C01 [quick|thorough]"""
import importlib
import json
import multiprocessing
import os
import pickle
import re
import sys
import tempfile
import time
import traceback

from . import core, env, pristine

VERIF = env.VERIF
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Harness:
    """run(cfg, ctx) explored for every cfg of configs(tier).

    bound: maximal number of non-default choices per execution (None = all).
    finish(cfg, acc, stats): called once after a configuration is fully explored.
    """

    def __init__(self, name, run, configs, bound=None, finish=None, guard=60.0, new_acc=dict, about="", pristine=False):
        self.name, self.run, self.configs = name, run, configs
        self.bound, self.finish, self.guard, self.new_acc = bound, finish, guard, new_acc
        self.about = about
        self.pristine = pristine        # uses fresh processes

    def get_bound(self, tier):
        return self.bound(tier) if callable(self.bound) else self.bound


def load_known(prop):
    out = {}
    try:
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\w+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    except FileNotFoundError:
        pass
    return out


def run_task(h, cfg, tier, stats, known, deadline):
    acc = h.new_acc()

    def on_violation(v):
        if v.key is not None and v.key in known:
            stats.known.setdefault(v.key, v.msg)
            return True
        return False
    ncap = len(stats.capped)
    bound = cfg.get("bound", h.get_bound(tier)) if isinstance(cfg, dict) else h.get_bound(tier)
    v, choices = core.explore(h.run, cfg, stats, bound=bound, deadline=deadline,
                              guard=h.guard, acc=acc, on_violation=on_violation)
    if v is None and h.finish is not None and len(stats.capped) == ncap:
        try:
            h.finish(cfg, acc, stats)
        except core.Violation as w:
            if not on_violation(w):
                v, choices = w, None
        except Exception as e:
            v, choices = core.Violation("unexpected %s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-1500:])), None
    return v, choices


def worker(tasks, harnesses, counter, stop, tier, known, deadline, path):
    stats = core.Stats()
    found = None
    try:
        if any(h.pristine for h in harnesses):
            pristine.start()
        while not stop.value:
            with counter.get_lock():
                i = counter.value
                counter.value += 1
            if i >= len(tasks):
                break
            hi, cfg = tasks[i]
            h = harnesses[hi]
            t0 = time.time()
            v, choices = run_task(h, cfg, tier, stats, known, deadline)
            if os.environ.get("MC_PROFILE"):
                print("%.2fs %s %s" % (time.time() - t0, h.name, json.dumps(cfg)), file=sys.stderr)
            if v is not None:
                found = (i, hi, cfg, choices, v.msg, v.key)
                stop.value = 1
                break
    except BaseException:
        found = ("error", traceback.format_exc())
        stop.value = 1
    with open(path, "wb") as f:
        pickle.dump((stats, found), f)


def run_check(prop, tier, jobs=None):
    t0 = time.time()
    mod = importlib.import_module("mc.checks." + prop.lower())
    harnesses = mod.HARNESSES
    tasks = []
    per = {}
    for hi, h in enumerate(harnesses):
        cs = list(h.configs(tier))
        per[h.name] = len(cs)
        tasks += [(hi, c) for c in cs]
    known = load_known(prop)
    limit = float(os.environ.get("MC_DEADLINE", "400" if tier == "quick" else "3000"))
    deadline = t0 + limit
    jobs = jobs or int(os.environ.get("MC_JOBS", os.cpu_count() or 4))
    jobs = max(1, min(jobs, len(tasks)))
    fork = multiprocessing.get_context("fork")
    counter, stop = fork.Value("i", 0), fork.Value("i", 0)
    procs = []
    sys.stdout.flush()
    for w in range(jobs):
        path = os.path.join(env.SCRATCH, "w%d.pkl" % w)
        p = fork.Process(target=worker, args=(tasks, harnesses, counter, stop, tier, known, deadline, path))
        p.start()
        procs.append((p, path))
    stats = core.Stats()
    found = []
    errors = []
    for p, path in procs:
        p.join()
        try:
            with open(path, "rb") as f:
                s, v = pickle.load(f)
            stats.merge(s)
            if v and v[0] == "error":
                errors.append(v[1])
            elif v:
                found.append(v)
        except Exception as e:
            errors.append("worker died: %r exit=%s" % (e, p.exitcode))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    wall = time.time() - t0
    result = 0
    for key, msg in sorted(stats.known.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    if found:
        found.sort(key=lambda f: f[0])
        i, hi, cfg, choices, msg, key = found[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump({"property": prop, "harness": harnesses[hi].name, "cfg": cfg, "choices": choices,
                       "tier": tier, "message": msg, "key": key,
                       "replay_cmd": "cd %s && ./check --replay %s" % (VERIF, path)}, f, indent=1)
        print(msg)
        print("harness=%s cfg=%s choices=%s key=%s" % (harnesses[hi].name, json.dumps(cfg), choices, key))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        result = 1
    if errors and not found:
        print("\n".join(errors), file=sys.stderr)
        result = 2
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": len(stats.states), "transitions": stats.transitions,
            "traces_validated_against_impl": stats.validated,
            "executions": stats.executions, "choice_points": stats.choice_points,
            "pruned_executions": stats.pruned, "distinct_outcomes": len(stats.outcomes),
            "configurations": per, "bounds": getattr(mod, "BOUNDS", ""),
            "exhaustive": not stats.capped and not found,
            "capped": stats.capped[:20],
            "samples": stats.samples,
            "known_findings_seen": sorted(stats.known),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 3), "violations": len(found),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d executions, %d states, %d transitions, %d validated, %d outcomes, %d configs, capped=%d, %.1fs"
          % (prop, tier, stats.executions, len(stats.states), stats.transitions, stats.validated,
             len(stats.outcomes), len(tasks), len(stats.capped), wall))
    return result


def replay(path):
    r = json.load(open(path))
    mod = importlib.import_module("mc.checks." + r["property"].lower())
    h = [x for x in mod.HARNESSES if x.name == r["harness"]][0]
    stats = core.Stats()
    if r["choices"] is None:
        v, c = run_task(h, r["cfg"], r["tier"], stats, {}, None)
    else:
        ctx = core.Ctx(r["choices"], None, stats, None)
        ctx.acc = h.new_acc()
        ctx.replaying = True
        v = None
        try:
            with core.time_guard(h.guard):
                h.run(r["cfg"], ctx)
        except core.Violation as e:
            v = e
        except core.SkipExecution:
            pass
        except Exception as e:
            traceback.print_exc()
            v = core.Violation("unexpected %s: %s" % (type(e).__name__, e))
    if v is not None:
        print(v.msg)
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
        return 1
    print("the recorded execution no longer violates %s" % r["property"])
    return 0


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(os.path.join("/", argv[1]) if argv[1].startswith("/") else os.path.join(VERIF, argv[1]))
    if argv and argv[0] == "--setup":       # nothing to build: import everything once
        for f in sorted(os.listdir(os.path.join(VERIF, "mc", "checks"))):
            if f.startswith("c") and f.endswith(".py"):
                importlib.import_module("mc.checks." + f[:-3])
        print("ok: pyswarms from %s" % env.REPO)
        return 0
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(prop, tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
