#!/usr/bin/env python3
"""check.py run <property> [--tier quick|thorough] [--seed N]     decide one property on /repo's working tree
   check.py replay <file>                                           run a saved reproduction again
Everything is built from /repo in a scratch directory that is removed afterwards."""
import argparse, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE + "/tools")
import xbuild
from plan import PLAN, TARGETS, DRIVERS

WORKERS = 8


def known_findings():
    """lines 'finding: property=<id> key=<key> <what>' suppress exactly the probe or failure with that key"""
    res = {}
    path = HERE + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                w = line.split(None, 3)
                res[(w[1].split("=", 1)[1], w[2].split("=", 1)[1])] = w[3]
    return res


def scratch():
    base = os.environ.get("XV_SCRATCH")
    return tempfile.mkdtemp(prefix="xv-", dir=base)


def build_targets(out, prop, specs):
    """the executors; returns the list of those that were built"""
    p = PLAN[prop]
    b = xbuild.Build(out)
    ok = []
    b.program("prop", "g++", [f"{HERE}/drv/{f}.cpp" for f in ["main", "props"] + p["drv"]], "-O1 -std=c++17 -w", "-lrapidcheck")
    for s in sorted(specs, key=lambda s: "san" not in s):
        try:
            if re.match("sa[A-Z]|ksum-|docModel", s):
                b.standalone(s)
            else:
                b.executor(s, p["highs"], p["execs"], p["skip"])
            ok.append(s)
        except KeyError as e:
            print(f"note: {s}: no fragment {e} in this tree")
    b.run()
    if not os.path.exists(out + "/prop"):
        print("error: the driver could not be built")
        sys.exit(3)
    built = [s for s in ok if os.path.exists(f"{out}/x/{s}") and (s[:5] != "ksum-" or os.path.exists(f"{out}/prog/{s}"))]
    missing = [s for s in specs if s not in built]
    if missing:
        print("note: not built:", " ".join(missing))
    return built, missing


def main_targets():
    return [t for t in TARGETS if "@" not in t and t not in xbuild.MIX]


def evidence(prop, tier, seed, cov, t0, violations):
    p = PLAN[prop]
    os.makedirs(HERE + "/evidence", exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": p.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = f"{HERE}/evidence/.{prop}.tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, f"{HERE}/evidence/{prop}.json")


def run(prop, tier, seed):
    t0 = time.time()
    p = PLAN[prop]
    if p.get("driver"):
        return DRIVERS[p["driver"]](prop, tier, seed, sys.modules[__name__])
    out = scratch()
    try:
        specs = [t.split("/")[0] for t in p["targets"]]
        built, missing = build_targets(out, prop, specs)
        if [m for m in missing if m in main_targets()]:
            print("error: targets of Makefile.build do not build")
            return 3
        tb = time.time() - t0
        targets = ",".join(t for t in p["targets"] if t.split("/")[0] in built)
        cases = p["cases"][0 if tier == "quick" else 1]
        limit = p.get("time", (45, 600))[0 if tier == "quick" else 1]
        rdir = HERE + "/replays"
        os.makedirs(rdir, exist_ok=True)
        procs = []
        for w in range(WORKERS):
            cmd = [out + "/prop", "--prop", prop, "--dir", out + "/x", "--targets", targets, "--seed", str(seed * 1000003 + 7919 * w + 1),
                   "--cases", str(max(1, cases // WORKERS)), "--time", str(limit), "--out", f"{out}/{w}.json", "--replaydir", rdir]
            procs.append(subprocess.Popen(cmd, stdout=open(f"{out}/{w}.log", "w"), stderr=subprocess.STDOUT, start_new_session=True, env=dict(os.environ, XV_SCRATCH=out)))
        end = time.time() + limit + 180
        viol = None
        live = set(range(WORKERS))
        failed = []
        while live:
            for w in list(live):
                rc = procs[w].poll()
                if rc is None:
                    continue
                live.discard(w)
                if rc == 1 and viol is None:
                    viol = w
                    # the others stop: one reproduction is enough
                    for o in live:
                        os.killpg(procs[o].pid, signal.SIGKILL)
                elif rc not in (0, 1) and viol is None:
                    failed.append((w, rc))
            if time.time() > end:
                for o in live:
                    os.killpg(procs[o].pid, signal.SIGKILL)
                failed += [(o, "time") for o in live]
                break
            time.sleep(0.05)
        for q in procs:
            q.wait()
        cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": p["rule"], "samples": [], "operations": 0, "build_s": round(tb, 1),
               "per_target": {}, "classes": {}, "unconfirmed": 0, "broken_elsewhere": 0, "target_runs": 0}
        distinct = set()
        res = {}
        for w in range(WORKERS):
            try:
                res[w] = d = json.load(open(f"{out}/{w}.json"))
            except (OSError, ValueError):
                continue
            cov["evaluations"] += d["evals"]
            cov["operations"] += d["ops"]
            cov["unconfirmed"] += d["unconfirmed"]
            cov["broken_elsewhere"] += d["elsewhere"]
            for k, v in d["targets"].items():
                cov["per_target"][k] = cov["per_target"].get(k, 0) + v["cases"]
                cov["target_runs"] += v["cases"]
            for k, v in d["labels"].items():
                cov["classes"][k] = cov["classes"].get(k, 0) + v
            cov["samples"] += d["samples"][:1]
            if os.path.exists(f"{out}/{w}.json.h"):
                raw = open(f"{out}/{w}.json.h", "rb").read()
                distinct.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
        cov["distinct_nontrivial"] = len(distinct)
        if missing:
            cov["not_built"] = missing
        lost = [d["lost"] for d in res.values() if "lost" in d]
        if lost:
            cov["not_reproduced"] = lost
        if viol is not None:
            v = res[viol]["violation"]
            known = known_findings()
            for (kp, key), what in known.items():
                if kp == prop and key == f"{v['target']}|{v['message'][:60]}":
                    print(f"KNOWN-FINDING: property={prop} {what}")
                    viol = None
        evidence(prop, tier, seed, cov, t0, 1 if viol is not None else 0)
        if viol is not None:
            v = res[viol]["violation"]
            print(f"{prop} on {v['target']}: {v['message']} ({v['ops']} operations)")
            print(f"VIOLATION property={prop} replay={v['replay']}")
            return 1
        if failed or not cov["evaluations"]:
            for w, rc in failed:
                print("error: worker", w, rc, open(f"{out}/{w}.log").read()[-500:])
            return 3
        for probe in p.get("probes", []):
            pr = probe(out, known_findings())
            if pr:
                return pr
        print(f"{prop}: held on {cov['evaluations']} cases ({cov['distinct_nontrivial']} distinct non-trivial), {cov['target_runs']} executions over {len(built)} targets, {time.time() - t0:.0f} s"
              + (f"; not reproduced: {lost}" if lost else "") + (f"; unconfirmed {cov['unconfirmed']}" if cov["unconfirmed"] else ""))
        return 0
    finally:
        shutil.rmtree(out, ignore_errors=True)


def replay(path):
    head = dict(l.split(None, 1) for l in open(path).read().splitlines() if l and not l.startswith("#") and l.split(None, 1)[0] in ("property", "target", "choices", "driver") and len(l.split(None, 1)) == 2)
    prop = head["property"].strip()
    if PLAN[prop].get("driver"):
        return DRIVERS[PLAN[prop]["driver"]](prop, "replay", path, sys.modules[__name__])
    out = scratch()
    try:
        t = head["target"].strip()
        build_targets(out, prop, [t])
        return subprocess.run([out + "/prop", "--prop", prop, "--dir", out + "/x", "--targets", t, "--replay", path], env=dict(os.environ, XV_SCRATCH=out)).returncode
    finally:
        shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    a = argparse.ArgumentParser()
    a.add_argument("cmd", choices=["run", "replay"])
    a.add_argument("what")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    o = a.parse_args()
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    sys.exit(run(o.what, o.tier, o.seed) if o.cmd == "run" else replay(o.what))
