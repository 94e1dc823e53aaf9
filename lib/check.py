#!/usr/bin/env python3
"""check.py PROPERTY: seeded simulation search for one property."""
import json, os, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
from config import CHECKS

VERIF = B.VERIF


def load_known(prop):
    out = []
    p = os.path.join(VERIF, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            d = json.loads(l)
            if d["property"] == prop:
                out.append(d)
    return out


def main():
    prop = sys.argv[1]
    cfg = CHECKS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        exes = B.build(cfg["worlds"])
    except Exception as e:  # noqa
        print("BUILD ERROR\n%s" % e)
        return 2
    t_build = time.time() - t0
    known = load_known(prop)
    ncpu = os.cpu_count() or 4
    secs = cfg["seconds"][0 if tier == "quick" else 1]
    if os.environ.get("VERIF_SECONDS"):
        secs = float(os.environ["VERIF_SECONDS"])
    runs = cfg.get("runs", (10**9, 10**9))[0 if tier == "quick" else 1]
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    rc = 0
    try:
        stop = os.path.join(scratch, "stop")
        procs = []
        worlds = cfg["worlds"]
        nw = max(ncpu, len(worlds))
        for i in range(nw):
            w = worlds[i % len(worlds)]
            k = i // len(worlds)
            per = (nw - (i % len(worlds)) + len(worlds) - 1) // len(worlds)
            sd = os.path.join(scratch, "w%02d" % i)
            os.mkdir(sd)
            cmd = [exes[w], "--prop=" + prop, "--base=%d" % seed, "--first=%d" % k, "--stride=%d" % per, "--runs=%d" % (runs // per + 1),
                   "--seconds=%g" % secs, "--tier=%d" % (tier == "thorough"), "--scratch=" + sd, "--cpu=%d" % (i % ncpu),
                   "--stopfile=" + stop, "--known=" + ";".join(d["code"] for d in known), "--wall=%g" % cfg.get("wall", 60)]
            procs.append((w, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)))
        res = []
        for w, p in procs:
            o, e = p.communicate()
            try:
                res.append((w, json.loads(o.strip().splitlines()[-1])))
            except Exception:
                print("worker of world %s failed (status %s): %s %s" % (w, p.returncode, o[-500:], e[-500:]))
                rc = 2
        agg = dict(runs=0, steps=0, switches=0, preemptions=0, stalls=0, sim_s=0.0, distinct_schedules=0, distinct_nontrivial=0, states=0,
                   fault_runs=0, threads=0, errors=0)
        probes, viols, samples = {}, [], []
        for w, r in res:
            for k in agg:
                agg[k] += r[k]
            for k, v in r["probes"].items():
                probes[k] = probes.get(k, 0) + v
            for v in r["violations"]:
                v["world"] = w
                viols.append(v)
            if len(samples) < 4 and r.get("sample"):
                samples.append("world %s: %s" % (w, r["sample"]))
        errs = [v for v in viols if v["result"]["status"] != 2]
        real = [v for v in viols if v["result"]["status"] == 2]
        known_hit, new = {}, {}
        for v in real:
            code = v["result"]["code"]
            m = [d for d in known if code.startswith(d["code"]) and d.get("contains", "") in v["result"]["msg"]]
            if m:
                known_hit.setdefault(m[0]["code"], (m[0], v))
            else:
                new.setdefault(code, []).append(v)
        violations = 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        unconfirmed = []
        for code, vs in sorted(new.items(), key=lambda kv: -len(kv[1])):
            done = False
            for v in vs[:4]:
                path = os.path.join(VERIF, "replays", "%s-%d.replay" % (prop, v["seed"]))
                exe = exes[v["world"]]
                base = ["--prop=" + prop, "--tier=%d" % (tier == "thorough"), "--scratch=" + scratch, "--wall=%g" % cfg.get("wall", 60)]
                c = subprocess.run([exe, "--confirm", "--seed=%d" % v["seed"], "--out=" + path, "--budget=%g" % cfg.get("budget", 25)] + base,
                                   capture_output=True, text=True)
                try:
                    cj = json.loads(c.stdout.strip().splitlines()[-1])
                except Exception:
                    cj = {"confirmed": False, "why": "no output " + c.stderr[-200:]}
                if not cj.get("confirmed"):
                    unconfirmed.append((v, cj))
                    continue
                ok = True
                for _ in range(2):  # fresh processes
                    r = subprocess.run([exe, "--replay=" + path] + base, capture_output=True, text=True)
                    try:
                        ok = ok and json.loads(r.stdout.strip().splitlines()[-1])["reproduced"]
                    except Exception:
                        ok = False
                if not ok:
                    unconfirmed.append((v, {"why": "replay differs in a fresh process"}))
                    continue
                rr = cj["result"]
                # the minimised failure may be a known one
                print("seed %d world %s: %s: %s (trace %d entries, minimised to %d)" %
                      (v["seed"], v["world"], rr["code"], rr["msg"][:600], cj["full"], cj["min"]))
                print("VIOLATION property=%s replay=%s" % (prop, path))
                violations += 1
                done = True
                break
            if done:
                break
        for code, (d, v) in known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
        wall = time.time() - t0
        search = max((r["wall_s"] for _, r in res), default=0.001)
        faults = {k[6:]: v for k, v in probes.items() if k.startswith("fault.")}
        reach = {k: v for k, v in probes.items() if not k.startswith("fault.")}
        if agg["stalls"]:
            faults["thread_stall"] = agg["stalls"]
        if reach.get("spurious_wakeup"):
            faults["spurious_wakeup"] = reach.pop("spurious_wakeup")
        ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
                  coverage=dict(
                      evaluations=agg["runs"], distinct_nontrivial=agg["distinct_nontrivial"],
                      rule="one evaluation = one simulated execution of one seed (workload, schedule and faults all drawn from it); distinct = different hash of "
                           "the full event/switch history; non-trivial = at least one preemption, stall or injected fault",
                      samples=samples, distinct_histories=agg["distinct_schedules"], abstract_states=agg["states"],
                      abstract_state_measure="hash of world-specific state tuples sampled at oracle points",
                      runs_per_hour=int(agg["runs"] / search * 3600), simulated_seconds=round(agg["sim_s"], 3), steps=agg["steps"],
                      context_switches=agg["switches"], preemptions=agg["preemptions"], simulated_threads=agg["threads"],
                      runs_with_faults=agg["fault_runs"], faults_injected=faults, reach_probes=reach,
                      real_components=cfg["real"], stubbed_components=cfg["stub"], build_s=round(t_build, 1)),
                  assumptions=cfg.get("assumptions", []) + ["sequentially consistent memory: interleavings at single accesses, no weak-memory reordering",
                                                           "third-party shared libraries run atomically between their calls into libc/pthread"],
                  wall_s=round(wall, 2), violations=violations)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d runs, %d distinct, %.0f simulated s, %d switches, %.0f s wall (build %.0f s)" %
              (prop, agg["runs"], agg["distinct_nontrivial"], agg["sim_s"], agg["switches"], wall, t_build))
        if violations:
            return 1
        if errs:
            print("harness error: %s" % errs[0])
            return 2
        if unconfirmed:
            v, cj = unconfirmed[0]
            print("unconfirmed violation (not repeatable): %s %s" % (v, cj))
            return 2
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
