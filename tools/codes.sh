#!/bin/sh
# codes.sh WORLD PROP SECONDS: tally of the violation codes of an ad-hoc search
"$(dirname "$0")"/search.sh "$@" 2>&1 | python3 -c '
import sys, json, collections
for l in sys.stdin:
    if not l.startswith("{\"world"):
        if not l.startswith("{"): sys.stdout.write(l)
        continue
    d = json.loads(l)
    print("runs", d["runs"], "violating", d["violating"], "errors", d["errors"], "wall", round(d["wall_s"], 1), "sim_s", round(d["sim_s"]), "steps", d["steps"], "states", d["states"])
    print("probes", d["probes"])
    c = collections.OrderedDict()
    for v in d["violations"]:
        r = v["result"]
        c.setdefault((r["status"], r["code"]), []).append((v["seed"], r["msg"]))
    for k, v in c.items(): print(k, len(v), *v[0])
'
