#!/usr/bin/env python3
"""Lists the lines a planted bug removes that are not lines of the original repository (base commit 0e65e76)."""
import os, re, subprocess, sys
R = os.environ.get("VERIF_REPO", "/repo"); S = os.environ.get("VERIF_SEEDED", "/verif/seeded")
base = "0e65e76"
mine = set(subprocess.run(["git", "-C", R, "rev-list", base + "..HEAD"], capture_output=True, text=True).stdout.split())
assert mine
for id in sys.argv[1:] or sorted(os.listdir(S)):
    f, n, bad, minus = None, 0, [], 0
    for l in open("%s/%s/patch.diff" % (S, id)):
        if l.startswith("--- "):
            f = l[6:].strip()
            bl = [x.split(" ")[0] for x in subprocess.run(["git", "-C", R, "blame", "-l", "-s", "HEAD", "--", f], capture_output=True, text=True).stdout.splitlines()]
        elif l.startswith("+++ "): pass
        elif l.startswith("@@"): n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            minus += 1
            if bl[n - 1] in mine: bad.append((f, n, l.strip()))
            n += 1
        elif l.startswith(" "): n += 1
    print(id, "removes", minus, "lines;", "ok" if not bad else bad)
