#!/usr/bin/env python3
"""mkbug.py ID PROPERTY FILE <<< JSON {"old","new","needs","what","demo"}: writes seeded/ID (patch from a textual replacement)."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def make(id, prop, edits, needs, what, demo, extra=None):
    """edits: list of (file, old, new)"""
    repo, out = os.environ.get("VERIF_REPO", "/repo"), os.environ.get("VERIF_SEEDED", "/verif/seeded")
    d = out + "/" + id
    os.makedirs(d, exist_ok=True)
    assert subprocess.run(["git", "-C", repo, "status", "--porcelain", "--untracked-files=no"], capture_output=True, text=True).stdout == ""
    try:
        for f, old, new in edits:
            p = repo + "/" + f
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.sh", "w").write(demo)
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in (extra or {}).items():
        os.makedirs(os.path.dirname(d + "/" + n), exist_ok=True)
        open(d + "/" + n, "w").write(t)
