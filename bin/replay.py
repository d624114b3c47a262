#!/usr/bin/env python3
"""replay.py FILE : run the native replay of a counterexample recorded by check.py against the current tree."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild, check
v = json.load(open(sys.argv[1]))
_, prog = vbuild.build(lambda s: None, v.get("fallback", False))
r = check.Replayer(prog, v["arg"])
bad = 0
for exe in ("replay", "replay-asan"):
    rc, err = r.run(exe, v["case"], v["model"])
    d = r.describe(rc, err)
    print("%s: exit %s, %s" % (exe, rc, d or "no failure"))
    print(err[-2500:])
    bad |= bool(d)
sys.exit(1 if bad else 0)
