#!/usr/bin/env python3
"""Runs the quick check of a planted bug's property (or the given ones) on a copy of /repo with the bug: catch.py ID[:Cxx,...]..."""
import json, os, shutil, subprocess, sys, time
T = "/tmp/w/seedtree%d" % os.getpid()
for a in sys.argv[1:]:
    i, _, props = a.partition(":")
    d = "/verif/seeded/" + i
    props = props.split(",") if props else [json.load(open(d + "/meta.json"))["property"]]
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (T, T, d), shell=True)
    for p in props:
        t0 = time.time()
        r = subprocess.run(["python3", "tools/check.py", p, "--tier", "quick"] if False else ["python3", "tools/check.py", p], cwd="/verif", env=dict(os.environ, VERIF_REPO=T, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%-28s %s rc=%d %3.0f s %s" % (i, p, r.returncode, time.time() - t0, "CAUGHT" if r.returncode == 1 and v else "MISSED " + r.stdout[-300:]), flush=True)
shutil.rmtree(T, ignore_errors=True)
