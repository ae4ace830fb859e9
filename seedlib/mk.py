#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from specs/<id>.py and confirms it: python3 seedlib/mk.py ID... (uses /repo's working tree)."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); R = "/repo"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)


def original(diff):
    """Every changed hunk has to touch a line of the original repository."""
    f, new, bad = None, 0, []
    base = "5746dd4"
    blame = {}
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]; blame = {}
            for i, b in enumerate(sh("git -C %s blame -s %s..HEAD -- %s" % (R, base, f)).stdout.splitlines()):
                blame[i + 1] = b.startswith("^")
        elif l.startswith("@@"):
            new = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-"):
            if not blame.get(new):
                bad.append("%s:%d" % (f, new))
            new += 1
        elif l.startswith(" "):
            new += 1
    return bad


def make(i):
    spec = {}
    exec(open(HERE + "/specs/%s.py" % i).read(), spec)
    assert not sh("git -C %s status --porcelain" % R).stdout.strip(), "/repo is not clean"
    d = "/verif/seeded/" + i
    os.makedirs(d, exist_ok=True)
    for f in ("driver.cpp", "kit.py", "demo.sh"):
        shutil.copy(HERE + "/" + f, d)
    open(d + "/demo.py", "w").write("from kit import *\n" + spec["DEMO"].lstrip("\n"))
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    if "--fast" not in sys.argv:
        p = sh("bash %s/demo.sh" % d, cwd=R, timeout=300); ok = p.returncode == 0
        if not ok:
            print("   demo on the unchanged tree: %d\n%s" % (p.returncode, p.stdout[-1500:]))
    try:
        for f, a, b in spec["EDITS"]:
            s = open(R + "/" + f, encoding="latin1", newline="").read()
            assert s.count(a) == 1, "%s: %d occurrences of %r in %s" % (i, s.count(a), a, f)
            open(R + "/" + f, "w", encoding="latin1", newline="").write(s.replace(a, b))
        diff = sh("git -C %s diff" % R).stdout
        open(d + "/patch.diff", "w").write(diff)
        bad = original(diff)
        if bad:
            print("   lines that are not the original's:", bad)
        t = sh("bash /opt/vp/test.sh /tmp/w/seedtest.json")
        r = json.load(open("/tmp/w/seedtest.json")); base = json.load(open("/opt/vp/BASELINE.json"))
        names = base["stable"]
        lost = set(names) - set(r["passed"])
        if lost:
            ok = False; print("   tests that fail:", len(lost), sorted(lost)[:5], t.stdout[-800:] if len(lost) > 500 else "")
        t0 = time.time()
        p = sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
        print("   demo with the change: %d (%.0f s) %s" % (p.returncode, time.time() - t0, p.stdout.strip()[-200:]))
        if p.returncode in (0, 3):
            ok = False
    finally:
        sh("git -C %s checkout -- ." % R)
    print("%s %s" % (i, "ok" if ok else "NOT OK"), flush=True)
    return ok


if __name__ == "__main__":
    sys.exit(0 if all([make(i) for i in sys.argv[1:] if not i.startswith("--")]) else 1)
