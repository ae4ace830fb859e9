#!/usr/bin/env python3
"""replay.py <property> <case> [tier]: runs one case again, printing what the monitors saw."""
import sys, os, tempfile, shutil, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check as C
prop, case = sys.argv[1], sys.argv[2]
tier = sys.argv[3] if len(sys.argv) > 3 else "quick"
work = tempfile.mkdtemp(prefix="verif-replay-")
try:
    mode = "tsan" if prop == "C24" else "asan"
    exe = C.build("prop_%s.cpp" % prop.lower(), mode, work)
    r = subprocess.run([exe, "--tier", tier, "--seed", os.environ.get("VERIF_SEED", "1"), "--case", case, "--scratch", work + "/s", "--verbose", "--watchdog", "600"], env=C.env_for(mode, work), cwd=work)
    sys.exit(r.returncode)
finally:
    shutil.rmtree(work, ignore_errors=True)
