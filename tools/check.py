#!/usr/bin/env python3
"""Builds the harness of one property against /repo's working tree, runs its cases in parallel, judges and records."""
import sys, os, json, subprocess, tempfile, hashlib, shutil, time, glob, re, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(VERIF, "harness")
NPROC = min(8, os.cpu_count() or 8)

SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-O1", "-g", "-fno-omit-frame-pointer"],
    "fuzz": ["-fsanitize=address,undefined,fuzzer-no-link", "-fno-sanitize-recover=all", "-O1", "-g", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-O1", "-g", "-fno-omit-frame-pointer"],
}
HARNESS_SRC = ["core.cpp", "gen.cpp", "model.cpp", "peer.cpp", "sim.cpp", "main.cpp"]
LEVEL = {"C26": "fault_enumeration"}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def cmd(argv, **kw):
    return subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class BuildError(Exception):
    pass


def build(prop_src, mode, work, extra_flags=(), extra_src=(), no_main=False):
    """Compile the library's sources and the harness; objects are cached by content."""
    cache = os.path.join(VERIF, "build", "cache")
    os.makedirs(cache, exist_ok=True)
    files = sorted(os.path.join(d, f) for d, sub, fs in os.walk(REPO + "/src") for f in fs if "example" not in d[len(REPO):])
    lib = [f for f in files if f.endswith((".cpp", ".cc", ".cxx"))]
    hdrs_repo = [f for f in files if f.endswith((".h", ".hpp", ".hh", ".hxx", ".inl", ".ipp", ".inc", ".tpp"))]
    hdrs_h = sorted(glob.glob(H + "/*.h"))
    key_repo = sha(*[p + "\n" + sha(rd(p)) for p in hdrs_repo])
    key_h = sha(key_repo, *[sha(rd(p)) for p in hdrs_h])
    base = ["clang++", "-std=c++17", "-w", "-pthread"] + SAN[mode] + list(extra_flags)
    jobs = []
    for p in lib:
        jobs.append((p, base + ["-I" + REPO + "/src", "-I" + REPO + "/src/cpp"], sha("lib", key_repo, REPO, " ".join(base), p, rd(p))))
    srcs = [os.path.join(H, s) for s in HARNESS_SRC if not (no_main and s == "main.cpp")] + [os.path.join(H, prop_src)] + [os.path.join(H, s) for s in extra_src]
    for p in srcs:
        jobs.append((p, base + ["-I" + REPO + "/src", "-I" + H], sha("h", key_h, REPO, " ".join(base), p, rd(p))))

    def one(j):
        p, c, k = j
        o = os.path.join(cache, k + ".o")
        if os.path.exists(o):
            os.utime(o)
            return o, ""
        tmp = os.path.join(work, "obj-" + k[:16] + ".o")
        r = cmd(c + ["-c", p, "-o", tmp])
        if r.returncode != 0:
            return None, p + "\n" + r.stdout
        try:
            shutil.copyfile(tmp, o + ".tmp%d" % os.getpid()); os.replace(o + ".tmp%d" % os.getpid(), o)
        except OSError:
            return tmp, ""
        return o, ""
    with cf.ThreadPoolExecutor(NPROC) as ex:
        # longest first
        jobs.sort(key=lambda j: -os.path.getsize(j[0]))
        res = list(ex.map(one, jobs))
    bad = [m for o, m in res if o is None]
    if bad:
        raise BuildError("\n".join(bad)[:4000])
    exe = os.path.join(work, "fuzzer" if mode == "fuzz" else "worker")
    r = cmd(base + (["-fsanitize=fuzzer"] if mode == "fuzz" else []) + ["-rdynamic"] + [o for o, _ in res] + ["-o", exe, "-lssl", "-lcrypto", "-lpthread", "-ldl"])
    if r.returncode != 0:
        raise BuildError(r.stdout[:4000])
    # keep the cache small
    objs = sorted(glob.glob(cache + "/*.o"), key=os.path.getmtime)
    for o in objs[:-400]:
        try:
            os.unlink(o)
        except OSError:
            pass
    return exe


def env_for(mode, work):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:alloc_dealloc_mismatch=1:new_delete_type_mismatch=1:allocator_may_return_null=0:handle_abort=1:detect_odr_violation=0:print_stats=0:quarantine_size_mb=64:max_malloc_fill_size=4096:malloc_context_size=12"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:ignore_noninstrumented_modules=1:second_deadlock_stack=1:history_size=4"
    e["TMPDIR"] = work
    e.pop("LD_PRELOAD", None)
    return e


def crash_key(text):
    m = re.search(r"SUMMARY: (\w+): ([\w\-]+)[^\n]*", text)
    fn = ""
    for mm in re.finditer(r"#\d+ 0x[0-9a-f]+ in ([^\n]+)", text):
        if "/src/" in mm.group(1) and "harness" not in mm.group(1):
            fn = re.sub(r"\s+/\S*/src/", " ", mm.group(1)); fn = re.sub(r":\d+(:\d+)?$", "", fn); break
    if "SIM-RUNAWAY" in text:
        return "endless socket operations"
    if "VERIF-WATCHDOG" in text:
        return "hang"
    if "VERIF-TERMINATE" in text:
        return "std::terminate"
    mt = re.search(r"SUMMARY: ThreadSanitizer: (.+?) (?:\(|/)\S* in (.+)", text) or re.search(r"SUMMARY: ThreadSanitizer: (.+?)(?: \S+)? in (.+)", text)
    if mt:
        return "ThreadSanitizer %s, %s" % (mt.group(1), fn.strip()[:160] or mt.group(2)[:160])
    if m:
        return "%s %s in %s" % (m.group(1), m.group(2), fn.strip()[:160])
    m = re.search(r"runtime error: ([^\n]+)", text)
    if m:
        return "undefined behaviour: " + m.group(1)[:120] + " in " + fn.strip()[:120]
    return "crash"


def run_shard(exe, mode, work, tier, seed, shard, nshards, deadline, watchdog):
    """Runs one shard to its end, restarting behind every crash. Returns list of records."""
    out = os.path.join(work, "out%d.jsonl" % shard)
    prog = os.path.join(work, "prog%d" % shard)
    scratch = os.path.join(work, "s%d" % shard)
    frm, recs, crashes, incomplete = 0, [], [], False
    while True:
        errp = os.path.join(work, "err%d" % shard)
        if os.path.exists(out):
            os.unlink(out)
        with open(errp, "wb") as ef:
            p = subprocess.Popen([exe, "--tier", tier, "--seed", str(seed), "--shard", str(shard), "--nshards", str(nshards), "--out", out, "--progress", prog, "--scratch", scratch, "--from", str(frm), "--watchdog", str(watchdog)],
                                 stdout=subprocess.DEVNULL, stderr=ef, env=env_for(mode, work), cwd=work)
            try:
                rc = p.wait(timeout=max(1, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait(); rc = None
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    recs.append(json.loads(l))
                except ValueError:
                    pass
        if rc == 0:
            break
        if rc is None:
            incomplete = True
            break
        k = int(open(prog).read() or "-1") if os.path.exists(prog) else -1
        with open(errp, "rb") as ef:
            text = ef.read()[-30000:].decode(errors="replace")
        crashes.append((k, rc, text))
        if k < 0 or len(crashes) >= 6 or sum(1 for c in crashes if c[1] == 77) >= 2:
            break
        frm = k + 1
    return recs, crashes, incomplete


def rerun_case(exe, mode, work, tier, seed, k, watchdog=90):
    scratch = os.path.join(work, "rerun"); out = os.path.join(work, "rerun.jsonl")
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run([exe, "--tier", tier, "--seed", str(seed), "--case", str(k), "--out", out, "--scratch", scratch, "--watchdog", str(watchdog)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env_for(mode, work), cwd=work)
    recs = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                recs.append(json.loads(l))
            except ValueError:
                pass
    return p.returncode, p.stderr.decode(errors="replace"), recs


def known_findings(prop):
    """known_findings.txt: 'open: property=<id> key=<regular expression of the violation key> :: <what fails>' suppresses
    exactly that violation; 'fixed: property=<id> <commit> <what failed>' suppresses nothing."""
    r = []
    f = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"open: property=(\S+) key=(.*?) :: (.*)$", l.strip())
            if m and m.group(1) == prop:
                r.append({"key": m.group(2), "what": m.group(3)})
    return r


class Result:
    def __init__(self):
        self.viol = []      # (key, detail, case)
        self.counts = {}
        self.distinct = set()
        self.samples = []
        self.done = 0
        self.total = 0
        self.rule = ""
        self.assumptions = []
        self.notes = []


def run_cases(exe, mode, work, tier, seed, budget, res, prefix=""):
    deadline = time.time() + budget
    watchdog = 30
    confirmed = {}
    with cf.ThreadPoolExecutor(NPROC) as ex:
        shards = list(ex.map(lambda s: run_shard(exe, mode, work, tier, seed, s, NPROC, deadline, watchdog), range(NPROC)))
    for recs, crashes, incomplete in shards:
        if incomplete:
            res.notes.append("time budget reached before the last case of a shard")
        for r in recs:
            if r["t"] == "viol":
                res.viol.append((prefix + r["key"], r["detail"], r["case"]))
            elif r["t"] == "sum":
                res.done += r["done"]; res.total = max(res.total, r["total"])
                for k, v in r["counts"].items():
                    res.counts[k] = res.counts.get(k, 0) + v
                res.samples += r["samples"]; res.rule = r["rule"]; res.assumptions = r["assumptions"]
            elif r["t"] == "distinct":
                res.distinct.update(prefix + h for h in r["h"])
        for k, rc, text in crashes:
            if k < 0:
                raise BuildError("worker does not start: rc %s\n%s" % (rc, text[-3000:]))
            ck = crash_key(text)
            if confirmed.get(ck):
                continue
            rc2, text2, recs2 = rerun_case(exe, mode, work, tier, seed, k)
            confirmed[ck] = rc2 != 0
            if rc2 == 0 and not any(r["t"] == "viol" for r in recs2):
                if mode == "tsan" and "WARNING: ThreadSanitizer" in text:
                    res.viol.append((prefix + crash_key(text), text, k))     # a race depends on the schedule
                elif "AddressSanitizer" in text or "runtime error" in text:
                    res.viol.append((prefix + crash_key(text), "(seen once, not on a second run of the case alone)\n" + text, k))
                else:
                    res.notes.append("case %d ended with status %s once and normally when run again" % (k, rc))
                    res.counts["inconclusive"] = res.counts.get("inconclusive", 0) + 1
            else:
                if rc2 == 0:
                    continue
                res.viol.append((prefix + crash_key(text2 or text), "worker ended with status %s\n%s" % (rc2, (text2 or text)[-7000:]), k))
    return res


def run_fuzzer(exe, work, seconds, res, seed):
    """libFuzzer on 8 processes with a common corpus, started from seed inputs made of random bytes."""
    import random
    corpus = os.path.join(work, "corpus"); os.makedirs(corpus, exist_ok=True)
    rnd = random.Random(seed)
    for i in range(200):
        with open(os.path.join(corpus, "seed%d" % i), "wb") as f:
            f.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([20, 60, 200, 600]))))
    ps = []
    for i in range(NPROC):
        art = os.path.join(work, "art%d-" % i); sc = os.path.join(work, "fz%d" % i); os.makedirs(sc, exist_ok=True)
        e = env_for("asan", work); e["VERIF_SCRATCH"] = sc
        log = open(os.path.join(work, "fuzz%d.log" % i), "wb")
        ps.append((subprocess.Popen([exe, "-max_total_time=%d" % seconds, "-seed=%d" % (seed * 100 + i + 1), "-timeout=0", "-rss_limit_mb=3000", "-max_len=4096", "-len_control=20", "-reload=1", "-print_final_stats=1", "-detect_leaks=0", "-artifact_prefix=" + art, corpus], stdout=subprocess.DEVNULL, stderr=log, env=e, cwd=work), i))
    execs = cov = 0; ended = time.time() + seconds + 90
    for p, i in ps:
        try:
            rc = p.wait(timeout=max(1, ended - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = None
        text = rd(os.path.join(work, "fuzz%d.log" % i)).decode(errors="replace")
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text); execs += int(m.group(1)) if m else 0
        for m in re.finditer(r"cov: (\d+)", text):
            cov = max(cov, int(m.group(1)))
        st = os.path.join(work, "fz%d" % i, "stats")
        if os.path.exists(st):
            a, b = rd(st).split(); res.counts["fuzzed hostile sessions"] = res.counts.get("fuzzed hostile sessions", 0) + int(a)
        arts = glob.glob(os.path.join(work, "art%d-*" % i))
        if rc not in (0, None) and arts and not ("out-of-memory" in text and "AddressSanitizer: heap" not in text):
            e = env_for("asan", work); e["VERIF_SCRATCH"] = os.path.join(work, "fzr"); os.makedirs(e["VERIF_SCRATCH"], exist_ok=True)
            r = subprocess.run([exe, arts[0]], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=work)
            t2 = r.stderr.decode(errors="replace")
            if r.returncode != 0:
                m = re.search(r"VERIF-VIOLATION: (.*)", t2)
                res.viol.append((m.group(1) if m else crash_key(t2), "fuzzer input (hex): " + rd(arts[0]).hex() + "\n" + t2[-6000:], "fuzzed"))
            else:
                res.notes.append("a fuzzer input ended with status %s once and normally when run again" % rc)
    res.counts["fuzzed inputs"] = res.counts.get("fuzzed inputs", 0) + execs
    res.counts["fuzzer: code edges covered"] = cov
    res.counts["fuzzer: inputs kept for new coverage"] = len(os.listdir(corpus))


def main():
    if len(sys.argv) < 2:
        print("usage: check.py <property> [tier]"); return 2
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough") else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    res = Result()
    budget = 600 if tier == "quick" else int(os.environ.get("VERIF_BUDGET", "780"))
    err = None
    try:
        sys.path.insert(0, os.path.join(VERIF, "tools"))
        import plans
        plans.run(prop, tier, seed, work, budget, res, sys.modules[__name__])
    except BuildError as e:
        err = str(e)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if err is not None:
        print("ERROR: the check could not be built or started:\n" + err)
        return 2
    known = known_findings(prop)
    new, seen = [], {}
    for key, detail, case in res.viol:
        kf = next((d for d in known if re.fullmatch(d["key"], key)), None)
        if kf:
            seen[kf["key"]] = kf
        elif not any(n[0] == key for n in new):
            new.append((key, detail, case))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"),
        "coverage": {
            "evaluations": res.done, "distinct_nontrivial": len(res.distinct), "rule": res.rule,
            "samples": res.samples[:6] or ["(none)"], "monitor_counts": dict(sorted(res.counts.items())), "notes": res.notes,
        },
        "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if new:
        ev["coverage"]["violation_keys"] = [n[0] for n in new][:40]
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d in known:
        if d["key"] in seen:
            print("KNOWN-FINDING: property=%s %s" % (prop, d["what"]))
    print("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (prop, tier, res.done, len(res.distinct), len(new), time.time() - t0))
    for n in res.notes[:5]:
        print("note: " + n)
    if res.done == 0 and not new:
        print("ERROR: no case was run"); return 2
    if new:
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % prop)
        with open(rp, "w") as f:
            for key, detail, case in new[:20]:
                f.write("== %s\ncase %s, seed %d, tier %s; run again with: VERIF_SEED=%d python3 tools/replay.py %s %s %s\n%s\n\n" % (key, case, seed, tier, seed, prop, case, tier, detail))
        for key, detail, case in new[:10]:
            print("  - %s (case %s)" % (key[:300], case))
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
