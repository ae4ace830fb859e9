#!/usr/bin/env python3
"""Mutation testing of the checks: mut.py N SEED OUT. Random small changes of the library's sources, each judged by samples of
all checks (first 1/61 of the quick cases, survivors 1/7). Works on copies under /tmp only. Survivors are listed with their diff."""
import sys, os, re, glob, random, subprocess, shutil, json, time, threading, concurrent.futures as cf
sys.path.insert(0, "/verif/tools")
import check as C
REPO = "/repo"; W = "/tmp/w/mut"
N, SEED, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
ONLY = sys.argv[4] if len(sys.argv) > 4 else ""
FLAGS = ["clang++", "-std=c++17", "-w", "-pthread"] + C.SAN["asan"] + ["-fPIC"]
PROPS = ["C%02d" % i for i in range(1, 28) if i != 24]

def prepare():
    os.makedirs(W + "/obj", exist_ok=True)
    lib = sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/cpp/*.cpp"))
    def comp(p):
        o = W + "/obj/" + os.path.relpath(p, REPO).replace("/", "_") + ".o"
        subprocess.check_call(FLAGS + ["-I" + REPO + "/src", "-I" + REPO + "/src/cpp", "-c", p, "-o", o]); return o
    with cf.ThreadPoolExecutor(8) as ex:
        objs = dict(zip(lib, ex.map(comp, lib)))
    def link(objs, out):
        return subprocess.run(FLAGS + ["-shared", "-fuse-ld=lld"] + list(objs) + ["-o", out, "-lssl", "-lcrypto"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.makedirs(W + "/base", exist_ok=True)
    r = link(objs.values(), W + "/base/libmut.so"); assert r.returncode == 0, r.stdout
    hb = FLAGS[:-1] + ["-I" + REPO + "/src", "-I" + C.H]
    hs = [os.path.join(C.H, s) for s in C.HARNESS_SRC] + [os.path.join(C.H, "prop_%s.cpp" % p.lower()) for p in PROPS]
    def hc(p):
        o = W + "/obj/h_" + os.path.basename(p) + ".o"
        subprocess.check_call(hb + ["-c", p, "-o", o]); return o
    with cf.ThreadPoolExecutor(8) as ex:
        ho = dict(zip(hs, ex.map(hc, hs)))
    core = [ho[os.path.join(C.H, s)] for s in C.HARNESS_SRC]
    def lw(p):
        subprocess.check_call(FLAGS[:-1] + ["-rdynamic", "-fuse-ld=lld"] + core + [ho[os.path.join(C.H, "prop_%s.cpp" % p.lower())], "-L" + W + "/base", "-lmut", "-lssl", "-lcrypto", "-lpthread", "-ldl", "-o", W + "/w_" + p])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lw, PROPS))
    return objs, link

OPS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<\-=>])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![\->])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"), (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"),
       (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bnullptr\b(?=;| \?)", "nullptr"), (r"\+\+", "--"), (r"\+=", "="), (r"\bbreak;", ";"), (r"\bcontinue;", ";")]
def mutants():
    res = []
    for f in sorted(glob.glob(REPO + "/src/*.cpp") + glob.glob(REPO + "/src/cpp/*.cpp")):
        if ONLY and ONLY not in f:
            continue
        L = open(f).read().split("\n"); depth = []; 
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("#"):
                if re.match(r"#\s*if", s): depth.append("WIN" in s and "ifndef" not in s)
                elif s.startswith("#else") and depth: depth[-1] = not depth[-1]
                elif s.startswith("#endif") and depth: depth.pop()
                continue
            if any(depth) or s.startswith(("//", "*", "/*")) or not s: continue
            code = l.split("//")[0] if '"' not in l else l
            def add(new, what):
                if new != l: res.append((f, i, new, what))
            masked = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + "\1" * (len(m.group(0)) - 2) + '"', code)
            for pat, rep in OPS:
                for m in re.finditer(pat, masked):
                    if "template" in l or "#include" in l or "operator" in l: continue
                    add(l[:m.start()] + rep + l[m.end():], "%s -> %s" % (m.group(0), rep))
            for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w.])", masked):
                v = int(m.group(1))
                for nv in {v + 1, v - 1 if v else 1}:
                    add(l[:m.start()] + str(nv) + l[m.end():], "%d -> %d" % (v, nv))
            m = re.match(r"^(\s*(?:\}\s*else\s+)?if \()(.*)(\) \{)$", l)
            if m: add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negated condition"); add(m.group(1) + "true || (" + m.group(2) + ")" + m.group(3), "condition true"); add(m.group(1) + "false && (" + m.group(2) + ")" + m.group(3), "condition false")
            if s.endswith(";") and not re.match(r"^(return|break|continue|const |auto |int |size_t |std::\w+(<.*>)? \w|char |bool |using |unsigned |else|case|default|throw)", s) and (re.match(r"^[\w:>\-.\[\]\*\(\)]+\(.*\);$", s) or re.match(r"^[\w>\-.\[\]\*]+ [+\-|]?= .*;$", s)):
                add(re.match(r"^\s*", l).group(0) + ";", "statement deleted")
            if re.match(r"^return .*;$", s) and "std::" not in s:
                for v in ("0", "-1", "1"):
                    if s != "return %s;" % v and re.match(r"^return (-?\w+|\w+\(.*\));$", s): add(re.match(r"^\s*", l).group(0) + "return %s;" % v, "returns %s" % v)
            if re.match(r"^(\s*: |\s*)m\w+\(.*\)[,{]?", l) and " m" in l and "(" in l and not s.endswith(";"):
                m = re.search(r"(m[A-Z]\w+)\((p\w+|other\.m\w+)\)", l)
                if m: add(l.replace(m.group(0), m.group(1) + "()"), "initialiser dropped")
    return res

def worker(so_dir, prop, n, shard):
    d = so_dir + "/s_%s_%d" % (prop, n); os.makedirs(d, exist_ok=True); out = d + "/out.jsonl"
    e = C.env_for("asan", d); e["LD_LIBRARY_PATH"] = so_dir
    try:
        r = subprocess.run([W + "/w_" + prop, "--tier", "quick", "--seed", "1", "--shard", str(shard), "--nshards", str(n), "--out", out, "--scratch", d, "--watchdog", "30"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=e, cwd=d, timeout=400, preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_CPU, (400, 400)))
        rc, err = r.returncode, r.stderr.decode(errors="replace")[-20000:]
    except subprocess.TimeoutExpired:
        rc, err = "timeout", ""
    keys = []
    if os.path.exists(out):
        for l in open(out, errors="replace"):
            try:
                x = json.loads(l)
            except ValueError: continue
            if x.get("t") == "viol": keys.append(x["key"])
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0: keys.append(str(rc) + " " + C.crash_key(err))
    return keys

ORDER = {"base64": ["C21"], "attachment": ["C19", "C06"], "credential": ["C19", "C23"], "errorresolver": ["C22"], "message": ["C19"], "messageaddress": ["C23", "C19"], "serveroptionsanalyzer": ["C11"], "smtpclient": ["C20", "C25", "C01"]}
def judge(objs, link, idx, mu):
    f, i, new, what = mu; d = W + "/m%d" % idx; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    try:
        L = open(f).read().split("\n"); L[i] = new; src = os.path.dirname(f) + "/"
        mf = d + "/" + os.path.basename(f); open(mf, "w").write("\n".join(L))
        r = subprocess.run(FLAGS + ["-I" + os.path.dirname(f), "-I" + REPO + "/src", "-I" + REPO + "/src/cpp", "-c", mf, "-o", d + "/x.o"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: return "nocompile", ""
        if subprocess.run(["bash", "-c", "llvm-objcopy-18 --strip-debug %s/x.o %s/y.o 2>/dev/null || objcopy --strip-debug %s/x.o %s/y.o" % (d, d, d, d)]).returncode: pass
        if link([o for p, o in objs.items() if p != f] + [d + "/x.o"], d + "/libmut.so").returncode: return "nolink", ""
        rnd = random.Random(idx); b = os.path.splitext(os.path.basename(f))[0]
        for n in (61, 7):
            order = ORDER.get(b, []) + [p for p in rnd.sample(PROPS, len(PROPS)) if p not in ORDER.get(b, [])]
            for p in order:
                k = worker(d, p, n, rnd.randrange(n))
                if k: return "killed", "%s 1/%d %s" % (p, n, k[0][:100])
        return "SURVIVED", ""
    finally:
        shutil.rmtree(d, ignore_errors=True)

if __name__ == "__main__":
    objs, link = prepare()
    M = mutants(); random.Random(SEED).shuffle(M); print(len(M), "mutants in all", flush=True)
    M = M[:N]; lock = threading.Lock()
    if N == 0:
        for p in PROPS: print(p, worker(W + "/base", p, 61, 5), flush=True)
        sys.exit()
    out = open(OUT, "a")
    def one(j):
        t0 = time.time(); r = judge(objs, link, j[0], j[1]); f, i, new, what = j[1]
        with lock:
            out.write("%s %s:%d [%s] %.0fs %s\n" % (r[0], os.path.relpath(f, REPO), i + 1, what, time.time() - t0, r[1]) + ("    %s\n    %s\n" % (open(f).read().split("\n")[i].strip(), new.strip()) if r[0] == "SURVIVED" else "")); out.flush()
    with cf.ThreadPoolExecutor(7) as ex: list(ex.map(one, enumerate(M)))
    shutil.rmtree(W, ignore_errors=True)
