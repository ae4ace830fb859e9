"""How each property is run: which harness sources, sanitizers and extra passes."""


def run(prop, tier, seed, work, budget, res, C):
    src = "prop_%s.cpp" % prop.lower()
    mode = "tsan" if prop == "C24" else "asan"
    exe = C.build(src, mode, work)
    fuzz = 0
    if prop == "C14" and tier == "thorough":
        fuzz = budget * 2 // 5
    C.run_cases(exe, mode, work, tier, seed, budget - fuzz, res)
    if fuzz:
        C.run_fuzzer(C.build(src, "fuzz", work, extra_src=["fuzz_c14.cpp"], no_main=True), work, fuzz, res, seed)
