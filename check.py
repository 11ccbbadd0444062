#!/usr/bin/env python3
"""Build one check's harness against /repo's current working tree and run it.

usage: check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE] [--filter TEST] [--mult X] [--keep]
Exit 0: property held on everything explored. Exit 1 (with a VIOLATION line): broken. Exit 2: error of the check.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")

SAN = ["-fsanitize=address", "-fsanitize=bounds,integer-divide-by-zero,return,unreachable,null,bool,vla-bound,vptr,pointer-overflow",
       "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1")); ap.add_argument("--replay"); ap.add_argument("--filter", default="")
    ap.add_argument("--mult", type=float); ap.add_argument("--workers", type=int)
    a = ap.parse_args()
    prop = a.prop
    srcs = glob.glob(f"{VERIF}/checks/{prop}.cpp")
    if not srcs:
        print("no harness for", prop); return 2
    head = open(srcs[0]).read(4000)
    def opt(name, default=""):
        m = re.search(r"^//\s*%s:\s*(.*)$" % name, head, re.M)
        return m.group(1).strip() if m else default
    lib = []
    for pat in ("geomc/*.cpp", "geomc/*/*.cpp", "geomc/*/*/*.cpp"):
        lib += sorted(glob.glob(f"{REPO}/{pat}"))
    tmp = tempfile.mkdtemp(prefix=f"{prop}.", dir=os.path.join(VERIF, "build") if os.path.isdir(os.path.join(VERIF, "build")) or not os.makedirs(os.path.join(VERIF, "build"), exist_ok=True) else None)
    try:
        san = [] if opt("sanitize", "yes") == "no" else SAN
        flags = ["-std=c++20", opt("opt", "-O1"), "-g1", "-w", "-ferror-limit=5", "-include", "optional", "-include", "iostream", "-ftrivial-auto-var-init=pattern",
                 "-I" + REPO, "-I" + VERIF + "/harness"] + san + opt("flags").split()
        def cc(args):
            src, out, extra = args
            r = subprocess.run(["clang++", *flags, *extra, "-c", src, "-o", out], capture_output=True, text=True)
            return src, r.returncode, r.stderr
        jobs = [(s, f"{tmp}/lib{i}.o", []) for i, s in enumerate(lib)] + \
               [(srcs[0], f"{tmp}/chk{i}.o", [f"-DPBT_PART={i}"] + (["-DPBT_NO_MAIN"] if i else [])) for i in range(int(opt("parts", "1")))]
        t = time.time()
        with ThreadPoolExecutor(8) as ex:
            for src, rc, err in ex.map(cc, sorted(jobs, key=lambda j: "chk" not in j[1])):
                if rc:
                    print(f"BUILD ERROR in {src}:\n" + "\n".join([l for l in err.splitlines() if "error:" in l or "required from" in l or "requested here" in l and "verif" in l][:14])[:3000]); return 2
        r = subprocess.run(["clang++", *san, *[j[1] for j in jobs], "-o", f"{tmp}/check", *opt("link").split()], capture_output=True, text=True)
        if r.returncode:
            print("LINK ERROR:\n" + r.stderr[:4000]); return 2
        print(f"{prop}: built {len(jobs)} units in {time.time()-t:.1f} s", flush=True)
        os.makedirs(f"{VERIF}/evidence", exist_ok=True); os.makedirs(f"{VERIF}/replays", exist_ok=True)
        mult = a.mult if a.mult else (1.0 if a.tier == "quick" else float(opt("thorough", "20")))
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:max_allocation_size_mb=3000:handle_abort=1:detect_stack_use_after_return=0:symbolize=1:quarantine_size_mb=16:malloc_context_size=6"
        env["UBSAN_OPTIONS"] = "print_stacktrace=0"
        cmd = [f"{tmp}/check", "--prop", prop, "--tier", a.tier, "--seed", str(a.seed), "--mult", str(mult), "--evidence", f"{VERIF}/evidence/{prop}.json",
               "--replaydir", f"{VERIF}/replays", "--known", f"{VERIF}/KNOWN_FINDINGS", "--tmp", tmp, "--filter", a.filter, "--rule", opt("rule", "see DESIGN.md"),
               "--wall", "480" if a.tier == "quick" else "780", "--workers", str(a.workers or max(2, min(8, os.cpu_count() or 2)))]
        if a.replay: cmd += ["--replay", a.replay]
        return subprocess.run(cmd, env=env).returncode
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
