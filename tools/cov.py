#!/usr/bin/env python3
"""Which lines of /repo/geomc no check executes. usage: cov.py OUTDIR [CHECK...]   (development aid, not a check)
Prints, per file, lines that are code but never counted in any check (uncovered or never instantiated)."""
import glob, os, re, subprocess, sys, tempfile, shutil, json
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = "/repo"
out = sys.argv[1]; os.makedirs(out, exist_ok=True)
ids = sys.argv[2:] or sorted(os.path.basename(f)[:-4] for f in glob.glob(V + "/checks/C*.cpp"))
open(out + "/cov.h", "w").write('#include <unistd.h>\nextern "C" int __llvm_profile_write_file(void);\n#define _exit(x) (__llvm_profile_write_file(), ::_exit(x))\n')
lib = sorted(glob.glob(R + "/geomc/*.cpp") + glob.glob(R + "/geomc/*/*.cpp") + glob.glob(R + "/geomc/*/*/*.cpp"))
def one(i):
    if os.path.exists(f"{out}/{i}.json"): return
    src = f"{V}/checks/{i}.cpp"; head = open(src).read(4000)
    def opt(n, d=""):
        m = re.search(r"^//\s*%s:\s*(.*)$" % n, head, re.M); return m.group(1).strip() if m else d
    t = tempfile.mkdtemp(prefix="cov", dir="/tmp")
    try:
        fl = ["-std=c++20", "-O0", "-w", "-include", "optional", "-include", "iostream", "-ftrivial-auto-var-init=pattern", "-I" + R, "-I" + V + "/harness", "-fprofile-instr-generate", "-fcoverage-mapping"] + opt("flags").split()
        objs = []
        for n in range(int(opt("parts", "1"))):
            o = f"{t}/c{n}.o"; objs.append(o)
            r = subprocess.run(["clang++", *fl, "-include", out + "/cov.h", f"-DPBT_PART={n}"] + (["-DPBT_NO_MAIN"] if n else []) + ["-c", src, "-o", o], capture_output=True, text=True)
            if r.returncode: print(i, r.stderr[-500:]); return
        r = subprocess.run(["clang++", *fl, *objs, *lib, "-o", t + "/check", *opt("link").split()], capture_output=True, text=True)
        if r.returncode: print(i, r.stderr[-500:]); return
        subprocess.run([t + "/check", "--prop", i, "--tier", "quick", "--seed", "1", "--mult", "0.02", "--evidence", t + "/e.json", "--replaydir", t, "--known", V + "/KNOWN_FINDINGS", "--tmp", t, "--filter", "", "--rule", "", "--wall", "300", "--workers", "2"],
                       env=dict(os.environ, LLVM_PROFILE_FILE=t + "/%p.profraw"), capture_output=True)
        subprocess.run(f"llvm-profdata merge -failure-mode=all -sparse {t}/*.profraw -o {t}/m.profdata", shell=True)
        r = subprocess.run(["llvm-cov", "export", "-skip-functions=false", t + "/check", "-instr-profile", t + "/m.profdata", *glob.glob(R + "/geomc"), "--skip-expansions"], capture_output=True, text=True)
        d = json.loads(r.stdout)["data"][0]; lines = {}
        for f in d["functions"]:
            fn = f["filenames"][0]
            if "/repo/geomc" not in fn: continue
            L = lines.setdefault(fn[len("/repo/"):], {})
            regs = [x for x in f["regions"] if x[7] == 0 and x[5] == 0]
            here = {}
            for x in regs:            # later (inner) regions override
                for k in range(x[0], x[2] + 1): here[k] = x[4]
            for k, v in here.items(): L[k] = max(L.get(k, 0), v)
        json.dump(lines, open(f"{out}/{i}.json", "w")); print(i, len(lines), flush=True)
    finally: shutil.rmtree(t, ignore_errors=True)
with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex: list(ex.map(one, ids))
tot = {}
for f in glob.glob(out + "/C*.json"):
    for fn, L in json.load(open(f)).items():
        T = tot.setdefault(fn, {})
        for k, v in L.items(): T[int(k)] = max(T.get(int(k), 0), v)
for fn in sorted(glob.glob(R + "/geomc/**/*.h", recursive=True) + lib):
    rel = fn[len("/repo/"):]; T = tot.get(rel, {}); com = False; miss = []
    for n, l in enumerate(open(fn, errors="replace").read().split("\n"), 1):
        s = l.strip()
        if "/*" in s and "*/" not in s: com = True
        if com:
            if "*/" in s: com = False
            continue
        if T.get(n, 0) > 0 or not s or s.startswith(("//", "#", "/*", "template", "typedef", "using", "public", "private", "protected", "friend class", "struct", "class", "namespace", "enum", "static_assert")): continue
        if n in T or (";" in s and re.search(r"[=(]|return", s)): miss.append((n, "U" if n in T else "-", s))
    print(f"== {rel}: {len(miss)} of {sum(1 for v in T.values())}")
    for m in miss: print("  %5d %s %s" % m)
