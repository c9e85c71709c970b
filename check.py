#!/usr/bin/env python3
"""Builds the simulator and the harness from /repo's working tree and runs one property check.

  check.py C01            seeded search for property C01 (VERIF_SEED, VERIF_TIER)
  check.py --setup        build everything
  check.py --replay FILE  re-execute a replay file
  check.py --selfcheck C01 [N]   determinism self-check
"""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
INC = ["-I" + R, "-I" + R + "/GTgraph/R-MAT", "-I" + R + "/GTgraph/sprng2.0-lite/include"]
# instrumented units: every memory access, allocation and OpenMP construct becomes a simulator event
FI = ["-std=c++17", "-O1", "-g1", "-fopenmp", "-fsanitize=thread", "-DCPP", "-include", "cstdint", "-w", "-I" + V + "/harness/inst"] + INC
FC = ["-O1", "-g1", "-fsanitize=thread", "-DAdd_", "-w"] + INC # the repository's C sources
FH = ["-std=c++17", "-O2", "-g1", "-w"]
LINK = ["-rdynamic", "-Wl,-z,muldefs", "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=memcmp"]
ROWS = ["row_msa", "row_hash", "row_heap", "row_heap2"]
# instrumented units a property cannot do without
NEED = {
    "C04": ROWS + ["inner"], "C05": ROWS, "C06": ROWS + ["inner"], "C07": ROWS + ["inner", "nest"], "C08": ROWS + ["inner"], "C20": ROWS + ["inner"],
    "C01": ROWS, "C02": ROWS, "C03": ["inner"], "C10": ["legacy", "inner"], "C11": ["unmasked", "outer"],
    "C12": ["conv"], "C13": ["conv"], "C14": ["io"], "C21": ["grb"], "C15": ["app_ktruss"], "C16": ["app_bc"], "C17": ["app_tri"], "C18": ["parmat"], "C19": ["parmat"], "C09": ["scan"], "C22": ["prim"],
    "C23": ["gt_rmat", "gt_random", "gt_ssca"], "C31": ["streams", "sprng_sprng", "sprng_cmrg", "sprng_lfg", "sprng_mlfg", "sprng_lcg", "sprng_lcg64"],
}
TIME = {"quick": 40, "thorough": 600}

def files(root, pats):
    out = []
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in (".git", "_build", "Release", "build"))
        for f in sorted(fs):
            if f.endswith(pats): out.append(os.path.join(d, f))
    return out
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f: h.update(f.read())
    return h.hexdigest()[:20]
def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return p.returncode, p.stdout

def build():
    os.makedirs(BUILD + "/obj", exist_ok=True)
    lock = open(BUILD + "/lock", "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    src = (".h", ".hpp", ".c", ".cpp", ".cc", ".hxx", ".inl", ".data")
    rd = digest(files(R, src), R)
    hd = digest(files(V + "/sim", (".h",)) + files(V + "/harness", (".h",)))
    jobs = []
    for f in sorted(glob.glob(V + "/harness/inst/*.cpp")):
        jobs.append((f, "i_" + os.path.basename(f)[:-4], FI, digest([f], rd + hd + repr(FI))))
    for f in sorted(glob.glob(V + "/harness/inst/*.c")): # names stay local to the unit
        jobs.append((f, "i_" + os.path.basename(f)[:-2], FC + ["-fvisibility=hidden"], digest([f], rd + hd + repr(FC))))
    sp = R + "/GTgraph/sprng2.0-lite/src/"
    for f in sorted(glob.glob(sp + "*.c") + glob.glob(sp + "*/*.c")):
        if os.path.basename(f) not in ("drand.c", "fwrap_mpi.c", "simple_mpi.c", "cputime.c", "timing.c", "simple.c"):
            jobs.append((f, "i_sprng_" + os.path.basename(f)[:-2], [x for x in FC if x != "-I" + R] + ["-I" + sp], digest([f], rd + repr(FC))))
    for f in sorted(glob.glob(V + "/sim/*.cpp") + glob.glob(V + "/harness/*.cpp") + glob.glob(V + "/harness/props/*.cpp")):
        jobs.append((f, "h_" + os.path.basename(f)[:-4], FH, digest([f], hd + repr(FH))))
    key = hashlib.sha256(repr([(j[1], j[3]) for j in jobs]).encode()).hexdigest()[:20]
    exe = BUILD + "/harness-" + key
    failed = {}
    def comp(j):
        f, name, flags, dg = j
        o = "%s/obj/%s-%s.o" % (BUILD, name, dg)
        if not os.path.exists(o):
            t = o + ".tmp%d" % os.getpid()
            rc, out = sh(["gcc" if f.endswith(".c") else "g++"] + flags + ["-c", f, "-o", t])
            m = re.search("VERIF_SPLIT (\\S+)", open(f).read()) if rc else None
            if m: # the sources do not compile as one unit: each on its own
                parts = [(f, "-DGT_SPLIT", [])] + [(x, "-DGT_PART", ["-include", V + "/harness/inst/gt.h"]) for x in sorted(glob.glob(R + "/" + m.group(1) + "/*.c"))]
                for k, (x, d, more) in enumerate(parts):
                    rc, o2 = sh(["gcc"] + flags + [d] + more + ["-c", x, "-o", "%s.%d" % (t, k)]); out += o2
                    if rc: break
                if not rc: rc, out = sh(["ld", "-r", "-o", t] + ["%s.%d" % (t, k) for k in range(len(parts))])
                for k in range(len(parts)):
                    if os.path.exists("%s.%d" % (t, k)): os.unlink("%s.%d" % (t, k))
            if not rc and "-fvisibility=hidden" in flags: rc, out = sh(["objcopy", "--localize-hidden", t])
            if rc and "VERIF_FALLBACK" in open(f).read(): # an internal name is gone: keep what needs no internal names
                rc, o2 = sh(["g++"] + flags + ["-DVERIF_FALLBACK", "-c", f, "-o", t])
                if not rc: sys.stderr.write("check.py: %s is built without its internal entry points:\n%s\n" % (name, out[:600]))
            if rc: return name, None, out
            os.rename(t, o)
        else: os.utime(o)
        return name, o, ""
    t0 = time.time()
    order = sorted(jobs, key=lambda j: -os.path.getsize(j[0]) if j[1].startswith("i_") else 0)
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex: res = list(ex.map(comp, order))
    objs = []
    for name, o, out in res:
        if o is None:
            failed[name] = out
            if name.startswith("h_"):
                sys.stderr.write(out[:4000]); sys.stderr.write("check.py: cannot compile %s\n" % name); sys.exit(3)
        else: objs.append(o)
    if not os.path.exists(exe):
        objs.sort(key=lambda p: (not os.path.basename(p).startswith("i_"), p))
        rc, out = sh(["g++", "-o", exe + ".tmp"] + objs + LINK + ["-ldl", "-lgraphblas"])
        if rc: sys.stderr.write(out[-4000:]); sys.stderr.write("check.py: cannot link\n"); sys.exit(3)
        os.rename(exe + ".tmp", exe)
    else: os.utime(exe)
    # keep the cache small
    for pat, keep in (("/harness-*", 4), ("/obj/*.o", 260)):
        l = sorted(glob.glob(BUILD + pat), key=os.path.getmtime, reverse=True)
        for f in l[keep:]: os.unlink(f)
    print("build: %.1f s, %d units%s" % (time.time() - t0, len(objs), ", %d failed" % len(failed) if failed else ""), flush=True)
    fcntl.flock(lock, fcntl.LOCK_UN)
    return exe, failed

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    exe, failed = build()
    if a[0] == "--setup":
        for n, o in failed.items(): sys.stderr.write("%s:\n%s\n" % (n, o[:2000]))
        return 3 if failed else 0
    if a[0] == "--replay": return subprocess.call([exe, "replay", "--file", a[1]])
    if a[0] == "--selfcheck": return subprocess.call([exe, "selfcheck", "--prop", a[1], "--n", a[2] if len(a) > 2 else "300"])
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in TIME else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    bad = [n for n in NEED.get(prop, []) if "i_" + n in failed]
    if bad:
        for n in bad: sys.stderr.write("%s:\n%s\n" % (n, failed["i_" + n][:3000]))
        sys.stderr.write("check.py: the units %s do not compile\n" % bad); return 3
    os.makedirs(V + "/evidence", exist_ok=True); os.makedirs(V + "/replays", exist_ok=True)
    secs = os.environ.get("VERIF_SECONDS", str(TIME[tier]))
    return subprocess.call([exe, "run", "--prop", prop, "--seed", seed, "--tier", tier, "--jobs", str(os.cpu_count() or 8), "--time", secs,
                            "--evidence", "%s/evidence/%s.json" % (V, prop), "--known", V + "/known_findings.txt", "--replays", V + "/replays"])
sys.exit(main())
