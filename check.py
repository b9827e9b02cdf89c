#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and runs one property.

check.py --build                 build only (setup)
check.py PROPERTY [quick|thorough]
check.py --replay FILE           run a recorded schedule and fault trace again
"""
import hashlib, os, subprocess, sys, json, shutil, time, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("DST_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.environ.get("DST_BUILD", os.path.join(HERE, "build"))
GUARD = "/opt/vp/boost-root/vp-guard"

WORLDS = {  # name -> compiler flavour
    "TOY_OPP_BASE": "mem", "TOY_STD_BASE": "mem", "TOY_OPP_STRICT": "plain", "TOY_STD_CATCH": "plain",
    "TOY_OPP_CATCHBASE": "plain", "TOY_MIX_NOEMPTY": "plain", "TOY_STD_NONAN": "plain", "RAT_EXACT": "mem", "RAT_TRANSC": "plain", "RAT_NOEMPTY": "mem",
    "DBL_DEFAULT": "mem", "FLT_BASE": "mem", "LDBL_BASE": "clang", "DBL_STD": "mem", "DBL_OPP": "clang",
    "DBL_MPFR": "mem", "X87": "x87", "X87F": "x87", "X87L": "clang", "X87FAST": "x87", "X87FASTF": "x87", "X87FASTL": "clang",
    "FLT_MPFR": "clang", "LDBL_MPFR": "clang", "FLT_STD": "mem",
}
BASE = ["-std=c++17", "-frounding-math", "-O1", "-w", "-I" + os.path.join(REPO, "include"), "-I" + SIM]
if os.path.isdir(GUARD):
    BASE += ["-isystem", GUARD]
FLAVOUR = {
    "mem": ["clang++", "-fsanitize=thread"],
    "clang": ["clang++"],
    "plain": ["g++", "-fno-gnu-unique", "-fstack-reuse=none"],   # every temporary has a place of its own: see C17
    "x87": ["g++", "-fno-gnu-unique", "-mfpmath=387", "-O0"],   # the optimiser moves x87 operations across mode changes
}
CORE = ["engine", "simnum", "model", "plan", "check", "main"]
RUNS = {  # plans per tier
    "quick": dict(C01=300000, C02=250000, C03=65000, C04=170000, C05=230000, C06=190000, C07=280000, C08=130000, C09=270000, C10=180000, C11=130000, C12=280000, C13=280000, C14=140000, C15=260000, C16=200000, C17=150000, C18=120000),
    "thorough": dict(C01=3900000, C02=3250000, C03=845000, C04=2210000, C05=2990000, C06=2470000, C07=3640000, C08=1690000, C09=3510000, C10=2340000, C11=1690000, C12=3640000, C13=3640000, C14=1820000, C15=3380000, C16=2600000, C17=1950000, C18=1560000),
}
CAP = {"quick": 150, "thorough": 780}   # seconds; the run count is what normally ends a batch


def treehash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SIM):
        for d, ds, fs in os.walk(root):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(repr((BASE, FLAVOUR, WORLDS)).encode())
    return h.hexdigest()[:20]


def compile_all(outdir):
    jobs = []
    for c in CORE:
        jobs.append((c, ["g++"] + ["-std=c++17", "-O2", "-w", "-I" + SIM, "-c", os.path.join(SIM, c + ".cpp"), "-o", os.path.join(outdir, c + ".o")]))
    for w, fl in WORLDS.items():
        jobs.append((w, FLAVOUR[fl][:1] + BASE + FLAVOUR[fl][1:] + ["-DWORLD_" + w, "-c", os.path.join(SIM, "w.cpp"), "-o", os.path.join(outdir, "w_" + w + ".o")]))
    def one(j):
        r = subprocess.run(j[1], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode == 0 and j[0] in WORLDS:
            # configurations differ in compiler flags and rounding controls: give every
            # one its own copy of all inline functions (one definition per configuration)
            o = j[1][-1]
            r = subprocess.run("ld -r --force-group-allocation -o %s.r %s && objcopy --keep-global-symbol=none_such %s.r %s && rm %s.r" % (o, o, o, o, o),
                               shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return j[0], r.returncode, r.stdout
    bad = []
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for name, rc, out in ex.map(one, jobs):
            if rc:
                bad.append((name, out))
    for n, o in bad[:3]:
        print("BUILD FAILED: %s\n%s" % (n, o[:4000]))
    # a configuration the tree no longer compiles for is left out (and said so); the others still decide
    lost = [n for n, o in bad]
    if len([w for w in WORLDS if w not in lost]) < 3 or any(c in lost for c in CORE):
        return False
    if lost:
        print("NOT BUILT (left out of this run): " + " ".join(lost))
    objs = [os.path.join(outdir, c + ".o") for c in CORE] + [os.path.join(outdir, "w_" + w + ".o") for w in WORLDS if w not in lost]
    r = subprocess.run(["g++", "-Wl,-z,now", "-o", os.path.join(outdir, "dst.tmp")] + objs + ["-lmpfr", "-lgmpxx", "-lgmp", "-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print("LINK FAILED\n" + r.stdout[:4000])
        return False
    os.rename(os.path.join(outdir, "dst.tmp"), os.path.join(outdir, "dst"))
    for o in objs:
        os.unlink(o)
    return True


def build():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, treehash())
        exe = os.path.join(d, "dst")
        if not os.path.exists(exe):
            for old in os.listdir(BUILD):            # keep the directory small
                p = os.path.join(BUILD, old)
                if os.path.isdir(p) and p != d and time.time() - os.path.getmtime(p) > 3600:
                    shutil.rmtree(p, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            t = time.time()
            if not compile_all(d):
                return None
            print("built in %.1f s" % (time.time() - t))
        return exe


def main():
    if len(sys.argv) < 2:
        print(__doc__); return 3
    exe = build()
    if not exe:
        return 3
    if sys.argv[1] == "--build":
        return 0
    if sys.argv[1] == "--exe":
        print(exe); return 0
    if sys.argv[1] == "--replay":
        return subprocess.call([exe, "show", sys.argv[2]])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in RUNS:
        tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    return subprocess.call([exe, "run", prop, "--seed", seed, "--runs", str(RUNS[tier][prop]), "--cap", str(CAP[tier]),
                            "--workers", str(max(2, os.cpu_count() or 8)), "--tier", tier,
                            "--out", os.path.join(HERE, "evidence", prop + ".json"), "--replays", os.path.join(HERE, "replays")])


if __name__ == "__main__":
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
