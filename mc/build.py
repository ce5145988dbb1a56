#!/usr/bin/env python3
"""Builds mcrun (explorer) and libscn.so (the code under test + scenarios) from /repo's current working tree.
usage: build.py OUTDIR [--noasan] [scenario.cpp ...]   (prints nothing on success)"""
import sys, os, subprocess, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get("RBUS_REPO", "/repo")
EXCLUDE = {"diag_probe.c", "rtsub.c", "rtDebug.c", "rtCipher.c", "rtBuffer.c"}   # tools with their own main / debug only / needs openssl
DEFS = ["-DMSG_ROUNDTRIP_TIME=1", "-DRBUS_ALWAYS_ON", "-D_TIME_BITS=64", "-D_FILE_OFFSET_BITS=64", "-D_GNU_SOURCE", "-DMCSIM=1", "-DBUILD_FOR_DESKTOP"]
INC = ["-I", REPO + "/include", "-I", REPO + "/src/rtmessage", "-I", REPO + "/src/core", "-I", REPO + "/src/rbus", "-I", REPO + "/src/session_manager", "-I", HERE, "-I", VERIF + "/scn"]

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

def repo_sources():
    s = []
    for d in ("rtmessage", "core", "rbus", "session_manager"):
        for f in sorted(glob.glob(f"{REPO}/src/{d}/*.c")):
            if os.path.basename(f) not in EXCLUDE: s.append(f)
    return s

def build(out, scns, asan=True):
    os.makedirs(out, exist_ok=True)
    redef = out + "/redef.sym"
    with open(redef, "w") as f:
        for l in open(HERE + "/redefs.txt"):
            l = l.strip()
            if l: f.write(f"{l} mcs_{l}\n")
    san = ["-fsanitize=address"] if asan else []
    base = ["-g", "-O1", "-fPIC", "-fno-omit-frame-pointer", "-fno-inline-functions", "-w", "-pthread"]
    jobs = []
    def cc(src, lang):
        o = f"{out}/{os.path.basename(os.path.dirname(src))}_{os.path.basename(src)}.o"
        extra = []
        b = os.path.basename(src)
        if b == "rtrouted.c": extra = ["-Dmain=mc_rtrouted_main"]
        if b == "session_manager.c": extra = ["-Dmain=mc_session_manager_main"]
        comp = ["gcc", "-std=gnu99"] if lang == "c" else ["g++", "-std=gnu++17", "-fno-gnu-unique"]
        sh(comp + base + san + DEFS + extra + INC + ["-c", src, "-o", o])
        sh(["objcopy", "--redefine-syms=" + redef, o])
        return o
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        sim = ex.submit(lambda: sh(["gcc", "-O2", "-g", "-w", "-c", HERE + "/mcsim.c", "-o", out + "/mcsim.o"]))
        fs = [ex.submit(cc, s, "cpp") for s in scns] + [ex.submit(cc, s, "c") for s in repo_sources()]
        objs = [f.result() for f in fs]; sim.result()
    # objects of the same global name in rtrouted/session manager stay private to the library through -Bsymbolic
    sh(["g++"] + san + ["-shared", "-Wl,-Bsymbolic", "-Wl,--allow-multiple-definition", "-o", out + "/libscn.so"] + objs + ["-lmsgpackc" if os.path.exists("/usr/lib/x86_64-linux-gnu/libmsgpackc.so") else "-lmsgpack-c", "-lcjson", "-pthread", "-lm", "-ldl"])
    sh(["gcc"] + san + ["-rdynamic", "-o", out + "/mcrun", out + "/mcsim.o", "-pthread", "-ldl", "-lm"])

if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if x != "--noasan"]
    scns = a[1:] or sorted(glob.glob(VERIF + "/scn/*.cpp"))
    try: build(a[0], scns, "--noasan" not in sys.argv)
    except RuntimeError as e:
        print(e); sys.exit(2)
