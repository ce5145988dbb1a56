#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--only SCENARIO] [--keep]
Builds the explorer and the code under test from /repo's working tree, explores every scenario of the property,
replays what it found, writes evidence/<PROPERTY>.json.  Exit 0: held on everything explored; 1: VIOLATION printed."""
import sys, os, json, time, subprocess, shutil, tempfile, re
VERIF = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, VERIF); sys.path.insert(0, VERIF + "/mc")
import build as B
from checks import CHECKS

def load_findings():
    out = []
    p = VERIF + "/known_findings.json"
    if os.path.exists(p):
        for f in json.load(open(p))["findings"]: out.append(f)
    return out

def main():
    a = sys.argv[1:]; pid = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = False
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if "--only" in a: only = a[a.index("--only") + 1]
    if "--keep" in a: keep = True
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]; t0 = time.time()
    root = "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp"
    bd = tempfile.mkdtemp(prefix=f"mcb-{pid}-", dir=root)
    rc = 0
    try:
        srcs = [VERIF + "/scn/common.cpp"] + [VERIF + "/scn/" + s for s in spec["sources"]]
        try: B.build(bd, srcs)
        except RuntimeError as e:
            print("BUILD-ERROR"); print(e); return 2
        findings = [f for f in load_findings() if f["property"] == pid and f.get("status") == "known"]
        skipped = []; results = []; viols = []; known_seen = {}; errors = []
        tb = time.time() - t0
        runs = [r for r in spec["runs"] if (tier in r.get("tiers", ("quick", "thorough"))) and (only is None or r["scn"] == only or r.get("name") == only)]
        for r in runs:
            left = LIMIT.get(tier, 1e9) - (time.time() - t0)
            if tier == "quick" and ((viols and left < 500) or left < 5):
                skipped.append(r.get("name", r["scn"])); print(f"{pid} {skipped[-1]}: not run, " + ("violations found already" if viols else "out of time")); continue
            q = dict(r); q.update(r.get(tier, {}))
            out = f"{bd}/out.json"
            cmd = [bd + "/mcrun", "--lib", bd + "/libscn.so", "--scn", q["scn"], "--bound", str(q.get("bound", 1)), "--jobs", str(os.cpu_count() or 8),
                   "--budget", str(round(min(q.get("budget", 300 if tier == "quick" else 900), left), 1)), "--slots", str(q.get("slots", 6)), "--out", out, "--viol", "12", "--wall", str(q.get("wall", 600))]
            if "steps" in q: cmd += ["--steps", str(q["steps"])]
            params = dict(q.get("params", {})); params.setdefault("thorough", 1 if tier == "thorough" else 0)
            for k, v in params.items(): cmd += ["--param", f"{k}={v}"]
            if os.path.exists(out): os.unlink(out)
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
            if not os.path.exists(out):
                errors.append(f"{q['scn']}: explorer ended with {p.returncode}: {p.stderr[-800:]}"); continue
            res = json.load(open(out)); res["name"] = r.get("name", r["scn"]); results.append(res)
            print(f"{pid} {res['name']}: executions={res['executions']} steps={res['transitions']} choice_points={res['choice_points']} bound_completed={res['completed_bound']}/{res['bound']} capped={res['capped']} outcomes={res['outcomes']} diverged={res['diverged']} wall={res['wall_s']}s", flush=True)
            if res["nondet"] and not res["violations"]: errors.append(f"{res['name']}: default execution is not deterministic")
            for v in res["violations"]:
                sig = f"{res['name']}|{v['kind']}|{v['msg']}|{asan_site(v['stderr'])}"
                # replay before reporting
                try: rp = subprocess.run([bd + "/mcrun", "--lib", bd + "/libscn.so", "--scn", q["scn"], "--slots", str(q.get("slots", 6)), "--replay", v["choices"]] + sum([["--param", f"{k}={x}"] for k, x in params.items()], []) + (["--steps", str(q["steps"])] if "steps" in q else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60) if v["kind"] not in ("wall-timeout",) else None
                except subprocess.TimeoutExpired: rp = None
                confirmed = rp is None or rp.returncode != 0
                if not confirmed:
                    errors.append(f"{res['name']}: violation not reproduced on replay: {v['msg'][:200]}"); continue
                hit = None
                for f in findings:
                    if re.search(f["match"], sig, re.S): hit = f; break
                if hit: known_seen.setdefault(hit["what"], []).append(sig); continue
                viols.append((res["name"], q["scn"], params, v))
        for f in findings:
            if f["what"] in known_seen or not only: print(f"KNOWN-FINDING: property={pid} {f['what']}")
        os.makedirs(VERIF + "/replays", exist_ok=True)
        for i, (name, scn, params, v) in enumerate(viols):
            path = f"{VERIF}/replays/{pid}-{name}-{i}.txt"
            with open(path, "w") as fh:
                fh.write(f"property={pid}\nscenario={scn}\nkind={v['kind']}\nparams={json.dumps(params)}\nchoices={v['choices']}\nmessage={v['msg']}\n\nreplay: mc/build.py DIR && DIR/mcrun --lib DIR/libscn.so --scn {scn} " + " ".join(f"--param {k}={x}" for k, x in params.items()) + f" --replay '{v['choices']}' -v\n\n{v['stderr']}\n")
            print(f"  {name} [{v['kind']}] {v['msg'][:600]} {asan_site(v['stderr'])}")
            print(f"VIOLATION property={pid} replay={path}"); rc = 1
        if not viols and errors:
            for e in errors: print("CHECK-ERROR", e)
            rc = 2
        ev = {"property": pid, "tier": tier, "seed": seed, "level": spec["level"], "wall_s": round(time.time() - t0, 1), "violations": len(viols),
              "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
              "coverage": {"evaluations": sum(max(r["executions"], r["counts"][0]) for r in results), "executions": sum(r["executions"] for r in results), "distinct_nontrivial": sum(r["outcomes"] for r in results),
                 "rule": "one evaluation = one complete execution of the real code (broker and clients) under the controlled scheduler and virtual kernel, identified by its list of non-default choices; where one execution runs many enumerated cases, one evaluation = one case; distinct_nontrivial = number of different observed outcomes (operations performed and results) over all executions",
                 "transitions": sum(r["transitions"] for r in results), "choice_points": sum(r["choice_points"] for r in results),
                 "samples": [f"{r['name']}: {s}" for r in results for s in r["sample_outcomes"][:3]][:40],
                 "exhaustive": not skipped and all(not r["capped"] and r["completed_bound"] >= r["bound"] for r in results),
                 "runs": [{k: r[k] for k in ("name", "scenario", "params", "bound", "completed_bound", "capped", "executions", "transitions", "choice_points", "max_points", "outcomes", "diverged", "crash_points", "per_cost", "counts", "wall_s")} for r in results],
                 "not_run": skipped, "build_s": round(tb, 1), "known_findings_seen": {k: len(v) for k, v in known_seen.items()}}}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{VERIF}/evidence/{pid}.json", "w"), indent=1)
        print(f"{pid}: {'VIOLATED' if rc == 1 else 'ok' if rc == 0 else 'error'} wall={ev['wall_s']}s executions={ev['coverage']['executions']}")
        return rc
    finally:
        if not keep: shutil.rmtree(bd, ignore_errors=True)
        else: print("kept", bd)

LIMIT = {"quick": 720}  # seconds for everything; a run which does not fit is cut and reported as capped, never as a violation
COMMON_ASSUMPTIONS = ["sequentially consistent memory; preemption only at intercepted operations (mutex, condition variable, semaphore, socket, thread, time and file calls)",
  "virtual sockets have unlimited buffers and deliver in order; virtual time advances only when no thread can run",
  "AddressSanitizer detects the memory errors that matter at the points executed"]

def asan_site(txt):
    m = re.search(r"AddressSanitizer: ([\w-]+)", txt or "")
    if not m: return ""
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+)", txt)
    return "asan:" + m.group(1) + " in " + "<".join(fr[:4])

if __name__ == "__main__": sys.exit(main())
