#!/usr/bin/env python3
"""Builds the simulator for one property from /repo's working tree, searches seeds, gates and minimises violations,
writes the evidence file.   usage: check.py C01 [--tier quick|thorough] [--secs N] [--replay FILE] [--build-only]"""
import fcntl, glob, json, os, re, shutil, subprocess, sys, time, tempfile

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
B = os.environ.get("SIM_BUILD", os.path.join(V, "build"))
JOBS = 8
OPT = REPO + "/rct_optimizations"
IMG = REPO + "/rct_image_tools"
ROS = REPO + "/rct_ros_tools"

def srcs(d, exclude=()):
    r = []
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            if f.endswith(".cpp") and f not in exclude:
                r.append(os.path.join(root, f))
    return sorted(r)

OPT_SRC = lambda: srcs(OPT + "/src/rct_optimizations")
OPT_NODH = lambda: srcs(OPT + "/src/rct_optimizations", ("dh_chain_kinematic_calibration.cpp",))
IMG_SRC = lambda: srcs(IMG + "/src/rct_image_tools")

CV = "-lopencv_core -lopencv_aruco -lopencv_features2d -lopencv_imgproc -lopencv_calib3d -lopencv_imgcodecs -lopencv_highgui"
LIBS = "-lceres -lglog -lyaml-cpp -lpthread -ldl"

CHECKS = json.load(open(os.path.join(V, "checks.json")))

def whole_packages(listed):
    """All sources of the directories the listed ones are in, except programs."""
    r = list(listed)
    for d in sorted({os.path.dirname(f) for f in listed if f.startswith(REPO)}):
        top = d
        if "/src/rct_optimizations" in d: top = OPT + "/src/rct_optimizations"
        if "/src/rct_image_tools" in d: top = IMG + "/src/rct_image_tools"
        for f in srcs(top):
            if f not in r and not re.search(r"\bint\s+main\s*\(", open(f, errors="replace").read()):
                r.append(f)
    return r

def ninja_for(pid, whole=False):
    c = CHECKS[pid]
    flags = c.get("flags", "")
    inst = c.get("instrument", "")           # extra flags for the code under test
    cc = c.get("cxx", "g++")
    repo_src = []
    for g in c["repo"]:
        if g == "opt": repo_src += OPT_NODH()
        elif g == "opt+dh": repo_src += OPT_SRC()
        elif g == "img": repo_src += IMG_SRC()
        elif g.startswith("sim:"): repo_src.append(os.path.join(V, "sim", g[4:]))
        else: repo_src.append(os.path.join(REPO, g))
    if whole:
        # code moved between files: take everything there is in the packages concerned
        repo_src = whole_packages([f for f in repo_src if os.path.exists(f)])
        if any(os.path.basename(f) == "dh_chain_kinematic_calibration.cpp" for f in repo_src) and V + "/sim/adapt/adapt.cpp" not in repo_src:
            repo_src.append(V + "/sim/adapt/adapt.cpp")
    sim_src = [V + "/sim/core/sim.cpp", V + "/sim/core/seams.cpp", V + "/sim/core/heap.cpp"] + [os.path.join(V, "sim", f) for f in c.get("core", [])] + \
              [os.path.join(V, "sim", f) for f in c["scn"]]
    inc = f"-I{V}/sim/stubs -I{V}/sim -I{OPT}/include -I{REPO}/rct_common/include -I{IMG}/include -I{ROS}/include -I{REPO}/rct_ros_tools/src -isystem /usr/include/eigen3 -isystem /usr/include/opencv4"
    base = f"-std=c++17 -O1 -g0 -fPIC -w -D_GLIBCXX_ASSERTIONS {inc} {flags}"
    libs = (CV + " " + LIBS if c.get("libs") == "CV" else LIBS) + "".join(" -Wl,--export-dynamic-symbol=" + x for x in c.get("export", []))
    out = []
    out.append(f"rule cxx\n  command = $cc $fl -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n")
    out.append(f"rule so\n  command = {cc} -shared -Wl,-Bsymbolic -Wl,--version-script={V}/sim/core/export.map -o $out $in {libs}\n")
    out.append(f"rule exe\n  command = {cc} -o $out $objs $lib {libs} -Wl,-rpath,'$$ORIGIN'\n")
    def key(s): 
        import hashlib
        return hashlib.sha1(s.encode()).hexdigest()[:10]
    def add(src, fl):
        o = f"{B}/obj/{key(src + cc + fl)}_{os.path.basename(src)}.o"
        out.append(f"build {o}: cxx {src}\n  cc = {cc}\n  fl = {fl}\n")
        return o
    ro = [add(s, base + " " + inst) for s in repo_src]
    so = [add(s, base + " -fvisibility=hidden -fvisibility-inlines-hidden") for s in sim_src]
    lib = f"{B}/{pid}/librepo.so"
    exe = f"{B}/{pid}/sim"
    out.append(f"build {lib}: so {' '.join(ro)}\n")
    tools = []
    if c.get("tools"):
        # programs: each one a shared object of its own with its main function renamed
        out.append(f"rule tool\n  command = {cc} -shared -Wl,-Bsymbolic -Wl,--version-script={V}/sim/core/tool.map -o $out $objs $lib {libs} -Wl,-rpath,'$$ORIGIN'\n")
        hg = add(V + "/sim/stubs/highgui.cpp", base)
        for n, f in c["tools"].items():
            o = add(REPO + "/" + f, base + f" -Dmain=rct_tool_{n}")
            t = f"{B}/{pid}/libtool_{n}.so"
            out.append(f"build {t}: tool {o} {hg} | {lib}\n  objs = {o} {hg}\n  lib = {lib}\n")
            tools.append(t)
    out.append(f"build {exe}: exe {' '.join(so)} | {' '.join([lib] + tools)}\n  objs = {' '.join(so)}\n  lib = {' '.join(tools + [lib])}\n")
    out.append(f"default {exe}\n")
    return "\n".join(out), exe

def real_components(c):
    r = []
    for g in c["repo"]:
        r += {"opt": ["all of rct_optimizations/src except the DH chain calibration"], "opt+dh": ["all of rct_optimizations/src"], "img": ["all of rct_image_tools/src (library part)"]}.get(g, [] if g.startswith("sim:") else [g])
    if "sim:adapt/node.cpp" in c["repo"]:
        r.append("rct_ros_tools/src/command_line_cal.cpp (whole node)")
    r += list(c.get("tools", {}).values())
    r += ["rct_* headers", "installed Ceres, glog, Eigen, yaml-cpp"] + (["installed OpenCV"] if c.get("libs") == "CV" else [])
    return r + c.get("real", [])

def stub_components(c):
    r = ["clock, random entropy and heap (link-time seams)"]
    if "core/baton.cpp" in c.get("core", []):
        r.append("threads: every switch decided by the seeded baton scheduler, races found by happens-before tracking")
    if "core/storage.cpp" in c.get("core", []):
        r.append("file operations under the scratch folder: pass through the simulated storage, which injects errors, short writes and crashes")
    if any("rct_sim_ros" in g or "node.cpp" in g for g in c["repo"]):
        r.append("ROS: parameter service, topics, services, transforms, plugin loader, clock and log")
    if any("highgui" in g for g in c["repo"]):
        r.append("display (OpenCV highgui)")
    return r + ["cameras, targets, robot and other surroundings (simulated from Eigen only)"] + c.get("stub", [])

def assumptions(c):
    return ["The simulated world and the reference model are right; they share no code with the library.",
            "Sampled search: what no seed met is not decided.",
            "Library code is compiled with assertions on and -O1, not with the flags of a release."] + c.get("assumptions", [])

def build(pid):
    os.makedirs(f"{B}/{pid}", exist_ok=True)
    os.makedirs(f"{B}/obj", exist_ok=True)
    lock = open(f"{B}/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    f = f"{B}/{pid}/build.ninja"
    for whole in (False, True):
        txt, exe = ninja_for(pid, whole)
        if not os.path.exists(f) or open(f).read() != txt:
            open(f, "w").write(txt)
        r = subprocess.run(["ninja", "-C", f"{B}/{pid}", "-f", f, "-j", str(JOBS)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode == 0: break
    fcntl.flock(lock, fcntl.LOCK_UN)
    if r.returncode != 0:
        print(r.stdout[-6000:])
        print(f"ERROR: the simulator for {pid} does not build against {REPO}")
        sys.exit(2)
    return exe

def run_json(cmd, env, timeout):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, "timeout"
    t = p.stdout.decode("utf-8", "replace").strip().splitlines()
    try:
        return json.loads(t[-1]), ""
    except Exception:
        return None, (p.stdout[-2000:] + p.stderr[-2000:]).decode("utf-8", "replace")

def known(pid):
    r = {}
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                r[m.group(2)] = m.group(3)
    return r

def main():
    a = sys.argv[1:]
    pid = a[0]
    def opt(n, d):
        return a[a.index(n) + 1] if n in a else d
    tier = opt("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = CHECKS[pid]
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    if "--build-only" in a:
        return 0
    env = dict(os.environ)
    kn = known(pid)
    karg = ["--known", ",".join(kn)] if kn else []
    scratch = tempfile.mkdtemp(prefix="sim_%s_" % pid)
    env["SIM_SCRATCH"] = scratch
    cpu = str(c.get("cpu", 60))
    try:
        if "--replay" in a:
            f = opt("--replay", "")
            r, e = run_json([exe, "replay", f, "--cpu", cpu] + karg, env, 600)
            if r is None:
                print("ERROR", e); return 2
            exp = re.search(r"^# hash (\S+)", open(f).read(), re.M)
            print("status", r["status"], "class", r["class"], "hash", r["hash"], "expected", exp.group(1) if exp else "-")
            print(r["message"]); print(r["log"][-1500:])
            if r["status"] == 2:
                print(f"VIOLATION property={pid} replay={f}")
            return 1 if r["status"] == 2 else 0
        secs = float(opt("--secs", c["secs"][0 if tier == "quick" else 1]))
        workers = int(opt("--workers", c.get("workers", JOBS)))
        vd = scratch + "/viol"
        os.makedirs(vd)
        procs = []
        t1 = time.time()
        for w in range(workers):
            procs.append(subprocess.Popen([exe, "batch", "--scn", pid, "--seed", str(seed), "--from", str(w), "--stride", str(workers),
                "--secs", str(secs), "--viol", vd, "--tier", "0" if tier == "quick" else "1", "--cpu", cpu,
                "--max", str(opt("--max", c.get("max", [10**9, 10**9])[0 if tier == "quick" else 1]))] + karg,
                stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env))
        tot = {"runs": 0, "ok": 0, "skipped": 0, "nontrivial": 0, "events": 0, "steps": 0, "sim_time": 0.0, "viol": 0}
        faults, skips, notes, finds = {}, {}, {}, {}
        states, plans, samples, viols = set(), set(), [], []
        measure = ""
        for p in procs:
            o, e = p.communicate()
            t = o.decode("utf-8", "replace").strip().splitlines()
            try:
                j = json.loads(t[-1])
            except Exception:
                print("ERROR: a worker of the simulator ended badly:", (o + e)[-3000:].decode("utf-8", "replace"))
                return 2
            if "internal" in j:
                print("ERROR: the simulation itself failed:", j["internal"]); print(j["plan"])
                return 2
            for k in tot: tot[k] += j[k]
            for d, k in ((faults, "faults"), (skips, "skips"), (notes, "notes"), (finds, "findings")):
                for n, v in j[k].items(): d[n] = d.get(n, 0) + v
            states.update(j["states"]); plans.update(j["plans"]); samples += j["samples"][:1]; viols += j["violations"]
            measure = j["measure"]
        wall_runs = time.time() - t1
        out, rc = [], 0
        od = os.path.join(os.environ.get("SIM_OUT", os.path.join(V, "out")), pid)
        seen = set()
        for v in sorted(viols, key=lambda x: x["idx"]):
            if v["class"] in seen: continue
            seen.add(v["class"])
            # gate: reproduce in fresh processes, exactly
            rr = [run_json([exe, "replay", v["file"], "--cpu", cpu] + karg, env, 600)[0] for _ in range(2)]
            if any(r is None or r["status"] != 2 or r["class"] != v["class"] for r in rr) or rr[0]["hash"] != rr[1]["hash"]:
                # the same plan violates the property again, but not by the same execution: the code under test added
                # nondeterminism of its own under the schedule and faults given to it
                rr += [run_json([exe, "replay", v["file"], "--cpu", cpu] + karg, env, 600)[0] for _ in range(4)]
                again = sum(1 for r in rr if r is not None and r["status"] == 2)
                if again < 2:
                    print(f"ERROR: violation {v['class']} of seed {v['seed']} does not reproduce; not reported: {v['message'][:300]}")
                    rc = max(rc, 2) if rc != 1 else 1
                    continue
                v["message"] += f" [the same plan violates the property in {again} of {len(rr)} replays; the code under test is nondeterministic under it]"
            os.makedirs(od, exist_ok=True)
            rp = os.path.join(od, re.sub(r"[^A-Za-z0-9_.-]", "_", v["class"]) + ".replay")
            subprocess.run([exe, "min", v["file"], rp, "--budget", str(c.get("minsecs", 20)), "--cpu", cpu] + karg, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            m = [run_json([exe, "replay", rp, "--cpu", cpu] + karg, env, 600)[0] for _ in range(2)] if os.path.exists(rp) else [None]
            if any(r is None or r["status"] != 2 for r in m):
                shutil.copy(v["file"], rp)
            print(f"  class={v['class']} seed={v['seed']} {v['message'][:700]}")
            print(f"VIOLATION property={pid} replay={rp}", flush=True)
            rc = 1
            out.append({"class": v["class"], "seed": v["seed"], "replay": rp, "message": v["message"]})
            if len(out) >= 3: break
        # determinism gate: the same seed in two fresh processes is the same execution. Runs that end in a violation are
        # not part of it: broken code may well be nondeterministic by itself (a data race, uninitialised memory)
        det = {"checked": 0, "ok": 0}
        for i in range(c.get("det", 4) if rc == 0 else 0):
            f = scratch + f"/det{i}.plan"
            g = subprocess.run([exe, "gen", "--scn", pid, "--seed", str(seed), "--idx", str(i * 7 + 1), "--tier", "0" if tier == "quick" else "1"], stdout=subprocess.PIPE, env=env)
            open(f, "wb").write(g.stdout)
            h = []
            for k in range(2):
                r, e = run_json([exe, "replay", f, "--cpu", cpu] + karg, env, 600)
                h.append((r or {}).get("hash"))
            det["checked"] += 1
            if h[0] and h[0] == h[1]: det["ok"] += 1
            else:
                print(f"ERROR: execution of seed index {i*7+1} is not repeatable: {h}")
                rc = 2
                break
        for k in kn:
            print(f"KNOWN-FINDING: property={pid} {k}: {kn[k]} (met in {int(finds.get(k, 0))} runs)")
        if tot["ok"] == 0 and rc == 0:
            print("ERROR: no run completed", tot, skips); rc = 2
        ev = {"property": pid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
              "coverage": {"evaluations": tot["ok"], "distinct_nontrivial": len(plans),
                           "rule": c.get("rule", "a completed simulated run counts as non-trivial when at least one fault or scheduling decision was injected; distinct by the digest of its whole plan (world, faults, schedule)"),
                           "samples": samples[:4],
                           "simulated_runs": tot["runs"], "runs_skipped_premise_not_met": tot["skipped"], "skip_reasons": skips,
                           "seeds_per_hour": round(tot["runs"] / max(wall_runs, 1e-6) * 3600), "simulated_seconds": round(tot["sim_time"], 3),
                           "history_events": tot["events"], "scheduler_steps": tot["steps"], "faults_injected": faults,
                           "distinct_states": len(states), "distinct_states_measure": measure, "counters": notes,
                           "determinism_gate": det, "real_components": real_components(c), "stub_components": stub_components(c),
                           "build_s": round(tb, 1), "workers": workers, "known_findings_met": finds},
              "wall_s": round(time.time() - t0, 2), "assumptions": assumptions(c), "violations": len(out)}
        ev["coverage"]["violations_reported"] = out
        evd = os.environ.get("SIM_EVID", os.path.join(V, "evidence"))
        os.makedirs(evd, exist_ok=True)
        json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
        print(f"{pid} {tier}: {tot['ok']} runs held, {tot['skipped']} skipped, {tot['viol']} violating, {len(plans)} distinct, {len(states)} states, build {tb:.0f}s, total {time.time()-t0:.0f}s", skips if skips else "")
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

sys.exit(main())
