#!/usr/bin/env python3
"""Development aid for seeded/: confirm a planted bug in a private mount namespace (a copy of /repo bound over /repo).
 bug.py start ID            copy /repo to /tmp/bugs/ID (edit it there)
 bug.py finish ID           diff -> seeded/ID/patch.diff, build + tests + demo with and without it
 bug.py check ID [secs] [props..]   run the checks against the patched copy
 bug.py all [secs]          run check of every seeded bug
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def ns(d, c): return subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {d} /repo && cd /repo && {c}"], text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
def copy(i):
    d = f"/tmp/bugs/{i}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs("/tmp/bugs", exist_ok=True)
    sh(f"cp -a /repo {d}"); sh(f"git -C {d} checkout -- . && git -C {d} clean -fdq")
    return d
def finish(i):
    d, s = f"/tmp/bugs/{i}", f"{V}/seeded/{i}"
    p = sh(f"git -C {d} diff").stdout
    if not p.strip(): print("no change"); return False
    os.makedirs(s, exist_ok=True); open(s + "/patch.diff", "w").write(p)
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    r = ns(d, f"bash /opt/vp/test.sh {d}.json")
    try: passed = set(json.load(open(f"{d}.json"))["passed"])
    except Exception: print(r.stdout[-3000:]); return False
    miss = base - passed
    if miss:
        print("existing tests fail:", miss); print(r.stdout[-500:]); return False
    r1 = ns(d, f"bash {s}/demo.sh"); print("demo with:", r1.returncode, r1.stdout[-500:].strip())
    sh(f"git -C {d} checkout -- .")
    ns(d, "bash /opt/vp/build.sh")
    r0 = ns(d, f"bash {s}/demo.sh"); print("demo without:", r0.returncode, r0.stdout[-500:].strip())
    ok = r1.returncode != 0 and r0.returncode == 0
    print(i, "CONFIRMED" if ok else "NOT CONFIRMED")
    os.unlink(f"{d}.json")
    return ok
def check(i, secs=None, props=None):
    s = f"{V}/seeded/{i}"
    d = f"/tmp/bugs/{i}"
    if not os.path.isdir(d): copy(i)
    sh(f"git -C {d} checkout -- .")
    r = sh(f"git -C {d} apply {s}/patch.diff")
    if r.returncode: print(i, "does not apply", r.stdout); return
    props = props or [json.load(open(s + "/meta.json"))["property"]]
    for p in props:
        b = f"/tmp/bugs/build_{i}"
        env = dict(os.environ, SIM_REPO=d, SIM_BUILD=b, SIM_EVID="/tmp/bugs/evid", SIM_OUT=f"/tmp/bugs/out_{i}")
        r = sh(f"python3 {V}/check.py {p}" + (f" --secs {secs}" if secs else ""), env=env)
        print(f"{i} {p}: {'CAUGHT' if r.returncode == 1 else 'MISSED' if r.returncode == 0 else 'ERROR'}", r.stdout[-600:].strip().replace("\n", "\n    "))
    shutil.rmtree(d); shutil.rmtree(f"/tmp/bugs/build_{i}", ignore_errors=True)
a = sys.argv[1:]
if a[0] == "start": print(copy(a[1]))
elif a[0] == "finish": sys.exit(0 if finish(a[1]) else 1)
elif a[0] == "check": check(a[1], a[2] if len(a) > 2 else None, a[3:])
elif a[0] == "all":
    for i in sorted(os.listdir(V + "/seeded")): check(i, a[1] if len(a) > 1 else None)
