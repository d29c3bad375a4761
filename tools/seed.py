#!/usr/bin/env python3
"""seed.py ID [--tests] [--check]: confirm a planted bug in a scratch copy shown at /repo (private mount namespace).
seed.py --new ID FILE OLD NEW [FILE OLD NEW ...]: write seeded/ID/patch.diff."""
import os, subprocess, sys, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/w/srepo"
def fresh():
    os.makedirs(S, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "/repo/", S + "/"], check=True)
if sys.argv[1] == "--new":
    i, a = sys.argv[2], sys.argv[3:]
    fresh()
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=S)
    for k in range(0, len(a), 3):
        p = f"{S}/{a[k]}"; s = open(p).read()
        first = a[k + 1].startswith("@1@"); a[k + 1] = a[k + 1].removeprefix("@1@")
        if s.count(a[k + 1]) != 1 and not first: sys.exit(f"OLD occurs {s.count(a[k+1])} times: {a[k+1]!r}")
        open(p, "w").write(s.replace(a[k + 1], a[k + 2], 1))
    d = f"{V}/seeded/{i}"; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "diff"], cwd=S, capture_output=True, text=True).stdout)
    sys.exit()
i = sys.argv[1]; d = f"{V}/seeded/{i}"; prop = json.load(open(d + "/meta.json"))["property"]
print(i, prop)
def ns(cmd):
    p = subprocess.run(["unshare", "-m", "bash", "-c", f"mount --bind {S} /repo && cd /repo && {cmd}"], capture_output=True, text=True)
    return p.returncode, p.stdout + p.stderr
shutil.rmtree("/tmp/w/demo", ignore_errors=True); shutil.copytree(d, "/tmp/w/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
fresh()
rc, o = ns("bash /opt/vp/build.sh >/dev/null && timeout 300 bash /tmp/w/demo/demo.sh"); print(" clean demo rc", rc, o[-300:] if rc else "")
subprocess.run(["git", "apply", d + "/patch.diff"], cwd=S, check=True)
rc, o = ns("bash /opt/vp/build.sh >/tmp/w/sb.log 2>&1"); print(" build rc", rc, o[-300:] if rc else "")
rc, o = ns("timeout 300 bash /tmp/w/demo/demo.sh"); print(" patched demo rc", rc, o[-300:])
if "--tests" in sys.argv:
    rc, o = ns("bash /opt/vp/test.sh /tmp/w/so.json >/tmp/w/st.log 2>&1")
    r = json.load(open("/tmp/w/so.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    st = set(b.get("stable_pass") or b.get("passed") or b.get("tests") or [])
    miss = sorted(st - set(r["passed"])); print(" tests passed", len(r["passed"]), "stable missing", miss[:5])
if "--check" in sys.argv:
    p = subprocess.run(["timeout", "900", "python3", "check.py", prop, "--tier", "quick"], cwd=V, env=dict(os.environ, VP_REPO=S, VERIF_SEED="1"), capture_output=True, text=True)
    o = p.stdout + p.stderr; print(" check rc", p.returncode, [l for l in o.splitlines() if "VIOLATION" in l][:1], o[max(0, o.find("REJECTED")):][:200].replace("\n", " "))
