#!/usr/bin/env python3
"""Create and confirm planted bugs (never used by a check).
  seed.py new SPEC.py        make /verif/seeded/<id> from a spec (id, prop, edits, needs, breaks, demo)
  seed.py confirm ID...      confirm in a scratch copy: compiles, stable tests pass, demo discriminates
  seed.py check ID...        run the check of its property against a patched scratch copy
"""
import sys, os, json, subprocess, shutil, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = os.environ.get("SEED_SCRATCH", "/tmp/scr")
DEMO = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 99
trap 'rm -rf "$T"' EXIT
g++ -std=c++11 -O1 -w %s -Isrc/lib -Isrc/objloader "$D/demo.cpp" -o "$T/demo" || exit 98
cd "$T" && timeout 60 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def scratch():
    if not os.path.isdir(SCR): sh(f"git clone -q /repo {SCR}")
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"cd {SCR} && git fetch -q /repo HEAD && git checkout -qf {h} && git checkout -q -- .")
def build(tests=True):
    r = sh(f"sed 's#/repo#{SCR}#g' /opt/vp/build.sh > {SCR}/.b.sh; bash {SCR}/.b.sh")
    if r.returncode: return False, r.stdout[-2000:]
    if not tests: return True, ""
    s = open("/opt/vp/test.sh").read().replace("bash /opt/vp/build.sh", "true").replace("/repo", SCR)
    open(f"{SCR}/.t.sh", "w").write(s)
    sh(f"bash {SCR}/.t.sh {SCR}/.t.json")
    b = json.load(open('/opt/vp/BASELINE.json')); t = json.load(open(f"{SCR}/.t.json"))
    st = set(b.get('stable') or b.get('passed') or b.get('tests') or b)
    miss = sorted(st - set(t['passed']))
    return not miss, "tests failing: " + str(miss[:5])
def new(spec):
    g = {}
    exec(open(spec).read(), g)
    scratch()
    d = f"{V}/seeded/{g['id']}"
    os.makedirs(d, exist_ok=True)
    for f, a, b, *n in g['edits']:
        p = f"{SCR}/{f}"
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        s = s.replace('\r\n', '\n')
        a = a.strip('\n'); b = b.strip('\n')
        if s.count(a) != 1 and not n: sys.exit(f"{g['id']}: text found {s.count(a)} times in {f}: {a}")
        parts = s.split(a)
        k = (n[0] if n else 0) + 1
        s = a.join(parts[:k]) + b + a.join(parts[k:])
        open(p, 'w', newline='').write(s.replace('\n', '\r\n') if crlf else s)
    open(f"{d}/patch.diff", "w", newline='').write(subprocess.run(["git", "-C", SCR, "diff"], stdout=subprocess.PIPE).stdout.decode())
    open(f"{d}/demo.cpp", "w").write(g['demo'].lstrip('\n'))
    open(f"{d}/demo.sh", "w").write(DEMO % g.get('flags', ''))
    json.dump({"property": g['prop'], "needs": g['needs'], "what_it_breaks": g['breaks']}, open(f"{d}/meta.json", "w"), indent=1)
    sh(f"cd {SCR} && git checkout -q -- .")
    return confirm(g['id'])
def confirm(i):
    d = f"{V}/seeded/{i}"
    scratch()
    r0 = sh(f"bash {d}/demo.sh", cwd=SCR)
    if r0.returncode: print(i, "BAD: demo fails on the unchanged tree", r0.returncode, r0.stdout[-1500:]); return False
    a = sh(f"git -C {SCR} apply {d}/patch.diff")
    if a.returncode: print(i, "BAD: patch does not apply", a.stdout); return False
    ok, msg = build()
    r1 = sh(f"bash {d}/demo.sh", cwd=SCR)
    scratch()
    if not ok: print(i, "BAD:", msg); return False
    if r1.returncode in (0, 98, 99): print(i, "BAD: demo with patch", r1.returncode, r1.stdout[-1500:]); return False
    print(i, "confirmed; demo:", r1.returncode, r1.stdout.strip()[-100:])
    return True
def check(i, tier="quick"):
    d = f"{V}/seeded/{i}"
    p = json.load(open(f"{d}/meta.json"))["property"]
    scratch()
    a = sh(f"git -C {SCR} apply {d}/patch.diff")
    if a.returncode: print(i, "BAD: patch does not apply", a.stdout); return
    r = sh(f"{V}/check.py {p} {tier}", env={**os.environ, "SV_REPO": SCR}, cwd=V)
    scratch()
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
    cf = f"{V}/tools/caught.json"
    c = json.load(open(cf)) if os.path.exists(cf) else {}
    c[i] = "caught" if r.returncode == 1 and v else f"missed (exit {r.returncode})"
    json.dump(c, open(cf, "w"), indent=0, sort_keys=True)
    print(i, p, "CAUGHT" if r.returncode == 1 and v else f"MISSED (exit {r.returncode})", (r.stdout.strip().splitlines() or [""])[0][:150], flush=True)
if __name__ == "__main__":
    c = sys.argv[1]
    for x in sys.argv[2:]:
        if c == "new": new(x)
        elif c == "confirm": confirm(x)
        elif c == "check": check(x)
