#!/usr/bin/env python3
"""plant.py spec.py [--force]: confirm planted bugs in a scratch copy of /repo and keep them under seeded/.
A spec file defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo=C++ source, needs, breaks, run=[props])]."""
import sys, os, subprocess, json, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = "/tmp/sr"; VP = "/tmp/vpcopy"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(S): sh("cp -a /repo %s" % S)
sh("rm -rf {0}; cp -r /opt/vp {0}; grep -rlI /repo {0} | xargs sed -i 's#/repo#{1}#g; s#/opt/vp#{0}#g'".format(VP, S))
for c in ("git -C %s remote add up /repo" % S, "git -C %s fetch -q up" % S): sh(c)
sh("cd %s && git checkout -q -- . && git reset -q --hard $(git -C /repo rev-parse HEAD)" % S)
sh("grep -rlI '/repo' %s/_build --include=CMakeCache.txt | xargs -r dirname | xargs -r rm -rf" % S)
ns = {}; exec(open(sys.argv[1]).read(), ns)
only = [a for a in sys.argv[2:] if not a.startswith("--")]
DEMO = '''#!/bin/bash
# exit 0: behaves as specified; 1: the property is violated
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=gnu++17 -O1 -w %s -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" "$PWD/_build/%s/libreactphysics3d.a" -lpthread || exit 2
cd "$T" && timeout 120 ./demo
'''
def build(): return sh("bash %s/build.sh" % VP)
o = build(); assert o.returncode == 0, o.stdout[-3000:]
for sd in ns["SEEDS"]:
    if only and sd["id"] not in only: continue
    d = ROOT + "/seeded/" + sd["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    ok = True; msg = []
    open(d + "/demo.cpp", "w").write(sd["demo"]); dbl = sd.get("double", False)
    open(d + "/demo.sh", "w").write(DEMO % ("-DIS_RP3D_DOUBLE_PRECISION_ENABLED" if dbl else "", "double" if dbl else "single")); os.chmod(d + "/demo.sh", 0o755)
    a = sh("cp -r %s /tmp/demoXX && cd %s && bash /tmp/demoXX/demo.sh; r=$?; rm -rf /tmp/demoXX; exit $r" % (d, S))
    if a.returncode: ok = False; msg.append("demo fails unpatched: " + a.stdout[-600:])
    for f, old, new in sd["edits"]:
        t = open(S + "/" + f, newline="").read()
        if "\r\n" in t: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
        if t.count(old) != 1: ok = False; msg.append("%s: old text occurs %d times" % (f, t.count(old))); continue
        open(S + "/" + f, "w", newline="").write(t.replace(old, new))
    df = subprocess.run(["git", "-C", S, "diff"], stdout=subprocess.PIPE).stdout; open(d + "/patch.diff", "wb").write(df)
    if sh("git -C /repo apply --check %s/patch.diff" % d).returncode: ok = False; msg.append("patch does not apply")
    # only lines of the original repository may change
    base = sh("git -C %s log --reverse --format=%%h" % S).stdout.split()[0]
    if ok:
        o = sh("bash %s/test.sh /tmp/sr_o.json" % VP); r = json.load(open("/tmp/sr_o.json"))
        if len(r["passed"]) != 238 or r["failed"]: ok = False; msg.append("tests: %d passed, failed %s %s" % (len(r["passed"]), r["failed"][:5], o.stdout[-800:] if not r["passed"] else ""))
        b = sh("cp -r %s /tmp/demoXX && cd %s && bash /tmp/demoXX/demo.sh; r=$?; rm -rf /tmp/demoXX; exit $r" % (d, S))
        if b.returncode in (0, 2): ok = False; msg.append("demo does not fail when patched (%d): %s" % (b.returncode, b.stdout[-500:]))
        else: msg.append("demo: " + b.stdout.strip()[-150:])
    json.dump({"property": sd["prop"], "needs": sd["needs"], "what_it_breaks": sd["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    det = []
    if ok:
        for p in [sd["prop"]] + sd.get("run", []):
            c = sh("cd %s && VERIF_REPO=%s timeout 900 python3 run.py %s quick" % (ROOT, S, p)); v = [l for l in c.stdout.splitlines() if l.startswith("[")]
            det.append("%s:%s" % (p, "CAUGHT" if c.returncode == 1 else "missed(rc %d)" % c.returncode)); msg.append((v[0] if v else c.stdout)[:260])
    print(sd["id"], "OK" if ok else "INVALID", " ".join(det)); [print("    " + m) for m in msg]; sys.stdout.flush()
    if not ok: shutil.rmtree(d)
    sh("git -C %s checkout -q -- ." % S)
build()
