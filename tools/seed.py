#!/usr/bin/env python3
"""seed.py ID PROP NEEDS BREAKS: take the diff of the scratch copy /tmp/seedrepo against /repo HEAD plus /tmp/seed/demo.cpp (and demo.sh/objs if present),
confirm it (builds, stable tests pass, demo passes clean and fails with the patch) in mount namespaces, and store it as seeded/ID."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); ID, PROP, NEEDS, BREAKS = sys.argv[1:5]
D = V + "/seeded/" + ID; S = "/tmp/seedrepo"
def sh(c): p = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT); return p.returncode, p.stdout.decode("latin1")
rc, diff = sh("git -C %s diff HEAD" % S)
p = subprocess.run("git -C %s diff HEAD" % S, shell=True, stdout=subprocess.PIPE); diff = p.stdout
assert diff.strip(), "no change"
os.makedirs(D, exist_ok=True)
for f in ("compat.h", "demo.sh"): shutil.copy(V + "/tools/demo/" + f, D)
dc = "/tmp/seed/demo.cpp"
if '"mser_demo.h"' in open(dc).read(): shutil.copy(V + "/tools/demo/mser_demo.h", D)
for f in os.listdir("/tmp/seed"): shutil.copy("/tmp/seed/" + f, D)
open(D + "/patch.diff", "wb").write(diff)
json.dump({"property": PROP, "needs": NEEDS, "what_it_breaks": BREAKS}, open(D + "/meta.json", "w"), indent=1)
ns = "unshare -m sh -c 'mount --bind %s /repo && cd /repo && %s'"
def build(): return sh(ns % (S, "bash /opt/vp/build.sh"))
sh("git -C %s checkout -q -- ." % S); rc, o = build(); assert rc == 0, o[-2000:]
rc, o = sh(ns % (S, "bash %s/demo.sh" % D)); print("clean demo rc", rc, o[-600:]); ok = rc == 0
rc, o = sh("git -C %s apply %s/patch.diff" % (S, D)); assert rc == 0, o
rc, o = build(); print("patched build rc", rc, "" if rc == 0 else o[-1500:]); ok = ok and rc == 0
rc, o = sh(ns % (S, "bash /opt/vp/test.sh /tmp/seed_t.json")); t = json.load(open("/tmp/seed_t.json")); st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]); miss = st - set(t["passed"]); print("stable tests missing:", sorted(miss)); ok = ok and not miss
rc, o = sh(ns % (S, "bash %s/demo.sh" % D)); print("patched demo rc", rc, o[-300:]); ok = ok and rc not in (0, 3)
sh("git -C %s checkout -q -- ." % S)
print("OK" if ok else "REJECTED", ID)
if not ok: shutil.move(D, "/tmp/rejected_" + ID) if not os.path.exists("/tmp/rejected_" + ID) else shutil.rmtree(D)
sys.exit(0 if ok else 1)
