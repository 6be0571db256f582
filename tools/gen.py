#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (one place to keep both in step)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=[dict(name=a, where=b) for a, b in mech], note=note, na=na, observe=observe or [], state=state or []))
V1, V2, LK = "basicimg/src/img_fast_mser_v1.cpp", "basicimg/src/img_fast_mser_v2.cpp", "basicimg/src/img_linked_linear_mser.cpp"
HB = "basicimg/src/img_mser_base.cpp"; HH = "basicimg/src/img_mser_helper.cpp"; HP = "basicimg/include/img_mser_base.h"
exec(open(V + "/tools/props_mser.py").read())
for extra in ("props_img.py", "props_math.py", "props_sys.py"):
    if os.path.exists(V + "/tools/" + extra): exec(open(V + "/tools/" + extra).read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mech"], "state": p["state"], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
m = {"version": 1, "setup_cmd": "make -s -j4 -C engine B=$PWD/build && python3 check.py SELF",
     "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                 "technique": "symbolic execution of the real code's LLVM IR with SMT (z3) deciding every branch and assertion", "level": "model_checking", "level_note": p["note"]} for p in P if not p["na"]],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
     "notes": "No hooks in /repo: the harnesses compile the unmodified sources. fix: commits in /repo are listed in known_findings.txt. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1); open(V + "/MANIFEST.json", "a").write("\n")
