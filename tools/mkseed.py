#!/usr/bin/env python3
"""development helper: mkseed.mk(id, prop, needs, breaks, edits=[(file, old, new)], demo=C++ text, sh=None)"""
import json, os, subprocess
S = "/tmp/seedrepo"; V = "/verif/seeded"
TMPL = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "demo_template.sh")).read()
def mk(id, prop, needs, breaks, edits, demo, sh=None, files=None):
    subprocess.run(f"git -C {S} fetch -q /repo HEAD && git -C {S} checkout -q -f FETCH_HEAD", shell=True, check=True)
    for f, old, new in edits:
        p = f"{S}/{f}"; t = open(p).read()
        assert t.count(old) == 1, (id, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    d = f"{V}/{id}"; os.makedirs(d, exist_ok=True)
    diff = subprocess.run(f"git -C {S} diff", shell=True, capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    if demo is not None: open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(sh or TMPL)
    for n, t in (files or {}).items(): open(f"{d}/{n}", "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.run(f"git -C {S} checkout -q -f FETCH_HEAD", shell=True, check=True)
    print("made", id)
