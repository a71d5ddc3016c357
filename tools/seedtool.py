#!/usr/bin/env python3
"""development helper: seedtool.py <seed-id>...  confirm planted bugs in a scratch copy of /repo (/tmp/seedrepo).
For each: the demo passes on the clean tree; the patch applies, builds, passes the stable tests; the demo then fails; and
whether the quick check of its property reports it."""
import json, os, subprocess, sys, shutil
S = "/tmp/seedrepo"; V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def prep():
    if not os.path.isdir(S):
        sh(f"cp -a /repo {S} && rm -rf {S}/_build")
        for f in ("build.sh", "test.sh"):
            t = open(f"/opt/vp/{f}").read().replace("/repo", S).replace("/opt/vp/build.sh", "/tmp/seedrepo.build.sh")
            open(f"/tmp/seedrepo.{f}", "w").write(t)
    sh(f"git -C {S} fetch -q /repo HEAD && git -C {S} checkout -q -f FETCH_HEAD && git -C {S} clean -fdq")
def tests():
    r = sh("bash /tmp/seedrepo.test.sh /tmp/seedrepo.out.json")
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seedrepo.out.json'))
    return set(b['stable']) - set(o['passed']), r.stdout
def demo(i):
    shutil.rmtree("/tmp/seeddemo", ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{i}", "/tmp/seeddemo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh("bash /tmp/seeddemo/demo.sh", cwd=S, timeout=300)
    return r.returncode, r.stdout[-400:]
prep()
nocheck = "--nocheck" in sys.argv
clean_built = False
for i in [a for a in sys.argv[1:] if not a.startswith("--")]:
    d = f"{V}/seeded/{i}"; m = json.load(open(d + "/meta.json"))
    if "--onlycheck" not in sys.argv:
        r = sh("bash /tmp/seedrepo.build.sh")
        if r.returncode: print(i, "CLEAN BUILD FAILED", r.stdout[-2000:]); break
        rc, out = demo(i); print(i, "demo clean:", rc, "" if rc == 0 else out)
    r = sh(f"git -C {S} apply {d}/patch.diff")
    if r.returncode: print(i, "APPLY FAILED", r.stdout); continue
    try:
        if "--onlycheck" not in sys.argv:
            miss, log = tests(); print(i, "tests missing with patch:", miss or "none")
            if miss and "error" in log: print([l for l in log.splitlines() if "error" in l][:5])
            rc, out = demo(i); print(i, "demo patched:", rc, out.strip()[-200:] if rc else "!!! NOT FAILING")
        if not nocheck:
            props = [m["property"]] + [a[8:] for a in sys.argv if a.startswith("--also=")]
            for p in props:
                r = sh(f"VERIF_REPO={S} VERIF_SEED={os.environ.get('VERIF_SEED','1')} python3 check.py {p} quick", cwd=V)
                v = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print(i, p, "check exit", r.returncode, "CAUGHT" if r.returncode == 1 and v else "MISSED", (v or [""])[0][:160])
                cj = V + "/tools/caught.json"
                c = json.load(open(cj)) if os.path.exists(cj) else {}
                c[i] = sorted(set(c.get(i, [])) - {p} | ({p} if r.returncode == 1 and v else set()))
                json.dump(c, open(cj, "w"), indent=1, sort_keys=True)
                for l in r.stdout.splitlines():
                    if l.startswith("  ") : print("     ", l[:200]); break
    finally:
        sh(f"git -C {S} checkout -f -q FETCH_HEAD && git -C {S} checkout -q -- .")
    sys.stdout.flush()
