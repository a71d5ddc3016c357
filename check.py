#!/usr/bin/env python3
"""check.py <PROPERTY> <quick|thorough>    run the check of one property
   check.py --prebuild                     build every harness once (setup_cmd)
   check.py --replay <replay.json>         run one recorded case again

Builds the harness of the property against /repo's current working tree (every translation unit is recompiled or comes
out of a content addressed compiler cache), runs it on its workloads, and judges what the monitors reported."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
from specs import SPECS, GROUPS, VARIANTS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
EVID = os.path.join(VERIF, "evidence")
JOBS = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))

INC_DIRS = ["src", "src/features/keypoints", "src/features/lines", "src/features/primitives", "src/pose_optimization",
            "src/map_management", "third_party", "src/tracking", "src/outputs", "src/utils", "examples"]
SYS_INC = ["/usr/include/opencv4", "/usr/include/eigen3", "/usr/include/flann"]
LIBS = ["-lopencv_core", "-lopencv_imgproc", "-lopencv_features2d", "-lopencv_video", "-lopencv_imgcodecs",
        "-lopencv_highgui", "-lopencv_calib3d", "-lflann_cpp", "-llz4", "-ltbb", "-lpthread"]


def sources(groups):
    out = []
    for g in groups:
        for pat in GROUPS[g]:
            p = os.path.join(REPO, pat)
            if os.path.isdir(p):
                out += [os.path.join(p, f) for f in sorted(os.listdir(p)) if f.endswith(".cpp")]
            elif os.path.exists(p):
                out.append(p)
    seen = []
    for s in out:
        if s not in seen and not s.endswith("p3p_test.cpp"):
            seen.append(s)
    return seen


def compile_env():
    env = dict(os.environ)
    if shutil.which("ccache"):
        env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
        env["CCACHE_MAXSIZE"] = "6G"
        env["CCACHE_NOHASHDIR"] = "1"
        env["CCACHE_TEMPDIR"] = os.path.join(BUILD, "ccache", "tmp")
    for k in list(env):
        if k.startswith(("ASAN_", "UBSAN_", "TSAN_", "LSAN_")):
            del env[k]
    return env


class BuildError(Exception):
    pass


def one_compile(cmd, env, src):
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"{src}:\n" + r.stdout[-6000:])


def heavy(src):
    order = ["polygon.cpp", "pose_optimization.cpp", "primitive_detection.cpp", "rgbd_slam.cpp", "inverse_depth_with",
             "plane_with", "map_primitive", "point_with", "polygon_coord", "map_point", "levenberg", "line.cpp",
             "shape_prim", "point_coord", "keypoint_det", "concave", "harness"]
    for i, o in enumerate(order):
        if o in src:
            return i
    return len(order)


def build(spec, variant):
    """compile harness + repository sources for one variant, return the executable"""
    v = VARIANTS[variant]
    cxx = v.get("cxx", "g++")
    flags = ["-std=gnu++20", "-D_GLIBCXX_ASSERTIONS", "-w", "-DGLEW_STATIC"] + v["flags"] + spec.get("defines", [])
    inc = []
    for d in v.get("shims", []) + ["shim"]:
        inc += ["-I", os.path.join(VERIF, d)]
    inc += ["-I", os.path.join(VERIF, "lib")]
    for d in INC_DIRS:
        inc += ["-I", os.path.join(REPO, d)]
    for d in SYS_INC:
        inc += ["-isystem", d]
    srcs = [(s, []) for s in sources(spec["groups"])]
    hs = spec["harness"] if isinstance(spec["harness"], list) else [spec["harness"]]
    srcs += [(os.path.join(VERIF, "harness", h), []) for h in hs]
    srcs += [(os.path.join(VERIF, h), []) for h in v.get("extra", [])]
    tag = hashlib.sha1((variant + " ".join(flags)).encode()).hexdigest()[:10]
    objdir = os.path.join(BUILD, "obj", f"{variant}-{tag}")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(os.path.join(BUILD, "ccache", "tmp"), exist_ok=True)
    env = compile_env()
    cc = (["ccache"] if shutil.which("ccache") else []) + [cxx]
    jobs = []
    objs = []
    for s, extra in srcs:
        o = os.path.join(objdir, re.sub(r"[^A-Za-z0-9_.]", "_", s.lstrip("/")) + f".{os.getpid()}.o")
        objs.append(o)
        jobs.append((heavy(s), cc + flags + extra + inc + ["-c", s, "-o", o], s))
    jobs.sort(key=lambda j: j[0])
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(one_compile, j[1], env, j[2]) for j in jobs]
        errs = []
        for f in futs:
            try:
                f.result()
            except BuildError as e:
                errs.append(str(e))
    if errs:
        raise BuildError("\n".join(errs))
    exe = os.path.join(BUILD, "bin", f"{os.path.splitext(hs[0])[0]}-{variant}-{tag}-{os.getpid()}")
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    cmd = [cxx] + v.get("ldflags", []) + [f for f in v["flags"] if f.startswith("-fsanitize")] + ["-o", exe] + objs + \
        ["-fuse-ld=gold"] * (0 if v.get("noglold") else 1) + LIBS
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    for o in objs:
        try:
            os.unlink(o)
        except OSError:
            pass
    if r.returncode != 0:
        raise BuildError("link:\n" + r.stdout[-4000:])
    return exe


def proc_cpu(pid):
    try:
        with open(f"/proc/{pid}/stat") as f:
            p = f.read().rsplit(")", 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf("SC_CLK_TCK")
    except OSError:
        return 0.0


SAN_RE = re.compile(r"(ERROR: AddressSanitizer: \S+|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n(]*|"
                    r"ERROR: LeakSanitizer[^\n]*)")


def frames(text, n=12):
    """function names of the first stack of a sanitizer report that lie in the repository"""
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+)", text):
        fn, path = m.group(1), m.group(2)
        if f"{REPO}/" in path:
            base = re.sub(r"\(.*", "", fn)
            base = re.sub(r"<.*", "", base)
            out.append(base.split("::")[-1] + "@" + os.path.basename(path.split(":")[0]))
        if len(out) >= n:
            break
    return out


def run_one(exe, spec, variant, run, tier, seed, wd, only=None):
    """run one harness process; returns dict with its report and what its ending says"""
    name = run["name"]
    d = os.path.join(wd, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = os.path.join(d, "out.json")
    beacon = os.path.join(d, "beacon")
    cmd = [exe, "--tier", tier, "--seed", str(seed), "--out", out, "--beacon", beacon, "--workdir", d,
           "--config", str(run.get("config", 0)), "--shard", str(run.get("shard", 0)), "--shards", str(run.get("shards", 1)),
           "--scale", str(run.get("scale", 1.0))]
    if run.get("test"):
        cmd += ["--test", run["test"]]
    if only:
        cmd += ["--test", only[0], "--case", str(only[1])]
    v = VARIANTS[variant]
    env = compile_env()
    env.update({"MALLOC_PERTURB_": "173", "OMP_NUM_THREADS": "2", "LC_ALL": "C", "HOME": d})
    env.update(v.get("env", {}))
    env.update(spec.get("env", {}))
    log = os.path.join(d, "log.txt")
    hang_cpu = spec.get("hang_cpu", 90.0) * v.get("slow", 1)
    hang_wall = spec.get("hang_wall", 240.0)
    wrapper = v.get("wrap", [])
    t0 = time.time()
    with open(log, "wb") as lf:
        p = subprocess.Popen(wrapper + cmd, stdout=lf, stderr=subprocess.STDOUT, cwd=d, env=env, start_new_session=True)
        last, last_t, last_cpu, hang = "", time.time(), 0.0, False
        while True:
            try:
                p.wait(0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                with open(beacon, "rb") as f:
                    cur = f.read(200).split(b"\0")[0].decode("utf8", "replace")
            except OSError:
                cur = ""
            cpu = proc_cpu(p.pid)
            if cur != last:
                last, last_t, last_cpu = cur, time.time(), cpu
            elif cur and cur != "done" and (cpu - last_cpu > hang_cpu or
                                            time.time() - last_t > (hang_wall if cpu - last_cpu < 1 else 3 * hang_wall)):
                hang = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
            if os.path.getsize(log) > 400_000_000:
                os.truncate(log, 0)
    res = {"name": name, "run": run, "rc": p.returncode, "wall": time.time() - t0, "hang": hang, "report": None,
           "crash": None, "error": None}
    try:
        with open(beacon, "rb") as f:
            res["beacon"] = f.read(200).split(b"\0")[0].decode("utf8", "replace")
    except OSError:
        res["beacon"] = ""
    if os.path.exists(out):
        with open(out) as f:
            res["report"] = json.load(f)
    with open(log, "rb") as f:
        sz = os.path.getsize(log)
        head = f.read(200_000)
        if sz > 400_000:
            f.seek(sz - 200_000)
        tail = f.read()
    text = (head + tail).decode("utf8", "replace")
    res["log_tail"] = text[-3000:]
    m = SAN_RE.search(text)
    if hang:
        res["crash"] = ("hang", "the case neither ended nor made progress")
    elif m:
        blk = text[m.start():m.start() + 8000]
        res["crash"] = ("sanitizer." + re.sub(r"[^A-Za-z ]", " ", m.group(1).split(":", 1)[1])[:60].strip().replace(" ", "_"),
                        m.group(1) + " | " + " < ".join(frames(blk)[:6]) + " | " + blk[:1500])
    elif p.returncode != 0:
        if p.returncode < 0 or p.returncode >= 128:
            sig = -p.returncode if p.returncode < 0 else p.returncode - 128
            msg = text[-600:].strip().splitlines()
            asserts = [l for l in text.splitlines() if "Assertion" in l or "terminate called" in l or "what():" in l]
            # SIGKILL from outside is not a verdict
            if sig in (9, 15, 2):
                res["error"] = f"killed by signal {sig}"
            else:
                res["crash"] = (f"signal{sig}", "; ".join(asserts[-3:]) or " / ".join(msg[-3:]))
        elif res["report"] is None and res["beacon"] not in ("", "done"):
            # the code under test ended the process by itself
            res["crash"] = (f"exit{p.returncode}", text[-600:].strip().replace("\n", " / "))
        else:
            res["error"] = f"exit status {p.returncode}: {text[-400:]}"
    elif res["report"] is None:
        res["crash"] = ("exit0", "the process ended inside a case")
    return res


def load_known(prop):
    known = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == prop:
                    known.append((m.group(2), m.group(3)))
    return known


def expand_runs(spec, tier):
    runs = []
    for v in spec.get("variants", ["plain"]) + (spec.get("thorough_variants", []) if tier == "thorough" else []):
        for c in spec.get("configs", [0]):
            ns = spec.get("shards", 1) if tier == "quick" else spec.get("thorough_shards", max(spec.get("shards", 1), 4))
            for s in range(ns):
                runs.append({"variant": v, "config": c, "shard": s, "shards": ns, "scale": VARIANTS[v].get("scale", 1.0) * (spec.get("quick_scale", 1.0) if tier == "quick" else 1.0),
                             "name": f"{v}-c{c}-s{s}"})
    return runs


def check(prop, tier):
    t0 = time.time()
    spec = SPECS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(EVID, exist_ok=True)
    wd = os.path.join(BUILD, "run", f"{prop}-{os.getpid()}")
    shutil.rmtree(wd, ignore_errors=True)
    os.makedirs(wd)
    runs = expand_runs(spec, tier)
    exes = {}
    try:
        for v in sorted({r["variant"] for r in runs}):
            exes[v] = build(spec, v)
    except BuildError as e:
        print(f"check {prop}: cannot build\n{e}", file=sys.stderr)
        shutil.rmtree(wd, ignore_errors=True)
        return 2
    t_build = time.time() - t0
    par = max(1, min(JOBS, len(runs), spec.get("parallel", JOBS)))
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(lambda r: run_one(exes[r["variant"]], spec, r["variant"], r, tier, seed, wd), runs))
    known = load_known(prop)
    counters, states, samples, viols, errors = {}, {}, [], [], []
    for r in results:
        rep = r["report"] or {}
        for k, n in rep.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + n
        for k, n in rep.get("states", {}).items():
            # configurations and shards draw from different random streams; sets are not merged, the largest is kept
            # per configuration and summed over shards
            states.setdefault(k, {}).setdefault((r["run"]["variant"], r["run"]["config"]), 0)
            states[k][(r["run"]["variant"], r["run"]["config"])] += n
        samples += rep.get("samples", [])
        for v in rep.get("violations", []):
            viols.append(dict(v, run=r["run"]))
        if r["crash"]:
            b = r["beacon"].rsplit(" ", 1)
            test = b[0] if len(b) == 2 else r["beacon"]
            viols.append({"key": f"{r['crash'][0]}.{test}", "msg": r["crash"][1], "test": test,
                          "case": int(b[1]) if len(b) == 2 and b[1].isdigit() else -1, "run": r["run"],
                          "log": r["log_tail"]})
        if r["error"]:
            errors.append(f"{r['name']}: {r['error']}")
    rc = 0
    new, seen_known = [], {}
    for v in viols:
        hit = [k for k in known if re.fullmatch(k[0], v["key"])]
        if hit:
            seen_known[hit[0][0]] = hit[0][1]
        else:
            new.append(v)
    for k, what in seen_known.items():
        print(f"KNOWN-FINDING: property={prop} {what}")
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "_"):
            os.unlink(os.path.join(rdir, f))
    bykey = {}
    for v in new:
        bykey.setdefault(v["key"], v)
    for i, (k, v) in enumerate(sorted(bykey.items())):
        if i >= 12:
            break
        path = os.path.join(rdir, f"{prop}_{i}.json")
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "key": k, "message": v["msg"], "test": v["test"],
                       "case": v["case"], "run": v["run"], "log": v.get("log", ""),
                       "how": f"VERIF_SEED={seed} python3 /verif/check.py --replay {path}"}, f, indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"  {k}: {v['msg'][:700]}")
        rc = 1
    oracle = {k[7:]: n for k, n in counters.items() if k.startswith("oracle.")}
    cases = {k[6:]: n for k, n in counters.items() if k.startswith("cases.")}
    evaluations = sum(cases.values())
    distinct = sum(sum(d.values()) for d in states.values())
    silent = [m for m in spec.get("must_see", []) if counters.get(m, 0) == 0 and not any(
        k.startswith(m) and n for k, n in counters.items())]
    if rc == 0 and (errors or evaluations == 0 or not oracle or distinct == 0 or silent):
        print(f"check {prop}: no verdict: errors={errors} evaluations={evaluations} oracles={len(oracle)} "
              f"silent={silent}", file=sys.stderr)
        rc = 2
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
          "coverage": {"evaluations": evaluations, "distinct_nontrivial": distinct, "rule": spec["rule"],
                       "samples": samples[:24], "cases_per_workload": cases, "oracle_evaluations": oracle,
                       "events_observed": {k: n for k, n in counters.items()
                                           if not k.startswith(("oracle.", "cases."))},
                       "distinct_states_per_monitor": {k: sum(d.values()) for k, d in states.items()},
                       "processes": [{"run": r["name"], "wall_s": round(r["wall"], 2), "rc": r["rc"]} for r in results],
                       "build_s": round(t_build, 1)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(bykey)}
    tmp = os.path.join(EVID, f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, f"{prop}.json"))
    print(f"{prop} {tier}: {evaluations} cases, {sum(oracle.values())} oracle evaluations, {distinct} distinct non trivial,"
          f" build {t_build:.1f}s, total {time.time() - t0:.1f}s, exit {rc}")
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(wd, ignore_errors=True)
        for e in exes.values():
            os.unlink(e)
    return rc


def replay(path):
    with open(path) as f:
        r = json.load(f)
    spec = SPECS[r["property"]]
    exe = build(spec, r["run"]["variant"])
    wd = os.path.join(BUILD, "run", f"replay-{os.getpid()}")
    run = dict(r["run"], shard=0, shards=1)
    res = run_one(exe, spec, r["run"]["variant"], run, r["tier"], r["seed"], wd, only=(r["test"], r["case"]))
    print(json.dumps({"report": res["report"], "crash": res["crash"], "log": res["log_tail"]}, indent=1))
    shutil.rmtree(wd, ignore_errors=True)
    os.unlink(exe)
    return 1 if res["crash"] or (res["report"] or {}).get("violations") else 0


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--prebuild":
        ok = True
        for p, spec in SPECS.items():
            for v in spec.get("variants", ["plain"]):
                try:
                    t = time.time()
                    os.unlink(build(spec, v))
                    print(f"built {p} {v} in {time.time() - t:.1f}s", flush=True)
                except BuildError as e:
                    print(f"cannot build {p} {v}: {e}", file=sys.stderr)
                    ok = False
        return 0 if ok else 2
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) != 3 or sys.argv[1] not in SPECS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__, file=sys.stderr)
        return 3
    return check(sys.argv[1], sys.argv[2])


if __name__ == "__main__":
    sys.exit(main())
