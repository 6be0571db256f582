#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--keep]: decide one property of /repo's current tree.

Builds LLVM bitcode and an AddressSanitizer-instrumented native replay program from /repo's current sources and the property's
harness, executes the bitcode symbolically (engine/), replays every counterexample natively before reporting it, replays sampled
paths natively to validate the encoding, and writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.  Exit 2: no verdict (build or engine failure)."""
import sys, os, json, subprocess, shutil, hashlib, time, glob, re, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("FVX_REPO", "/repo")
sys.path.insert(0, V)
from specs import SPECS
LLVM = "/usr/lib/llvm-18/bin"
PORT = V + "/lib/port"
COMMON = ["-std=c++11", "-stdlib=libc++", "-fopenmp", "-w", "-include", PORT + "/compat.h", "-I" + PORT, "-fms-extensions"]
PRE = {"helper.cpp": ["-include", PORT + "/pre_helper.h"], "sys_strcombine.cpp": ["-include", PORT + "/pre_sys_strcombine.h"], "sys_json.cpp": ["-include", PORT + "/pre_sys_json.h"],
       "img_draw_macos_impl.cpp": ["-include", PORT + "/pre_img_draw_macos_impl.h"], "sys_path.cpp": ["-DfileNames=filePaths"]}
def incs(mod=None):
    r = []
    if mod: r.append("-I%s/%s/src/stdafx" % (REPO, mod))
    for m in ("basiclog", "basicsys", "basicmath", "basicimg"): r.append("-I%s/%s/include" % (REPO, m))
    return r + ["-isystem", REPO + "/basic_thrid_libs/lib_opencv/341/include"]
BCF = ["-O1", "-fno-pie", "-fno-vectorize", "-fno-slp-vectorize", "-fwrapv", "-fno-strict-aliasing", "-fno-exceptions", "-ffp-contract=off", "-gline-tables-only", "-fno-builtin", "-emit-llvm", "-c"]
NATF = ["-O1", "-fno-pie", "-gline-tables-only", "-fwrapv", "-fno-strict-aliasing", "-ffp-contract=off", "-fsanitize=address", "-fno-omit-frame-pointer", "-c"]
class Fail(Exception): pass
ex_hold = []
def run(cmd, **k):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode("utf8", "replace")
def must(cmd):
    rc, o = run(cmd)
    if rc: raise Fail("command failed (%d): %s\n%s" % (rc, " ".join(cmd), o[-3000:]))
    return o
def src(s):  # "basicimg/img_x" -> path
    m, n = s.split("/"); return m, "%s/%s/src/%s.cpp" % (REPO, m, n)
def engine():
    b = os.environ.get("FVX_BUILD", V + "/build"); os.makedirs(b, exist_ok=True)
    must(["make", "-s", "-j4", "-C", V + "/engine", "B=" + b]); return b + "/fvx"
def build(tmp, spec, ex, native=True):
    """compile all bitcode and native objects in parallel"""
    futs = []; bcs = {}; objs = {}
    cache = os.environ.get("FVX_CACHE")   # development only: never set by the registered commands
    hh = ""
    if cache:
        m = hashlib.sha1()
        for d in [REPO + "/" + x + "/include" for x in ("basiclog", "basicsys", "basicmath", "basicimg")] + [REPO + "/" + x + "/src/stdafx" for x in ("basicsys", "basicmath", "basicimg")]:
            for fn in sorted(glob.glob(d + "/**/*", recursive=True)):
                if os.path.isfile(fn): m.update(open(fn, "rb").read())
        hh = m.hexdigest(); os.makedirs(cache, exist_ok=True)
    def one(out, flags, base, path, extra):
        cmd = ["clang++-18"] + flags + base + extra + [path, "-o"]
        if cache:
            inc = "" if "/verif/" not in path else "".join(open(f).read() for f in sorted(glob.glob(V + "/harness/*.h") + glob.glob(V + "/lib/*.h")))
            key = cache + "/" + hashlib.sha1((hh + " ".join(cmd) + inc).encode() + open(path, "rb").read()).hexdigest()
            if not os.path.exists(key): must(cmd + [key + ".%d" % os.getpid()]); os.rename(key + ".%d" % os.getpid(), key)
            shutil.copy(key, out); return out
        must(cmd + [out]); return out
    def add(d, key, *a): d[key] = (ex_hold[-1] if ex_hold else ex).submit(one, *a)
    srcs = []
    for r in spec["runs"]:
        for s in r["srcs"]:
            if s not in srcs: srcs.append(s)
    for s in srcs:
        m, p = src(s); n = s.replace("/", "_"); e = PRE.get(os.path.basename(p), []) + spec.get("pre", {}).get(s, [])
        if not os.path.exists(p): raise Fail("missing source " + p)
        add(bcs, s, tmp + "/" + n + ".bc", BCF, COMMON + incs(m), p, e)
        if native: add(objs, s, tmp + "/" + n + ".o", NATF, COMMON + incs(m), p, e)
    hs = []
    for r in spec["runs"]:
        k = (r["harness"], tuple(r.get("defs", ())), r.get("mod", "basicmath"))
        if k in hs: continue
        hs.append(k); n = "h%d" % hs.index(k); p = V + "/harness/" + r["harness"]; e = ["-I" + V + "/lib", "-I" + V + "/harness"] + ["-D" + d for d in k[1]]
        add(bcs, k, tmp + "/" + n + ".bc", BCF, COMMON + incs(k[2]), p, e)
        if native: add(objs, k, tmp + "/" + n + ".o", NATF, COMMON + incs(k[2]), p, e)
    add(bcs, "rt", tmp + "/rt.bc", BCF + ["-D_LIBCPP_DISABLE_AVAILABILITY"], ["-std=c++11", "-stdlib=libc++", "-w"], V + "/lib/rt.cpp", [])
    add(bcs, "log", tmp + "/log.bc", BCF, COMMON + incs("basicmath"), V + "/lib/log_stub.cpp", [])
    if native: add(objs, "log", tmp + "/log.o", NATF, COMMON + incs("basicmath"), V + "/lib/log_stub.cpp", [])
    add(bcs, "rt_c", tmp + "/rt_c.bc", BCF, ["-w", "-x", "c"], V + "/lib/rt_c.c", [])
    if native: add(objs, "replay", tmp + "/replay.o", NATF, ["-std=c++11", "-stdlib=libc++", "-w", "-I" + V + "/lib"], V + "/lib/replay.cpp", [])
    def addsrc(s):
        m, p = src(s); n = s.replace("/", "_"); e = PRE.get(os.path.basename(p), []) + spec.get("pre", {}).get(s, [])
        add(bcs, s, tmp + "/" + n + ".bc", BCF, COMMON + incs(m), p, e)
        if native: add(objs, s, tmp + "/" + n + ".o", NATF, COMMON + incs(m), p, e)
    return bcs, objs, addsrc
def defined(bc): return set(l.split()[-1] for l in run([LLVM + "/llvm-nm", "--defined-only", bc])[1].splitlines() if l.strip())
def resolve(tmp, r, bcs, addsrc, sym):
    """slow path: the code under test calls something outside the listed sources; find the source that defines it"""
    allsrc = [m + "/" + os.path.basename(f)[:-4] for m in ("basicsys", "basicmath", "basicimg") for f in sorted(glob.glob("%s/%s/src/*.cpp" % (REPO, m)))]
    for s in allsrc:
        if s not in bcs: addsrc(s)
    for s in allsrc:
        try:
            if s not in r["srcs"] and sym in defined(bcs[s].result()): return s
        except Fail: pass
    return None
def link_bc(tmp, i, r, bcs):
    k = (r["harness"], tuple(r.get("defs", ())), r.get("mod", "basicmath"))
    o = "%s/run%d.bc" % (tmp, i)
    must([LLVM + "/llvm-link", "-o", o + ".l"] + [bcs[k].result()] + [bcs[s].result() for s in r["srcs"]] + [bcs["rt"].result(), bcs["rt_c"].result(), bcs["log"].result()])
    must([LLVM + "/opt", "-passes=internalize,globaldce", "-internalize-public-api-list=vp_main", o + ".l", "-o", o]); return o
def link_native(tmp, i, r, objs):
    k = (r["harness"], tuple(r.get("defs", ())), r.get("mod", "basicmath"))
    o = "%s/run%d.exe" % (tmp, i)
    must(["clang++-18", "-stdlib=libc++", "-fopenmp", "-fsanitize=address", "-o", o, objs[k].result()] + [objs[s].result() for s in r["srcs"]] + [objs["replay"].result(), objs["log"].result(), "-lpthread", "-no-pie", "-Wl,-z,lazy", "-Wl,--unresolved-symbols=ignore-all"]); return o
def write_inputs(fn, inputs, params):
    with open(fn, "w") as f:
        for n, k, v in inputs: f.write("I %s %s\n" % (n, v))
        for n, v in params.items(): f.write("P %s %d\n" % (n, v))
def native_run(exe, inp, tmo=60, fill=None):
    env = dict(os.environ); env["ASAN_OPTIONS"] = "detect_leaks=0:detect_container_overflow=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:alloc_dealloc_mismatch=1:detect_stack_use_after_return=0" + (":max_malloc_fill_size=1000000:malloc_fill_byte=%d" % fill if fill is not None else "")
    try:
        p = subprocess.run([exe, inp], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, env=env)
    except subprocess.TimeoutExpired: return "timeout", "", ""
    return p.returncode, p.stdout.decode("latin1"), p.stderr.decode("latin1")
def confirms(v, exe, inp, tmo):
    """does the native run show the violation?"""
    for fill in (None, 0, 255, 1, 127):
        rc, out, err = native_run(exe, inp, tmo, fill)
        ok = False
        if v["kind"] == "hang": ok = rc == "timeout" or rc not in (0, 3, 4, 42)
        elif v["kind"] == "assert": ok = ("VP_ASSERT_FAIL " + v["label"]) in out or rc in (77, "timeout") or (isinstance(rc, int) and rc < 0) or rc == 42
        else: ok = rc == "timeout" or rc == 77 or (isinstance(rc, int) and rc < 0) or rc == 42
        if ok: return True, (rc, out, err)
    return False, (rc, out, err)
def load_known():
    k = {}; fn = V + "/known_findings.txt"
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r"finding: property=(\S+) label=(.+?) \| (.*)$", l.strip())
            if m: k.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return k
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); keep = "--keep" in sys.argv; nonative = "--no-native" in sys.argv
    only = None
    for i, a in enumerate(sys.argv):
        if a == "--tier": tier = sys.argv[i + 1]
        if a == "--only": only = sys.argv[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time()
    spec = SPECS[prop]; spec = dict(spec); spec["runs"] = [r for r in spec["runs"] if (tier == "thorough" or not r.get("thorough_only")) and (only is None or r["name"] == only)]
    tmp = tempfile.mkdtemp(prefix="fvx_%s_" % prop); rdir = V + "/replays"; os.makedirs(rdir, exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
    try: rc = check(prop, spec, tier, seed, tmp, rdir, t0, nonative)
    except Fail as e: print("NO-VERDICT property=%s %s" % (prop, e)); rc = 2
    if keep: print("kept", tmp)
    else: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)
def tail(fn):
    try: return open(fn).read()
    except OSError: return ""
def check(prop, spec, tier, seed, tmp, rdir, t0, nonative):
    known = load_known().get(prop, []); jobs = int(os.environ.get("FVX_JOBS", str(os.cpu_count() or 4)))
    with ThreadPoolExecutor(jobs) as ex:
        eng = ex.submit(engine); bcs, objs, addsrc = build(tmp, spec, ex, not nonative)
        key = lambda r: (r["harness"], tuple(r.get("defs", ())), r.get("mod", "basicmath"), tuple(r["srcs"])); first = {}
        for i, r in enumerate(spec["runs"]): first.setdefault(key(r), i)
        for f in list(bcs.values()) + list(objs.values()): f.result()
        with ThreadPoolExecutor(jobs) as ex3:
            lb = {k: ex3.submit(link_bc, tmp, i, spec["runs"][i], bcs) for k, i in first.items()}; le = {k: None if nonative else ex3.submit(link_native, tmp, i, spec["runs"][i], objs) for k, i in first.items()}
        rbc = [lb[key(r)].result() for r in spec["runs"]]; rex = [None if nonative else le[key(r)].result() for r in spec["runs"]]; fvx = eng.result()
    viols = []; unconf = []; kfs = {}; tot = dict(paths=0, queries=0, sat=0, unsat=0, unknown=0, fp_queries=0, solver_s=0.0, instructions=0, forks=0, asserts=0, paths_truncated=0, infeasible=0, incomplete=0); funcs = set(); runs = []; validated = 0; mism = []; samples = []; exhaustive = True; err = None; xcheck = {"agree": 0, "disagree": 0, "other": 0}
    tbuild = time.time() - t0
    rlock = threading.Lock(); halt = threading.Event()
    def engine_run(i):
        if halt.is_set(): return None
        r = spec["runs"][i]; params = dict(r.get("params", {})); params.update(r.get(tier, {})); o = "%s/out%d" % (tmp, i)
        tmo = r.get("timeout", {}).get(tier, 240 if tier == "quick" else 1500)
        ns = r.get("samples", 24 if tier == "quick" else 100)
        cmd = [fvx, rbc[i], "-o", o, "-t", str(tmo), "-j", str(max(2, jobs * 3 // 4)), "--seed", str(seed), "--samples", str(ns), "--stride", str(r.get("stride", {}).get(tier, 7) if isinstance(r.get("stride"), dict) else r.get("stride", 7)), "--dumpq", "1" if tier == "thorough" else "0"]
        for k, v in params.items(): cmd += ["-D", "p:%s=%d" % (k, v)]
        for k, v in r.get("opts", {}).items(): cmd += ["-D", "%s=%d" % (k, v)]
        for attempt in range(12):
            shutil.rmtree(o, ignore_errors=True)
            rc, out = run(cmd, timeout=tmo + 120)
            m = re.search(r"call to undefined external (\S+)", out)
            if not m: break
            with rlock, ThreadPoolExecutor(jobs) as ex2:
                ex_hold.append(ex2); extra = resolve(tmp, r, bcs, addsrc, m.group(1))
                if extra:
                    print("note: run %s also needs %s (%s)" % (r["name"], extra, m.group(1))); r["srcs"] = r["srcs"] + [extra]; rbc[i] = link_bc(tmp, i, r, bcs); cmd[1] = rbc[i]
                    if not nonative: rex[i] = link_native(tmp, i, r, objs)
                ex_hold.pop()
            if not extra: break
        if not os.path.exists(o + "/summary.json"): raise Fail("engine produced no summary for %s: %s" % (r["name"], out[-2000:]))
        return params, o, tmo, cmd, out
    epool = ThreadPoolExecutor(int(os.environ.get("FVX_PAR", "3"))); every = "--all" in sys.argv; skipped = []; efut = [epool.submit(engine_run, i) for i in range(len(spec["runs"]))]
    for i, r in enumerate(spec["runs"]):
        if viols and not every: halt.set(); skipped.append(r["name"]); continue   # one confirmed violation decides
        params, o, tmo, cmd, out = efut[i].result()
        s = json.load(open(o + "/summary.json"), strict=False)
        print("[%s/%s] %s" % (prop, r["name"], out.strip().splitlines()[-1] if out.strip() else ""), flush=True)
        for k in tot: tot[k] += s.get(k, 0)
        for n, f in s["functions"]: funcs.add((n, f))
        if s["incomplete"] or s["stop"] or s["unknown"]: exhaustive = False
        # violations
        seen = {}
        for fn in sorted(glob.glob(o + "/viol_*.json")):
            v = json.load(open(fn), strict=False)
            kf = [w for (l, w) in known if l == v["label"]]
            if kf: kfs[v["label"]] = kf[0]; continue
            if seen.get(v["label"]) == "ok": continue
            h = hashlib.sha1((v["label"] + json.dumps(v["inputs"])).encode()).hexdigest()[:10]; rp = "%s/%s_%s_%s.txt" % (rdir, prop, r["name"], h)
            write_inputs(rp, v["inputs"], params)
            if rex[i]: ok, info = confirms(v, rex[i], rp, r.get("replay_timeout", 20))
            else: ok, info = True, (0, "", "")
            if not ok and any(n.startswith("preempt_at") and int(x) < (1 << 30) for n, kk, x in v["inputs"]):
                # the schedule is part of the counterexample: replay it on the real code's IR with every input and the schedule fixed
                rdirx = o + "/replay"; shutil.rmtree(rdirx, ignore_errors=True); c2 = list(cmd); c2[c2.index("-o") + 1] = rdirx
                run(c2 + ["--inputs", rp], timeout=tmo + 120)
                ok = any(json.load(open(g), strict=False)["label"] == v["label"] for g in glob.glob(rdirx + "/viol_*.json")); info = ("schedule replayed with fixed inputs: %s" % ok, "", "")
            if ok:
                seen[v["label"]] = "ok"; viols.append((v, rp, r["name"]))
                with open(rp, "a") as f: f.write("# label: %s\n# kind: %s\n# where: %s\n# run: %s\n# native: rc=%s\n" % (v["label"], v["kind"], v["where"], r["name"], info[0]) + "".join("# " + l + "\n" for l in (info[1][-1500:] + info[2][:3000]).splitlines()))
            else:
                exhaustive = False; unconf.append({"label": v["label"], "where": v["where"], "run": r["name"], "native_rc": info[0], "native_out": info[1][-400:]}); os.unlink(rp)
        if s["engine_errors"] and not viols: err = "engine error in run %s: %s" % (r["name"], s["error"]); 
        # vacuity witnesses
        for w in r.get("reach", []):
            if not s["reach"].get(w) and not viols and not s["stop"]: err = "vacuous: witness %r of run %s was never reached" % (w, r["name"])
        # replay sampled paths
        nv = 0
        if rex[i]:
            files = sorted(glob.glob(o + "/sample_*.json"))
            for fn in files[:2]:
                d = json.load(open(fn), strict=False); samples.append({"run": r["name"], "inputs": [[a, c] for a, b, c in d["inputs"]][:60], "observed": d["obs"][:20]})
            def rep(fn):
                d = json.load(open(fn), strict=False); inp = fn + ".in"; write_inputs(inp, d["inputs"], params)
                for fill in (None, 0):
                    rc2, out2, err2 = native_run(rex[i], inp, 60, fill)
                    obs = [tuple(l[4:].rsplit(" ", 1)) for l in out2.splitlines() if l.startswith("OBS ")]
                    if rc2 == 0 and "VP_DONE" in out2 and obs == [tuple(x) for x in d["obs"]]: return True, None
                return False, {"run": r["name"], "rc": rc2, "native": obs[:40], "predicted": d["obs"][:40], "stderr": err2[:600], "out": out2[-300:], "inputs": d["inputs"]}
            with ThreadPoolExecutor(jobs) as ex:
                for ok, m in ex.map(rep, files):
                    if ok: nv += 1
                    else: mism.append(m)
        validated += nv
        for q in glob.glob(o + "/queries/*.smt2")[:400 if tier == "thorough" else 0]:
            exp = q.rsplit("_", 1)[1][:-5]; rc3, o3 = run(["timeout", "20", "z3-new", q]); a = o3.strip().splitlines()[0] if o3.strip() else "?"
            xcheck["agree" if a == exp else "disagree" if a in ("sat", "unsat") else "other"] += 1
        runs.append({"run": r["name"], "harness": r["harness"], "bounds": r.get("bounds", ""), "params": params, "paths": s["paths"], "paths_truncated": s["paths_truncated"], "queries": s["queries"], "unsat": s["unsat"], "unknown": s["unknown"], "fp_queries": s["fp_queries"], "solver_s": s["solver_s"], "instructions": s["instructions"], "asserts": s["assert"], "reached": s["reach"], "exhausted_within_bounds": not (s["incomplete"] or s["stop"] or s["unknown"]), "omp_regions": s["omp_regions"], "wall_s": s["wall_s"], "native_traces_validated": nv})
    repo_funcs = sorted({n for n, f in funcs if f.startswith(REPO)})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "model_checking"),
          "coverage": {"states": int(tot["paths"] + tot["forks"]), "transitions": int(tot["instructions"]), "traces_validated_against_impl": validated, "samples": [], "symbolic_paths": tot["paths"], "infeasible_paths": tot["infeasible"], "queries": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"], "floating_point_queries": tot["fp_queries"], "solver_s": round(tot["solver_s"], 2), "assertions_decided": tot["asserts"], "exhausted_within_bounds": exhaustive, "runs": runs, "functions_encoded": repo_funcs, "functions_encoded_count": len(repo_funcs), "solver": "z3 4.8.12 (C API)", "cross_checked_with_z3_new": xcheck, "unconfirmed_counterexamples": unconf, "runs_skipped_after_violation": skipped, "known_findings_seen": sorted(kfs)},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(viols)}
    ev["coverage"]["samples"] = samples[:8]
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    for l, w in known:
        if l in kfs: print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for u in unconf: print("UNCONFIRMED %s: %s at %s (native rc=%s)" % (u["run"], u["label"], u["where"][:160], u["native_rc"]))
    for m in mism[:3]: print("TRACE-MISMATCH", json.dumps(m)[:1500])
    print("%s %s: paths=%d queries=%d unsat=%d unknown=%d solver=%.1fs asserts=%d validated=%d/%d exhausted=%s build=%.1fs wall=%.1fs" % (prop, tier, tot["paths"], tot["queries"], tot["unsat"], tot["unknown"], tot["solver_s"], tot["asserts"], validated, validated + len(mism), exhaustive, tbuild, time.time() - t0))
    if viols:
        done = set()
        for v, rp, rn in viols:
            print("  violated: [%s] %s at %s" % (rn, v["label"], v["where"][:300]))
        print("VIOLATION property=%s replay=%s" % (prop, viols[0][1])); return 1
    if err: raise Fail(err)
    if mism: raise Fail("%d sampled paths were not reproduced natively" % len(mism))
    return 0
if __name__ == "__main__": main()
