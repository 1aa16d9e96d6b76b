#!/usr/bin/env python3
"""Decide one property: build the encoding from /repo's current sources, run the symbolic engine, replay, report.
usage: check.py PROPERTY [--tier quick|thorough] | check.py --replay FILE | check.py --setup"""
import sys, os, json, subprocess, time, hashlib, shutil, tempfile, re, concurrent.futures as cf
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
BUILD = os.path.join(V, "build"); EV = os.path.join(V, "evidence")
SYMX = os.path.join(BUILD, "symx"); NJ = os.cpu_count() or 8
SYMFLAGS = ("-std=c++17 -O2 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-pie -DNDEBUG -include {V}/harness/pre.h -DHAVE_SSE4 -DHAVE_SSE42 "
  "-DHAVE_AVX2 -msse4.2 -mavx2 -I{R}/src -I{V}/harness -Wno-everything -gline-tables-only -mllvm -phi-node-folding-threshold=0 "
  "-mllvm -two-entry-phi-node-folding-threshold=0 -mllvm -speculate-one-expensive-inst=false -mllvm -hoist-common-insts=false "
  "-mllvm -sink-common-insts=false -mllvm -rotation-max-header-size=0 -emit-llvm -c").format(V=V, R=REPO).split()
NATFLAGS = "-std=c++17 -O2 -DNDEBUG -DHAVE_SSE4 -DHAVE_SSE42 -DHAVE_AVX2 -msse4.2 -mavx2 -w -I{R}/src -I{V}/harness".format(V=V, R=REPO).split()
SANFLAGS = "-std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize=alignment,enum -fno-sanitize-recover=undefined -DNDEBUG -DHAVE_SSE4 -DHAVE_SSE42 -DHAVE_AVX2 -msse4.2 -mavx2 -w -I{R}/src -I{V}/harness".format(V=V, R=REPO).split()
BASE = ["bitboard", "common", "generateMoves", "hand", "init", "move", "mt64bit", "position", "square", "usi", "search", "book"]

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
def hashfiles(fs):
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:16]
def engine_files(): return [os.path.join(V, "engine", f) for f in os.listdir(os.path.join(V, "engine"))]
def setup():
    os.makedirs(BUILD, exist_ok=True)
    st = os.path.join(BUILD, "symx.hash"); h = hashfiles(engine_files())
    if os.path.exists(SYMX) and os.path.exists(st) and open(st).read() == h: return
    fl = run(["llvm-config-18", "--cxxflags"]).stdout.replace("-fno-exceptions", "").replace("-std=c++17", "").split()
    r = run(["g++", "-O2", "-g1", "-std=c++17", "-fno-strict-aliasing"] + fl + ["-fexceptions", "-w", os.path.join(V, "engine/engine.cpp"), "-o", SYMX + ".new", "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-lminisat"])
    if r.returncode: print(r.stdout); sys.exit(4)
    os.replace(SYMX + ".new", SYMX); open(st, "w").write(h)

def srcpath(s): # repository source, or one of ours
    if s.startswith("@"): return os.path.join(V, "harness", s[1:] + ".cpp")
    return os.path.join(REPO, "src", s + ".cpp")
def compile_all(jobs):
    errs = []
    with cf.ThreadPoolExecutor(NJ) as ex:
        for cmd, r in zip(jobs, ex.map(lambda c: run(c), jobs)):
            if r.returncode: errs.append(" ".join(cmd[-3:]) + "\n" + r.stdout[-3000:])
    return errs
def build_bc(work, grp):
    """bitcode of harness + the repository's translation units, regenerated from the working tree"""
    srcs = ["@" + grp["harness"], "@rt"] + grp.get("srcs", BASE); defs = grp.get("defs", [])
    pyp = prep(work, grp)
    jobs = [["clang++"] + SYMFLAGS + pyp + defs + [srcpath(s), "-o", os.path.join(work, s.strip("@") + ".bc")] for s in srcs]
    errs = compile_all(jobs)
    if errs: return None, errs
    out = os.path.join(work, grp["harness"] + ".l.bc"); x = os.path.join(work, grp["harness"] + ".x.bc")
    r = run(["llvm-link-18"] + [os.path.join(work, s.strip("@") + ".bc") for s in srcs] + ["-o", out])
    if r.returncode: return None, [r.stdout]
    r = run(["opt-18", "-passes=" + grp.get("passes", "mergereturn"), out, "-o", x])
    if r.returncode: return None, [r.stdout]
    return x, []
def prep(work, grp):
    """optional generated headers (encodings extracted from non-C++ sources)"""
    g = grp.get("gen")
    if not g: return []
    g(REPO, work); return ["-I" + work]
def build_native(work, grp, flags, name):
    srcs = ["@" + grp["harness"]] + grp.get("srcs", BASE); defs = grp.get("defs", [])
    d = os.path.join(work, name); os.makedirs(d, exist_ok=True)
    inc = ["-I" + work] if grp.get("gen") else []
    jobs = [["g++"] + flags + inc + defs + ["-c", srcpath(s), "-o", os.path.join(d, s.strip("@") + ".o")] for s in srcs]
    jobs.append(["g++"] + flags + ["-c", os.path.join(V, "replay/runtime.cpp"), "-o", os.path.join(d, "runtime.o")])
    errs = compile_all(jobs)
    if errs: return None, errs
    exe = os.path.join(d, "replay")
    r = run(["g++"] + [f for f in flags if f.startswith("-f") or f == "-g"] + ["-rdynamic"] + [os.path.join(d, f) for f in os.listdir(d) if f.endswith(".o")] + ["-o", exe, "-ldl", "-lpthread"])
    return (exe, []) if r.returncode == 0 else (None, [r.stdout[-3000:]])
def write_inputs(path, line, inputs):
    with open(path, "w") as f:
        f.write(line + "\n")
        for n, v in inputs: f.write("%s %d\n" % (n, v))
def do_replay(exe, path):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0")
    try: r = run([exe, path], timeout=120, env=env)
    except subprocess.TimeoutExpired: return "timeout", ""
    o = r.stdout
    if "ASSERT-FAIL" in o: return "fail", o
    if r.returncode < 0 or "runtime error" in o or "AddressSanitizer" in o: return "crash", o
    if "ASSUME-FAIL" in o: return "assume", o
    if r.returncode == 0: return "ok", o
    return "other", o

def known_findings():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop, tier):
    import registry
    t0 = time.time(); setup()
    spec = registry.PROPS[prop]; seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = spec.get("budget", {}).get(tier, 700 if tier == "quick" else 3 * 3600)
    os.makedirs(EV, exist_ok=True)
    rep_dir = os.path.join(EV, "replay"); os.makedirs(rep_dir, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf-" + prop + "-")
    cov = dict(harnesses=[], obligations=0, discharged=0, trivially_true=0, solver_queries=0, solver_time_s=0.0, symbolic_exec_s=0.0, states=0, transitions=0,
               traces_validated_against_impl=0, samples=[], sets_total=0, sets_decided=0, undecided=[], vacuous=[], functions_encoded=[], aig_nodes=0, unconfirmed=[])
    violations, known, notes, funcs = [], [], [], set()
    kf = [k for k in known_findings() if k.get("status", "known") == "known" and k["property"] == prop]
    try:
        ngrp = len(spec["groups"])
        for gi, grp in enumerate(spec["groups"]):
            sets = grp["sets"](tier) if callable(grp["sets"]) else grp["sets"]
            if not sets: continue
            w = os.path.join(work, "g%d" % gi); os.makedirs(w)
            bc, errs = build_bc(w, grp)
            if not bc:
                notes.append("harness %s does not build against this tree: %s" % (grp["harness"], errs[0][-1500:])); cov["undecided"].append({"harness": grp["harness"], "why": "build failed"}); continue
            with cf.ThreadPoolExecutor(1) as ex:
                natf = ex.submit(build_native, w, grp, NATFLAGS, "native")
                sf = os.path.join(w, "sets"); open(sf, "w").write("\n".join(sets) + "\n")
                od = os.path.join(w, "out"); os.makedirs(od)
                left = max(60, budget - (time.time() - t0)) / (1 if gi == ngrp - 1 else 1)
                per = grp.get("timeout", {}).get(tier) or left
                cmd = [SYMX, bc, "--sets", sf, "--jobs", str(grp.get("jobs", NJ)), "--outdir", od, "--timeout", str(min(per, left)), "--mem", str(grp.get("mem", 24 // min(NJ, max(1, len(sets))) + 1 if len(sets) > 1 else 24))]
                for s in grp.get("stubs", []): cmd += ["--stub", s]
                pr = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(os.path.join(w, "log"), "w"), start_new_session=True)
                try: pr.wait(left + 45)
                except subprocess.TimeoutExpired:
                    os.killpg(pr.pid, 9); pr.wait(); notes.append("engine stopped at the time budget")
                exe, nerr = natf.result()
            san = None
            if not exe: notes.append("native build failed: " + nerr[0][-1500:])
            for i, line in enumerate(sets):
                cov["sets_total"] += 1
                jf = os.path.join(od, "%d.json" % i)
                try: r = json.load(open(jf))
                except Exception: cov["undecided"].append({"set": line, "why": "no result (time or memory budget)"}); continue
                for a, b in (("obligations", "obligations"), ("discharged", "decided"), ("trivially_true", "trivial"), ("solver_queries", "sat_calls"), ("solver_time_s", "sat_time"), ("symbolic_exec_s", "exec_time"), ("transitions", "inst"), ("aig_nodes", "nodes")): cov[a] += r[b]
                cov["states"] += r["forks"] + r["ctforks"] + r["merges"] + 1
                funcs.update(r["functions"])
                if r["status"] == "ok" or r["status"] == "violation" and not r["error"]: cov["sets_decided"] += 1
                if r["error"] or r["unknown"]: cov["undecided"].append({"set": line, "why": r["error"] or ("%d solver timeouts, e.g. %s" % (r["unknown"], r["unknown_label"]))})
                for l, ok in r["reach"].items():
                    if not ok: cov["vacuous"].append(line + ": " + l)
                # witnesses: the engine's model of a complete run must be a run of the real build
                for wi, wn in enumerate(r["witnesses"]):
                    if not exe: break
                    p = os.path.join(w, "w%d_%d.txt" % (i, wi)); write_inputs(p, line, wn["inputs"])
                    st, o = do_replay(exe, p)
                    if st == "ok" and "REACH " + wn["label"] in o:
                        cov["traces_validated_against_impl"] += 1
                        if len(cov["samples"]) < 3: cov["samples"].append({"set": line, "witness": wn["label"], "inputs": {n: v for n, v in wn["inputs"]}})
                    elif st in ("fail", "crash"): r["violations"].append({"label": "(seen while replaying a witness)", "tag": 0, "inputs": wn["inputs"]})
                    else: notes.append("witness %s of %s: native run says %s: %s" % (wn["label"], line, st, o[-200:]))
                for vi, v in enumerate(r["violations"]):
                    p = os.path.join(rep_dir, "%s-%s-%d-%d.txt" % (prop, grp["harness"], i, vi)); write_inputs(p, line, v["inputs"])
                    st, o = do_replay(exe, p) if exe else ("nobuild", "")
                    if st not in ("fail", "crash"):
                        if san is None: san, _ = build_native(w, grp, SANFLAGS, "san"); san = san or False
                        if san: st, o = do_replay(san, p)
                    if st in ("fail", "crash"):
                        lab = re.findall(r"ASSERT-FAIL (.*)", o) or [l for l in o.splitlines() if "runtime error" in l or "ERROR: AddressSanitizer" in l][:1] or ["crash"]
                        hit = None
                        for k in kf:
                            if k["set"] in line and all(any(re.search(m, x) for m in k["labels"]) for x in lab): hit = k
                        if hit: known.append(hit)
                        else:
                            violations.append((p, lab[0], line)); print("  violated [%s]: %s" % (line, "; ".join(lab[:4])))
                    else:
                        cov["unconfirmed"].append({"set": line, "label": v["label"], "tag": v["tag"], "replay": st})
                        if not os.environ.get("VERIF_KEEP"): os.unlink(p)
            if os.environ.get("VERIF_VERBOSE"): print(open(os.path.join(w, "log")).read())
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
        else: print("kept", work)
    def internal(f): return not f.startswith(("std::", "__gnu", "operator", "void std::", "bool std::", "sym_", "llvm."))
    cov["functions_encoded"] = sorted(f for f in funcs if internal(f))
    cov["bounds"] = spec["bounds"]
    cov["explanation"] = "Symbolic execution (with state merging) of the LLVM IR of /repo/src as compiled in this run; each obligation is decided by a SAT solver for all values of the symbolic inputs within the bounds."
    for k in ("solver_time_s", "symbolic_exec_s"): cov[k] = round(cov[k], 2)
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations), notes=notes)
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    for n in notes: print("NOTE", n)
    seen = set()
    for k in known:
        if k["what"] not in seen: seen.add(k["what"]); print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for u in cov["undecided"][:10]: print("UNDECIDED", json.dumps(u)[:400])
    for u in cov["unconfirmed"][:10]: print("UNCONFIRMED (not reported)", json.dumps(u)[:300])
    for u in cov["vacuous"][:10]: print("VACUOUS", u)
    print("%s %s: %d/%d sets decided, %d obligations (%d decided, %d trivially true), %d queries, solver %.1fs, %d witnesses validated, wall %.1fs" % (prop, tier, cov["sets_decided"], cov["sets_total"], cov["obligations"], cov["discharged"], cov["trivially_true"], cov["solver_queries"], cov["solver_time_s"], cov["traces_validated_against_impl"], ev["wall_s"]))
    if violations:
        for p, l, line in violations[:5]: print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    return 0

def replay(path):
    import registry
    h = open(path).readline().split()[0]
    for p, spec in registry.PROPS.items():
        for g in spec["groups"]:
            if os.path.basename(path).split("-")[1:2] == [g["harness"]]:
                w = tempfile.mkdtemp(prefix="vf-replay-")
                try:
                    for fl, nm in ((NATFLAGS, "native"), (SANFLAGS, "san")):
                        prep(w, g); exe, e = build_native(w, g, fl, nm)
                        st, o = do_replay(exe, path) if exe else ("nobuild", "\n".join(e)); print(nm, st); print(o)
                        if st in ("fail", "crash"): return 1
                finally: shutil.rmtree(w, ignore_errors=True)
                return 0
    return 4
if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "--setup": setup(); sys.exit(0)
    if a[0] == "--replay": sys.exit(replay(a[1]))
    tier = a[a.index("--tier") + 1] if "--tier" in a else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(a[0], tier))
