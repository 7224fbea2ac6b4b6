#!/usr/bin/env python3
"""Decide one property:  check.py <property> [--tier quick|thorough] [--entry NAME] [--replay FILE] [-v]

Compiles the harness and the repository sources it needs from /repo's working tree to LLVM bitcode, explores every
harness entry symbolically with engine/sx, replays each counterexample natively and reports the ones that reproduce."""
import sys, os, re, json, time, subprocess, hashlib, glob, shlex, threading, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, ".build"))
sys.path.insert(0, os.path.join(HERE, "harness"))
import specs
T0 = time.time()
NCPU = max(2, min(8, os.cpu_count() or 2))
LLVM = "/usr/lib/llvm-18/bin/"
VERBOSE = "-v" in sys.argv

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
def log(*a):
    if VERBOSE: print("[%.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)
def die(msg):
    print("CHECK-ERROR:", msg); sys.exit(2)
def fhash(*paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        with open(p, "rb") as f: h.update(p.encode() + b"\0" + f.read() + b"\0")
    return h.hexdigest()[:24]

def build_engine():
    src = sorted(glob.glob(HERE + "/engine/*"))
    d = BUILD + "/engine-" + fhash(*src)
    exe = d + "/sx"
    if not os.path.exists(exe):
        r = sh(["bash", HERE + "/engine/build.sh", d])
        if r.returncode or not os.path.exists(exe): die("engine build failed: " + r.stderr[-2000:])
        log("engine built")
    return exe

INC = None
def flags():
    global INC
    if INC is None:
        gen = BUILD + "/gen-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]
        os.makedirs(gen + "/generated", exist_ok=True)
        with open(gen + "/generated/bland_cuda_archs.hpp", "w") as f: f.write("#pragma once\n#include <array>\nconstexpr std::array<int, 0> compiled_archs = {};\n")
        cap = REPO + "/bliss/file_types/hit.capnp"
        if os.path.exists(cap): sh(["capnp", "compile", "-oc++:" + gen, "hit.capnp"], cwd=os.path.dirname(cap))
        INC = ["-I" + REPO + "/bland/bland/include", "-I" + REPO + "/bland/external/dlpack", "-I" + REPO + "/bland/bland/internal/include", "-I" + REPO + "/bland/bland", "-I" + gen, "-I" + HERE + "/harness"]
        INC += ["-I" + d for d in sorted(glob.glob(REPO + "/bliss/*/include"))] + ["-I" + REPO + "/bliss", "-isystem", "/usr/include/hdf5/serial"]
    return ["-O1", "-gline-tables-only", "-std=gnu++17", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off",
            "-DNDEBUG", "-DFMT_DEPRECATED_OSTREAM", "-DHDF_NO_NAMESPACE", "-DNO_STATIC_CAST", "-DOLD_HEADER_FILENAME", "-DBLISS_CAPNP=1", "-fPIC", "-w", "-Wno-c++11-narrowing", "-include", HERE + "/harness/std_includes.h"] + INC
HDRS = None
def hdr_hash():
    global HDRS
    if HDRS is None:
        fs = []
        for root in (REPO + "/bland", REPO + "/bliss", HERE + "/harness"):
            for dp, dn, fn in os.walk(root):
                fs += [os.path.join(dp, f) for f in fn if f.endswith((".hpp", ".h", ".capnp", ".hh", ".inc", ".cuh"))]
        fs += glob.glob(REPO + "/bliss/*.cpp") + glob.glob(HERE + "/harness/fake*/**/*", recursive=True)
        HDRS = fhash(*sorted(set(x for x in fs if os.path.isfile(x))))
    return HDRS
def compile_bc(src, extra):
    fl = flags() + extra
    key = fhash(src, extra=hdr_hash() + " ".join(fl))
    out = BUILD + "/cache/" + key + ".bc"
    if os.path.exists(out): return out, None
    os.makedirs(BUILD + "/cache", exist_ok=True)
    tmp = out + ".%d.%d" % (os.getpid(), threading.get_ident())
    t = time.time()
    r = sh(["clang++-18", "-emit-llvm", "-c"] + fl + [src, "-o", tmp])
    if r.returncode: return None, "%s: %s" % (src, r.stderr[-3000:])
    os.rename(tmp, out)
    log("compiled", src.replace(REPO + "/", ""), "%.1fs" % (time.time() - t))
    return out, None

def expand(pats):
    out = []
    for p in pats:
        g = sorted(glob.glob(REPO + "/" + p, recursive=True))
        if not g and "*" not in p: die("missing source " + p)
        out += [x for x in g if not x.endswith("/demo.cpp") and "/tests/" not in x and "/python" not in x]
    return list(dict.fromkeys(out))

def link(name, objs, entries, wd):
    l, p = wd + "/l.bc", wd + "/" + name + ".bc"
    r = sh([LLVM + "llvm-link", "-o", l] + objs)
    if r.returncode: die("link failed: " + r.stderr[-2000:])
    r = sh([LLVM + "opt", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(entries), l, "-o", p])
    if r.returncode: die("opt failed: " + r.stderr[-2000:])
    os.unlink(l)
    return p

class Native:
    def __init__(self, bc, wd, libs): self.bc, self.wd, self.libs, self.lock, self.built, self.warm = bc, wd, libs, threading.Lock(), {}, {}
    def build(self, kind):
        with self.lock:
            if kind in self.built: return self.built[kind]
            obj, exe, bc = self.wd + "/" + kind + ".o", self.wd + "/replay-" + kind, self.bc
            asan = []
            if kind == "asan":
                bc2 = self.wd + "/asan.bc"
                r = sh([LLVM + "opt", "-passes=forceattrs,asan", "-force-attribute=sanitize_address", bc, "-o", bc2])
                if r.returncode: self.built[kind] = None; log(r.stderr[-500:]); return None
                bc, asan = bc2, ["-fsanitize=address"]
            # -O1 keeps the arithmetic of the bitcode; unreachable code traps so that undefined behaviour is visible
            r = sh([LLVM + "llc", "-O1", "-filetype=obj", "-relocation-model=pic", "-trap-unreachable", bc, "-o", obj])
            if r.returncode: log("llc", r.stderr[-500:])
            r = sh(["clang++-18", "-O1", "-std=gnu++17", "-I" + HERE + "/harness"] + asan + [obj, HERE + "/harness/vf_native.cpp", "-rdynamic", "-o", exe, "-Wl,--unresolved-symbols=ignore-all", "-Wl,-z,lazy", "-no-pie" if False else "-pie", "-lfmt", "-ldl"] + self.libs)
            self.built[kind] = exe if r.returncode == 0 else None
            if r.returncode: log("native link", r.stderr[-1500:])
            return self.built[kind]
    def run(self, kind, entry, inputs, tmo=60, more=False, limits=None):
        exe = self.build("asan" if kind == "asan" else "plain")
        if not exe: return None, "native build failed"
        inp = self.wd + "/in.%d.%d" % (threading.get_ident(), int(time.time() * 1e6) % 10**9)
        with open(inp, "w") as f: f.write("".join(v[2] + "\n" for v in inputs))
        cmd = [exe, entry, inp]
        if kind == "valgrind": cmd = ["valgrind", "-q", "--error-exitcode=77", "--undef-value-errors=yes"] + cmd
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0")
        if more: env["VF_MORE"] = "1"
        if self.warm.get(entry): env["VF_WARM"] = self.warm[entry]
        if limits: cmd = ["sh", "-c", 'ulimit -c 0; ulimit -t %d; ulimit -v %d; exec "$@"' % (limits[0], limits[1] >> 10), "sh"] + cmd
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=tmo, env=env, cwd=self.wd)
        except subprocess.TimeoutExpired: return 124, "timeout"
        finally: os.unlink(inp)
        return r.returncode, r.stdout

def confirm(nat, c, entry):
    """Does the counterexample reproduce against the native build?  -> (bool, how, output)"""
    kind = c["kind"]
    if kind == "concrete":
        # the rest of this path was not explored: one run of it counts when it crashes or misses by far more than rounding
        rc, out = nat.run("plain", entry, c["inputs"], more=True)
        if rc is None or rc == 124: return False, "not decided", out
        if rc < 0: return True, "the run ends with signal %d" % -rc, out
        m = re.search(r"^VF_FAIL (.*?)(?:: (\S+) vs (\S+))?$", out or "", re.M)
        if rc != 42 or not m: return False, "nothing found", out
        c["label"] = m.group(1)
        if m.group(2):
            try: a, b = float(m.group(2)), float(m.group(3)); far = abs(a - b) > 1e-3 * max(1, abs(a), abs(b))
            except ValueError: far = False
        else: far = not any(t == "r" for _, t, _ in c["inputs"]) and "VF_REAL" not in out
        return far, "the run fails the check", out
    if kind == "endless": # a path that was still going at the time limit: does the program itself come to an end on it?
        rc, out = nat.run("plain", entry, c["inputs"], tmo=120, more=True, limits=(25, 6 << 30))
        c["label"] = "the program comes to an end"
        return rc is not None and rc < 0, "the run, limited to 25 s of processor time and 6 GB, ends with signal %d" % -(rc or 0), out
    if kind == "check":
        rc, out = nat.run("plain", entry, c["inputs"])
        return rc == 42, "native run fails the check", out
    if kind in ("uncaught", "div0", "abort"):
        rc, out = nat.run("plain", entry, c["inputs"])
        return rc is not None and rc < 0 or rc == 42, "native run is killed by signal %s" % (-rc if rc and rc < 0 else rc), out
    rc, out = nat.run("plain", entry, c["inputs"])
    if rc is not None and (rc < 0 or rc == 42): return True, "native run ends with status %d" % rc, out
    if kind in ("memory", "unreachable"):
        rc, out = nat.run("asan", entry, c["inputs"])
        if rc == 77 or (rc is not None and rc < 0): return True, "AddressSanitizer report", out
    rc, out = nat.run("valgrind", entry, c["inputs"], 200)
    if rc == 77 or (rc is not None and rc < 0): return True, "valgrind report", out
    return False, "not reproduced natively", out

def known_findings(prop):
    res = []
    p = HERE + "/KNOWN_FINDINGS"
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known:"):
                d = dict((k, a or b) for k, a, b in re.findall(r'(\w+)=(?:"([^"]*)"|(\S+))', l.split(" -- ")[0]))
                d["what"] = l.split(" -- ", 1)[1].strip() if " -- " in l else ""
                if d.get("property") == prop: res.append(d)
    return res

def main():
    args = [a for a in sys.argv[1:]]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args: tier = args[args.index("--tier") + 1]
    only = args[args.index("--entry") + 1] if "--entry" in args else None
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    spec = specs.P[prop]
    wd = "%s/%s-%s-%d" % (BUILD, prop, tier, os.getpid()); os.makedirs(wd, exist_ok=True)
    try: return run(prop, spec, tier, only, replay, wd)
    finally:
        if not os.environ.get("VF_KEEP"): subprocess.run(["rm", "-rf", os.path.abspath(wd)])

def run(prop, spec, tier, only, replay, wd):
    thorough = tier == "thorough"
    extra = ["-DTHOROUGH=%d" % thorough]
    hsrc = [HERE + "/harness/" + h for h in spec["harness"]]
    entries = [e for e in spec["entries"] if (thorough or not e.get("thorough_only"))]
    everyone = [e["name"] for e in entries]
    if only: entries = [e for e in entries if e["name"] == only]
    names = [e["name"] for e in entries]
    ex = cf.ThreadPoolExecutor(NCPU)
    feng = ex.submit(build_engine)
    flags(); hdr_hash()
    def objects(srcs):
        srcs = sorted(srcs, key=lambda s: -os.path.getsize(s))
        futs = [ex.submit(compile_bc, s, extra + spec["cflags"]) for s in hsrc] + [ex.submit(compile_bc, s, spec["cflags"] if "/bliss/" in s or spec.get("everywhere") else []) for s in srcs]
        objs = []
        for f in futs:
            o, err = f.result()
            if err: die("compilation failed: " + err)
            objs.append(o)
        return objs
    srcs = expand(spec["src"])
    objs = objects(srcs)
    bc = link(prop, objs, everyone + ["vf_restore"], wd)
    log("linked")
    sx = feng.result()
    nat = Native(bc, wd, spec["libs"])
    if replay:
        c = json.load(open(replay)); nat.warm[c["entry"]] = c.get("warm", ""); ok, how, out = confirm(nat, c, c["entry"]); print(out); print("reproduced" if ok else "NOT reproduced", how); return 1 if ok else 0
    fnat = ex.submit(nat.build, "plain")
    def explore(bc):
        sem = threading.Semaphore(0); cond = threading.Condition(); free = [NCPU]; res = {}
        def one(e):
            j = min(e.get("jobs", 2), NCPU)
            with cond:
                while free[0] < j: cond.wait()
                free[0] -= j
            try:
                out = "%s/%s.out" % (wd, e["name"]); tl = e["time_t" if thorough else "time"]
                cmd = [sx, bc, "--entry", e["name"], "--out", out, "-j", str(j), "--time", str(tl), "--max-paths", str(e["paths_t" if thorough else "paths"]), "--rlimit", str(e["rlimit"] * (5 if thorough else 1)), "--max-cex", str(e.get("max_cex", 4)), "--path-records", str(40 if thorough else 6)] + ["--warm", str(e.get("warm", spec.get("warm", 2)))] + e.get("opts", [])
                if e.get("warm", spec.get("warm", 2)): # the other entries, the next one in the list first
                    i = everyone.index(e["name"])
                    for x in everyone[i + 1:] + everyone[:i]: cmd += ["--warm-also", x]
                for l in spec["dlopen"]: cmd += ["--dlopen", l]
                for l in spec.get("trust", []): cmd += ["--trust", l]
                t = time.time(); p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
                try: _, err = p.communicate(timeout=tl * 2 + 120)
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, 9); err = "hard timeout"
                log(e["name"], "explored in %.1fs" % (time.time() - t), err[-300:])
                recs = []
                if os.path.exists(out):
                    for l in open(out):
                        try: recs.append(json.loads(l))
                        except ValueError: pass
                if err and not recs: recs = [{"t": "error", "msg": err[-500:]}]
                res[e["name"]] = recs
            finally:
                with cond: free[0] += j; cond.notify_all()
        ths = [threading.Thread(target=one, args=(e,)) for e in sorted(entries, key=lambda e: -e.get("jobs", 2))]
        for t in ths: t.start()
        for t in ths: t.join()
        return res
    res = explore(bc)
    if any(r["t"] == "unsupported" and "undefined function" in r["msg"] and re.search(r"bland::|bliss::", r["msg"]) for rs in res.values() for r in rs) and not spec.get("no_fallback"):
        log("repository function missing from the selected sources: linking all of them")
        allsrc = expand(specs.EVERYTHING)
        objs = objects([s for s in dict.fromkeys(srcs + allsrc)])
        bc = link(prop, objs, everyone + ["vf_restore"], wd); nat = Native(bc, wd, spec["libs"]); fnat = ex.submit(nat.build, "plain")
        res = explore(bc)
    fnat.result()
    known = known_findings(prop)
    viol, knownhit, unconf, problems, notes = [], {}, [], [], {}
    tot = {}; fns, samples, validated, mism, native_paths = {}, [], 0, [], 0
    jobs = []; reached = 0; warmed = []
    for e in entries:
        rs = res.get(e["name"], [])
        st = next((r for r in rs if r["t"] == "stats"), None)
        if not st: problems.append("%s: no result (%s)" % (e["name"], [r.get("msg") for r in rs][:2])); continue
        for k, v in st.items():
            if isinstance(v, (int, float)): tot[k] = tot.get(k, 0) + v
        warm = next((r for r in rs if r["t"] == "warm"), {"runs": "", "how": "none"}); nat.warm[e["name"]] = warm["runs"]; warmed.append("%s: %s" % (e["name"], warm["how"]))
        covers = {r["name"] for r in rs if r["t"] == "cover"}
        for r in rs:
            if r["t"] == "fn": fns[r["name"]] = "%s:%d" % (r["file"], r["line"])
            elif r["t"] in ("unsupported", "error", "excluded", "assumption", "info", "undecided"): notes.setdefault(r["t"], {})["%s: %s" % (e["name"], r["msg"][:200])] = 1
            elif r["t"] == "cex": jobs.append(("cex", e, r))
            elif r["t"] == "path": jobs.append(("path", e, r))
        want = e.get("cover", ["end"])
        ncex = sum(r["t"] == "cex" for r in rs)
        miss = [c for c in want if c not in covers]
        if miss and not ncex:
            what = "%s: vacuous, not reached: %s" % (e["name"], miss)
            if st.get("limit") or st.get("unsupported"): notes.setdefault("error", {})[what + " (exploration incomplete)"] = 1
            else: problems.append(what)
        reached += not miss
    if not reached and not jobs: problems.append("nothing explored to its end")
    def work(j):
        what, e, r = j
        if what == "cex": return j, confirm(nat, r, e["name"])
        rc, out = nat.run("plain", e["name"], r["inputs"])
        return j, (rc, out)
    for j, rr in ex.map(work, jobs):
        what, e, r = j
        if what == "cex":
            ok, how, out = rr
            rec = {"entry": e["name"], "warm": nat.warm.get(e["name"], ""), "kind": r["kind"], "label": r["label"], "where": r["where"], "inputs": r["inputs"], "confirmed": how, "output": (out or "")[-1500:]}
            if not ok: unconf.append(rec); continue
            k = next((k for k in known if re.fullmatch(k.get("entry", ".*"), e["name"]) and k.get("kind", r["kind"]) == r["kind"] and r["label"] == k.get("label", r["label"]) and k.get("where", "") in r["where"]), None)
            if k: knownhit[k["what"]] = rec
            else: viol.append(rec)
        else:
            rc, out = rr
            ob = [l[7:].rsplit(" ", 1) for l in (out or "").splitlines() if l.startswith("VF_OBS ")]
            good = rc == 0 and "VF_DONE" in out and len(ob) == len(r["obs"])
            if good:
                for (l, v), (l2, v2) in zip(ob, r["obs"]):
                    if v == "null" or v2 is None: continue
                    if abs(float(v) - v2) > 2e-3 * max(1, abs(v2)): good = False
            if good: validated += 1
            else: mism.append({"entry": e["name"], "status": rc, "inputs": r["inputs"][:40], "native": (out or "")[-300:]})
            if len(samples) < 6: samples.append({"entry": e["name"], "inputs": ["%s=%s" % (a, c) for a, b, c in r["inputs"][:24]], "observed": r["obs"][:12]})
    # one report per (entry, kind, label)
    seen, out_lines = set(), []
    rd = HERE + "/evidence/replay"; os.makedirs(rd, exist_ok=True)
    for f in glob.glob(rd + "/%s-*.json" % prop): os.unlink(f)
    for v in viol:
        key = (v["entry"], v["kind"], v["label"])
        if key in seen: continue
        seen.add(key)
        path = "%s/%s-%d.json" % (rd, prop, len(seen))
        json.dump(v, open(path, "w"), indent=1)
        out_lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s %s: %s [%s] at %s inputs: %s" % (v["entry"], v["kind"], v["label"], v["confirmed"], v["where"][:200], " ".join("%s=%s" % (a, c) for a, b, c in v["inputs"])[:400]))
    complete = not tot.get("limit") and not tot.get("unsupported") and not tot.get("errors") and not tot.get("checks_undecided")
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
          "coverage": {
              "states": int(tot.get("paths", 0)), "transitions": int(tot.get("instrs", 0)), "symbolic_branches": int(tot.get("branches", 0)), "traces_validated_against_impl": validated, "samples": samples,
              "paths_completed": int(tot.get("done", 0)), "paths_infeasible": int(tot.get("infeasible", 0)), "paths_excluded": int(tot.get("excluded", 0)), "paths_unsupported": int(tot.get("unsupported", 0)), "path_errors": int(tot.get("errors", 0)),
              "assertions": int(tot.get("checks", 0)), "assertions_true_by_simplification": int(tot.get("checks_trivial", 0)), "assertions_undecided": int(tot.get("checks_undecided", 0)),
              "solver_queries": int(tot.get("queries", 0)), "solver_sat": int(tot.get("sat", 0)), "solver_unsat": int(tot.get("unsat", 0)), "solver_unknown": int(tot.get("unknown", 0)), "solver_s": round(tot.get("solver_s", 0), 3),
              "ir_instructions": int(tot.get("instrs", 0)), "library_calls_executed_natively": int(tot.get("native_calls", 0)),
              "explored_completely_within_bounds": complete, "entries": names, "run_on_fixed_values_before": warmed, "bounds": spec["bounds_t"] if thorough and spec.get("bounds_t") else spec["bounds"],
              "functions_encoded": ["%s (%s)" % (k, v) for k, v in sorted(fns.items())][:250],
              "traces_not_matching": mism[:5], "counterexamples_not_reproduced": [{k: (v if k != "inputs" else v[:30]) for k, v in u.items() if k != "output"} for u in unconf[:6]],
              "known_findings_seen": sorted(knownhit), "problems": problems[:10]},
          "assumptions": (spec["assumptions"] + sorted(x for k in ("assumption", "excluded", "info") for x in notes.get(k, {}))[:20]),
          "wall_s": round(time.time() - T0, 2), "violations": len(out_lines)}
    ev["coverage"]["incomplete_because"] = sorted(x for k in ("unsupported", "error", "undecided") for x in notes.get(k, {}))[:20] + (["exploration limit reached"] if tot.get("limit") else [])
    s = json.dumps(ev, indent=1)
    while len(s) > 60000 and ev["coverage"]["functions_encoded"]:
        ev["coverage"]["functions_encoded"] = ev["coverage"]["functions_encoded"][:len(ev["coverage"]["functions_encoded"]) * 2 // 3]; s = json.dumps(ev, indent=1)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f: f.write(s)
    for w in sorted(knownhit): print("KNOWN-FINDING: property=%s %s" % (prop, w))
    print("%s %s: %d paths, %d branches, %d assertions (%d solver queries, %.1fs solver), %d traces validated, %d unconfirmed, %s, %.1fs" % (prop, tier, tot.get("paths", 0), tot.get("branches", 0), tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated, len(unconf), "complete within bounds" if complete else "incomplete", time.time() - T0))
    if VERBOSE or problems:
        for x in problems: print("problem:", x)
    if VERBOSE:
        for k in notes:
            for x in notes[k]: print(" note", k, x)
        for u in unconf: print(" unconfirmed", u["entry"], u["kind"], u["label"], u["where"][:300], "|", " ".join("%s=%s" % (a, c) for a, b, c in u["inputs"])[:300], "|", u["confirmed"], u["output"][-200:])
        for m in mism: print(" mismatch", json.dumps(m)[:600])
        for e in entries:
            st = next((r for r in res.get(e["name"], []) if r["t"] == "stats"), {})
            print("  %-28s paths %d done %d infeasible %d excl %d unsup %d err %d checks %d q %d solver %.1f wall %.1f limit %d" % tuple([e["name"]] + [st.get(k, -1) for k in ("paths", "done", "infeasible", "excluded", "unsupported", "errors", "checks", "queries", "solver_s", "wall_s", "limit")]))
    if out_lines:
        print("\n".join(out_lines)); return 1
    if problems: return 2
    return 0
sys.exit(main())
