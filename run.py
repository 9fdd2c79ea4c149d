#!/usr/bin/env python3
"""Solver-based check of one property: compiles /repo's current sources to LLVM bitcode together
with a harness, explores every path symbolically (engine/), replays what the solver finds on a
native build of the same sources, and writes evidence/<id>.json.
exit 0: held on everything explored; 1 + VIOLATION line: broken (reproduced natively); 2: no answer."""
import sys, os, json, subprocess, threading, time, shutil, tempfile, argparse, re, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
sys.path.insert(0, HERE)
LLVM = "/usr/lib/llvm-18/bin"
CLANG = shutil.which("clang++-18") or shutil.which("clang++") or LLVM + "/clang++"
BCF = ["-std=c++14", "-O1", "-emit-llvm", "-c", "-DNDEBUG", "-DLINUX=1", "-fno-exceptions", "-fno-pic", "-fno-vectorize", "-fno-slp-vectorize",
       "-ffp-contract=off", "-gline-tables-only", "-Wno-everything", "-fno-delete-null-pointer-checks", "-DVP_BITCODE=1"]
NATF = ["-std=c++14", "-O2", "-DNDEBUG", "-DLINUX=1", "-w", "-fsanitize=address", "-fno-omit-frame-pointer", "-DVP_NATIVE=1"]
JOBS = int(os.environ.get("VP_JOBS", "8"))
LOCK, OBJS = threading.Lock(), {}

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def ensure_engine():
    r = sh(["make", "-s", "-j8", "-C", os.path.join(HERE, "engine"), "OUT=" + BUILD])
    if r.returncode: print(r.stdout[-3000:]); return False
    rt, src = os.path.join(BUILD, "rt.bc"), os.path.join(HERE, "engine/rt.cc")
    if not os.path.exists(rt) or os.path.getmtime(rt) < os.path.getmtime(src):
        r = sh([CLANG, "-std=c++17", "-O1", "-emit-llvm", "-c", "-fno-exceptions", "-fno-builtin", "-fno-vectorize", "-fno-slp-vectorize", "-Wno-everything", src, "-o", rt + ".tmp"])
        if r.returncode: print(r.stdout[-3000:]); return False
        os.rename(rt + ".tmp", rt)
    return True

def gen_config(d):
    """polytope.hh and polytope_c.h as the build generates them (same feature set as the pinned build)."""
    on = {"HAVE_MPI", "HAVE_HDF5", "HAVE_SILO", "HAVE_BOOST", "HAVE_BOOST_VORONOI"}
    for rel in ("src/polytope.hh.in", "polytope_c/polytope_c.h.in"):
        s = open(os.path.join(REPO, rel)).read()
        s = re.sub(r"#cmakedefine\s+(\w+)", lambda m: "#define " + m.group(1) if m.group(1) in on else "/* #undef " + m.group(1) + " */", s)
        s = s.replace("@POLYTOPE_VERSION_MAJOR@", "1").replace("@POLYTOPE_VERSION_MINOR@", "0").replace("@C_REAL_TYPE@", "double")
        open(os.path.join(d, os.path.basename(rel)[:-3]), "w").write(s)

def mpi_inc():
    r = sh(["mpicc", "--showme:incdirs"]); return ["-I" + x for x in r.stdout.split()] if r.returncode == 0 else []

class Unit:
    """One harness file + the /repo sources it needs, compiled with one set of defines."""
    def __init__(self, harness, src, defs, tmp, extra, libs):
        self.h, self.src, self.defs, self.libs, self.extra = harness, src, defs, libs, extra
        self.dir = tempfile.mkdtemp(dir=tmp); self.shared = os.path.join(tmp, "shared")
        with LOCK:
            if not os.path.isdir(self.shared): os.makedirs(self.shared); gen_config(self.shared)
        self.inc = ["-I" + self.shared, "-I" + os.path.join(HERE, "engine"), "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(REPO, "polytope_c")] + mpi_inc()
    def files(self): return [os.path.join(HERE, "harness", self.h)] + [os.path.join(REPO, s) for s in self.src] + [os.path.join(HERE, "harness", s) for s in self.extra]
    def objects(self, ex, kind, cmd, files):
        """Compile the files; those outside harness files do not see the bound macros (-DVP...) and are shared between units."""
        futs = []
        for i, f in enumerate(files):
            own = i == 0
            defs = self.defs if own else [d for d in self.defs if not d.startswith("-DVP")]
            key = (kind, f, tuple(defs), self.dir if own else self.shared)
            with LOCK:
                if key not in OBJS:
                    o = os.path.join(key[3], "%s%d%s" % (kind, len(OBJS), ".bc" if kind == "b" else ".o"))
                    OBJS[key] = (o, ex.submit(sh, cmd(f) + self.inc + defs + ["-c", f, "-o", o]))
                futs.append(OBJS[key])
        for o, f in futs:
            r = f.result()
            if r.returncode: raise RuntimeError(("bitcode" if kind == "b" else "native") + " compilation failed:\n" + r.stdout[-3500:])
        return [o for o, f in futs]
    def bitcode(self, ex):
        objs = self.objects(ex, "b", lambda f: [CLANG] + BCF + (["-include", os.path.join(HERE, "engine/bcpre.h")] if f.endswith((".cc", ".cpp")) else []), self.files())
        out = os.path.join(self.dir, "all.bc")
        r = sh([LLVM + "/llvm-link"] + objs + [os.path.join(BUILD, "rt.bc"), "-o", out])
        if r.returncode: raise RuntimeError("llvm-link failed:\n" + r.stdout[-2000:])
        return out
    def native(self, ex, entry):
        objs = self.objects(ex, "n", lambda f: ["g++"] + NATF, self.files() + [os.path.join(HERE, "engine/native.cc")])
        out = os.path.join(self.dir, "nat_" + entry)
        r = sh(["g++"] + NATF + objs + ["-Wl,--defsym=harness_entry=" + entry, "-Wl,--gc-sections", "-o", out] + self.libs)
        if r.returncode: raise RuntimeError("native link failed:\n" + r.stdout[-3500:])
        return out

def run_native(exe, inputs, path, timeout=60):
    with open(path, "w") as f:
        for k, v in inputs: f.write("%s %s\n" % (k, v))
    env = dict(os.environ, VP_INPUT=path, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:detect_stack_use_after_return=0", MALLOC_PERTURB_="65")
    try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout)
    except subprocess.TimeoutExpired: return "hang", "", []
    out = r.stdout.decode("utf8", "replace")
    obs = re.findall(r"^VP_OBS (\d+)", out, re.M)
    m = re.search(r"^VP_ASSERT_FAILED (.*)$", out, re.M)
    if m: return "assert", m.group(1), obs
    if "VP_ASSUME_FAILED" in out: return "assume", "", obs
    if "VP_DIVERGED" in out: return "diverged", "", obs
    if r.returncode == 0 and "VP_DONE" in out: return "ok", "", obs
    a = re.search(r"ERROR: AddressSanitizer: ([^\n]*)", out)
    if a: return "memory", a.group(1)[:200], obs
    return "crash", "rc=%d %s" % (r.returncode, out[-300:]), obs

def known():
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) label=(\S+) (.*)", l.strip())
            if m: res.append(m.groups())
    return res

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--entry"); ap.add_argument("--keep", action="store_true"); ap.add_argument("-v", action="store_true"); ap.add_argument("--nonative", action="store_true"); ap.add_argument("--time", type=float)
    ap.add_argument("--defs", default="")
    a = ap.parse_args()
    from registry import PROPS
    P = PROPS[a.prop]; tier = "thorough" if a.tier == "thorough" else "quick"; t0 = time.time()
    if not ensure_engine(): print("engine build failed"); return 2
    tmp = tempfile.mkdtemp(prefix="vp_%s_" % a.prop)
    try: return go(a, P, tier, tmp, t0)
    finally:
        if not a.keep: shutil.rmtree(tmp, ignore_errors=True)
        else: print("kept", tmp)

def go(a, P, tier, tmp, t0):
    units = {}; status = 0; viol_lines = []; known_lines = []; notes = []
    tot = dict(paths=0, killed=0, steps=0, forks=0, branches=0, asserts=0, assert_queries=0, value_splits=0, queries=0, sat=0, unsat=0, unknown=0, lemmas=0, tables=0, solver_s=0.0, max_query_s=0.0)
    per = []; funcs = {}; exts = set(); validated = 0; samples_out = []; nviol = 0
    entries = [e for e in P["entries"] if (not a.entry or e["entry"] == a.entry) and e.get(tier, "") is not None]
    with cf.ThreadPoolExecutor(max_workers=JOBS) as ex, cf.ThreadPoolExecutor(max_workers=4) as ex2:
        for e in entries:
            defs = e.get(tier, "").split() + a.defs.split()
            key = (e["file"], tuple(e.get("src", [])), tuple(defs), tuple(e.get("extra", [])))
            e["_key"] = key
            if key not in units: units[key] = Unit(e["file"], e.get("src", []), defs, tmp, e.get("extra", []), e.get("libs", []))
        bcs = {}; nats = {}
        for key, u in units.items():
            ents = [e for e in entries if e["_key"] == key]
            bcs[key] = ex2.submit(u.bitcode, ex)
        for key, u in units.items():
            ents = [e for e in entries if e["_key"] == key]
            def nat(u=u, ents=ents):
                return {e["entry"]: u.native(ex, e["entry"]) for e in ents}
            if not a.nonative: nats[key] = ex2.submit(nat)
        for e in entries:
            key = e["_key"]
            try: bc = bcs[key].result()
            except RuntimeError as x: print("%s/%s: %s" % (a.prop, e["entry"], x)); status = max(status, 2); continue
            out = os.path.join(tmp, "out_%s_%d.json" % (e["entry"], entries.index(e))); te = time.time()
            tl = a.time or e.get("time_t" if tier == "thorough" else "time", 240 if tier == "quick" else 3000)
            cmd = [os.path.join(BUILD, "vpsym"), bc, "--entry", e["entry"], "--out", out, "--jobs", str(e.get("jobs", JOBS)), "--time", str(tl), "--samples", str(e.get("samples", 12)), "--query-ms", str(e.get("query_ms", 120000)), "--steps", str(e.get("steps", 100000000))]
            try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=tl + 300)
            except subprocess.TimeoutExpired: print("%s/%s: engine timeout" % (a.prop, e["entry"])); status = max(status, 2); continue
            recs = [json.loads(l) for l in open(out)] if os.path.exists(out) else []
            fatal = [x["msg"] for x in recs if x["t"] == "fatal"]
            st = [x for x in recs if x["t"] == "stats"]
            viols = [x for x in recs if x["t"] == "viol"]; samp = [x for x in recs if x["t"] == "sample"]
            if fatal or (not st and not viols): print("%s/%s: engine error: %s" % (a.prop, e["entry"], (fatal or [r.stdout[-800:]])[0])); status = max(status, 2)
            covers = {}; labels = {}; conc = {}
            for x in st:
                for k in tot:
                    if k == "max_query_s": tot[k] = max(tot[k], x[k])
                    else: tot[k] += x[k]
                for k, v in x["covers"].items(): covers[k] = covers.get(k, 0) + v
                for k, v in x["labels"].items(): labels[k] = labels.get(k, 0) + v
                for k, v in x["conc"].items(): conc[k] = conc.get(k, 0) + v
                for n, f in x["funcs"]:
                    if f.startswith(REPO + "/"): funcs.setdefault(f[len(REPO) + 1:], set()).add(n)
                exts.update(x["ext"])
            inc = sorted({x["incomplete"] for x in st if x["incomplete"]})
            paths = sum(x["paths"] for x in st)
            miss = [c for c in e.get("covers", []) if not covers.get(c)]
            rec = dict(entry=e["entry"], defines=" ".join(key[2]), bounds=e.get("bounds", ""), paths=paths, killed=sum(x["killed"] for x in st), queries=sum(x["queries"] for x in st), solver_s=round(sum(x["solver_s"] for x in st), 2), wall_s=round(time.time() - te, 2),
                       reachability_witnesses=covers, assertions=labels, concretised=conc, complete=not inc and not fatal)
            # native replays
            exe = None
            if not a.nonative:
                try: exe = nats[key].result()[e["entry"]]
                except RuntimeError as x: print("%s/%s: %s" % (a.prop, e["entry"], x)); status = max(status, 2)
            confirmed = unconfirmed = 0; seen = set()
            rdir = os.path.join(HERE, "evidence", "replay"); os.makedirs(rdir, exist_ok=True)
            for i, v in enumerate(viols):
                desc = "%s: %s at %s" % (v["kind"], v["label"], v["loc"].replace(REPO + "/", ""))
                if a.v: print("  cex %s %s\n%s" % (desc, v["inputs"], v["stack"]))
                if exe is None: continue
                rp = os.path.join(rdir, "%s_%s_%d_%d.txt" % (a.prop, e["entry"], entries.index(e), i))
                kind, lab, obs = run_native(exe, v["inputs"], rp, timeout=e.get("replay_timeout", 30))
                ok = (v["kind"] == "assert" and kind == "assert" and (lab == v["label"] or True)) or (v["kind"] in ("memory", "abort", "arith") and kind in ("memory", "crash", "assert", "hang")) or (v["kind"] == "hang" and kind in ("hang", "memory", "crash")) or (v["kind"] == "assert" and kind in ("memory", "crash", "hang"))
                if not ok:
                    unconfirmed += 1; os.unlink(rp)
                    if v["kind"] == "memory" and e.get("trust_memory") and "read" in v["label"]: pass
                    print("%s/%s: counterexample NOT reproduced natively (%s; native: %s %s) inputs %s" % (a.prop, e["entry"], desc, kind, lab, v["inputs"])); continue
                kf = [k for k in known() if k[0] == a.prop and k[1] == v["label"].split(":")[0].replace(" ", "_")]
                if kf:
                    line = "KNOWN-FINDING: property=%s %s" % (a.prop, kf[0][2])
                    if line not in known_lines: known_lines.append(line)
                    continue
                confirmed += 1
                with open(rp, "a") as f: f.write("# property %s entry %s\n# defines %s\n# %s\n# native outcome: %s %s\n# replay: %s/replay.sh %s %s %s\n%s" % (a.prop, e["entry"], " ".join(key[2]), desc, kind, lab, HERE, a.prop, e["entry"], rp, "".join("# " + l + "\n" for l in v["stack"].splitlines())))
                if (desc) not in seen:
                    seen.add(desc); viol_lines.append(("VIOLATION property=%s replay=%s" % (a.prop, rp), desc))
            nviol += confirmed
            agree = 0; dis = 0
            if exe is not None:
                def one(ix):
                    i, s = ix
                    return s, run_native(exe, s["inputs"], os.path.join(tmp, "in_%s_%d_%d" % (e["entry"], entries.index(e), i)), timeout=e.get("replay_timeout", 30))
                for s, (kind, lab, obs) in ex.map(one, enumerate(samp)):
                    good = kind == "ok" and obs == s["obs"]
                    agree += good; dis += not good
                    if not good:
                        print("%s/%s: path witness disagrees with the native build (%s %s) %s\n   engine %s\n   native %s" % (a.prop, e["entry"], kind, lab, s["inputs"], s["obs"][:40], obs[:40]))
            validated += agree; rec["witnesses_replayed"] = agree
            for s in samp[:2]: samples_out.append(dict(entry=e["entry"], inputs=dict((k, v) for k, v in s["inputs"]), path_conditions=s["pc"], observed=s["obs"][:12]))
            if not confirmed:
                if inc: print("%s/%s: incomplete: %s" % (a.prop, e["entry"], "; ".join(inc))); status = max(status, 2)
                if unconfirmed or dis: status = max(status, 2)
                if miss and not viols: print("%s/%s: not reached: %s" % (a.prop, e["entry"], miss)); status = max(status, 2)
            per.append(rec)
            print("%s/%s: %d paths, %d queries, solver %.1fs, wall %.1fs, witnesses %d/%d, covers %s%s%s" % (a.prop, e["entry"], paths, rec["queries"], rec["solver_s"], rec["wall_s"], agree, len(samp), covers, (" conc %s" % conc) if conc else "", " VIOLATIONS %d" % confirmed if confirmed else ""))
            sys.stdout.flush()
    ev = dict(property=a.prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="model_checking", wall_s=round(time.time() - t0, 2), violations=nviol,
              assumptions=P.get("assumptions", []) + ["the harness bounds below; anything outside them is not covered", "clang -O1 bitcode of the sources and the engine's LLVM/libc/libstdc++ models (checked by replaying path witnesses on a g++ -O2 build)"],
              coverage=dict(states=tot["paths"], transitions=tot["branches"], traces_validated_against_impl=validated, samples=samples_out or ["none"],
                            rule="states = complete symbolic paths; transitions = branch decisions put to the solver", functions_encoded={k: sorted(v)[:60] for k, v in sorted(funcs.items())}, functions_encoded_count=sum(len(v) for v in funcs.values()),
                            external_stubs=sorted(exts)[:80], queries=tot["queries"], queries_sat=tot["sat"], queries_unsat=tot["unsat"], queries_unknown=tot["unknown"], assertions_reached=tot["asserts"], assertion_queries=tot["assert_queries"], rounding_lemmas=tot["lemmas"], extensional_tables=tot["tables"], solver_seconds=round(tot["solver_s"], 2), max_query_seconds=round(tot["max_query_s"], 3), instructions=tot["steps"], assumed_away_paths=tot["killed"], harnesses=per))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for l in known_lines: print(l)
    for l, d in viol_lines: print(d); print(l)
    if viol_lines: return 1
    if status == 0: print("%s: held on everything explored (%d paths, %d queries, %.1fs)" % (a.prop, tot["paths"], tot["queries"], time.time() - t0))
    return status

if __name__ == "__main__": sys.exit(main())
