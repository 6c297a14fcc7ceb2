#!/usr/bin/env python3
"""Driver: builds the symbolic executor and the real /repo sources, explores every
harness of a property, replays counterexamples on the ordinary build, writes evidence.

  vp.py setup                 build the engine (and warm the object cache)
  vp.py check ID [--tier T]   decide one property
  vp.py replay FILE           replay a recorded counterexample
  vp.py run HARNESS [...]     explore one harness (development)
"""
import bisect, concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CACHE = os.environ.get("VP_CACHE", os.path.join(V, ".cache"))
Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"
JOBS = int(os.environ.get("VP_JOBS", "8"))
SRC = os.path.join(REPO, "src")
sys.path.insert(0, V)
from registry import PROPS, HARNESSES  # noqa: E402

# generated by cmake/cython in the real build, or not part of the C++ core
SKIP = re.compile(r"^(eventhooks|hdf5_back|pyinfile|pymodule|pyne|env|version)\.cc$")
INC = ["-I" + SRC, "-isystem", "/usr/include/python3.12", "-I/usr/include/hdf5/serial", "-I/usr/include/coin",
       "-isystem", "/usr/include/libxml2", "-isystem", "/usr/include/libxml++-2.6",
       "-isystem", "/usr/lib/x86_64-linux-gnu/libxml++-2.6/include",
       "-isystem", "/usr/include/glibmm-2.4", "-isystem", "/usr/lib/x86_64-linux-gnu/glibmm-2.4/include",
       "-isystem", "/usr/include/glib-2.0", "-isystem", "/usr/lib/x86_64-linux-gnu/glib-2.0/include",
       "-isystem", "/usr/include/sigc++-2.0", "-isystem", "/usr/lib/x86_64-linux-gnu/sigc++-2.0/include"]
DEFS = ["-DBOOST_VERSION_MINOR=83", "-DNDEBUG", "-w", "-std=c++17"]
SYMF = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno"]
LIBS = ["-lsqlite3", "-lxml++-2.6", "-lglibmm-2.4", "-lgobject-2.0", "-lglib-2.0", "-lsigc-2.0", "-lxml2",
        "-lboost_filesystem", "-lboost_serialization", "-lboost_system", "-lboost_program_options",
        "-lCbc", "-lCgl", "-lOsiClp", "-lOsi", "-lClp", "-lCoinUtils",
        "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lhdf5", "-lhdf5_hl", "-ldl", "-lpthread"]


class BuildError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def tag():
    """names this thread's temporary files"""
    return "%d_%d" % (os.getpid(), threading.get_ident())


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-4000:]))
    return r.stdout.decode(errors="replace")


def build_engine():
    os.makedirs(CACHE, exist_ok=True)
    e = os.path.join(V, "engine")
    pk = sha(rd(e + "/pass.cpp"))
    rk = sha(rd(e + "/rt.cpp"))
    pso, rso = "%s/vppass-%s.so" % (CACHE, pk), "%s/rt-%s/libvprt.so" % (CACHE, rk)

    def mkpass():
        if not os.path.exists(pso):
            fl = sh(["/usr/lib/llvm-18/bin/llvm-config", "--cxxflags"]).split()
            t = pso + ".tmp" + tag()
            sh(["clang++", "-shared", "-fPIC", "-O1"] + fl + ["-fno-rtti", e + "/pass.cpp", "-o", t])
            os.rename(t, pso)

    def mkrt():
        if not os.path.exists(rso):
            os.makedirs(os.path.dirname(rso), exist_ok=True)
            t = rso + ".tmp" + tag()
            sh(["g++", "-O2", "-std=c++17", "-fPIC", "-shared", "-fvisibility=hidden", "-I" + Z3DIR + "/include", e + "/rt.cpp",
                "-o", t, "-L" + Z3DIR + "/lib", "-lz3", "-Wl,-rpath," + Z3DIR + "/lib", "-Wl,-Bsymbolic", "-Wl,-soname,libvprt.so"])
            os.rename(t, rso)
    with cf.ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(mkpass), ex.submit(mkrt)]:
            f.result()
    return pso, rso


def gen_dir():
    """The headers and sources cmake configures, from the repository's own .in files."""
    lim = rd(SRC + "/cyc_limits.h.in").decode()
    top = rd(REPO + "/CMakeLists.txt").decode()
    allc = top + rd(SRC + "/CMakeLists.txt").decode()

    def cm(name, dflt):
        m = re.search(r"[sS][eE][tT]\(\s*%s\s+\"?([^\s\")]+)" % name, allc, re.I)
        return m.group(1) if m and "$" not in m.group(1) else dflt
    sub = {"CY_LARGE_INT": cm("CY_LARGE_INT", "2147483647"), "CY_LARGE_DOUBLE": cm("CY_LARGE_DOUBLE", "1e299"),
           "CY_NEAR_ZERO": cm("CY_NEAR_ZERO", "1e-08"), "suffix": ".so", "dynamicloadlib": "unix_helper_functions.h",
           "cyclus_has_coin": "1", "cyclus_is_parallel": "0", "CMAKE_PROJECT_VERSION_MAJOR": "1",
           "CMAKE_PROJECT_VERSION_MINOR": "6", "CMAKE_PROJECT_VERSION_PATCH": "0", "DATA_MODEL_VERSION": "1.6",
           "cyclus_install_dir": "/nonexistent/install", "cyclus_build_dir": "/nonexistent/build", "default_allow_milps": "true"}

    def conf(t):
        return re.sub(r"@(\w+)@", lambda m: sub.get(m.group(1), "0"), t)
    out = {"cyc_limits.h": conf(lim)}
    for f in ("platform.h", "version.h", "env.cc", "version.cc"):
        out[f] = conf(rd("%s/%s.in" % (SRC, f)).decode())
    out["platform.h"] = "#ifndef VP_PLATFORM_H_\n#define VP_PLATFORM_H_\n" + out["platform.h"] + "\n#endif\n"
    d = os.path.join(CACHE, "gen-" + sha(json.dumps(out, sort_keys=True), V, rd(__file__)))
    if not os.path.isdir(d):
        t = d + ".tmp" + tag()
        os.makedirs(t)
        for k, v in out.items():
            open(os.path.join(t, k), "w").write(v)
        # the generated headers win over whatever an earlier build left in src/
        open(os.path.join(t, "vp_pre.h"), "w").write(
            "#ifdef __cplusplus\n#include <cmath>\n#include <limits>\n#include <boost/config.hpp>\n#include \"%s/engine/vp_mt.h\"\n#endif\n" % V + "".join('#pragma weak %s\n' % s for s in
            ["pyne_cram_transmute_info", "pyne_cram_transmute_ij", "pyne_cram_transmute_nucid_to_i"] +
            ["pyne_cram_expm_multiply%d" % i for i in (6, 8, 10, 12, 14, 16, 18)] +
            ["_ZN4pyne8decayers5decayESt3mapIidSt4lessIiESaISt4pairIKidEEEd"]) +
            '#include "%s/cyc_limits.h"\n#include "%s/version.h"\n' % (d, d))
        try:
            os.rename(t, d)
        except OSError:
            shutil.rmtree(t)
    return d


def sources():
    s = [f for f in sorted(os.listdir(SRC)) if f.endswith(".cc") and not SKIP.match(f)]
    s += ["toolkit/" + f for f in sorted(os.listdir(SRC + "/toolkit")) if f.endswith(".cc")]
    return s


_hc = {}


def fhash(p):
    if p not in _hc:
        try:
            _hc[p] = hashlib.sha256(rd(p)).hexdigest()
        except OSError:
            _hc[p] = None
    return _hc[p]


def lookup(cc, path, flags):
    """Direct-mode object cache: an object is reused only if every repository and
    framework file its compilation read has the same content as now."""
    base = os.path.join(CACHE, "obj", "%s-%s" % (os.path.basename(path).rsplit(".", 1)[0], sha(cc, path, *flags)))
    try:
        variants = json.load(open(base + ".json"))
    except (OSError, ValueError):
        variants = []
    for v in variants:
        if os.path.exists(v["obj"]) and all(fhash(f) == h for f, h in v["deps"].items()):
            return v["obj"], base, variants
    return None, base, variants


def compile_one(cc, path, flags):
    o, base, variants = lookup(cc, path, flags)
    if o:
        return o
    t = base + ".tmp" + tag()
    sh([cc] + flags + ["-MMD", "-MF", t + ".d", "-c", path, "-o", t])
    txt = rd(t + ".d").decode().replace("\\\n", " ").split(":", 1)[1]
    os.unlink(t + ".d")
    deps = {os.path.abspath(f): fhash(os.path.abspath(f)) for f in txt.split() if f.startswith((REPO, V, CACHE))}
    o = "%s-%s.o" % (base, sha(json.dumps(deps, sort_keys=True)))
    os.rename(t, o)
    variants = [v for v in variants if v["obj"] != o][-8:] + [{"obj": o, "deps": deps}]
    with open(t + ".j", "w") as f:
        json.dump(variants, f)
    os.rename(t + ".j", base + ".json")
    return o


def build_lib(kind, inst_extra=()):
    """kind 'sym' (instrumented, clang) or 'plain' (g++, what a user runs)."""
    pso, _ = build_engine()
    g = gen_dir()
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    base = DEFS + ["-include", g + "/vp_pre.h", "-I" + g] + INC
    todo = [(f, os.path.join(SRC, f)) for f in sources()] + [("gen_env.cc", g + "/env.cc"), ("gen_version.cc", g + "/version.cc"), ("pyne.cc", SRC + "/pyne.cc")]
    units, objs = [], []
    for name, path in todo:
        if kind == "sym":
            if name == "pyne.cc" and "pyne" not in inst_extra:
                cc, fl = "clang++", base + ["-O0"]
            else:
                cc, fl = "clang++", base + SYMF + ["-fpass-plugin=" + pso]
        else:
            cc, fl = "g++", base + (["-O0"] if name == "pyne.cc" else ["-O1"])
        units.append((cc, path, fl))
    jobs = [(10**9 if re.search("timer|sqlite_back|sim_init|pyne", u[1]) else os.path.getsize(u[1]), u) for u in units if not lookup(*u)[0]]
    jobs.sort(key=lambda x: -x[0])
    if jobs:
        log("compiling %d translation units (%s)" % (len(jobs), kind))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(compile_one, *u) for _, u in jobs]:
                f.result()
    objs = [compile_one(*u) for u in units]
    lib = os.path.join(CACHE, "lib%s-%s.a" % (kind, sha(*objs)))
    if not os.path.exists(lib):
        t = lib + ".tmp" + tag()
        if os.path.exists(t):
            os.unlink(t)
        sh(["ar", "rcs", t] + objs)
        os.rename(t, lib)
    return lib, g


def run_cycpp(files):
    """Runs the repository's own archetype preprocessor on annotated sources (of the
    repository, or of a harness) and returns the directory with what it generated."""
    hdrs = [os.path.join(d, f) for d in (SRC, SRC + "/toolkit", REPO + "/agents") for f in sorted(os.listdir(d)) if f.endswith((".h", ".in"))]
    tools = [REPO + "/cli/" + f for f in sorted(os.listdir(REPO + "/cli")) if f.endswith(".py")] + [REPO + "/cyclus/system.py.in"]
    g = gen_dir()
    ins = [os.path.join(REPO, f) if f.startswith("agents/") else os.path.join(V, "harness", f) for f in files]
    key = sha(g, *[f + str(fhash(f)) for f in hdrs + tools + ins])
    d = os.path.join(CACHE, "cycpp-" + key)
    if os.path.isdir(d):
        return d
    t = d + ".tmp" + tag()
    os.makedirs(t + "/work")
    os.makedirs(t + "/cyclus")
    lim = rd(g + "/cyc_limits.h").decode()

    def val(n):
        return re.search(r"%s\s*=\s*([^;\s]+)" % n, lim).group(1)
    txt = rd(REPO + "/cyclus/system.py.in").decode()
    open(t + "/cyclus/system.py", "w").write(re.sub(r"@(\w+)@", lambda m: val(m.group(1)), txt))
    inc = ":".join([g] + [x[2:] for x in INC if x.startswith("-I")] + [x for x in INC if x.startswith("/usr")] + ["/usr/include"])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")

    def one(f):
        sh(["python3", REPO + "/cli/cycpp.py", f, "--cpp-path=cpp", "-o=" + t + "/" + os.path.basename(f), "--pass3-use-orig", "-I=:" + inc], cwd=t + "/work", env=env)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for x in [ex.submit(one, f) for f in ins]:
            x.result()
    try:
        os.rename(t, d)
    except OSError:
        shutil.rmtree(t)
    return d


def build_harness(name, kind):
    h = HARNESSES[name]
    pso, rso = build_engine()
    lib, g = build_lib(kind, h.get("instrument", ()))
    src = os.path.join(V, "harness", h["src"])
    base = DEFS + ["-include", g + "/vp_pre.h", "-I" + g, "-I" + V + "/engine", "-I" + V + "/harness"] + INC + ["-D" + d for d in h.get("defines", ())]
    bd = os.path.join(CACHE, "bin")
    os.makedirs(bd, exist_ok=True)
    extra_src = [os.path.join(REPO, x) for x in h.get("repo_src", ())]
    if h.get("cycpp"):
        d = run_cycpp(h["cycpp"])
        base.insert(0, "-I" + d)
    if kind == "sym":
        cc, hf, mf = "clang++", base + SYMF + ["-fpass-plugin=" + pso], V + "/engine/main.cc"
    else:
        cc, hf, mf = "g++", base + ["-O1"], V + "/engine/replay.cc"
    os.makedirs(os.path.join(CACHE, "obj"), exist_ok=True)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fs = [ex.submit(compile_one, cc, x, hf) for x in [src] + extra_src] + [ex.submit(compile_one, cc, mf, base + ["-O1"])]
        objs = [f.result() for f in fs]
    exe = os.path.join(bd, "%s-%s-%s" % (name, kind, sha(kind, lib, rso, *objs)))
    if os.path.exists(exe):
        return exe
    t = exe + ".tmp" + tag()
    rt = ["-L" + os.path.dirname(rso), "-lvprt", "-Wl,-rpath," + os.path.dirname(rso)] if kind == "sym" else []
    sh([cc, "-no-pie"] + objs + [lib, "-o", t] + rt + LIBS)
    os.rename(t, exe)
    return exe


def write_vals(path, inputs, tier):
    with open(path, "w") as f:
        f.write("tier %d\n" % tier)
        for v in inputs:
            if "d" in v:
                f.write("d %s\n" % float(v["d"]).hex())
            else:
                f.write("i %d\n" % v["i"])


def replay_vals(exe, inputs, tier, timeout=30):
    """Runs the ordinary build on concrete values. -> (violated?, text)"""
    p = os.path.join(CACHE, "vals-%s-%d.txt" % (tag(), int(time.time() * 1e6)))
    write_vals(p, inputs, tier)
    d = p + ".d"
    os.makedirs(d)
    try:
        r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=d)
        o = r.stdout.decode(errors="replace")
        if r.returncode == 3:
            return True, o
        if r.returncode < 0:
            return True, o + "\nterminated by signal %d" % -r.returncode
        return False, o + "\nexit status %d" % r.returncode
    except subprocess.TimeoutExpired as e:
        return True, (e.stdout or b"").decode(errors="replace") + "\nno termination within %d s" % timeout
    finally:
        os.unlink(p)
        shutil.rmtree(d, ignore_errors=True)


def functions_of(exe, sites):
    out = subprocess.run(["nm", "-n", "-C", "--defined-only", exe], stdout=subprocess.PIPE).stdout.decode(errors="replace")
    addrs, names = [], []
    for l in out.splitlines():
        m = re.match(r"([0-9a-f]+) [tTwW] (.*)", l)
        if m:
            addrs.append(int(m.group(1), 16))
            names.append(m.group(2))
    fs = set()
    for s in sites:
        i = bisect.bisect_right(addrs, s) - 1
        if i >= 0:
            fs.add(names[i])
    return sorted(f for f in fs if re.match(r"(void |double |int |bool )?(\(anonymous namespace\)::)?(cyclus|pyne)", f) or "cyclus::" in f.split("(")[0])


def explore(name, tier, seed, deadline=None, extra=()):
    h = HARNESSES[name]
    exe = build_harness(name, "sym")
    dl = deadline or h.get("deadline", (60, 600))[tier]
    out = os.path.join(CACHE, "out-%s-%d.json" % (name, os.getpid()))
    d = out + ".d"
    os.makedirs(d, exist_ok=True)
    cmd = [exe, "--jobs", str(JOBS), "--deadline", str(dl), "--seed", str(seed), "--tier", str(tier), "--out", out,
           "--pathsec", str(h.get("pathsec", 40)), "--qtimeout", str(h.get("qtimeout", (3000, 10000))[tier])] + list(extra)
    errf = out + ".err"
    with open(errf, "wb") as ef, open(os.devnull, "wb") as dn:
        try:
            r = subprocess.run(cmd, stdout=dn, stderr=ef, cwd=d, timeout=dl + 120)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -99
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or not os.path.exists(out):
        raise RuntimeError("exploration of %s ended with %s: %s" % (name, rc, rd(errf)[-2000:].decode(errors="replace")))
    res = json.load(open(out))
    os.unlink(out)
    os.unlink(errf)
    res["exe"] = exe
    return res


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    P = PROPS[pid]
    ti = 1 if tier == "thorough" else 0
    kf = json.load(open(os.path.join(V, "known_findings.json")))
    known = [k for k in kf["known"] if k["property"] == pid]
    tot = dict(paths=0, branches=0, queries=0, sat=0, unsat=0, unknown=0, obligations=0, proved=0, concrete=0, solver_s=0.0)
    hres, viols, funcs, samples, incon, exhausted = [], [], set(), [], {}, True
    validated = 0
    notes = []
    for hn in P["harnesses"]:
        h = HARNESSES[hn]
        if h.get("thorough_only") and not ti:
            continue
        r = explore(hn, ti, seed, extra=[x for k in known if k["harness"] == hn for x in ("--known", k["label"])])
        fs = functions_of(r["exe"], r["sites"])
        funcs.update(fs)
        cand = {}
        for v in r["violations"]:
            cand.setdefault(v["label"], []).append(v)
        confirmed = 0
        for label, vs in sorted(cand.items()):
            pe = build_harness(hn, "plain")
            ok = False
            for v in vs[:6]:
                bad, text = replay_vals(pe, v["inputs"], ti)
                validated += 1
                if bad:
                    ok = True
                    break
            if not ok:
                incon["candidate not reproduced on the ordinary build: %s/%s" % (hn, label)] = len(vs)
                continue
            kn = [k for k in known if k["harness"] == hn and k["label"] == label]
            if kn:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[0]["what"]), flush=True)
                continue
            rp = os.path.join(V, "replays", "%s-%s-%d.json" % (pid, hn, len(viols)))
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump({"property": pid, "harness": hn, "label": label, "tier": ti, "inputs": v["inputs"], "transcript": text[-6000:]}, open(rp, "w"), indent=1)
            viols.append((label, rp))
            confirmed += 1
        # vacuity: every witness the harness declares must have been reached
        missing = [w for w in h.get("witness", ()) if not r["reached"].get(w)]
        if missing and not viols:
            notes.append("witness not reached in %s: %s" % (hn, ", ".join(missing)))
        for k, n in r["inconclusive"].items():
            incon["%s: %s" % (hn, k)] = incon.get("%s: %s" % (hn, k), 0) + n
        if not r["exhausted"]:
            exhausted = False
        tot["paths"] += r["paths"]; tot["branches"] += r["branches"]; tot["queries"] += r["queries"]
        tot["sat"] += r["sat"]; tot["unsat"] += r["unsat"]; tot["unknown"] += r["unknown"]
        tot["obligations"] += r["asserts_symbolic"]; tot["proved"] += r["asserts_proved"]; tot["concrete"] += r["asserts_concrete"]
        tot["solver_s"] += r["solver_s"]
        samples += [{"harness": hn, "inputs": s} for s in r["samples"][:2]]
        hres.append({"harness": hn, "what": h.get("what", ""), "bounds": h.get("bounds", ""), "paths": r["paths"], "distinct_paths": r["distinct_paths"],
                     "max_depth": r["max_depth"], "exhausted": r["exhausted"], "queries": r["queries"], "unsat": r["unsat"], "sat": r["sat"],
                     "unknown": r["unknown"], "symbolic_assertions": r["asserts_symbolic"], "proved_by_solver": r["asserts_proved"],
                     "constant_on_path": r["asserts_concrete"], "assertions": r["assert_labels"], "witnesses": r["reached"],
                     "rounding_terms": r["roundings"], "diverged": r["diverged"], "stale_shadows": r["stale_shadows"],
                     "solver_s": round(r["solver_s"], 3), "max_query_s": round(r["max_query_s"], 3), "wall_s": round(r["wall_s"], 2),
                     "functions_encoded": len(fs), "external_calls_with_symbolic_arguments": r["external_calls"], "inconclusive": r["inconclusive"]})
        log("%s %s: paths=%d exhausted=%s queries=%d solver=%.1fs wall=%.1fs viol=%d incon=%s" % (
            pid, hn, r["paths"], r["exhausted"], r["queries"], r["solver_s"], r["wall_s"], confirmed, r["inconclusive"]))
        if viols:
            break
        # thorough: replay sampled paths on the ordinary build as translator validation
        if ti:
            pe = build_harness(hn, "plain")
            for s in r["samples"]:
                bad, _ = replay_vals(pe, s, ti)
                validated += 1
                if bad:
                    notes.append("sampled path of %s fails on the ordinary build" % hn)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": P.get("level", "model_checking"),
          "coverage": {"states": tot["paths"], "transitions": tot["branches"], "traces_validated_against_impl": tot["paths"] + validated,
                       "samples": samples[:6], "exhaustive": bool(exhausted and not incon),
                       "explanation": "states: feasible paths of the real code through the harness, each executed concretely as well as symbolically (expression values are compared with the real values at loads, returns and branches); transitions: symbolic branch decisions; traces_validated_against_impl: paths run concretely in the instrumented build plus replays on the ordinary build",
                       "solver": "Z3 5.3.2 (in process)", "queries_discharged": tot["queries"], "queries_unsat": tot["unsat"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
                       "assertions_symbolic": tot["obligations"], "assertions_proved_unsat": tot["proved"], "assertions_constant_on_path": tot["concrete"],
                       "solver_time_s": round(tot["solver_s"], 3), "functions_encoded": sorted(funcs)[:400], "harnesses": hres, "inconclusive": incon, "notes": notes},
          "assumptions": P.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    for n in notes:
        log("NOTE", n)
    for label, rp in viols:
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  violated: %s" % label)
    if not viols:
        print("OK property=%s paths=%d queries=%d exhausted=%s inconclusive=%d wall=%.0fs" % (pid, tot["paths"], tot["queries"], exhausted, sum(incon.values()), time.time() - t0))
    return 1 if viols else 0


COMMON_ASSUMPTIONS = [
    "symbolic doubles range over the stated dyadic grid and interval; values off the grid are outside the claim",
    "double arithmetic is encoded over the reals: exact where the operands' grid and magnitude make it exact, otherwise with an arbitrary rounding error of at most 2^-53 relative per operation",
    "strings, nuclide ids and container shapes are as constructed by the harness",
    "code compiled into libraries that are not part of the repository (libstdc++, sqlite, libxml, COIN) runs concretely on the path's values",
]


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == "setup":
        build_engine()
        for kind in ("sym", "plain"):
            for hn in sorted(HARNESSES):
                build_lib(kind, HARNESSES[hn].get("instrument", ()))
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for f in [ex.submit(build_harness, hn, kind) for hn in sorted(HARNESSES)]:
                    f.result()
        return 0
    if a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        try:
            return check(a[1], tier)
        except BuildError as e:
            print("ERROR the tree does not build: %s" % e)
            return 2
    if a[0] == "replay":
        r = json.load(open(a[1]))
        exe = build_harness(r["harness"], "plain")
        bad, text = replay_vals(exe, r["inputs"], r["tier"])
        print(text)
        print("REPRODUCED" if bad else "NOT REPRODUCED")
        return 1 if bad else 0
    if a[0] == "run":
        ti = 1 if "-t" in a else 0
        dl = float(a[a.index("-d") + 1]) if "-d" in a else None
        r = explore(a[1], ti, int(os.environ.get("VERIF_SEED", "1")), dl)
        exe = r.pop("exe")
        fs = functions_of(exe, r.pop("sites"))
        vs = r.pop("violations")
        r["n_functions"] = len(fs)
        if "-f" in a:
            print("\n".join(fs))
        r.pop("samples")
        dv = r.pop("divergences")
        r["assert_labels"] = len(r["assert_labels"])
        print(json.dumps(r, indent=None))
        if "-D" in a:
            print(dv)
        seen = {}
        for v in vs:
            seen.setdefault(v["label"], []).append(v)
        for l, x in seen.items():
            ok = None
            for v in x[:3]:
                bad, text = replay_vals(build_harness(a[1], "plain"), v["inputs"], ti)
                if bad:
                    ok = text
                    break
            print("CAND %s x%d %s" % (l, len(x), "REPRODUCED" if ok else "not reproduced"))
            print((ok or text)[-1500:])
        return 0
    return 2


if __name__ == "__main__":
    sys.exit(main())
