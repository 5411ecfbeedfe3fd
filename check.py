#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo's working tree:
  1. builds the library from /repo (outside the repository, keyed by content),
  2. runs TLC on the design specification that belongs to the property,
  3. lets an explorer query the real code (inputs come from the words TLC printed
     and from structured random generation) and record answers,
  4. lets TLC check the recorded answers against the specification.
Exit 0: held.  Exit 1 and a VIOLATION line: rejected (a repeated run rejects again).
Anything else is an error of the check."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, ".build")
SPEC = os.path.join(HERE, "spec")
HAR = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = "g++"
FLAGS = ["-O2", "-std=c++17", "-fno-omit-frame-pointer"]
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 8

sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from show import dec

class CheckError(Exception): pass
class Violation(Exception):
    def __init__(self, what, replay_data): super().__init__(what); self.what = what; self.data = replay_data

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]
def tree(*roots):
    out = []
    for r in roots:
        for d, _, fs in os.walk(r):
            out += [os.path.join(d, f) for f in fs if f.endswith((".cpp", ".hpp", ".h", ".java", ".data"))]
    return out

# ------------------------------------------------------------------ building
def compile_all(jobs):
    """jobs: list of (command, output)"""
    def one(j):
        cmd, out = j
        if os.path.exists(out): return None
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([a if a != out else tmp for a in cmd])
        if r.returncode: return "%s\n%s" % (" ".join(cmd), r.stdout[-4000:])
        os.replace(tmp, out)
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs: raise CheckError("build failed: " + errs[0])
def lib_sources(root):
    return [f for f in tree(os.path.join(root, "src")) if f.endswith(".cpp") and not f.endswith("steering_functions_node.cpp")]
def lib_jobs(root, side, flags, objdir):
    os.makedirs(objdir, exist_ok=True)
    fl = FLAGS + flags + ["-I" + os.path.join(root, "include"), "-I/usr/include/eigen3", "-I" + HAR]
    if side == "guide": fl = ["-Dsteering=steering_guide"] + fl
    jobs, objs = [], []
    srcs = sorted(lib_sources(root) + [os.path.join(HAR, "api_planners.cpp")], key=lambda f: -os.path.getsize(f))
    for f in srcs:
        o = os.path.join(objdir, side + "_" + os.path.relpath(f, "/").replace("/", "_") + ".o")
        x = ["-DSIDE=" + side] if f.endswith("api_planners.cpp") else []
        jobs.append(([CXX] + fl + x + ["-c", f, "-o", o], o)); objs.append(o)
    return jobs, objs
def build(prog, guide=False, prims=0, flags=(), libflags=(), tag="", sut=True, extra=(), ldflags=()):
    """build harness/<prog>.cpp with the library; returns the executable"""
    flags = list(flags); libflags = list(libflags)
    key = digest(tree(os.path.join(REPO, "src"), os.path.join(REPO, "include"), HAR) + [os.path.abspath(__file__)], str((flags, libflags, tag)))
    d = os.path.join(BUILD, "c-" + key); os.makedirs(d, exist_ok=True)
    jobs, objs = [], []
    if sut:
        j, o = lib_jobs(REPO, "sut", libflags, d); jobs += j; objs += o
    if guide:
        g = os.path.join(HERE, "guide_src")
        gd = os.path.join(BUILD, "g-" + digest(tree(g, HAR), str(FLAGS)))
        j, o = lib_jobs(g, "guide", [], gd); jobs += j; objs += o
    if prims:
        o = os.path.join(d, "api_prims%d.o" % prims)
        jobs.append(([CXX] + FLAGS + libflags + ["-DPRIMS=%d" % prims] + ["-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-I" + HAR, "-c", os.path.join(HAR, "api_prims.cpp"), "-o", o], o)); objs.append(o)
    for x in extra:
        o = os.path.join(d, x + ".o"); objs.append(o)
        jobs.append(([CXX] + FLAGS + flags + ["-I" + HAR, "-pthread", "-c", os.path.join(HAR, x + ".cpp"), "-o", o], o))
    mo = os.path.join(d, prog + ".o")
    jobs.insert(0, ([CXX] + FLAGS + flags + ["-I" + HAR, "-I" + os.path.join(REPO, "include"), "-I/usr/include/eigen3", "-pthread", "-c", os.path.join(HAR, prog + ".cpp"), "-o", mo], mo))
    compile_all(jobs)
    exe = os.path.join(d, prog + ("%d" % prims if prims else ""))
    compile_all([([CXX, "-pthread"] + flags + list(ldflags) + ["-o", exe, mo] + objs, exe)])
    return exe
WRAP = ["-Wl," + ",".join("--wrap=" + f for f in ("memcpy", "memmove", "memset", "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort", "pthread_mutex_lock", "pthread_mutex_unlock"))]
def build_hist(instrumented):
    return build("xhist", libflags=["-fsanitize=thread"] if instrumented else [], tag="rec", extra=["rec"], ldflags=WRAP)
def java_classes():
    src = [os.path.join(SPEC, "java", f) for f in os.listdir(os.path.join(SPEC, "java")) if f.endswith(".java")]
    d = os.path.join(BUILD, "j-" + digest(src))
    if not os.path.exists(os.path.join(d, "ok")):
        tmp = d + ".%d" % os.getpid(); os.makedirs(tmp, exist_ok=True)
        r = sh(["javac", "-nowarn", "-cp", JARS, "-d", tmp] + src)
        if r.returncode: raise CheckError("javac: " + r.stdout[-2000:])
        open(os.path.join(tmp, "ok"), "w").close()
        try: os.rename(tmp, d)
        except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return d

# ----------------------------------------------------------------------- TLC
class Tlc:
    """result of a run: ok, generated, distinct, depth, out, inv (violated invariant), i (case)"""
def tlc(module, cfg, env=None, workers=None, timeout=600, mem="6g", extra=()):
    cp = java_classes() + ":" + JARS
    md = os.path.join(RUN, "md-%d" % time.time_ns()); os.makedirs(md)
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss16m", "-cp", cp, "tlc2.TLC", "-workers", str(workers or NCPU),
           "-metadir", md, "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ); e.update(env or {}); e.pop("JAVA_TOOL_OPTIONS", None)
    try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, cwd=md)
    except subprocess.TimeoutExpired: raise CheckError("TLC timeout on " + module)
    finally: shutil.rmtree(md, ignore_errors=True)
    t = Tlc(); t.out = r.stdout; t.rc = r.returncode
    m = re.search(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found", r.stdout)
    t.generated, t.distinct = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    m = re.search(r"depth of the complete state graph search is (\d+)", r.stdout); t.depth = int(m.group(1)) if m else 0
    t.ok = r.returncode == 0 and "No error has been found" in r.stdout
    t.inv = t.i = None
    if not t.ok:
        m = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated|Temporal properties were violated|Deadlock reached", r.stdout)
        if not m or r.returncode not in (11, 12, 13):
            raise CheckError("TLC failed on %s (%d): %s" % (module, r.returncode, r.stdout[-3000:]))
        t.inv = next((g for g in m.groups() if g), m.group(0))
        k = re.findall(r"^(?:/\\ )?i = (\d+)$", r.stdout, re.M); t.i = int(k[-1]) if k else None
    return t

STATS = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "queries": 0, "models": []}
def note_model(name, t, what):
    STATS["states"] += t.distinct; STATS["transitions"] += t.generated
    STATS["models"].append({"spec": name, "states_generated": t.generated, "distinct": t.distinct, "depth": t.depth, "what": what})
def model(module, cfg=None, what="", **kw):
    """an exhaustive run of a design specification (no code involved)"""
    t = tlc(module, cfg or module + ".cfg", **kw)
    if not t.ok: raise CheckError("design model %s violates %s\n%s" % (module, t.inv, t.out[-3000:]))
    note_model(module, t, what)
    return t
def words():
    t = model("Words", what="grammar of all path families of all planners, exhaustive")
    f = os.path.join(RUN, "words.txt"); n = 0
    with open(f, "w") as o:
        for l in sorted(x for x in t.out.splitlines() if x.startswith('"WORD')):
            r = json.loads(json.loads(l)[5:]); n += 1
            o.write(r["kind"] + " " + "".join(r["fam"]) + " " + " ".join("%s,%d,%d" % tuple(k) for k in r["word"]) + "\n")
    if n < 1000: raise CheckError("too few words")
    STATS["words"] = n
    return f

def explore(exe, args, secs, timeout=None):
    """run an explorer; a crash or hang of the code under test is a violation"""
    crash = os.path.join(RUN, "crash.json")
    cmd = [exe] + [str(a) for a in args] + ["--secs", str(secs), "--crash", crash]
    for attempt in (1, 2):
        if os.path.exists(crash): os.remove(crash)
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout or secs + 240)
        except subprocess.TimeoutExpired: raise CheckError("explorer timeout")
        if r.returncode == 0:
            return json.loads(r.stdout.strip().splitlines()[-1])
        if r.returncode in (42, 43) and os.path.exists(crash):
            if attempt == 1: first = open(crash).read(); continue
            raise Violation("the code under test %s while answering a query: %s" % ("crashed" if r.returncode == 42 else "did not return", r.stderr[-400:].strip()),
                            {"crash": json.loads(open(crash).read() or "{}"), "first": json.loads(first or "{}"), "cmd": cmd})
        raise CheckError("explorer failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    raise CheckError("crash not repeated: " + first)

def add_samples(cases, n):
    pick = {0, n // 2, n - 1}
    with open(cases) as f:
        for k, l in enumerate(f):
            if k in pick and len(STATS["samples"]) < 12:
                d = json.dumps(dec(json.loads(l)))
                STATS["samples"].append(json.loads(d) if len(d) < 4000 else d[:4000] + "...")
def validate(module, cfg, cases, what, env=None, timeout=600, accept=False):
    """TLC checks the recorded cases; a rejected case is checked once more on its own.
    accept: a case holds if a behaviour of the specification consumes it (printed as ACC)"""
    n = sum(1 for _ in open(cases))
    if n == 0: raise CheckError("no cases recorded for " + module)
    e = {"CASES": cases}; e.update(env or {})
    add_samples(cases, n)
    t = tlc(module, cfg, env=e, timeout=timeout)
    if t.ok and accept:
        acc = set(map(int, re.findall(r'"ACC (\d+)"', t.out))); miss = [k for k in range(1, n + 1) if k not in acc]
        if miss:
            line = open(cases).read().splitlines()[miss[0] - 1]
            one = os.path.join(RUN, "one.ndjson"); open(one, "w").write(line + "\n"); e["CASES"] = one
            if '"ACC 1"' in tlc(module, cfg, env=e, timeout=timeout).out: raise CheckError("rejection not repeated for case %d" % miss[0])
            st = tlc(module, module + ".stuck.cfg", env=e, timeout=timeout)
            raise Violation("no behaviour of %s.tla explains a recorded answer of the code" % module,
                            {"spec": module, "cfg": cfg, "case": json.loads(line), "tlc": st.out[st.out.find("Error:"):][-6000:]})
    if t.ok:
        note_model(module + " (" + cfg + ")", t, what); STATS["traces_validated_against_impl"] += n
        return t
    if t.i is None: raise CheckError("rejected, but no case number: " + t.out[-2000:])
    line = open(cases).read().splitlines()[t.i - 1]
    one = os.path.join(RUN, "one.ndjson"); open(one, "w").write(line + "\n")
    e["CASES"] = one
    t2 = tlc(module, cfg, env=e, timeout=timeout)
    if t2.ok: raise CheckError("rejection not repeated for case %d" % t.i)
    tr = t2.out[t2.out.find("Error:"):][:6000]
    raise Violation("%s of %s.tla rejects a recorded answer of the code" % (t2.inv, module),
                    {"spec": module, "cfg": cfg, "case": json.loads(line), "tlc": tr, "env": {k: v for k, v in (env or {}).items()}})


CHECKS = {}
def check(*ids):
    def deco(f):
        for i in ids: CHECKS[i] = f
        return f
    return deco
ASSUME = ["IEEE double arithmetic and libm of this machine", "g++ -O2 build of /repo, assertions enabled"]

# ------------------------------------------------------------------- C01..C06
@check("C01", "C02", "C03", "C04", "C05", "C06")
def paths(prop, tier):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fw = ex.submit(words); fb = ex.submit(build, "xpath")
        w, exe = fw.result(), fb.result()
    secs, top, rnd = (18, 300, 500) if tier == "quick" else (240, 2000, 4000)
    out = os.path.join(RUN, "cases.ndjson")
    s = explore(exe, ["--prop", prop, "--words", w, "--seed", SEED, "--out", out, "--top", top, "--rnd", rnd], secs)
    STATS["queries"] += s["queries"]; STATS["worst_ratio_of_tolerance"] = s["worst"]
    validate("Path", "Path.%s.cfg" % prop, out, "answers of the planners driven segment by segment")

# ------------------------------------------------------------------- C07..C11
def seen_known(prop, t):
    n = len(set(re.findall(r'"KNOWN (\d+)"', t.out))); STATS["known_finding_cases"] = n
    if n: known(prop)
@check("C07", "C08", "C09")
def shortest(prop, tier):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fw = ex.submit(words); fb = ex.submit(build, "xopt", guide=True)
        w, exe = fw.result(), fb.result()
    secs, top, rnd = {"C07": (15, 500, 100), "C08": (15, 400, 40), "C09": (35, 150, 12)}[prop]
    if tier != "quick": secs, top, rnd = {"C07": (150, 4000, 2000), "C08": (150, 2000, 500), "C09": (300, 1000, 150)}[prop]
    out = os.path.join(RUN, "cases.ndjson")
    s = explore(exe, ["--prop", prop, "--words", w, "--seed", SEED, "--out", out, "--top", top, "--rnd", rnd], secs)
    STATS["queries"] += s["queries"]; STATS["worst_ratio_of_tolerance"] = s["worst"]
    if prop == "C09":
        t = validate("Witness", "Witness.cfg", out, "distances against witness paths which the specification verifies", timeout=850)
        seen_known(prop, t)
    else:
        validate("Shortest", "Shortest.%s.cfg" % prop, out, "distances against all words of the family, solved in the specification", timeout=850)
@check("C10", "C11")
def relations(prop, tier):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fw = ex.submit(words); fb = ex.submit(build, "xrel")
        w, exe = fw.result(), fb.result()
    secs, top, rnd = (30, 50, 50) if tier == "quick" else (300, 500, 500)
    out = os.path.join(RUN, "cases.ndjson")
    s = explore(exe, ["--prop", prop, "--words", w, "--seed", SEED, "--out", out, "--top", top, "--rnd", rnd], secs)
    STATS["queries"] += s["queries"]; STATS["worst_ratio_of_tolerance"] = s["worst"]
    t = validate("Relations", "Relations.cfg", out, "pairs of related queries", timeout=850)
    if prop == "C10": seen_known(prop, t)

# ------------------------------------------------------------------- C12..C14
def lattice(cfg, name, what):
    """every control sequence over a small alphabet, enumerated by TLC"""
    t = model("Sampler", cfg, what=what, timeout=800)
    f = os.path.join(RUN, name); n = 0
    with open(f, "w") as o:
        for l in sorted(x for x in t.out.splitlines() if x.startswith('"SEQ')):
            r = json.loads(json.loads(l)[4:]); n += 1
            o.write("%d %s\n" % (r["h"], " ".join("%d,%d,%d,%d" % tuple(q) for q in r["cs"])))
    if n < 100: raise CheckError("too few sequences")
    STATS["lattice_sequences"] = STATS.get("lattice_sequences", 0) + n
    return f
@check("C12", "C13", "C14")
def samples(prop, tier):
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        fw = ex.submit(words); fb = ex.submit(build, "xsample")
        w, exe = fw.result(), fb.result()
    q = tier == "quick"
    if prop == "C12":
        for n, cfg in enumerate(["Sampler.quick.cfg"] if q else ["Sampler.quick.cfg", "Sampler.three.cfg", "Sampler.deep.cfg"]):
            lf = lattice(cfg, "lattice%d.txt" % n, "every control sequence over a small alphabet: the guarantees of sampling")
            out = os.path.join(RUN, "lattice%d.ndjson" % n)
            s = explore(exe, ["--prop", prop, "--lattice", lf, "--seed", SEED, "--out", out], 60)
            STATS["queries"] += s["queries"]
            validate("SampleTrace", "SampleTrace.cfg", out, "sequences enumerated by Sampler.tla, replayed into integrate()", timeout=800, accept=True)
    mod = {"C12": "SampleTrace", "C13": "InterpTrace", "C14": "BeliefTrace"}[prop]
    top, rnd, ms = {"C12": (40, 40, 120), "C13": (60, 120, 120), "C14": (20, 30, 40)}[prop]
    secs = 14 if q else 150
    if not q: top, rnd = 5 * top, 6 * rnd
    out = os.path.join(RUN, "cases.ndjson")
    s = explore(exe, ["--prop", prop, "--words", w, "--seed", SEED, "--out", out, "--top", top, "--rnd", rnd, "--maxstates", ms], secs)
    STATS["queries"] += s["queries"]; STATS["worst_ratio_of_tolerance"] = s["worst"]
    validate(mod, mod + ".cfg", out, "planned and arbitrary control sequences, state by state", timeout=850, accept=prop != "C13")

# ------------------------------------------------------------------- C15, C16
def histories(cfg):
    t = model("History", cfg, what="every history of operations on two planner objects up to a length")
    f = os.path.join(RUN, "hist.txt"); ls = set()
    for l in t.out.splitlines():
        if l.startswith('"HIST'): ls.add(" ".join("%s%d,%d" % ({"ask": "q"}.get(o, o[0]), s, x) for o, s, x in json.loads(json.loads(l)[4:])))
    if len(ls) < 1000: raise CheckError("too few histories")
    with open(f, "w") as o: o.write("\n".join(sorted(ls)) + "\n")
    STATS["histories"] = len(ls)
    return f
SAN = ["-fsanitize=address,bounds", "-fno-sanitize-recover=bounds"]
@check("C15")
def purity(prop, tier):
    q = tier == "quick"
    exes = [build_hist(False), build_hist(True)]
    w, h = words(), histories("History.deep.cfg")
    out = os.path.join(RUN, "pure.ndjson")
    s = explore(exes[0], ["--mode", "pure", "--hist", h, "--words", w, "--seed", SEED, "--out", out, "--top", 10, "--rnd", 150 if q else 3000], 15 if q else 240)
    STATS["queries"] += s["queries"]; STATS["deviating_histories"] = s["suspicious"]
    validate("Purity", "Purity.cfg", out, "histories replayed into the real planners, answers compared with a pristine process")
    out = os.path.join(RUN, "race.ndjson")
    s = explore(exes[1], ["--mode", "race", "--words", w, "--seed", SEED, "--out", out, "--top", 10, "--rnd", 100 if q else 1500], 12 if q else 180)
    STATS["queries"] += s["queries"]; STATS["footprints"] = s["signatures"]
    validate("Race", "Race.cfg", out, "recorded shared accesses of two queries, every interleaving")
@check("C16")
def ownership(prop, tier):
    q = tier == "quick"
    exes = [build_hist(True), build("xasan", flags=SAN, libflags=SAN, tag="asan")]
    w, h = words(), histories("History.deep.cfg")
    out = os.path.join(RUN, "own.ndjson")
    s = explore(exes[0], ["--mode", "own", "--hist", h, "--words", w, "--seed", SEED, "--out", out, "--top", 10, "--rnd", 120 if q else 1000], 15 if q else 240)
    STATS["queries"] += s["queries"]; STATS["allocation_patterns"] = s["signatures"]
    validate("Ownership", "Ownership.cfg", out, "allocations, uses and releases recorded along histories", timeout=850)
    out = os.path.join(RUN, "asan.ndjson"); os.environ["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0"
    s = explore(exes[1], ["--words", w, "--seed", SEED, "--out", out, "--rnd", 100], 15 if q else 240)
    STATS["queries"] += s["queries"]
    validate("Ownership", "Ownership.cfg", out, "memory in use after repetitions, in an address-checking build")

# ------------------------------------------------------------------- C17..C19
@check("C17", "C18", "C19", "C20")
def primitives(prop, tier):
    exe = build("xprims", prims=int(prop[1:]))
    mod = {"C17": "Prims", "C18": "Turns", "C19": "Jacobian", "C20": "Algebra"}[prop]
    secs, top, rnd = (10, 400, 800) if tier == "quick" else (120, 4000, 8000)
    out = os.path.join(RUN, "cases.ndjson")
    s = explore(exe, ["--prop", prop, "--seed", SEED, "--out", out, "--top", top, "--rnd", rnd], secs)
    STATS["queries"] += s["queries"]; STATS["worst_ratio_of_tolerance"] = s["worst"]
    t = validate(mod, mod + ".cfg", out, "recorded calls of the primitives")
    if prop == "C19": seen_known(prop, t)
def known(prop):
    for l in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=%s (.*)" % prop, l)
        if m: print("KNOWN-FINDING: property=%s %s" % (prop, m.group(1)))

# ----------------------------------------------------------------------- main
def main():
    global RUN
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True); java_classes(); print("ready"); return
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    RUN = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid())); os.makedirs(RUN, exist_ok=True)
    rc, viol = 0, []
    try:
        CHECKS[prop](prop, tier)
    except Violation as v:
        rc = 1
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(HERE, "evidence", "replay", "%s-%d.json" % (prop, int(time.time())))
        d = dict(v.data); d["what"] = v.what
        try: d["decoded"] = dec(d.get("case", d.get("crash", {})))
        except Exception: pass
        json.dump(d, open(rp, "w"), indent=1)
        viol.append({"what": v.what, "replay": rp})
        print(v.what); print("VIOLATION property=%s replay=%s" % (prop, rp))
    except CheckError as e:
        print("ERROR of the check %s: %s" % (prop, e), file=sys.stderr); rc = 3
    finally:
        shutil.rmtree(RUN, ignore_errors=True)
        prune()
    if rc in (0, 1):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": STATS,
              "wall_s": round(time.time() - t0, 1), "assumptions": ASSUME, "violations": len(viol)}
        if viol: ev["violation_details"] = viol
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    sys.stdout.flush()
    sys.exit(rc)
def prune():
    """keep the newest builds only"""
    try:
        ds = sorted((os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("c-")), key=os.path.getmtime)
        for d in ds[:-60]: shutil.rmtree(d, ignore_errors=True)
    except OSError: pass
if __name__ == "__main__": main()
