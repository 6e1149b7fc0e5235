#!/usr/bin/env python3
"""Decide one property of /repo by symbolic execution of its real code.

usage: check.py PROPERTY [--tier quick|thorough] [--only ENTRY] [--keep DIR] [-v]

Every run compiles /repo's working tree to LLVM bitcode and to a sanitized
native library, runs the property's harnesses through the engine (symx), replays
every counterexample natively and reports only what reproduces."""
import concurrent.futures as cf, glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "bin"))
from props import PR
from config import CHECKS  # noqa: E402
REPO = os.environ.get("VF_REPO", "/repo")
CLANG, OPT, LINK, SYMX = "/usr/bin/clang-18", "/usr/bin/opt-18", "/usr/bin/llvm-link-18", os.path.join(VERIF, "build/symx")
NCPU = min(8, os.cpu_count() or 4)
COMMON = ["-std=gnu11", "-w", "-g", "-I" + REPO + "/includes", "-I" + VERIF + "/models", "-D__NO_CTYPE", "-U_FORTIFY_SOURCE", "-fno-builtin", "-DARGUS_REGEX"]
UB = "-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,unreachable,vla-bound,float-cast-overflow,return"
WRAPS = "malloc calloc realloc free reallocarray vasprintf asprintf secure_getenv strdup strndup exit abort getenv vfprintf fprintf printf vprintf puts fputs putchar fputc putc putchar_unlocked putc_unlocked fputc_unlocked fputs_unlocked fwrite perror pipe pipe2 dup dup2 dup3 close read write fcntl fflush fileno".split()

class BuildError(Exception): pass

def run(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def must(cmd):
    r = run(cmd)
    if r.returncode: raise BuildError(r.stdout[:3000])

class Build:
    def __init__(s, tmp, tier): s.tmp, s.tier = tmp, tier; s.lock = threading.Lock()
    def bc(s, src, extra=()):
        out = os.path.join(s.tmp, re.sub(r"\W", "_", src) + ".bc")
        must([CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-emit-llvm", "-c", src, "-o", out, UB, "-fsanitize-trap=all"] + COMMON + list(extra))
        return out
    def obj(s, src, extra=()):
        out = os.path.join(s.tmp, re.sub(r"\W", "_", src) + ".o")
        must([CLANG, "-O1", "-D__NO_INLINE__", "-c", src, "-o", out, "-fsanitize=address,undefined", "-fno-sanitize=function,alignment,pointer-overflow,nonnull-attribute", "-fno-sanitize-recover=all",
              "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"] + COMMON + list(extra))
        return out
    def all(s, harnesses):
        src = sorted(glob.glob(REPO + "/source/**/*.c", recursive=True))
        d = ["-DVF_THOROUGH=%d" % (s.tier == "thorough")]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            fb = [ex.submit(s.bc, x) for x in src + [VERIF + "/models/" + m for m in ("models.c", "vflib.c", "pcre2_model.c", "regex_sym.c", "fdmodel.c")]]
            fo = [ex.submit(s.obj, x) for x in src + [VERIF + "/models/" + m for m in ("native.c", "vflib.c", "pcre2_model.c", "fdmodel.c")]]
            hb = {h: ex.submit(s.bc, VERIF + "/harness/" + h + ".c", d) for h in harnesses}
            ho = {h: ex.submit(s.obj, VERIF + "/harness/" + h + ".c", d) for h in harnesses}
            libbc = [f.result() for f in fb]; libo = [f.result() for f in fo]
            wr = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
            def prog(h):
                l = os.path.join(s.tmp, h + ".l.bc"); p = os.path.join(s.tmp, h + ".p.bc")
                must([LINK, hb[h].result(), "-o", l] + libbc)
                must([OPT, "-passes=function(sroa,instsimplify,simplifycfg)", l, "-o", p])
                e = os.path.join(s.tmp, h + ".exe")
                must([CLANG, "-fsanitize=address,undefined", "-rdynamic", ho[h].result(), "-o", e] + libo + wr + ["-ldl", "-lm", "-lpcre2-8"])
                return p, e
            return dict(zip(harnesses, ex.map(prog, harnesses)))

def native(exe, entry, lines, tmp, fill="a5", timeout=25):
    fd, inp = tempfile.mkstemp(dir=tmp, suffix=".in"); os.close(fd)
    with open(inp, "w") as f: f.write("\n".join(l for l in lines) + "\n")
    res = inp[:-3] + ".res"
    env = {"PATH": "/usr/bin:/bin", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:exitcode=99:detect_stack_use_after_return=1:max_allocation_size_mb=2000:max_malloc_fill_size=1048576:malloc_fill_byte=%d" % int(fill, 16), "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99"}
    hang = False
    try:
        r = subprocess.run([exe, entry, inp, res, fill], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout, cwd=tmp, stdin=subprocess.DEVNULL)
        rc, out = r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired: rc, out, hang = -1, "", True
    if rc == -14: hang = True
    txt = open(res, errors="replace").read().split("\n") if os.path.exists(res) else []
    for p in (inp, res):
        if os.path.exists(p): os.unlink(p)
    return dict(rc=rc, out=out, hang=hang, res=txt)

def confirmed(v, n):
    if any(l.startswith(("desync", "assume-failed")) for l in n["res"]): return False
    if v["kind"] == "assert": return ("assert " + v["msg"]) in n["res"] or crashed(n)
    return crashed(n) or n["hang"] or any(l.startswith(("assert ", "modelled-error")) for l in n["res"])

def crashed(n): return n["rc"] != 0 and not n["hang"] and n["rc"] != 3

def merge(files):
    t = None
    for p in files:
        if not os.path.exists(p): continue
        try: d = json.load(open(p, errors="replace"))
        except ValueError: continue
        if t is None: t = d; t["violations"] = {v["key"]: v for v in d["violations"]}; t["functions"] = {f["name"]: f for f in d["functions"]}; continue
        t["complete"] &= d["complete"]
        for k in ("paths", "dropped", "instrs", "decisions", "asserts", "asserts_solver", "errs", "table_decisions"): t[k] += d[k]
        for k in ("max_vars", "max_path_instrs", "wall"): t[k] = max(t[k], d[k])
        for k in d["z3"]: t["z3"][k] += d["z3"][k]
        for v in d["violations"]:
            if v["key"] in t["violations"]: t["violations"][v["key"]]["count"] += v["count"]
            else: t["violations"][v["key"]] = v
        for k in ("reached", "assert_hits"):
            for a, b in d[k].items(): t[k][a] = t[k].get(a, 0) + b
        t["unsupported"] = sorted(set(t["unsupported"]) | set(d["unsupported"]))
        t["samples"] += d["samples"]
        for f in d["functions"]:
            g = t["functions"].get(f["name"])
            if g is None: t["functions"][f["name"]] = f
            elif len(g["bits"]) == len(f["bits"]): g["bits"] = "".join("1" if "1" in (a, b) else "0" for a, b in zip(g["bits"], f["bits"]))
            elif not g["bits"]: t["functions"][f["name"]] = f
    return t

def main():
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get("VERIF_TIER", "quick"); only = None; keep = None; verbose = "-v" in a
    for i, x in enumerate(a):
        if x == "--tier": tier = a[i + 1]
        if x == "--only": only = a[i + 1]
        if x == "--keep": keep = a[i + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = CHECKS[prop]; jobs = [j for j in cfg["jobs"] if (only is None or j["entry"] == only) and (tier == "thorough" or not j.get("thorough_only"))]
    t0 = time.time()
    tmp = keep or tempfile.mkdtemp(prefix="vf-" + prop + "-", dir=os.environ.get("TMPDIR", "/tmp"))
    os.makedirs(tmp, exist_ok=True)
    try: return go(prop, tier, seed, cfg, jobs, tmp, t0, verbose, only)
    finally:
        if not keep: shutil.rmtree(tmp, ignore_errors=True)

def go(prop, tier, seed, cfg, jobs, tmp, t0, verbose, only):
    if not os.path.exists(SYMX):
        r = run([VERIF + "/engine/build.sh"])
        if r.returncode: print(r.stdout); return 2
    try: progs = Build(tmp, tier).all(sorted({j["file"] for j in jobs}))
    except BuildError as e:
        print("the code under test or a harness does not compile for analysis:\n" + str(e)); return 2
    tb = time.time() - t0
    # ---- run the engine; jobs share the processors
    sem = threading.Semaphore(NCPU); big = threading.Lock(); results = {}
    limit_all = 420 if tier == "quick" else 3000
    def one(k, j):
        w = min(NCPU, j.get("workers", 2)); lim = j.get("time", 40) if tier == "quick" else j.get("time_thorough", 6 * j.get("time", 40))
        with big:
            for _ in range(w): sem.acquire()
        try:
            lim = max(5, min(lim, limit_all - (time.time() - t0)))
            out = os.path.join(tmp, "out%d" % k)
            cmd = [SYMX, progs[j["file"]][0], "--entry", j["entry"], "--out", out, "--workers", str(w), "--time", str(lim), "--seed", str(seed), "--samples", str(j.get("samples", 3)), "--max-instr", str(j.get("max_instr", 3000000))]
            for c, v in j.get("cases", {}).items(): cmd += ["--case", "%s=%d" % (c, v)]
            try: r = run(cmd, timeout=lim + 90)
            except subprocess.TimeoutExpired: r = None; run(["pkill", "-f", out])
            m = merge([out + "." + str(i) for i in range(w)])
            results[k] = (j, m, r.stdout if r else "engine timeout", r.returncode if r else -1)
        finally:
            for _ in range(w): sem.release()
    with cf.ThreadPoolExecutor(32) as ex: list(ex.map(lambda kj: one(*kj), enumerate(jobs)))
    # ---- replay
    known = [k for k in json.load(open(VERIF + "/known_findings.json"))["findings"] if k["property"] == prop]
    viol, unconf, hit = [], [], {}; replays = 0; validated = 0; mism = []; problems = []
    tasks = []
    for k in sorted(results):
        j, m, log, rc = results[k]
        if m is None or (rc != 0 and rc != -1): problems.append("%s: engine ended with %s: %s" % (j["entry"], rc, log[-300:]))
        if m is None: continue
        if verbose and log.strip(): print(log[-3000:])
        for v in m["violations"].values(): tasks.append(("v", j, v))
        for s in m["samples"][:24]: tasks.append(("s", j, s))
    def rep(t):
        kind, j, x = t; exe = progs[j["file"]][1]
        if kind == "s": return native(exe, j["entry"], x["in"], tmp)
        for fill in ("a5", "00", "ff"):
            n = native(exe, j["entry"], x["inputs"], tmp, fill)
            if confirmed(x, n): return n
        return n
    with cf.ThreadPoolExecutor(NCPU) as ex: outs = list(ex.map(rep, tasks))
    for (kind, j, x), n in zip(tasks, outs):
        if kind == "s":
            got = [l for l in n["res"] if l.startswith("o ")]
            if n["rc"] == 0 and got == x["obs"] and "end ok" in n["res"]: validated += 1
            else: mism.append(dict(entry=j["entry"], inputs=x["in"], engine=x["obs"], native=[l for l in n["res"] if l][-12:], rc=n["rc"], out=n["out"][-600:]))
        else:
            replays += 1
            if confirmed(x, n):
                kf = [f for f in known if f["entry"] == j["entry"] and f["key"] == x["key"]]
                if kf: hit[kf[0]["id"]] = kf[0]
                else: viol.append((j, x, n))
            else: unconf.append((j, x, n))
    # ---- report
    rdir = os.path.join(VERIF, "build", "replay", prop); shutil.rmtree(rdir, ignore_errors=True)
    tot = dict(paths=0, dropped=0, instrs=0, decisions=0, asserts=0, asserts_solver=0, table_decisions=0); z3 = {}; harn = []; funcs = {}; samples = []
    for k in sorted(results):
        j, m, log, rc = results[k]
        if m is None: continue
        for x in tot: tot[x] += m[x]
        for x, y in m["z3"].items(): z3[x] = round(z3.get(x, 0) + y, 3)
        missing = [l for l in m["labels"] if l not in m["reached"]]
        harn.append(dict(entry=j["entry"], cases=j.get("cases", {}), bounds=j.get("bounds", ""), exhausted_within_bounds=bool(m["complete"]), paths=m["paths"], assumed_away=m["dropped"], seconds=round(m["wall"], 1), witnesses_not_reached=missing, engine_limits=m["unsupported"],
                         symbolic_values_on_one_path=m["max_vars"], assertions={q: c for q, c in sorted(m["assert_hits"].items())}))
        if verbose or only:
            print("%-34s %s paths=%d dropped=%d instr=%.1fM z3=%d/%.1fs wall=%.1f maxinstr=%d%s%s" % (j["entry"] + "".join(" %s=%d" % c for c in j.get("cases", {}).items()), "complete" if m["complete"] else "INCOMPLETE", m["paths"], m["dropped"], m["instrs"] / 1e6, m["z3"]["queries"], m["z3"]["seconds"], m["wall"], m["max_path_instrs"],
                  " MISSING " + ",".join(missing) if missing else "", " LIMITS " + "; ".join(m["unsupported"]) if m["unsupported"] else ""))
        for f in m["functions"].values():
            g = funcs.setdefault((f["name"], f["file"]), f)
            if len(g["bits"]) == len(f["bits"]): g["bits"] = "".join("1" if "1" in (p, q) else "0" for p, q in zip(g["bits"], f["bits"]))
        for s in m["samples"][:1]: samples.append(dict(harness=j["entry"], inputs=s["in"], observed=s["obs"]))
    fl = sorted(({"function": n, "file": os.path.relpath(f, REPO) if f.startswith("/") else f, "instructions": x["total"], "covered": x["bits"].count("1")} for (n, f), x in funcs.items()), key=lambda d: (d["file"], d["function"]))
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "model_checking"), wall_s=round(time.time() - t0, 1), violations=len(viol),
              assumptions=cfg.get("assumptions", []) + ["the C library is replaced by the models in /verif/models/models.c", "allocation sizes and string lengths stay within the stated bounds"],
              coverage=dict(states=tot["paths"] + tot["decisions"], transitions=tot["instrs"], traces_validated_against_impl=validated, samples=samples[:12] or [dict(note="no sample")],
                            exhaustive=bool(harn) and all(h["exhausted_within_bounds"] for h in harn),
                            meaning="states = nodes of the execution tree (path ends and branch points feasible both ways); transitions = IR instructions of the real code executed symbolically; each path stands for every input satisfying its path condition",
                            paths=tot["paths"], branch_points=tot["decisions"], assertions_evaluated=tot["asserts"], assertions_sent_to_z3=tot["asserts_solver"], z3=z3, byte_conditions_decided_by_domain_table=tot["table_decisions"],
                            counterexamples_replayed=replays, counterexamples_not_reproduced=[dict(entry=j["entry"], key=x["key"]) for j, x, n in unconf], native_trace_mismatches=len(mism), build_seconds=round(tb, 1), problems=problems,
                            bounds=PR.get(prop, {}).get("bounds", ""), outside=PR.get(prop, {}).get("outside", ""), harnesses=harn, functions_encoded=fl))
    if not only:
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % prop, "w") as f: json.dump(ev, f, indent=1)
    for f in hit.values(): print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for p in problems: print("problem: " + p)
    if verbose:
        for j, x, n in unconf: print("NOT REPRODUCED", j["entry"], x["key"], x["msg"], x["inputs"], [l for l in n["res"] if l][-4:], n["rc"], n["out"][-300:])
        for m in mism: print("MISMATCH", json.dumps(m)[:1500])
    elif mism or unconf: print("note: %d native trace mismatches, %d candidates not reproduced (see the evidence file)" % (len(mism), len(unconf)))
    print("%s %s: %d paths, %d branch points, %d assertions, z3 %s queries %.1fs, %d traces validated, %s, %.0fs" % (prop, tier, tot["paths"], tot["decisions"], tot["asserts"], z3.get("queries", 0), z3.get("seconds", 0), validated, "bounds exhausted" if ev["coverage"]["exhaustive"] else "time budget reached in: " + ",".join(h["entry"] for h in harn if not h["exhausted_within_bounds"]), time.time() - t0))
    for i, (j, x, n) in enumerate(viol):
        os.makedirs(rdir, exist_ok=True); p = os.path.join(rdir, "%s-%d.txt" % (j["entry"], i))
        with open(p, "w") as f:
            f.write("property %s\nharness  /verif/harness/%s.c %s\nbroken   %s\nat       %s\nnative   rc=%s%s\n\ninputs (model found by the solver):\n%s\n\nnative result:\n%s\n%s\n" % (prop, j["file"], j["entry"], x["msg"], x["trace"], n["rc"], " hang" if n["hang"] else "", "\n".join(x["inputs"]), "\n".join(n["res"]), n["out"][:6000]))
        print("VIOLATION property=%s replay=%s" % (prop, p)); print("  %s: %s [%s]" % (j["entry"], x["msg"], x["trace"]))
        if verbose: print("   inputs:", x["inputs"])
    return 1 if viol else 0

if __name__ == "__main__": sys.exit(main())
