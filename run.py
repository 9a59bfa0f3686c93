#!/usr/bin/env python3
"""Solver-based checks of neco.  usage: run.py PROPERTY [--tier quick|thorough] | --replay FILE | --build

Every run: compile /repo's current neco.c and the property's harnesses to LLVM
bitcode, execute them symbolically (engine/, Z3), replay every counterexample
natively against the real compiled code, write evidence/<id>.json.
"""
import sys, os, json, subprocess, hashlib, time, re, glob, shutil, concurrent.futures as cf

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NECO_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
CLANG, LINK = "/usr/bin/clang-18", "/usr/bin/llvm-link-18"
sys.path.insert(0, V)
from checks import CHECKS  # noqa

BASEDEF = ["-DCOMAP_NSHARDS=1", "-DEVMAP_NSHARDS=1"]
COMMON = ["-O1", "-g", "-w", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin", "-U_FORTIFY_SOURCE"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def engine():
    src = sorted(glob.glob(V + "/engine/*"))
    d = digest(*[read(s) for s in src])
    out = f"{BUILD}/nsym-{d}"
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        for o in glob.glob(BUILD + "/nsym-*"):
            os.unlink(o)
        r = sh(["make", "-C", V + "/engine", "nsym", f"OUT={out}.tmp"])
        if r.returncode:
            print(r.stdout, r.stderr)
            sys.exit("cannot build the engine")
        os.rename(out + ".tmp", out)
    return out


class BuildError(Exception):
    pass


def must(cmd):
    r = sh(cmd)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stderr[-3000:])
    return r


def variant_src(variant, work):
    """The neco translation unit: the amalgamation, or neco.c + deps/ (NECO_NOAMALGA)."""
    return f"{REPO}/neco.c"


import threading
NECO_LOCK = threading.Lock()


def compile_neco(work, defs, variant):
    with NECO_LOCK:
        return compile_neco0(work, defs, variant)


def compile_neco0(work, defs, variant):
    tag = digest(variant, *defs)
    bc = f"{work}/neco-{tag}.bc"
    if not os.path.exists(bc):
        if variant == "deps":
            parts = []
            must([CLANG, *COMMON, "-c", "-emit-llvm", *BASEDEF, *defs, "-DNECO_NOAMALGA", f"-I{REPO}", f"-I{REPO}/deps", f"{REPO}/neco.c", "-o", bc + ".0"])
            parts.append(bc + ".0")
            for d in ("sco", "stack", "worker"):
                must([CLANG, *COMMON, "-c", "-emit-llvm", *BASEDEF, *defs, f"-I{REPO}", f"-I{REPO}/deps", f"{REPO}/deps/{d}.c", "-o", bc + "." + d])
                parts.append(bc + "." + d)
            must([LINK, *parts, "-o", bc + ".tmp"])
        else:
            must([CLANG, *COMMON, "-c", "-emit-llvm", *BASEDEF, *defs, f"-I{REPO}", f"{REPO}/neco.c", "-o", bc + ".tmp"])
        os.rename(bc + ".tmp", bc)
    return bc


def native(work, h, defs, variant):
    """Native replay binary: gcc, the same neco.c, its libc calls bound to the model."""
    tag = digest(h["file"], variant, *defs, *h.get("hdefs", []))
    exe = f"{work}/native-{tag}"
    if os.path.exists(exe):
        return exe
    G = ["gcc", "-O1", "-g", "-w", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-stack-protector", "-fno-pie", "-c", *BASEDEF, *defs, f"-I{REPO}"]
    objs = []
    if variant == "deps":
        srcs = [(f"{REPO}/neco.c", ["-DNECO_NOAMALGA", f"-I{REPO}/deps"])] + [(f"{REPO}/deps/{d}.c", [f"-I{REPO}/deps"]) for d in ("sco", "stack", "worker")]
    else:
        srcs = [(f"{REPO}/neco.c", [])]
    for i, (s, extra) in enumerate(srcs):
        o = f"{exe}.n{i}.o"
        must([*G, *extra, s, "-o", o])
        objs.append(o)
    ho = exe + ".h.o"
    must([*G, *h.get("hdefs", []), f"-I{V}/model", f"{V}/harness/{h['file']}", "-o", ho])
    ro = exe + ".r.o"
    must(["gcc", "-O1", "-g", "-w", "-fno-pie", "-c", f"{V}/model/replay.c", "-o", ro])
    have = set(re.findall(r" [TtWBbDd] (m_\w+)$", must(["nm", ho]).stdout, re.M))
    ren = exe + ".ren"
    with open(ren, "w") as f:
        names = set()
        for o in objs + [ho]:
            names |= set(re.findall(r"^\s+U (\w+)$", must(["nm", o]).stdout, re.M))
        for n in sorted(names):
            if "m_" + n in have and not n.startswith("m_"):
                f.write(f"{n} m_{n}\n")
    for o in objs + [ho]:
        must(["objcopy", f"--redefine-syms={ren}", o])
    must(["gcc", "-no-pie", "-o", exe + ".tmp", *objs, ho, ro, "-lpthread"])
    os.rename(exe + ".tmp", exe)
    return exe


def run_native(exe, vals, work, tag):
    p = f"{work}/vals-{tag}"
    with open(p, "w") as f:
        for w, v, n in vals:
            f.write(f"{w} {v} {n}\n")
    try:
        r = subprocess.run([exe, p], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=30)
    except subprocess.TimeoutExpired:
        return "HANG", "no progress", []
    os.unlink(p)
    log, verdict, msg = [], "NONE", ""
    for line in r.stdout.splitlines():
        if line.startswith("LOG "):
            a, b = line.split()[1:3]
            log.append([int(a), int(b)])
        else:
            verdict, _, msg = line.partition(" ")
    return verdict, msg, log


def jl(pattern):
    out = []
    for p in sorted(glob.glob(pattern)):
        with open(p, errors="replace") as f:
            for line in f:
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
    return out


def deps_differ():
    """True when deps/*.c no longer equals the copy embedded in neco.c."""
    try:
        n = read(f"{REPO}/neco.c").decode(errors="replace")
        for d in ("sco.c", "stack.c", "aat.h", "worker.c"):
            m = re.search(r"^// BEGIN " + re.escape(d) + r"\n(.*?)^// END " + re.escape(d), n, re.M | re.S)
            if not m:
                continue
            t = read(f"{REPO}/deps/{d}").decode(errors="replace")
            norm = lambda s: [x.strip() for x in s.splitlines() if x.strip()]
            if norm(m.group(1)) != norm(t):
                return True
    except OSError:
        pass
    return False


def known():
    p = V + "/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []


def run_harness(work, h, tier, jobs, nsym):
    """Returns a dict: summary, violations (confirmed), spurious, samples validated."""
    defs = h.get("defs", [])
    variant = h.get("variant", "amalg")
    cfg = dict(h.get(tier) or {})
    hdefs = h.get("hdefs", []) + cfg.get("hdefs", [])
    name = h["name"]
    hh = dict(h, hdefs=hdefs)
    res = {"name": name, "violations": [], "spurious": [], "validated": 0, "mismatch": [], "summary": {}, "samples": [], "error": None, "hdefs": hdefs, "defs": defs}
    t0 = time.time()
    try:
        nb = compile_neco(work, defs, variant)
        hb = f"{work}/{name}.h.bc"
        must([CLANG, *COMMON, *(["-fno-inline"] if h.get("race") else []), "-c", "-emit-llvm", *BASEDEF, *defs, *hdefs, "-DV_SYMBOLIC", f"-I{REPO}", f"-I{V}/model", f"{V}/harness/{h['file']}", "-o", hb])
        ab = f"{work}/{name}.bc"
        must([LINK, nb, hb, "-o", ab])
    except BuildError as e:
        res["error"] = str(e)
        return res
    od = f"{work}/out-{name}"
    os.makedirs(od, exist_ok=True)
    cmd = [nsym, "--out", od, "--name", name, "--jobs", str(jobs), "--budget", str(cfg.get("budget", h.get("budget", 60))), "--maxinst", str(cfg.get("maxinst", h.get("maxinst", 3000000))), "--maxviol", str(h.get("maxviol", 40)), "--samples", str(h.get("samples", 6)), ab]
    r = sh(cmd)
    try:
        res["summary"] = json.load(open(od + "/summary.json"))
    except (OSError, ValueError):
        res["error"] = "engine gave no summary: " + (r.stdout + r.stderr)[-800:]
        return res
    res["engerr"] = jl(od + "/engerr.*.jsonl")
    viol = jl(od + "/viol.*.jsonl")
    if h.get("match"):  # this harness only speaks about some kinds of violations
        viol = [v for v in viol if re.search(h["match"], v["kind"] + ": " + v["msg"])]
    samp = jl(od + "/sample.*.jsonl")
    exe = None
    if viol or samp:
        try:
            exe = native(work, hh, defs, variant)
        except BuildError as e:
            res["error"] = "native build: " + str(e)
    # one violation per (kind, msg), trying a few candidates for each
    groups = {}
    for v in viol:
        groups.setdefault((v["kind"], v["msg"] if v["kind"] != "race" else "race"), []).append(v)
    for key, vs in groups.items():
        vs.sort(key=lambda v: len(v["vars"]))
        done = False
        for i, v in enumerate(vs[:6]):
            if exe is None:
                break
            verdict, msg, _ = run_native(exe, v["vars"], work, f"{name}-{os.getpid()}")
            v["native"] = f"{verdict} {msg}".strip()
            if verdict in ("VIOLATED", "CRASH", "HANG"):
                done = True
            elif v["kind"] in ("memory", "race", "ub") and (verdict != "DIVERGED" or "than on the path" in msg):
                v["native"] += " (not observable natively: reported on the engine's memory model)"
                done = True
            if done:
                res["violations"].append(v)
                break
        if not done:
            res["spurious"].append(vs[0])
    for s in samp[: h.get("maxsamples", 12)]:
        if exe is None:
            break
        verdict, msg, log = run_native(exe, s["vars"], work, f"{name}-{os.getpid()}")
        if verdict == "END" and log == s["log"]:
            res["validated"] += 1
            if len(res["samples"]) < 3:
                res["samples"].append({"harness": name, "inputs": {f"{i}:{n}": v for i, (w, v, n) in enumerate(s["vars"])}, "observations": s["log"][:24], "native": "same observations"})
        else:
            res["mismatch"].append({"vars": s["vars"], "native": f"{verdict} {msg}", "nlog": log[:40], "elog": s["log"][:40]})
    res["wall"] = time.time() - t0
    return res


def main():
    if "--build" in sys.argv:
        engine()
        return 0
    if "--replay" in sys.argv:
        return replay(sys.argv[sys.argv.index("--replay") + 1])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    keep = "--keep" in sys.argv
    verbose = "--verbose" in sys.argv or "-v" in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    C = CHECKS[pid]
    t0 = time.time()
    nsym = engine()
    work = f"{BUILD}/work-{pid}-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    harn = [dict(h) for h in C["harnesses"] if (tier in h.get("tiers", ["quick", "thorough"])) and (only is None or h["name"] == only)]
    if deps_differ() and not only:
        harn += [dict(h, name=h["name"] + "_deps", variant="deps") for h in harn if h.get("file") and h.get("deps", True)]
    par = 2 if len(harn) > 1 else 1
    jobs = 8
    results = []
    try:
        with cf.ThreadPoolExecutor(par) as ex:
            futs = []
            for h in harn:
                fn = h.get("py")
                if fn:
                    futs.append(ex.submit(fn, work, h, tier, REPO, V))
                else:
                    futs.append(ex.submit(run_harness, work, h, tier, jobs, nsym))
            results = [f.result() for f in futs]
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
    return report(pid, C, tier, seed, results, t0, verbose, only)


def report(pid, C, tier, seed, results, t0, verbose, only):
    kf = [k for k in known() if k.get("property") == pid and k.get("status") == "finding"]
    rdir = f"{V}/evidence/replays"
    os.makedirs(rdir, exist_ok=True)
    for o in glob.glob(f"{rdir}/{pid}-*"):
        os.unlink(o)
    nv, errors, bounded = 0, [], []
    kseen = set()
    tot = {}
    fns, samples, validated, missing, mism, spur = set(), [], 0, [], 0, 0
    perh = []
    for r in results:
        s = r["summary"]
        if r["error"]:
            errors.append(f"{r['name']}: {r['error'][:1500]}")
        for k in ("paths", "pruned", "forks", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_ms", "insts", "incomplete", "deferred", "engine_errors", "worker_failures"):
            tot[k] = tot.get(k, 0) + (s.get(k) or 0)
        fns |= set(f for f in s.get("functions", []) if not re.match(r"(m_|v_|h_|e_)", f))
        validated += r["validated"]
        mism += len(r["mismatch"])
        spur += len(r["spurious"])
        samples += r["samples"]
        perh.append({"harness": r["name"], "defines": r.get("defs", []) + r.get("hdefs", []), "paths": s.get("paths"), "exhausted": not (s.get("incomplete") or s.get("deferred") or s.get("engine_errors") or s.get("worker_failures")), "queries": s.get("queries"), "unsat": s.get("unsat"), "sat": s.get("sat"), "unknown": s.get("unknown"), "solver_s": round((s.get("solver_ms") or 0) / 1000.0, 3), "max_symbolic_inputs": s.get("max_vars"), "wall_s": round(r.get("wall", 0), 2)})
        want = C.get("covers", {}).get(re.sub("_deps$", "", r["name"]), [])
        have = set(s.get("covers", []))
        miss = [c for c in want if c not in have]
        if miss and not r["violations"]:
            missing.append(f"{r['name']}: witness points {miss} not reached")
        for v in r["violations"]:
            sig = f"{v['harness']}: {v['kind']}: {v['msg']}"
            k = next((k for k in kf if re.search(k["match"], sig)), None)
            if k:
                kseen.add(k["what"])
                continue
            nv += 1
            p = f"{rdir}/{pid}-{nv}.json"
            json.dump({"property": pid, "harness": r["name"], "tier": tier, **v}, open(p, "w"), indent=1)
            if nv <= 10:
                print(f"  {sig}")
                print(f"    native replay: {v.get('native')}")
                print(f"    inputs: {' '.join(n + '=' + str(x) for w, x, n in v['vars'])[:400]}")
                for fr in v.get("stack", [])[:8]:
                    print(f"    at {fr}")
            print(f"VIOLATION property={pid} replay={p}")
        if verbose:
            print(r["name"], {k: s.get(k) for k in ("paths", "pruned", "violations", "engine_errors", "incomplete", "deferred", "worker_failures", "insts", "queries", "solver_ms", "max_query_ms", "wall_s", "max_vars", "covers")}, "validated", r["validated"], f"{r.get('wall', 0):.1f}s")
            for e in r.get("engerr", [])[:4]:
                print("   ENGINE:", e.get("msg"), e.get("stack", [])[:4])
            for e in r["spurious"][:4]:
                print("   SPURIOUS:", e.get("kind"), e.get("msg"), e.get("native"), e["vars"], e.get("stack", [])[:5])
            for e in r["mismatch"][:3]:
                print("   MISMATCH:", e)
    for k in kf:
        if k["what"] in kseen:
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for e in errors:
        print("INCONCLUSIVE", e)
    for m in missing:
        print("INCONCLUSIVE vacuity:", m)
    if tot.get("engine_errors"):
        print(f"INCONCLUSIVE {tot['engine_errors']} paths ended in constructs the engine cannot encode")
    if spur or mism:
        print(f"INCONCLUSIVE {spur} counterexamples did not reproduce natively, {mism} sampled paths differ natively")
    complete = not (errors or missing or mism or spur or any(tot.get(k) for k in ("incomplete", "deferred", "engine_errors", "worker_failures")))
    extra = {}
    for r in results:
        extra.update(r.get("extra", {}))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": C.get("level", "model_checking"), "wall_s": round(time.time() - t0, 2), "violations": nv,
          "coverage": {"states": tot.get("paths", 0) + tot.get("pruned", 0), "transitions": tot.get("insts", 0), "traces_validated_against_impl": validated, "samples": samples[:6] or [{"note": "no sampled path"}],
                       "exhaustive": bool(complete), "what_counts": "states = completed symbolic paths (each covers every input satisfying its path condition); transitions = IR instructions executed symbolically",
                       "symbolic_forks": tot.get("forks", 0), "solver_queries": tot.get("queries", 0), "solver_sat": tot.get("sat", 0), "solver_unsat": tot.get("unsat", 0), "solver_unknown": tot.get("unknown", 0), "query_cache_hits": tot.get("cache_hits", 0),
                       "solver_time_s": round(tot.get("solver_ms", 0) / 1000.0, 3), "functions_encoded": sorted(fns), "bounds": C.get("bounds", ""), "outside_bounds": C.get("outside", ""), "harnesses": perh, "inconclusive": errors + missing, **extra},
          "assumptions": C.get("assumptions", [])}
    if not only:
        os.makedirs(V + "/evidence", exist_ok=True)
        json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid} [{tier}] {'VIOLATED' if nv else 'held' if complete else 'held on everything explored (bounds not exhausted)'}: {len(results)} harnesses, {tot.get('paths', 0)} paths, {tot.get('queries', 0)} solver queries ({tot.get('unsat', 0)} unsat), {validated} paths replayed natively, {time.time() - t0:.1f}s")
    if not nv and errors and not tot.get('paths'):
        return 2  # nothing could be explored: no verdict
    return 1 if nv else 0


def replay(path):
    d = json.load(open(path))
    C = CHECKS[d["property"]]
    nm = re.sub("_deps$", "", d["harness"])
    h = next(x for x in C["harnesses"] if x["name"] == nm)
    work = f"{BUILD}/work-replay-{os.getpid()}"
    os.makedirs(work, exist_ok=True)
    try:
        if h.get("py"):
            return h["replay"](work, h, d, REPO, V)
        cfg = h.get(d["tier"]) or {}
        exe = native(work, dict(h, hdefs=h.get("hdefs", []) + cfg.get("hdefs", [])), h.get("defs", []), "deps" if nm != d["harness"] else h.get("variant", "amalg"))
        verdict, msg, log = run_native(exe, d["vars"], work, "r")
        for a, b in log:
            print("LOG", a, b)
        print(verdict, msg)
        return 0 if verdict == "END" else 1
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
