"""The context switch: compiles neco.c with several compilers and levels and has engine/x86.py decide."""
import json, os, subprocess, time


def build(cc, exe, repo, V):
    return subprocess.run([*cc.split(), "-w", "-no-pie", "-fno-stack-protector", "-fcf-protection=none", f"-I{repo}", f"{V}/harness/switch.c", "-o", exe, "-lpthread", "-lm"], capture_output=True, text=True)


def native(exe, vs):
    """(verdict, text) of the real switch run with the given register contents"""
    regs = [str(vs.get(f"{t}.{r}", 0)) for t in "ab" for r in ("rbx", "rbp", "r12", "r13", "r14", "r15")]
    try:
        n = subprocess.run([exe, *regs], capture_output=True, text=True, timeout=20)
    except subprocess.TimeoutExpired:
        return "HANG"
    return "CRASH" if n.returncode < 0 else "VIOLATED " + n.stdout.strip() if n.returncode else "END (not observable natively with this compiler)"


def replay(work, h, d, repo, V):
    cc = d["compiler"]
    r = build(cc, f"{work}/replay", repo, V)
    if r.returncode:
        print(r.stderr[-600:])
        return 2
    v = native(f"{work}/replay", {n: x for _, x, n in d["vars"]})
    print(v)
    return 0 if v.startswith("END") else 1


def run(work, h, tier, repo, V):
    t0 = time.time()
    name = h["name"]
    res = {"name": name, "violations": [], "spurious": [], "validated": 0, "mismatch": [], "summary": {}, "samples": [], "error": None, "hdefs": [], "defs": []}
    tot, fns = {}, set()
    for cc in h["configs"]:
        tag = cc.replace(" ", "").replace("-", "")
        exe, out = f"{work}/{name}-{tag}", f"{work}/{name}-{tag}.json"
        r = build(cc, exe, repo, V)
        if r.returncode:
            res["error"] = f"{cc}: " + r.stderr[-600:]
            break
        size = subprocess.run([exe, "size"], capture_output=True, text=True).stdout.strip()
        try:
            subprocess.run(["python3-vt", f"{V}/engine/x86.py", exe, size, out], timeout=400)
            d = json.load(open(out))
        except (subprocess.TimeoutExpired, OSError, ValueError) as e:
            res["error"] = f"{cc}: {e}"
            break
        for k, v in d["stat"].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith("max") else tot.get(k, 0) + v
        fns |= set(d["functions"])
        if d["error"]:
            res["error"] = f"{cc}: {d['error']}"
        nat = subprocess.run([exe], capture_output=True, text=True, timeout=20)
        if nat.returncode == 0 and not d["viols"]:
            res["validated"] += 1
            res["samples"].append({"harness": name, "compiler": cc, "native": "registers, stack and alignment as decided", "observations": d["stat"]})
        for v in d["viols"]:
            res["violations"].append({"harness": name, "kind": "assert", "msg": v["msg"] + f" ({cc})", "vars": [(64, x, n) for n, x in v["vars"].items()], "native": native(exe, v["vars"]), "compiler": cc, "stack": []})
    res["summary"] = {"covers": [], "max_vars": 32, "functions": sorted(fns), **tot}
    res["wall"] = time.time() - t0
    return res
