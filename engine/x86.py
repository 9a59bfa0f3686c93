#!/opt/veriftools/pyvenv/bin/python
"""Symbolic execution of the compiled context switch (x86-64) with z3.
usage: x86.py EXE STRUCTSIZE OUT.json
EXE is a non-PIE executable that contains neco.c; the routine under test is llco_switch1, together with
everything it calls (the assembly of the switch, the initial context).  Registers, stack memory and the
contexts are fully symbolic 64-bit values; z3 decides every branch and every assertion."""
import json, re, subprocess, sys, time
import z3

EXE, CTXSZ, OUT = sys.argv[1], int(sys.argv[2]), sys.argv[3]
BV, bv = (lambda n: z3.BitVec(n, 64)), (lambda v: z3.BitVecVal(v, 64))
R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + [f"r{i}" for i in range(8, 16)]
SUB = {}
for a, r in zip(["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"], R64):
    SUB["e" + a] = (r, 32); SUB[a] = (r, 16)
for a, r in zip(["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"], R64):
    SUB[a] = (r, 8)
for i in range(8, 16):
    SUB[f"r{i}d"] = (f"r{i}", 32); SUB[f"r{i}w"] = (f"r{i}", 16); SUB[f"r{i}b"] = (f"r{i}", 8)
for r in R64:
    SUB[r] = (r, 64)
PTR = {"BYTE": 8, "WORD": 16, "DWORD": 32, "QWORD": 64, "XMMWORD": 128}
SAVED = ["rbx", "rbp", "r12", "r13", "r14", "r15"]
stat = {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_ms": 0.0, "insts": 0, "paths": 0, "forks": 0, "max_query_ms": 0.0}


class Unsupported(Exception):
    pass


def load():
    code, syms = {}, {}
    txt = subprocess.run(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", EXE], capture_output=True, text=True).stdout
    for ln in txt.splitlines():
        m = re.match(r"([0-9a-f]+) <([^>]+)>:", ln)
        if m:
            syms.setdefault(m.group(2), int(m.group(1), 16)); continue
        m = re.match(r"\s*([0-9a-f]+):\s+(.*)", ln)
        if m:
            code[int(m.group(1), 16)] = re.sub(r"\s*[#<].*", "", m.group(2)).strip()
    addrs = sorted(code)
    nxt = {a: b for a, b in zip(addrs, addrs[1:])}
    return code, nxt, syms


CODE, NEXT, SYMS = load()


def check(cons, extra):
    s = z3.Solver(); s.set("timeout", 120000); s.add(*cons); s.add(extra)
    t = time.time(); r = s.check(); ms = (time.time() - t) * 1000
    stat["queries"] += 1; stat[str(r)] += 1; stat["solver_ms"] += ms; stat["max_query_ms"] = max(stat["max_query_ms"], ms)
    return (r, s.model() if r == z3.sat else None)


class Bad(Exception):
    """the code under test did something that breaks the property"""


class St:
    """Registers and memory.  Memory is a set of pairwise disjoint regions (base, lowest, highest offset); a cell is one byte."""
    def __init__(s, regs, regions, mem, cons):
        s.r, s.x, s.regions, s.mem, s.cons, s.f, s.fn = dict(regs), {}, regions, {k: dict(v) for k, v in mem.items()}, list(cons), None, set()

    def copy(s):
        n = St(s.r, s.regions, s.mem, s.cons); n.x, n.f, n.fn = dict(s.x), s.f, s.fn; return n

    def find(s, a, write):
        a = z3.simplify(a)
        if z3.is_bv_value(a):
            return "image", a.as_long()
        for how in (0, 1):
            for nm, (base, lo, hi, wlo, whi) in s.regions.items():
                d = z3.simplify(a - base)
                c = d.as_long() if z3.is_bv_value(d) else target(s, d) if how else None
                if c is None:
                    continue
                c = c - (1 << 64) if c >> 63 else c
                if write and not wlo <= c < whi:
                    if lo <= c < hi or how or abs(c) < 65536:
                        raise Bad(f"the switch writes to memory that is not its own ({nm}{c:+d})")
                if lo <= c < hi:
                    return nm, c
                if abs(c) < 65536:
                    raise Bad(f"the switch reads memory that is not its own ({nm}{c:+d})")
        raise Unsupported("address " + str(a)[:200])

    def cell(s, nm, o):
        m = s.mem.setdefault(nm, {})
        if o not in m:
            m[o] = z3.BitVec(f"{nm}[{o}]", 8)
        return m[o]

    def ld(s, a, w):
        nm, o = s.find(a, False)
        v = [s.cell(nm, o + i) for i in reversed(range(w // 8))]
        return z3.simplify(z3.Concat(*v)) if w > 8 else v[0]

    def stt(s, a, v, force=False):
        nm, o = s.find(a, not force)
        for i in range(v.size() // 8):
            s.cell(nm, o + i)
            s.mem[nm][o + i] = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))

    def ea(s, t, nxt):
        m = re.match(r"(?:(fs|gs):)?\[(.*)\]$", t)
        if not m:
            m2 = re.match(r"(fs|gs):0x([0-9a-f]+)$", t)
            if m2:
                return BV(m2.group(1) + "base") + bv(int(m2.group(2), 16))
            raise Unsupported(t)
        a = BV(m.group(1) + "base") if m.group(1) else bv(0)
        for sg, p in re.findall(r"([+-]?)([^+-]+)", m.group(2)):
            if p == "rip":
                v = bv(nxt)
            elif "*" in p:
                r, k = p.split("*"); v = s.r[r] * bv(int(k, 0)) if r in s.r else bv(0)
            elif p in s.r:
                v = s.r[p]
            elif p in ("riz", "eiz"):
                v = bv(0)
            else:
                v = bv(int(p, 0))
            a = a - v if sg == "-" else a + v
        return z3.simplify(a)

    def rd(s, t, nxt, w=None):
        t = t.strip()
        if t in SUB:
            r, n = SUB[t]; return s.r[r] if n == 64 else z3.Extract(n - 1, 0, s.r[r])
        if t.startswith("xmm"):
            return s.x.setdefault(t, z3.BitVec(f"{t}_{len(s.x)}", 128))
        m = re.match(r"(\w+) PTR (.*)", t)
        if m:
            return s.ld(s.ea(m.group(2), nxt), PTR[m.group(1)])
        v = int(t, 0)
        return z3.BitVecVal(v, w or 64)

    def wr(s, t, v, nxt):
        t = t.strip()
        if t in SUB:
            r, n = SUB[t]
            s.r[r] = z3.simplify(v if n == 64 else z3.ZeroExt(32, v) if n == 32 else z3.Concat(z3.Extract(63, n, s.r[r]), v)); return
        if t.startswith("xmm"):
            s.x[t] = v; return
        m = re.match(r"(\w+) PTR (.*)", t)
        if not m:
            raise Unsupported(t)
        s.stt(s.ea(m.group(2), nxt), v)


def width(t):
    t = t.strip()
    if t in SUB:
        return SUB[t][1]
    if t.startswith("xmm"):
        return 128
    m = re.match(r"(\w+) PTR", t)
    return PTR[m.group(1)] if m else None


def cond(s, cc):
    k, a, b = s.f
    n = a.size()
    if k == "cmp":
        z, c, sf, of = a == b, z3.ULT(a, b), None, None
        lt = a < b; d = a - b
        sf = d < 0
    else:
        d = a; z, c, lt, sf = d == 0, z3.BoolVal(False), d < 0, d < 0
    T = {"e": z, "z": z, "ne": z3.Not(z), "nz": z3.Not(z), "b": c, "c": c, "nae": c, "ae": z3.Not(c), "nb": z3.Not(c), "nc": z3.Not(c), "be": z3.Or(c, z), "na": z3.Or(c, z), "a": z3.Not(z3.Or(c, z)),
         "l": lt, "ge": z3.Not(lt), "le": z3.Or(lt, z), "g": z3.Not(z3.Or(lt, z)), "s": sf, "ns": z3.Not(sf)}
    if cc not in T or s.f is None:
        raise Unsupported("condition " + cc)
    return T[cc]


def target(s, v):
    """the only possible value of v, or None when it is symbolic"""
    v = z3.simplify(v)
    if z3.is_bv_value(v):
        return v.as_long()
    r, m = check(s.cons, z3.BoolVal(True))
    if r != z3.sat:
        return None
    c = m.eval(v, model_completion=True)
    r, _ = check(s.cons, v != c)
    return c.as_long() if r == z3.unsat else None


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
       "shl": lambda a, b: a << b, "sal": lambda a, b: a << b, "shr": z3.LShR, "sar": lambda a, b: a >> b, "imul": lambda a, b: a * b}


def run(s, pc, stops, limit=4000):
    """Executes until pc is in stops or control goes to an address that is not a constant.  Yields (state, pc or None)."""
    for _ in range(limit):
        if pc in stops:
            stat["paths"] += 1
            yield s, pc
            return
        ins = CODE.get(pc)
        if ins is None:
            raise Bad("control continues where there is no instruction")
        stat["insts"] += 1
        nxt = NEXT.get(pc, pc + 1)
        ins = re.sub(r"^(notrack|bnd|data16|cs)\s+", "", ins)
        op, _, args = ins.partition(" ")
        args = [x.strip() for x in re.split(r",(?![^\[]*\])", args)] if args.strip() else []
        for nm, ad in SYMS.items():
            if ad == pc:
                s.fn.add(nm)
        if op in ("nop", "endbr64", "data16", "cs", "nopw", "nopl", "xchg") and (op != "xchg" or args == ["ax", "ax"]):
            pc = nxt
        elif op in ("mov", "movabs", "movaps", "movups", "movdqa", "movdqu"):
            w = width(args[0]) or width(args[1])
            v = s.rd(args[1], nxt, w)
            if v.size() < w:
                raise Unsupported(ins)
            s.wr(args[0], v, nxt); pc = nxt
        elif op in ("movzx", "movsx", "movsxd"):
            w = width(args[0]); v = s.rd(args[1], nxt)
            s.wr(args[0], (z3.ZeroExt if op == "movzx" else z3.SignExt)(w - v.size(), v), nxt); pc = nxt
        elif op == "cdqe":
            s.r["rax"] = z3.SignExt(32, z3.Extract(31, 0, s.r["rax"])); pc = nxt
        elif op == "lea":
            a = s.ea(args[1], nxt); w = width(args[0]); s.wr(args[0], a if w == 64 else z3.Extract(w - 1, 0, a), nxt); pc = nxt
        elif op in ("pxor", "xorps", "xorpd") and args[0] == args[1]:
            s.x[args[0]] = z3.BitVecVal(0, 128); pc = nxt
        elif op in BIN and len(args) >= 1:
            if len(args) == 1:
                args = args + ["1"]
            w = width(args[0]); a = s.rd(args[-2] if len(args) == 3 else args[0], nxt, w); b = s.rd(args[-1], nxt, w)
            if b.size() < w:
                b = z3.ZeroExt(w - b.size(), b)
            v = z3.simplify(BIN[op](a, b)); s.f = ("cmp", a, b) if op == "sub" else ("res", v, v); s.wr(args[0], v, nxt); pc = nxt
        elif op in ("inc", "dec", "neg", "not"):
            a = s.rd(args[0], nxt); v = a + 1 if op == "inc" else a - 1 if op == "dec" else -a if op == "neg" else ~a
            if op != "not":
                s.f = ("res", v, v)
            s.wr(args[0], v, nxt); pc = nxt
        elif op in ("cmp", "test"):
            w = width(args[0]) or width(args[1]); a, b = s.rd(args[0], nxt, w), s.rd(args[1], nxt, w)
            s.f = ("cmp", a, b) if op == "cmp" else ("res", a & b, a & b); pc = nxt
        elif op == "push":
            v = s.rd(args[0], nxt, 64); s.r["rsp"] = z3.simplify(s.r["rsp"] - 8); s.stt(s.r["rsp"], v); pc = nxt
        elif op == "pop":
            v = s.ld(s.r["rsp"], 64); s.r["rsp"] = z3.simplify(s.r["rsp"] + 8); s.wr(args[0], v, nxt); pc = nxt
        elif op == "leave":
            s.r["rsp"] = s.r["rbp"]; s.r["rbp"] = s.ld(s.r["rsp"], 64); s.r["rsp"] = z3.simplify(s.r["rsp"] + 8); pc = nxt
        elif op in ("call", "jmp", "ret"):
            if op == "ret":
                v = s.ld(s.r["rsp"], 64); s.r["rsp"] = z3.simplify(s.r["rsp"] + 8)
            elif re.match(r"[0-9a-f]+$", args[0]) and args[0] not in SUB:
                v = bv(int(args[0], 16))
            else:
                v = s.rd(args[0], nxt)
            if op == "call":
                s.r["rsp"] = z3.simplify(s.r["rsp"] - 8); s.stt(s.r["rsp"], bv(nxt))
            t = target(s, v)
            if t is None:
                stat["paths"] += 1
                s.goto = v
                yield s, None
                return
            nm = [k for k, a in SYMS.items() if a == t]
            if any(k.split("@")[0] in ("memset", "__memset_chk") for k in nm) and "memset" not in CODE.get(t, ""):
                n = target(s, s.r["rdx"])
                if n is None or n > 4096:
                    raise Unsupported("memset of unknown size")
                c = z3.Extract(7, 0, s.r["rsi"])
                for i in range(n):
                    s.stt(s.r["rdi"] + i, c)
                s.r["rax"] = s.r["rdi"]
                for k in ("rcx", "rdx", "rsi", "rdi", "r8", "r9", "r10", "r11"):
                    s.r[k] = z3.FreshConst(z3.BitVecSort(64))
                t = target(s, s.ld(s.r["rsp"], 64)); s.r["rsp"] = z3.simplify(s.r["rsp"] + 8)
            pc = t
        elif op.startswith("j"):
            c = cond(s, op[1:]); t = int(args[0], 16)
            y, n = check(s.cons, c)[0] == z3.sat, check(s.cons, z3.Not(c))[0] == z3.sat
            if y and n:
                stat["forks"] += 1
                o = s.copy(); o.cons.append(c)
                yield from run(o, t, stops, limit)
                s.cons.append(z3.Not(c)); pc = nxt
            else:
                pc = t if y else nxt
        elif op.startswith("set"):
            s.wr(args[0], z3.If(cond(s, op[3:]), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), nxt); pc = nxt
        elif op.startswith("cmov"):
            w = width(args[0]); s.wr(args[0], z3.If(cond(s, op[4:]), s.rd(args[1], nxt), s.rd(args[0], nxt)), nxt); pc = nxt
        else:
            raise Unsupported(ins)
    raise Unsupported("too many instructions")


viols = []


def prove(s, what, goal, names):
    r, m = check(s.cons, z3.Not(goal))
    if r == z3.unsat:
        return
    if r == z3.unknown:
        raise Unsupported("solver gave up: " + what)
    viols.append({"msg": what, "vars": {n: m.eval(v, model_completion=True).as_long() for n, v in names.items()}})


RET = 0x7fff00000000  # where the caller of the switch continues
WIN, ABOVE = 4096, 256  # stack below and above the caller's stack pointer that belongs to it
def apart(regs):
    out = []
    for i, (a, n) in enumerate(regs):
        out += [z3.UGE(a, bv(0x100000)), z3.ULT(a, bv(1 << 46)), z3.ULT(a + n, bv(1 << 47))]
        for b, k in regs[:i]:
            out.append(z3.Or(z3.ULE(a + n, b), z3.ULE(b + k, a)))
    return out


def main():
    entry, sw = SYMS.get("llco_entry"), SYMS.get("llco_switch1")
    if entry is None or sw is None:
        raise Unsupported("llco_switch1 or llco_entry not found")
    fns = set()
    F, T, G, N, Z, S, S2 = BV("from"), BV("to"), BV("other"), BV("stack"), BV("size"), BV("a.rsp"), BV("b.rsp")
    names = {"from": F, "stack": N, "size": Z, **{f"a.{r}": BV(f"a.{r}") for r in SAVED + ["rsp"]}, **{f"b.{r}": BV(f"b.{r}") for r in SAVED + ["rsp"]}}
    for fresh in (0, 1):
        cons = apart([(F, bv(CTXSZ)), (S - WIN, bv(WIN + 8 + ABOVE)), (G, bv(CTXSZ)), (S2 - WIN, bv(WIN + 8 + ABOVE))] + ([(N, Z)] if fresh else [(T, bv(CTXSZ))]))
        cons += [S & 15 == 8, S2 & 15 == 8, F & 7 == 0, G & 7 == 0, T & 7 == 0]
        if fresh:
            cons += [N & 15 == 0, Z & 15 == 0, z3.UGE(Z, bv(16384)), z3.ULE(Z, bv(1 << 32))]
        # region: base, readable offsets, writable offsets
        reg1 = {"from": (F, 0, CTXSZ, 0, CTXSZ), "stack a": (S, -WIN, 8 + ABOVE, -WIN, 0), "tls": (BV("fsbase"), -65536, 65536, -65536, 65536)}
        if fresh:
            reg1["new stack (top)"] = (N + Z, -4096, 0, -4096, 0)
        else:
            reg1["to"] = (T, 0, CTXSZ, 0, 0)
        s = St({r: BV(f"a.{r}") for r in R64}, reg1, {}, cons)
        s.r.update(rdi=F, rsi=bv(0) if fresh else T, rdx=N if fresh else BV("s1"), rcx=Z if fresh else BV("z1"))
        init = dict(s.r)
        s.stt(S, bv(RET), force=True)
        try:
            for s1, pc in run(s, sw, {entry, RET}):
                fns |= s1.fn
                if pc == RET:
                    prove(s1, "the switch returned without switching", z3.BoolVal(False), names); continue
                if fresh:
                    if pc != entry:
                        prove(s1, "a new coroutine does not begin at its start routine", z3.BoolVal(False), names); continue
                    r = s1.r
                    prove(s1, "the start routine runs on a stack that is not aligned", r["rsp"] & 15 == 8, names)
                    prove(s1, "the start routine gets a wrong argument", r["rdi"] == 0, names)
                    prove(s1, "the start routine does not run on the coroutine's own stack", z3.And(z3.UGE(r["rsp"], N + Z - 4096), z3.ULE(r["rsp"] + 8, N + Z)), names)
                elif pc is not None:
                    prove(s1, "control does not continue where the target coroutine stopped", z3.BoolVal(False), names); continue
                # Later anybody switches back.  By then every register and all memory may have changed, except the
                # suspended coroutine's stack above its stack pointer and its context.
                reg2 = {"from": (F, 0, CTXSZ, 0, 0), "stack a": (S, -WIN, 8 + ABOVE, -WIN, 0), "other": (G, 0, CTXSZ, 0, CTXSZ), "stack b": (S2, -WIN, 8 + ABOVE, -WIN, 0), "tls": (BV("fsbase"), -65536, 65536, -65536, 65536)}
                keep = {"from": s1.mem.get("from", {}), "stack a": s1.mem.get("stack a", {})}
                s2 = St({r: BV(f"b.{r}") for r in R64}, reg2, keep, s1.cons)
                s2.r.update(rdi=G, rsi=F, rdx=BV("s2"), rcx=BV("z2"))
                s2.stt(S2, bv(RET + 16), force=True)
                for s3, pc3 in run(s2, sw, {RET, RET + 16, entry}):
                    fns |= s3.fn
                    if pc3 != RET:
                        prove(s3, "switching back does not continue behind the suspended coroutine's switch", z3.BoolVal(False), names); continue
                    for r in SAVED:
                        prove(s3, f"register {r} is not preserved across a switch", s3.r[r] == init[r], names)
                    prove(s3, "the stack pointer is not preserved across a switch", s3.r["rsp"] == S + 8, names)
        except Bad as e:
            r, m = check(s.cons, z3.BoolVal(True))
            viols.append({"msg": str(e), "vars": {n: m.eval(v, model_completion=True).as_long() for n, v in names.items()}})
    return fns


err, fns = None, set()
try:
    fns = main()
except Unsupported as e:
    err = "cannot encode: " + str(e)
stat["solver_ms"] = round(stat["solver_ms"]); stat["max_query_ms"] = round(stat["max_query_ms"])
json.dump({"stat": stat, "viols": viols, "error": err, "functions": sorted(fns)}, open(OUT, "w"))
