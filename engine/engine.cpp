#include <memory>
// nsym: symbolic executor for LLVM bitcode of neco + harness + OS model.
// Whole programs are executed path by path; every data-dependent branch on a
// symbolic value is decided by Z3 (both sides explored when satisfiable).
// Coroutine switches (_llco_asm_switch) are interpreted as continuation swaps.
#include "expr.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <chrono>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
using namespace llvm;
typedef uint64_t u64;

// ---------------------------------------------------------------- shared
static const int MAXFN = 4096, MAXCOV = 256;
struct Shared {
  std::atomic<int> live, tokens, stop, nviol, failed, nsamples;
  std::atomic<u64> paths, pruned, insts, forks, queries, qhits, qsat, qunsat, qunk, solver_us, qmaxus,
      limit, maxinst, maxvars, engerr, incomplete, deferred, races;
  std::atomic<unsigned char> fn[MAXFN], cov[MAXCOV];
};
static Shared *SH;

// ---------------------------------------------------------------- options
static std::string OUTDIR, HARNESS = "?";
static int JOBS = 8, MAXVIOL = 1, SAMPLES = 24;
static u64 MAXI = 4000000;
static double BUDGET = 600;
static double T0;
static bool RACE = false;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------- memory
enum { ST_NONE = 0, ST_OK = 1, ST_RED = 2, ST_FREED = 3, ST_SRED = 4, ST_DEAD = 5, ST_PROT = 6, ST_RO = 7 };
struct Sym { EP e[256]; uint8_t b[256]; };
struct Page { uint32_t rc; uint32_t nsym; Sym *sym; uint8_t v[256]; uint8_t st[256]; };
struct Node { uint32_t rc; void *p[256]; };
static void pageUnref(Page *p) { if (p && --p->rc == 0) { delete p->sym; delete p; } }
static void nodeUnref(Node *n, int lvl) {
  if (!n || --n->rc) return;
  for (int i = 0; i < 256; i++) if (n->p[i]) { if (lvl == 0) pageUnref((Page *)n->p[i]); else nodeUnref((Node *)n->p[i], lvl - 1); }
  delete n;
}
static Node *nodeCopy(Node *n, int lvl) {
  Node *m = new Node(*n); m->rc = 1; n->rc--;
  for (int i = 0; i < 256; i++) if (m->p[i]) { if (lvl == 0) ((Page *)m->p[i])->rc++; else ((Node *)m->p[i])->rc++; }
  return m;
}
static Page *ZEROPG; static Node *ZERONODE; // fully mapped zero pages (ST_OK)
struct Mem {
  Node *root;
  u64 rtag = ~0ull, wtag = ~0ull; Page *rp = 0, *wp = 0;
  Mem() { root = new Node(); memset(root, 0, sizeof *root); root->rc = 1; }
  Mem(const Mem &o) { root = o.root; root->rc++; }
  ~Mem() { nodeUnref(root, 2); }
  void flush() { rtag = wtag = ~0ull; }
  Page *rd(u64 a) {
    u64 t = a >> 8;
    if (t == rtag) return rp;
    if (a >> 32) return 0;
    Node *n = (Node *)root->p[a >> 24]; if (!n) return 0;
    n = (Node *)n->p[(a >> 16) & 255]; if (!n) return 0;
    Page *p = (Page *)n->p[(a >> 8) & 255];
    if (p) { rtag = t; rp = p; }
    return p;
  }
  Page *wr(u64 a, bool create = false) {
    u64 t = a >> 8;
    if (t == wtag) return wp;
    if (a >> 32) return 0;
    if (root->rc > 1) root = nodeCopy(root, 2);
    void **s = &root->p[a >> 24];
    if (!*s) { if (!create) return 0; Node *n = new Node(); memset(n, 0, sizeof *n); n->rc = 1; *s = n; }
    else if (((Node *)*s)->rc > 1) *s = nodeCopy((Node *)*s, 1);
    s = &((Node *)*s)->p[(a >> 16) & 255];
    if (!*s) { if (!create) return 0; Node *n = new Node(); memset(n, 0, sizeof *n); n->rc = 1; *s = n; }
    else if (((Node *)*s)->rc > 1) *s = nodeCopy((Node *)*s, 0);
    s = &((Node *)*s)->p[(a >> 8) & 255];
    if (!*s) { if (!create) return 0; Page *p = new Page(); memset(p, 0, sizeof *p); p->rc = 1; *s = p; }
    else if (((Page *)*s)->rc > 1) {
      Page *o = (Page *)*s; Page *p = new Page(*o); p->rc = 1; o->rc--;
      if (o->sym) p->sym = new Sym(*o->sym);
      *s = p;
    }
    Page *p = (Page *)*s;
    wtag = t; wp = p;
    if (rtag == t) rp = p;
    return p;
  }
  // map [a,a+n) as zeroed ST_OK
  void mapZero(u64 a, u64 n) {
    flush();
    u64 e = a + n;
    while (a < e) {
      if (!(a & 0xffff) && a + 0x10000 <= e) {
        if (root->rc > 1) root = nodeCopy(root, 2);
        void **s = &root->p[a >> 24];
        if (!*s) { Node *x = new Node(); memset(x, 0, sizeof *x); x->rc = 1; *s = x; }
        else if (((Node *)*s)->rc > 1) *s = nodeCopy((Node *)*s, 1);
        s = &((Node *)*s)->p[(a >> 16) & 255];
        nodeUnref((Node *)*s, 0);
        ZERONODE->rc++; *s = ZERONODE;
        a += 0x10000;
      } else {
        u64 m = std::min(e - a, 256 - (a & 255));
        Page *p = wr(a, true);
        memset(p->v + (a & 255), 0, m); memset(p->st + (a & 255), ST_OK, m);
        if (p->sym) for (u64 i = 0; i < m; i++) { EP &x = p->sym->e[(a & 255) + i]; if (x) { x = 0; p->nsym--; } }
        a += m;
      }
    }
    flush();
  }
  void setState(u64 a, u64 n, uint8_t st, bool create = true) {
    while (n) {
      u64 m = std::min(n, 256 - (a & 255));
      Page *p = wr(a, create);
      if (p) memset(p->st + (a & 255), st, m);
      a += m; n -= m;
    }
  }
  void unmap(u64 a, u64 n, uint8_t st) {
    flush();
    u64 e = a + n;
    while (a < e) {
      if (!(a & 0xffff) && a + 0x10000 <= e && st == ST_NONE) {
        if (root->rc > 1) root = nodeCopy(root, 2);
        void **s = &root->p[a >> 24];
        if (*s) {
          if (((Node *)*s)->rc > 1) *s = nodeCopy((Node *)*s, 1);
          s = &((Node *)*s)->p[(a >> 16) & 255];
          nodeUnref((Node *)*s, 0); *s = 0;
        }
        a += 0x10000;
      } else {
        u64 m = std::min(e - a, 256 - (a & 255));
        Page *p = wr(a, false);
        if (p) memset(p->st + (a & 255), st, m);
        a += m;
      }
    }
    flush();
  }
};

// ---------------------------------------------------------------- lowered IR
struct Val { u64 c; EP e; };
enum IOp : uint8_t {
  I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_AND, I_OR, I_XOR, I_SHL, I_LSHR, I_ASHR,
  I_EQ, I_NE, I_ULT, I_ULE, I_SLT, I_SLE, // a,b (gt forms are swapped)
  I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_SELECT, I_LOAD, I_STORE, I_GEP, I_ALLOCA, I_BR, I_CBR, I_SWITCH,
  I_RET, I_CALL, I_UNREACH, I_EXTRACTV, I_INSERTV, I_RMW, I_CMPXCHG, I_FENCE
};
struct GepTerm { int idx; int64_t scale; uint8_t w; };
struct SwitchT { std::vector<std::pair<u64, int>> cases; int def; }; // edge ids
struct Edge { int target; std::vector<std::pair<int, int>> mv; int maxmv; };
struct Func;
struct CallT { int callee; Func *f; int bi; std::vector<int> args; std::vector<uint8_t> aw; };
struct Inst {
  IOp op; uint8_t w, w2, n; // n: number of flattened slots
  int dst, a, b, c;
  u64 imm; void *x; uint32_t line;
};
struct Func {
  std::string name; u64 addr; int id; int nargs, nregs; bool vararg, hasAlloca, decl;
  std::vector<Inst> code; std::vector<int> argslot; int retn; bool cov;
  Function *ll; int bi; Func *redirect;
};
static std::vector<Val> CONSTS; // constant pool; operand ~i
static std::vector<Edge> EDGES;
static std::map<const Function *, Func *> FMAP;
static std::vector<Func *> FUNCS;
static std::map<u64, Func *> FADDR;
static std::map<const GlobalVariable *, u64> GADDR;
struct TlsVar { u64 off, size; };
static std::map<const GlobalVariable *, TlsVar> TLSV;
static std::vector<const GlobalVariable *> TLSORDER;
static u64 TLSSIZE = 0;
static const DataLayout *DL;
static u64 ENTRY_ADDR = 0;

// ---------------------------------------------------------------- state
struct Frame { Func *f; int pc; int base; int retdst; int retn; u64 sp0; u64 va; };
struct Ctx { uint32_t rc; std::vector<Frame> fr; std::vector<Val> regs; u64 sp; u64 tok; };
struct Thread { Ctx *ctx; u64 tls; bool done; };
struct LogN { uint32_t rc; LogN *prev; u64 tag; Val v; };
static void ctxUnref(Ctx *c) { if (c && --c->rc == 0) delete c; }
static void logUnref(LogN *l) { while (l && --l->rc == 0) { LogN *p = l->prev; delete l; l = p; } }
struct Alloc { u64 addr, size; bool live; };
struct AllocTab { uint32_t rc; std::vector<Alloc> a; int live; };
struct VarInfo { uint8_t w; const char *name; };
// happens-before race detection state (vector clocks), COW
struct RaceSt {
  uint32_t rc;
  std::vector<std::vector<uint32_t>> vc;                 // per thread
  std::unordered_map<u64, std::vector<uint32_t>> sync;    // per sync object
  enum { NT = 12 };
  struct Acc { uint32_t wc; uint16_t wt, wline, rline; uint32_t r[NT]; };
  struct Pg { Acc a[64]; };
  std::unordered_map<u64, std::shared_ptr<Pg>> acc;        // per byte, in pages of 64
  Acc &at(u64 x) {
    auto &p = acc[x >> 6];
    if (!p) { p = std::make_shared<Pg>(); memset(p.get(), 0, sizeof(Pg)); }
    else if (p.use_count() > 1) p = std::make_shared<Pg>(*p);
    return p->a[x & 63];
  }
};
struct State {
  Mem mem;
  std::vector<Thread> th; int cur;
  std::vector<std::pair<u64, Ctx *>> parked; u64 ntok;
  std::vector<EP> cs;
  std::vector<u64> asg; std::vector<VarRange> vr; std::vector<VarInfo> vi;
  u64 heap, maptop, tlstop; AllocTab *at;
  LogN *log; u64 icount; int forced; // forced: -1 none, 0/1 outcome of next symbolic branch
  RaceSt *race;
  State() : cur(0), ntok(1), heap(0), maptop(0), tlstop(0), at(0), log(0), icount(0), forced(-1), race(0) {}
  State(const State &o) : mem(o.mem), th(o.th), cur(o.cur), parked(o.parked), ntok(o.ntok), cs(o.cs), asg(o.asg),
    vr(o.vr), vi(o.vi), heap(o.heap), maptop(o.maptop), tlstop(o.tlstop), at(o.at), log(o.log), icount(o.icount), forced(-1), race(o.race) {
    for (auto &t : th) if (t.ctx) t.ctx->rc++;
    for (auto &p : parked) p.second->rc++;
    at->rc++; if (log) log->rc++; if (race) race->rc++;
  }
  ~State() {
    for (auto &t : th) ctxUnref(t.ctx);
    for (auto &p : parked) ctxUnref(p.second);
    if (at && --at->rc == 0) delete at;
    if (race && --race->rc == 0) delete race;
    logUnref(log);
  }
  Ctx *ctx() { return th[cur].ctx; }
};
static std::vector<State *> WL;
static State *S; // current
static Solver SV;
enum { RUN, END_OK, END_PRUNED, END_ERR, END_LIMIT, END_ENG };
static int ENDK;
static std::map<std::string, const char *> NAMES;
static const char *internName(const std::string &s) { auto it = NAMES.find(s); if (it == NAMES.end()) it = NAMES.emplace(s, strdup(s.c_str())).first; return it->second; }

// ---------------------------------------------------------------- output
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32) o += ' '; else o += c; } return o; }
static FILE *outf(const char *base) {
  static std::map<std::string, std::pair<FILE *, int>> m;
  auto &e = m[base];
  if (!e.first || e.second != getpid()) {
    std::string p = OUTDIR + "/" + base + "." + std::to_string(getpid()) + ".jsonl";
    e.first = fopen(p.c_str(), "a"); e.second = getpid();
  }
  return e.first;
}
static void dumpPath(FILE *f, const char *kind, const std::string &msg) {
  std::string j = "{\"harness\":\"" + HARNESS + "\",\"kind\":\"" + kind + "\",\"msg\":\"" + jesc(msg) + "\",\"vars\":[";
  for (size_t i = 0; i < S->vi.size(); i++) {
    if (i) j += ",";
    j += "[" + std::to_string(S->vi[i].w) + "," + std::to_string(S->asg[i] & maskw(S->vi[i].w)) + ",\"" + jesc(S->vi[i].name) + "\"]";
  }
  j += "],\"log\":[";
  std::vector<LogN *> ls; for (LogN *l = S->log; l; l = l->prev) ls.push_back(l);
  for (size_t i = ls.size(); i-- > 0;) {
    u64 v = ls[i]->v.e ? eEval(ls[i]->v.e, S->asg) : ls[i]->v.c;
    j += "[" + std::to_string(ls[i]->tag) + "," + std::to_string(v) + "]"; if (i) j += ",";
  }
  j += "],\"stack\":[";
  Ctx *c = S->ctx();
  if (c) for (size_t i = c->fr.size(); i-- > 0;) {
    Frame &fr = c->fr[i];
    uint32_t ln = fr.pc < (int)fr.f->code.size() ? fr.f->code[fr.pc].line : 0;
    j += "\"" + fr.f->name + ":" + std::to_string(ln) + "\""; if (i) j += ",";
  }
  j += "],\"insts\":" + std::to_string(S->icount) + "}\n";
  fputs(j.c_str(), f); fflush(f);
}
static void violation(const char *kind, const std::string &msg) {
  if (SH->nviol.fetch_add(1) < 64) dumpPath(outf("viol"), kind, msg);
  if (SH->nviol >= MAXVIOL) SH->stop = 1;
  ENDK = END_ERR;
}
static void engerr(const std::string &msg) {
  if (SH->engerr.fetch_add(1) < 16) dumpPath(outf("engerr"), "engine", msg);
  ENDK = END_ENG;
}

// ---------------------------------------------------------------- constraints
static void slice(EP q, std::vector<EP> &out) {
  VarSet vs = q->vars;
  std::vector<char> used(S->cs.size(), 0);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < S->cs.size(); i++) if (!used[i] && S->cs[i]->vars.meets(vs)) { used[i] = 1; vs.join(S->cs[i]->vars); ch = true; }
  }
  for (size_t i = 0; i < S->cs.size(); i++) if (used[i]) out.push_back(S->cs[i]);
}
typedef std::vector<std::pair<uint32_t, u64>> Model;
// may q be true on the current path? fills m (assignment updates) when sat by solver
static int mayBe(EP q, Model &m) {
  m.clear();
  if (isC(q)) return q->c;
  if (eEval(q, S->asg)) return 1;
  Iv iv = eIv(q, S->vr);
  if (iv.hi == 0) return 0;
  std::vector<EP> cs; slice(q, cs);
  return SV.check(cs, q, m);
}
static void refine(State *s, EP c) {
  // tighten variable ranges from simple constraints
  auto setlo = [&](EP v, u64 x) { if (v->op == E_VAR && s->vr[v->c].lo < x) s->vr[v->c].lo = x; };
  auto sethi = [&](EP v, u64 x) { if (v->op == E_VAR && s->vr[v->c].hi > x) s->vr[v->c].hi = x; };
  switch (c->op) {
  case E_VAR: setlo(c, 1); break;
  case E_AND: if (c->w == 1) { refine(s, c->k[0]); refine(s, c->k[1]); } break;
  case E_EQ: if (isC(c->k[1])) { setlo(c->k[0], c->k[1]->c); sethi(c->k[0], c->k[1]->c); } break;
  case E_ULT:
    if (isC(c->k[1])) sethi(c->k[0], c->k[1]->c - 1);
    if (isC(c->k[0])) setlo(c->k[1], c->k[0]->c + 1);
    break;
  case E_ULE:
    if (isC(c->k[1])) sethi(c->k[0], c->k[1]->c);
    if (isC(c->k[0])) setlo(c->k[1], c->k[0]->c);
    break;
  case E_XOR: // not
    if (isC(c->k[1]) && c->w == 1) {
      EP d = c->k[0];
      if (d->op == E_VAR) sethi(d, 0);
      if (d->op == E_EQ && isC(d->k[1]) && d->k[0]->op == E_VAR) {
        VarRange &r = s->vr[d->k[0]->c]; u64 x = d->k[1]->c;
        if (r.lo == x && r.hi > x) r.lo++; else if (r.hi == x && r.lo < x) r.hi--;
      }
      if (d->op == E_OR && d->w == 1) { refine(s, eNot1(d->k[0])); refine(s, eNot1(d->k[1])); }
    }
    break;
  default: break;
  }
}
static void addC(State *s, EP c, const Model &m) {
  if (isC(c)) return;
  for (auto &p : m) s->asg[p.first] = p.second;
  s->cs.push_back(c);
  refine(s, c);
  // bounds propagation to a (bounded) fixpoint
  bool ch = true;
  for (int r = 0; ch && r < 16; r++) {
    ch = false;
    for (EP k : s->cs) if (eLinRefine(k, s->vr)) ch = true;
  }
}
static State *forkState() {
  SH->forks++;
  S->mem.flush();
  State *n = new State(*S);
  n->mem.flush();
  return n;
}
static void uniqueCtx() {
  Ctx *&c = S->th[S->cur].ctx;
  if (c->rc > 1) { Ctx *n = new Ctx(*c); n->rc = 1; c->rc--; c = n; }
}

// Decide a symbolic boolean; forks when both sides are feasible. returns outcome
// or -1 when the path ended. Caller must re-read ctx pointers afterwards.
static int decide(EP q) {
  if (isC(q)) { S->forced = -1; return q->c; }
  if (S->forced >= 0) { int r = S->forced; S->forced = -1; return r; }
  Iv iv = eIv(q, S->vr);
  if (iv.lo == 1) return 1;
  if (iv.hi == 0) return 0;
  bool cur = eEval(q, S->asg);
  EP other = cur ? eNot1(q) : q;
  Model m;
  std::vector<EP> cs; slice(other, cs);
  int r = SV.check(cs, other, m);
  if (r < 0) { SH->incomplete++; r = 0; }
  EP mine = cur ? q : eNot1(q);
  if (r) {
    State *n = forkState();
    addC(n, other, m); n->forced = !cur;
    WL.push_back(n);
    uniqueCtx();
    Model none; addC(S, mine, none);
  }
  return cur;
}
// pick one concrete value for e, forking off the other values.
static u64 concretize(EP e) {
  if (isC(e)) return e->c;
  Iv iv = eIv(e, S->vr);
  if (iv.lo == iv.hi) return iv.lo;
  u64 v = eEval(e, S->asg);
  EP eq = eBin(E_EQ, e, eConst(v, e->w));
  EP ne = eNot1(eq);
  Model m;
  int r = mayBe(ne, m);
  if (r < 0) { SH->incomplete++; r = 0; }
  if (r) {
    State *n = forkState();
    addC(n, ne, m);
    WL.push_back(n);
    uniqueCtx();
  }
  Model none; addC(S, eq, none);
  return v;
}
static inline u64 conc(const Val &v) { return v.e ? concretize(v.e) : v.c; }
static inline EP toE(const Val &v, unsigned w) { return v.e ? v.e : eConst(v.c, w); }
static inline Val mkV(EP e) { if (isC(e)) return {e->c, 0}; return {0, e}; }

// ---------------------------------------------------------------- memory access
static const char *stName(int st) {
  switch (st) { case ST_NONE: return "unmapped memory"; case ST_RED: return "out of bounds of heap object or global"; case ST_FREED: return "use after free";
  case ST_SRED: return "out of bounds of stack variable"; case ST_DEAD: return "use of dead stack variable"; case ST_PROT: return "protected memory"; case ST_RO: return "write to read-only data"; }
  return "?";
}
static bool chk(u64 a, u64 n, bool wr) {
  for (u64 i = 0; i < n;) {
    Page *p = S->mem.rd(a + i);
    u64 o = (a + i) & 255, m = std::min(n - i, 256 - o);
    if (!p) { violation("memory", std::string(wr ? "write to " : "read of ") + (a + i < 4096 ? "null pointer" : "unmapped memory")); return false; }
    for (u64 j = 0; j < m; j++) {
      int st = p->st[o + j];
      if (st != ST_OK && (wr || st != ST_RO)) {
        violation("memory", std::string(wr ? "write: " : "read: ") + stName(st)); return false;
      }
    }
    i += m;
  }
  return true;
}
static void raceAccess(u64 a, unsigned n, bool wr);
static bool ldRaw(u64 a, unsigned n, unsigned w, Val &out) { // n bytes, no check
  Page *p = S->mem.rd(a);
  u64 o = a & 255;
  if (p && o + n <= 256 && !p->nsym) {
    u64 v = 0; memcpy(&v, p->v + o, n); out = {v & maskw(w), 0}; return true;
  }
  u64 v = 0; bool sym = false;
  EP es[8]; uint8_t bs[8]; uint8_t cb[8];
  for (unsigned i = 0; i < n; i++) {
    p = S->mem.rd(a + i); o = (a + i) & 255;
    es[i] = p->nsym ? p->sym->e[o] : 0; bs[i] = es[i] ? p->sym->b[o] : 0; cb[i] = p->v[o];
    if (es[i]) sym = true; v |= (u64)cb[i] << (8 * i);
  }
  if (!sym) { out = {v & maskw(w), 0}; return true; }
  bool whole = es[0] && ((es[0]->w + 7) / 8) == n;
  for (unsigned i = 0; whole && i < n; i++) if (es[i] != es[0] || bs[i] != i) whole = false;
  EP r;
  if (whole) r = es[0]->w < n * 8 ? eZext(es[0], n * 8) : es[0];
  else {
    r = 0;
    for (unsigned i = 0; i < n; i++) {
      EP b;
      if (es[i]) { unsigned off = bs[i] * 8, bw = std::min(8u, es[i]->w - off); b = eExtract(es[i], off, bw); if (bw < 8) b = eZext(b, 8); }
      else b = eConst(cb[i], 8);
      r = r ? eConcat(b, r) : b;
    }
  }
  if (r->w > w) r = eExtract(r, 0, w);
  out = mkV(r);
  return true;
}
static void stRaw(u64 a, unsigned n, const Val &v) {
  Page *p = S->mem.wr(a);
  u64 o = a & 255;
  if (!v.e && p && o + n <= 256 && !p->nsym) { memcpy(p->v + o, &v.c, n); return; }
  EP e = v.e;
  if (e && e->w < n * 8) e = eZext(e, n * 8);
  if (e && isC(e)) { Val t = {e->c, 0}; stRaw(a, n, t); return; }
  for (unsigned i = 0; i < n; i++) {
    p = S->mem.wr(a + i); o = (a + i) & 255;
    if (e) {
      if (!p->sym) { p->sym = new Sym(); memset(p->sym, 0, sizeof(Sym)); }
      if (!p->sym->e[o]) p->nsym++;
      p->sym->e[o] = e; p->sym->b[o] = i;
    } else {
      p->v[o] = v.c >> (8 * i);
      if (p->sym && p->sym->e[o]) { p->sym->e[o] = 0; p->nsym--; }
    }
  }
}
static inline bool load(u64 a, unsigned n, unsigned w, Val &out) {
  Page *p = S->mem.rd(a); u64 o = a & 255;
  static const u64 OKS[9] = {0, 0x01, 0x0101, 0, 0x01010101, 0, 0, 0, 0x0101010101010101ull};
  if (p && o + n <= 256 && (n == 8 || n == 4 || n == 1 || n == 2)) {
    u64 st = 0; memcpy(&st, p->st + o, n);
    if (st != OKS[n] && !chk(a, n, false)) return false;
  } else if (!chk(a, n, false)) return false;
  if (S->race) raceAccess(a, n, false);
  if (ENDK != RUN) return false;
  return ldRaw(a, n, w, out);
}
static inline bool store(u64 a, unsigned n, const Val &v) {
  Page *p = S->mem.rd(a); u64 o = a & 255;
  static const u64 OKS[9] = {0, 0x01, 0x0101, 0, 0x01010101, 0, 0, 0, 0x0101010101010101ull};
  if (p && o + n <= 256 && (n == 8 || n == 4 || n == 1 || n == 2)) {
    u64 st = 0; memcpy(&st, p->st + o, n);
    if (st != OKS[n] && !chk(a, n, true)) return false;
  } else if (!chk(a, n, true)) return false;
  if (S->race) raceAccess(a, n, true);
  if (ENDK != RUN) return false;
  stRaw(a, n, v);
  return true;
}
static bool memCopy(u64 d, u64 s, u64 n) {
  if (!n) return true;
  if (!chk(s, n, false) || !chk(d, n, true)) return false;
  if (S->race) { for (u64 i = 0; i < n; i++) { raceAccess(s + i, 1, false); raceAccess(d + i, 1, true); if (ENDK != RUN) return false; } }
  std::vector<uint8_t> buf(n); std::vector<EP> es; std::vector<uint8_t> bs;
  bool sym = false;
  for (u64 i = 0; i < n;) {
    Page *p = S->mem.rd(s + i); u64 o = (s + i) & 255, m = std::min(n - i, 256 - o);
    memcpy(&buf[i], p->v + o, m);
    if (p->nsym) {
      if (!sym) { sym = true; es.assign(n, 0); bs.assign(n, 0); }
      memcpy(&es[i], p->sym->e + o, m * sizeof(EP)); memcpy(&bs[i], p->sym->b + o, m);
    }
    i += m;
  }
  for (u64 i = 0; i < n;) {
    Page *p = S->mem.wr(d + i); u64 o = (d + i) & 255, m = std::min(n - i, 256 - o);
    memcpy(p->v + o, &buf[i], m);
    if (sym || p->nsym) {
      for (u64 j = 0; j < m; j++) {
        EP e = sym ? es[i + j] : 0;
        if (e && !p->sym) { p->sym = new Sym(); memset(p->sym, 0, sizeof(Sym)); }
        if (p->sym) {
          if (e && !p->sym->e[o + j]) p->nsym++;
          if (!e && p->sym->e[o + j]) p->nsym--;
          p->sym->e[o + j] = e; p->sym->b[o + j] = e ? bs[i + j] : 0;
        }
      }
    }
    i += m;
  }
  return true;
}
static bool memSet(u64 d, const Val &v, u64 n) {
  if (!n) return true;
  if (!chk(d, n, true)) return false;
  if (S->race) for (u64 i = 0; i < n; i++) { raceAccess(d + i, 1, true); if (ENDK != RUN) return false; }
  if (v.e) { EP b = v.e->w > 8 ? eExtract(v.e, 0, 8) : v.e; for (u64 i = 0; i < n; i++) stRaw(d + i, 1, mkV(b)); return true; }
  for (u64 i = 0; i < n;) {
    Page *p = S->mem.wr(d + i); u64 o = (d + i) & 255, m = std::min(n - i, 256 - o);
    memset(p->v + o, (int)v.c, m);
    if (p->nsym) for (u64 j = 0; j < m; j++) if (p->sym->e[o + j]) { p->sym->e[o + j] = 0; p->nsym--; }
    i += m;
  }
  return true;
}
static std::string cstr(u64 a) {
  std::string s;
  for (int i = 0; i < 300; i++) { Page *p = S->mem.rd(a + i); if (!p) break; char c = p->v[(a + i) & 255]; if (!c) break; s += c; }
  return s;
}

// ---------------------------------------------------------------- races
static RaceSt *raceMut() { if (S->race->rc > 1) { RaceSt *n = new RaceSt(*S->race); n->rc = 1; S->race->rc--; S->race = n; } return S->race; }
static int curLine() { Ctx *c = S->ctx(); Frame &f = c->fr.back(); return f.pc < (int)f.f->code.size() ? f.f->code[f.pc].line : 0; }
static bool isModelFn(Func *f) { return f->name.compare(0, 2, "m_") == 0 || f->name.compare(0, 2, "v_") == 0 || f->name.compare(0, 2, "h_") == 0; }
static bool RACE_QUIET = false;
static void raceAccess(u64 a, unsigned n, bool wr) {
  if (S->th.size() < 2) return;
  Ctx *c = S->ctx();
  if (isModelFn(c->fr.back().f)) return; // the model itself is atomic
  RaceSt *r = raceMut();
  int t = S->cur;
  if ((int)r->vc.size() <= t) return;
  auto &my = r->vc[t];
  size_t nt = S->th.size(); if (nt > RaceSt::NT) nt = RaceSt::NT;
  if (t >= (int)nt) return;
  for (unsigned i = 0; i < n; i++) {
    auto &ac = r->at(a + i);
    auto hb = [&](int ot, uint32_t clk) { return ot == t || clk == 0 || (ot < (int)my.size() && my[ot] >= clk); };
    bool bad = false; int ol = 0;
    if (ac.wc && !hb(ac.wt, ac.wc)) { bad = true; ol = ac.wline; }
    if (wr) for (size_t k = 0; k < nt; k++) if (!hb(k, ac.r[k])) { bad = true; ol = ac.rline; }
    if (bad) { SH->races++; violation("race", "data race between threads: access at line " + std::to_string(curLine()) + " vs line " + std::to_string(ol)); return; }
    if (wr) { ac.wt = (uint16_t)t; ac.wc = my[t]; ac.wline = (uint16_t)curLine(); }
    else { ac.r[t] = my[t]; ac.rline = (uint16_t)curLine(); }
  }
}
static void raceForget(u64 a, u64 n) {
  if (!S->race || S->race->acc.empty() || !n) return;
  RaceSt *r = raceMut();
  for (u64 pg = a >> 6; pg <= (a + n - 1) >> 6; pg++) {
    auto it = r->acc.find(pg); if (it == r->acc.end()) continue;
    u64 lo = std::max(a, pg << 6), hi = std::min(a + n, (pg + 1) << 6);
    if (hi - lo == 64) { r->acc.erase(it); continue; }
    for (u64 x = lo; x < hi; x++) memset(&r->at(x), 0, sizeof(RaceSt::Acc));
  }
}
static void vcJoin(std::vector<uint32_t> &a, const std::vector<uint32_t> &b) { if (a.size() < b.size()) a.resize(b.size(), 0); for (size_t i = 0; i < b.size(); i++) a[i] = std::max(a[i], b[i]); }
static void raceAcq(u64 o) { if (!S->race) return; RaceSt *r = raceMut(); auto it = r->sync.find(o); if (it != r->sync.end()) vcJoin(r->vc[S->cur], it->second); }
static void raceRel(u64 o) { if (!S->race) return; RaceSt *r = raceMut(); vcJoin(r->sync[o], r->vc[S->cur]); r->vc[S->cur][S->cur]++; }

// ---------------------------------------------------------------- calls
enum BI {
  B_NONE, B_SYM, B_ASSUME, B_CHECK, B_FAIL, B_LOG, B_END, B_MALLOC, B_FREE, B_LIVE, B_MAP, B_UNMAP, B_THNEW, B_THSWITCH,
  B_THSELF, B_CONC, B_ISSYM, B_COVER, B_MEMCPY, B_MEMSET, B_SWITCHCTX, B_NOP, B_NOPRET0, B_VASTART, B_VACOPY, B_TLS, B_MINMAX,
  B_FSH, B_OVF, B_LOADREL, B_TRAP, B_CTPOP, B_CTLZ, B_CTTZ, B_BSWAP, B_ABS, B_SATSUB, B_SATADD, B_EXPECT, B_OBJSIZE, B_SSAVE, B_SRESTORE,
  B_ACQ, B_REL, B_THDONE, B_BACKTRACE, B_RETADDR, B_ALLOCSIZE, B_RACEON, B_KILL, B_MAYBE, B_UNKNOWN
};
static std::map<std::string, int> BIN = {
  {"e_sym", B_SYM}, {"e_assume", B_ASSUME}, {"e_check", B_CHECK}, {"e_fail", B_FAIL}, {"e_log", B_LOG}, {"e_end", B_END},
  {"e_malloc", B_MALLOC}, {"e_free", B_FREE}, {"e_live", B_LIVE}, {"e_map", B_MAP}, {"e_unmap", B_UNMAP}, {"e_thread_new", B_THNEW},
  {"e_thread_switch", B_THSWITCH}, {"e_thread_self", B_THSELF}, {"e_thread_done", B_THDONE}, {"e_concrete", B_CONC}, {"e_is_sym", B_ISSYM}, {"e_cover", B_COVER},
  {"e_acq", B_ACQ}, {"e_rel", B_REL}, {"e_raceon", B_RACEON}, {"e_kill", B_KILL}, {"e_maybe", B_MAYBE},
  {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET}, {"_llco_asm_switch", B_SWITCHCTX}, {"e_allocsize", B_ALLOCSIZE},
  {"_Unwind_Backtrace", B_NOPRET0}, {"_Unwind_GetCFA", B_NOPRET0}, {"_Unwind_GetIPInfo", B_NOPRET0},
};
static int classify(const std::string &n) {
  auto it = BIN.find(n); if (it != BIN.end()) return it->second;
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("llvm.")) {
    if (pre("llvm.memcpy") || pre("llvm.memmove")) return B_MEMCPY;
    if (pre("llvm.memset")) return B_MEMSET;
    if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.va_end") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.prefetch") || pre("llvm.donothing") || pre("llvm.invariant")) return B_NOP;
    if (pre("llvm.va_start")) return B_VASTART;
    if (pre("llvm.va_copy")) return B_VACOPY;
    if (pre("llvm.threadlocal.address")) return B_TLS;
    if (pre("llvm.umin") || pre("llvm.umax") || pre("llvm.smin") || pre("llvm.smax")) return B_MINMAX;
    if (pre("llvm.fshl") || pre("llvm.fshr")) return B_FSH;
    if (n.find(".with.overflow") != std::string::npos) return B_OVF;
    if (pre("llvm.load.relative")) return B_LOADREL;
    if (pre("llvm.trap") || pre("llvm.ubsantrap") || pre("llvm.debugtrap")) return B_TRAP;
    if (pre("llvm.ctpop")) return B_CTPOP; if (pre("llvm.ctlz")) return B_CTLZ; if (pre("llvm.cttz")) return B_CTTZ;
    if (pre("llvm.bswap")) return B_BSWAP; if (pre("llvm.abs")) return B_ABS;
    if (pre("llvm.usub.sat") || pre("llvm.ssub.sat")) return B_SATSUB; if (pre("llvm.uadd.sat")) return B_SATADD;
    if (pre("llvm.expect") || pre("llvm.ssa.copy") || pre("llvm.launder") || pre("llvm.strip")) return B_EXPECT;
    if (pre("llvm.objectsize")) return B_OBJSIZE;
    if (pre("llvm.is.constant")) return B_NOPRET0;
    if (pre("llvm.stacksave")) return B_SSAVE; if (pre("llvm.stackrestore")) return B_SRESTORE;
    if (pre("llvm.returnaddress") || pre("llvm.frameaddress")) return B_RETADDR;
  }
  return B_UNKNOWN;
}

static bool pushFrame(Ctx *C, Func *f, const std::vector<Val> &args, int retdst, int retn) {
  if (C->fr.size() > 400) { violation("memory", "stack overflow (call depth)"); return false; }
  Frame fr; fr.f = f; fr.pc = 0; fr.base = C->fr.empty() ? 0 : C->fr.back().base + C->fr.back().f->nregs;
  fr.retdst = retdst; fr.retn = retn; fr.sp0 = C->sp; fr.va = 0;
  C->regs.resize(fr.base + f->nregs, Val{0, 0});
  for (int i = 0; i < f->nargs; i++) C->regs[fr.base + i] = args[i];
  if (f->vararg) {
    u64 n = args.size() - f->nargs;
    C->sp = (C->sp - 8 * n - 16) & ~15ull;
    fr.va = C->sp;
    S->mem.setState(fr.va, 8 * n + 16, ST_OK, false);
    raceForget(fr.va, 8 * n + 16);
    for (u64 i = 0; i < n; i++) {
      Page *p = S->mem.rd(fr.va + 8 * i);
      if (!p) { violation("memory", "stack overflow"); return false; }
      stRaw(fr.va + 8 * i, 8, args[f->nargs + i]);
    }
  }
  C->fr.push_back(fr);
  SH->fn[f->id] = 1;
  return true;
}

static u64 heapAlloc(u64 size) {
  u64 a = (S->heap + 32 + 15) & ~15ull;
  u64 end = a + size;
  S->heap = ((end + 15) & ~15ull) + 16;
  if (S->heap > 0x50000000ull) { engerr("heap exhausted"); return 0; }
  S->mem.setState(a - 16, 16, ST_RED, true);
  // contents: junk
  for (u64 x = a; x < end;) {
    u64 m = std::min(end - x, 256 - (x & 255)); Page *p = S->mem.wr(x, true);
    memset(p->v + (x & 255), 0xCD, m); memset(p->st + (x & 255), ST_OK, m); x += m;
  }
  S->mem.setState(end, S->heap - end, ST_RED, true);
  if (S->at->rc > 1) { AllocTab *n = new AllocTab(*S->at); n->rc = 1; S->at->rc--; S->at = n; }
  S->at->a.push_back({a, size, true}); S->at->live++;
  return a;
}
static bool heapFree(u64 a) {
  if (!a) return true;
  auto &v = S->at->a;
  auto it = std::lower_bound(v.begin(), v.end(), a, [](const Alloc &x, u64 y) { return x.addr < y; });
  if (it == v.end() || it->addr != a) { violation("memory", "free of a pointer that was never allocated"); return false; }
  if (!it->live) { violation("memory", "double free"); return false; }
  size_t i = it - v.begin();
  if (S->at->rc > 1) { AllocTab *n = new AllocTab(*S->at); n->rc = 1; S->at->rc--; S->at = n; }
  if (S->race && S->at->a[i].size) { raceAccess(a, S->at->a[i].size > 64 ? 64 : S->at->a[i].size, true); if (ENDK != RUN) return false; }
  S->at->a[i].live = false; S->at->live--;
  S->mem.setState(a, S->at->a[i].size, ST_FREED);
  return true;
}
static u64 newTls();

// executes builtin; returns false if the path ended. result slots in res[]
static bool builtin(int bi, Func *F, const CallT &ct, std::vector<Val> &A, Val *res, const Inst &I) {
  res[0] = {0, 0}; res[1] = {0, 0};
  switch (bi) {
  case B_NOP: case B_NOPRET0: return true;
  case B_SYM: {
    unsigned w = (unsigned)A[0].c; unsigned idx = S->vi.size();
    if (idx >= MAXVARS) { engerr("too many symbolic variables"); return false; }
    S->vi.push_back({(uint8_t)w, internName(cstr(A[1].c))});
    S->asg.push_back(0); S->vr.push_back({0, maskw(w)});
    if (idx + 1 > SH->maxvars) SH->maxvars = idx + 1;
    res[0] = mkV(eZext(eVar(idx, w), 64));
    return true;
  }
  case B_ASSUME: {
    EP q = toE(A[0], 32); q = eNot1(eBin(E_EQ, q, eConst(0, q->w)));
    if (isC(q)) { if (!q->c) { ENDK = END_PRUNED; return false; } return true; }
    Model m; int r = mayBe(q, m);
    if (r < 0) SH->incomplete++;
    if (r <= 0) { ENDK = END_PRUNED; return false; }
    addC(S, q, m);
    return true;
  }
  case B_MAYBE: { // can cond be true? (no constraint added) -- used only by twins
    EP q = toE(A[0], 32); q = eNot1(eBin(E_EQ, q, eConst(0, q->w)));
    Model m; int r = mayBe(q, m); res[0] = {(u64)(r > 0), 0};
    return true;
  }
  case B_CHECK: {
    EP q = toE(A[0], 32); q = eBin(E_EQ, q, eConst(0, q->w)); // violation condition
    if (isC(q) && !q->c) return true;
    Model m; int r = mayBe(q, m);
    if (r < 0) { SH->incomplete++; return true; }
    if (r) { addC(S, q, m); violation("assert", cstr(A[1].c)); return false; }
    return true;
  }
  case B_FAIL: violation("assert", cstr(A[0].c)); return false;
  case B_LOG: {
    LogN *l = new LogN{1, S->log, conc(A[0]), A[1]};
    S->log = l; return true;
  }
  case B_END: ENDK = END_OK; return false;
  case B_KILL: ENDK = END_PRUNED; return false;
  case B_MALLOC: { u64 n = conc(A[0]); if (n > 0x8000000) { res[0] = {0, 0}; return true; } res[0] = {heapAlloc(n), 0}; return ENDK == RUN; }
  case B_FREE: return heapFree(conc(A[0]));
  case B_ALLOCSIZE: {
    u64 a = conc(A[0]); auto &v = S->at->a;
    auto it = std::lower_bound(v.begin(), v.end(), a, [](const Alloc &x, u64 y) { return x.addr < y; });
    if (it == v.end() || it->addr != a || !it->live) { violation("memory", "realloc of an invalid pointer"); return false; }
    res[0] = {it->size, 0}; return true;
  }
  case B_LIVE: res[0] = {(u64)S->at->live, 0}; return true;
  case B_MAP: { // e_map(addr or 0, size) -> addr
    u64 a = conc(A[0]), n = conc(A[1]);
    if (!a) { a = S->maptop; S->maptop += ((n + 0xffff) & ~0xffffull) + 0x20000; if (S->maptop > 0xF0000000ull) { engerr("map space exhausted"); return false; } }
    S->mem.mapZero(a, n); raceForget(a, S->race ? n : 0);
    res[0] = {a, 0}; return true;
  }
  case B_UNMAP: { u64 a = conc(A[0]), n = conc(A[1]), k = conc(A[2]); S->mem.unmap(a, n, k == 0 ? ST_NONE : k == 2 ? ST_OK : ST_PROT); return true; }
  case B_THSELF: res[0] = {(u64)S->cur, 0}; return true;
  case B_THNEW: {
    Func *f = 0; auto it = FADDR.find(conc(A[0])); if (it != FADDR.end()) f = it->second;
    if (!f || f->decl) { engerr("thread entry is not a function"); return false; }
    Thread t; t.done = false; t.ctx = new Ctx(); t.ctx->rc = 1; t.ctx->tok = 0;
    u64 stk = S->maptop; S->maptop += 0x50000; S->mem.mapZero(stk, 0x20000); t.ctx->sp = stk + 0x20000 - 64;
    t.tls = newTls();
    S->th.push_back(t);
    std::vector<Val> as; as.push_back(A[1]);
    while ((int)as.size() < f->nargs) as.push_back({0, 0});
    pushFrame(S->th.back().ctx, f, as, -1, 0);
    if (S->race) { RaceSt *r = raceMut(); size_t id = S->th.size() - 1; r->vc.resize(id + 1); for (auto &v : r->vc) v.resize(id + 1, 0); r->vc[id] = r->vc[S->cur]; r->vc[id][id] = 1; r->vc[S->cur][S->cur]++; }
    res[0] = {(u64)S->th.size() - 1, 0}; return true;
  }
  case B_THDONE: S->th[S->cur].done = true; return true;
  case B_RACEON: if (!S->race) { S->race = new RaceSt(); S->race->rc = 1; S->race->vc.resize(1); S->race->vc[0].assign(1, 1); } return true;
  case B_ACQ: raceAcq(conc(A[0])); return true;
  case B_REL: raceRel(conc(A[0])); return true;
  case B_CONC: res[0] = {conc(A[0]), 0}; return true;
  case B_ISSYM: res[0] = {(u64)(A[0].e != 0), 0}; return true;
  case B_COVER: { u64 i = conc(A[0]); if (i < (u64)MAXCOV) SH->cov[i] = 1; return true; }
  case B_MEMCPY: { u64 d = conc(A[0]), s = conc(A[1]), n = conc(A[2]); res[0] = {d, 0}; return memCopy(d, s, n); }
  case B_MEMSET: { u64 d = conc(A[0]), n = conc(A[2]); res[0] = {d, 0}; return memSet(d, A[1], n); }
  case B_VASTART: {
    u64 a = conc(A[0]); Frame &fr = S->ctx()->fr.back();
    return store(a, 4, {48, 0}) && store(a + 4, 4, {176, 0}) && store(a + 8, 8, {fr.va, 0}) && store(a + 16, 8, {0, 0});
  }
  case B_VACOPY: return memCopy(conc(A[0]), conc(A[1]), 24);
  case B_MINMAX: {
    unsigned w = I.w; const std::string &n = F->name; bool mn = n.find("min") != std::string::npos, sg = n[5] == 's';
    if (!A[0].e && !A[1].e) {
      bool lt = sg ? sextw(A[0].c, w) < sextw(A[1].c, w) : A[0].c < A[1].c;
      res[0] = (lt == mn) ? A[0] : A[1]; return true;
    }
    EP a = toE(A[0], w), b = toE(A[1], w); EP c = eBin(sg ? E_SLT : E_ULT, a, b);
    if (w >= 32) { int lt = decide(c); if (ENDK != RUN) return false; res[0] = (lt == (int)mn) ? A[0] : A[1]; return true; }
    res[0] = mkV(mn ? eIte(c, a, b) : eIte(c, b, a)); return true;
  }
  case B_FSH: {
    unsigned w = I.w; bool l = F->name[8] == 'l';
    EP a = toE(A[0], w), b = toE(A[1], w), r;
    if (A[2].e && (w & (w - 1)) == 0) {
      EP c = eBin(E_AND, A[2].e, eConst(w - 1, w)), n = eBin(E_SUB, eConst(w, w), c), z = eBin(E_EQ, c, eConst(0, w));
      if (l) r = eIte(z, a, eBin(E_OR, eBin(E_SHL, a, c), eBin(E_LSHR, b, n)));
      else r = eIte(z, b, eBin(E_OR, eBin(E_SHL, a, n), eBin(E_LSHR, b, c)));
      res[0] = mkV(r); return true;
    }
    u64 s = conc(A[2]) % w;
    if (l) r = s == 0 ? a : eBin(E_OR, eBin(E_SHL, a, eConst(s, w)), eBin(E_LSHR, b, eConst(w - s, w)));
    else r = s == 0 ? b : eBin(E_OR, eBin(E_SHL, a, eConst(w - s, w)), eBin(E_LSHR, b, eConst(s, w)));
    res[0] = mkV(r); return true;
  }
  case B_OVF: {
    unsigned w = ct.aw[0]; const std::string &n = F->name; bool sg = n[5] == 's'; char k = n[6];
    EP a = toE(A[0], w), b = toE(A[1], w);
    Op op = k == 'a' ? E_ADD : k == 's' ? E_SUB : E_MUL;
    if (isC(a) && isC(b)) {
      __int128 x = sg ? (__int128)sextw(a->c, w) : (__int128)a->c, y = sg ? (__int128)sextw(b->c, w) : (__int128)b->c;
      __int128 r = op == E_ADD ? x + y : op == E_SUB ? x - y : x * y;
      u64 t = (u64)r & maskw(w); __int128 back = sg ? (__int128)sextw(t, w) : (__int128)t;
      res[0] = {t, 0}; res[1] = {(u64)(back != r), 0}; return true;
    }
    EP r = eBin(op, a, b), o;
    EP z = eConst(0, w);
    if (op == E_ADD) {
      if (!sg) o = eBin(E_ULT, r, a);
      else { EP na = eBin(E_SLT, a, z), nb = eBin(E_SLT, b, z), nr = eBin(E_SLT, r, z); o = eBin(E_AND, eBin(E_EQ, na, nb), eNot1(eBin(E_EQ, na, nr))); }
    } else if (op == E_SUB) {
      if (!sg) o = eBin(E_ULT, a, b);
      else { EP na = eBin(E_SLT, a, z), nb = eBin(E_SLT, b, z), nr = eBin(E_SLT, r, z); o = eBin(E_AND, eNot1(eBin(E_EQ, na, nb)), eNot1(eBin(E_EQ, na, nr))); }
    } else {
      if (isC(a)) std::swap(a, b);
      if (!isC(b)) { // symbolic*symbolic: use widening when narrow
        if (w <= 32) { EP wa = sg ? eSext(a, 64) : eZext(a, 64), wb = sg ? eSext(b, 64) : eZext(b, 64), p = eBin(E_MUL, wa, wb); EP back = sg ? eSext(eExtract(p, 0, w), 64) : eZext(eExtract(p, 0, w), 64); o = eNot1(eBin(E_EQ, p, back)); }
        else { Iv ia = eIv(a, S->vr), ib = eIv(b, S->vr); if ((unsigned __int128)ia.hi * ib.hi <= (maskw(w) >> (sg ? 1 : 0))) o = eConst(0, 1); else { u64 v = conc(A[1]); b = eConst(v, w); r = eBin(op, a, b); goto constmul; } }
      } else {
      constmul:
        u64 cst = b->c;
        if (cst == 0) o = eConst(0, 1);
        else if (!sg) o = eBin(E_ULT, eConst(maskw(w) / cst, w), a);
        else {
          int64_t k2 = sextw(cst, w); int64_t mx = (int64_t)(maskw(w) >> 1), mi = -mx - 1;
          if (k2 == 1) o = eConst(0, 1);
          else if (k2 == -1) o = eBin(E_EQ, a, eConst((u64)mi, w));
          else { int64_t lo = k2 > 0 ? mi / k2 : mx / k2, hi = k2 > 0 ? mx / k2 : mi / k2; o = eBin(E_OR, eBin(E_SLT, a, eConst((u64)lo, w)), eBin(E_SLT, eConst((u64)hi, w), a)); }
        }
      }
    }
    res[0] = mkV(r); res[1] = mkV(o); return true;
  }
  case B_LOADREL: { u64 p = conc(A[0]), o = conc(A[1]); Val v; if (!load(p + o, 4, 32, v)) return false; res[0] = {p + (u64)sextw(conc(v), 32), 0}; return true; }
  case B_TRAP: violation("ub", "undefined behaviour trap (sanitizer check)"); return false;
  case B_CTPOP: res[0] = {(u64)__builtin_popcountll(conc(A[0])), 0}; return true;
  case B_CTLZ: { u64 x = conc(A[0]); unsigned w = I.w; res[0] = {x ? (u64)(__builtin_clzll(x) - (64 - w)) : w, 0}; return true; }
  case B_CTTZ: { u64 x = conc(A[0]); res[0] = {x ? (u64)__builtin_ctzll(x) : I.w, 0}; return true; }
  case B_BSWAP: {
    unsigned w = I.w; EP a = toE(A[0], w), r = 0;
    for (unsigned i = 0; i < w / 8; i++) { EP b = eExtract(a, 8 * i, 8); r = r ? eConcat(r, b) : b; }
    res[0] = mkV(r); return true;
  }
  case B_ABS: { unsigned w = I.w; EP a = toE(A[0], w); res[0] = mkV(eIte(eBin(E_SLT, a, eConst(0, w)), eBin(E_SUB, eConst(0, w), a), a)); return true; }
  case B_SATSUB: { unsigned w = I.w; EP a = toE(A[0], w), b = toE(A[1], w); if (F->name[5] == 's') { engerr("ssub.sat"); return false; } res[0] = mkV(eIte(eBin(E_ULT, a, b), eConst(0, w), eBin(E_SUB, a, b))); return true; }
  case B_SATADD: { unsigned w = I.w; EP a = toE(A[0], w), b = toE(A[1], w), r = eBin(E_ADD, a, b); res[0] = mkV(eIte(eBin(E_ULT, r, a), eConst(~0ull, w), r)); return true; }
  case B_EXPECT: res[0] = A[0]; return true;
  case B_OBJSIZE: res[0] = {maskw(I.w), 0}; return true;
  case B_SSAVE: res[0] = {S->ctx()->sp, 0}; return true;
  case B_SRESTORE: { u64 n = conc(A[0]); Ctx *C = S->ctx(); if (n > C->sp) S->mem.setState(C->sp, n - C->sp, ST_DEAD, false); C->sp = n; return true; }
  case B_RETADDR: res[0] = {0x1000, 0}; return true;
  }
  engerr("call of unmodelled function " + F->name);
  return false;
}

// ---------------------------------------------------------------- run one state
static void switchTo(Ctx *n) { S->th[S->cur].ctx = n; if (n->rc > 1) uniqueCtx(); }

static void runState() {
  ENDK = RUN;
  uniqueCtx();
  Ctx *C; Frame *F; Val *R; const Inst *code;
  Val scratch[64];
  std::vector<Val> A; A.reserve(16);
#define RELOAD() do { C = S->ctx(); F = &C->fr.back(); R = C->regs.data() + F->base; code = F->f->code.data(); } while (0)
#define OPV(x) ((x) >= 0 ? R[x] : CONSTS[~(x)])
  RELOAD();
  u64 ic = S->icount; u64 lim = MAXI; unsigned tick = 0;
  auto takeEdge = [&](int eid) {
    Edge &E = EDGES[eid];
    if (!E.mv.empty()) {
      size_t n = E.mv.size();
      if (n == 1) R[E.mv[0].first] = OPV(E.mv[0].second);
      else {
        static std::vector<Val> tmp; tmp.resize(n);
        for (size_t i = 0; i < n; i++) tmp[i] = OPV(E.mv[i].second);
        for (size_t i = 0; i < n; i++) R[E.mv[i].first] = tmp[i];
      }
    }
    F->pc = E.target;
  };
  while (true) {
    const Inst &I = code[F->pc];
    ic++;
    if (ic > lim) { S->icount = ic; SH->limit++; violation("hang", "path did not terminate within the instruction bound"); ENDK = END_ERR; break; }
    if (++tick >= 20000) { tick = 0; if (SH->stop) { ENDK = END_LIMIT; break; } if (nowS() - T0 > BUDGET) { SH->incomplete++; SH->stop = 1; ENDK = END_LIMIT; break; } }
    switch (I.op) {
    case I_ADD: case I_SUB: case I_MUL: case I_AND: case I_OR: case I_XOR: case I_SHL: case I_LSHR: case I_ASHR:
    case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
      const Val &a = OPV(I.a), &b = OPV(I.b);
      if (I.op >= I_UDIV && I.op <= I_SREM) {
        EP d = toE(b, I.w); EP z = eBin(E_EQ, d, eConst(0, I.w)); Model m;
        int r = mayBe(z, m);
        if (r > 0) { S->icount = ic; addC(S, z, m); violation("ub", "division by zero"); goto done; }
      }
      if (!a.e && !b.e) {
        u64 x = a.c, y = b.c, r; unsigned w = I.w;
        switch (I.op) {
        case I_ADD: r = x + y; break; case I_SUB: r = x - y; break; case I_MUL: r = x * y; break;
        case I_AND: r = x & y; break; case I_OR: r = x | y; break; case I_XOR: r = x ^ y; break;
        case I_SHL: r = y >= w ? 0 : x << y; break; case I_LSHR: r = y >= w ? 0 : x >> y; break;
        case I_ASHR: r = (u64)(sextw(x, w) >> (y >= w ? w - 1 : y)); break;
        case I_UDIV: r = x / y; break; case I_UREM: r = x % y; break;
        case I_SDIV: { int64_t p = sextw(x, w), q = sextw(y, w); r = q == -1 ? 0 - (u64)p : (u64)(p / q); break; }
        default: { int64_t p = sextw(x, w), q = sextw(y, w); r = q == -1 ? 0 : (u64)(p % q); break; }
        }
        R[I.dst] = {r & maskw(w), 0};
      } else {
        static const Op M[] = {E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR};
        EP ea = toE(a, I.w), eb = toE(b, I.w);
        if (I.op >= I_UDIV && I.op <= I_SREM) {
          Iv ia = eIv(ea, S->vr), ib = eIv(eb, S->vr); u64 sb = 1ull << (I.w - 1);
          if (ia.hi < sb && ib.hi < sb) { // narrow the division
            bool rem = I.op == I_UREM || I.op == I_SREM;
            if (ib.lo > 0 && ia.lo / ib.hi == ia.hi / ib.lo && ib.lo == ib.hi) {
              u64 q = ia.lo / ib.lo;
              R[I.dst] = rem ? mkV(eBin(E_SUB, ea, eConst(q * ib.lo, I.w))) : Val{q, 0};
              F->pc++; break;
            }
            u64 mx = ia.hi | ib.hi; unsigned nw = mx ? 64 - __builtin_clzll(mx) : 1; nw = std::min<unsigned>(I.w, nw);
            EP r = eBin(rem ? E_UREM : E_UDIV, eExtract(ea, 0, nw), eExtract(eb, 0, nw));
            R[I.dst] = mkV(eZext(r, I.w)); F->pc++; break;
          }
        }
        if (I.op >= I_UDIV && I.op <= I_SREM && isC(eb)) { // known non-negative from the path condition?
          EP r = eLinDivNN(M[I.op - I_ADD], ea, eb);
          if (r) {
            Model m; EP neg = eBin(E_SLT, ea, eConst(0, I.w));
            if (isC(neg) ? neg->c == 0 : mayBe(neg, m) == 0) { R[I.dst] = mkV(r); F->pc++; break; }
          }
        }
        EP r = eBin(M[I.op - I_ADD], ea, eb);
        R[I.dst] = mkV(r);
      }
      F->pc++; break;
    }
    case I_EQ: case I_NE: case I_ULT: case I_ULE: case I_SLT: case I_SLE: {
      const Val &a = OPV(I.a), &b = OPV(I.b);
      if (!a.e && !b.e) {
        bool r; unsigned w = I.w;
        switch (I.op) {
        case I_EQ: r = a.c == b.c; break; case I_NE: r = a.c != b.c; break; case I_ULT: r = a.c < b.c; break;
        case I_ULE: r = a.c <= b.c; break; case I_SLT: r = sextw(a.c, w) < sextw(b.c, w); break;
        default: r = sextw(a.c, w) <= sextw(b.c, w);
        }
        R[I.dst] = {(u64)r, 0};
      } else {
        EP ea = toE(a, I.w), eb = toE(b, I.w), r;
        switch (I.op) {
        case I_EQ: r = eBin(E_EQ, ea, eb); break; case I_NE: r = eNot1(eBin(E_EQ, ea, eb)); break;
        case I_ULT: r = eBin(E_ULT, ea, eb); break; case I_ULE: r = eBin(E_ULE, ea, eb); break;
        case I_SLT: r = eBin(E_SLT, ea, eb); break; default: r = eBin(E_SLE, ea, eb);
        }
        if (!isC(r)) { Iv iv = eIv(r, S->vr); if (iv.lo == iv.hi) r = eConst(iv.lo, 1); }
        R[I.dst] = mkV(r);
      }
      F->pc++; break;
    }
    case I_ZEXT: { const Val &a = OPV(I.a); R[I.dst] = a.e ? mkV(eZext(a.e, I.w)) : a; F->pc++; break; }
    case I_SEXT: { const Val &a = OPV(I.a); R[I.dst] = a.e ? mkV(eSext(a.e, I.w)) : Val{(u64)sextw(a.c, I.w2) & maskw(I.w), 0}; F->pc++; break; }
    case I_TRUNC: { const Val &a = OPV(I.a); R[I.dst] = a.e ? mkV(eExtract(a.e, 0, I.w)) : Val{a.c & maskw(I.w), 0}; F->pc++; break; }
    case I_MOV: for (int i = 0; i < I.n; i++) { Val t = I.a >= 0 ? R[I.a + i] : CONSTS[~I.a + i]; R[I.dst + i] = t; } F->pc++; break;
    case I_SELECT: {
      const Val &c = OPV(I.a);
      if (!c.e) { R[I.dst] = c.c ? OPV(I.b) : OPV(I.c); F->pc++; break; }
      if (I.imm || (I.w >= 32 && (OPV(I.b).e || OPV(I.c).e))) { // pointer or wide symbolic select: fork
        S->icount = ic; int r = decide(c.e); if (ENDK != RUN) goto done; RELOAD();
        R[I.dst] = r ? OPV(I.b) : OPV(I.c); F->pc++; break;
      }
      R[I.dst] = mkV(eIte(c.e, toE(OPV(I.b), I.w), toE(OPV(I.c), I.w))); F->pc++; break;
    }
    case I_LOAD: {
      u64 a; const Val &p = OPV(I.a);
      if (p.e) { S->icount = ic; a = concretize(p.e); RELOAD(); } else a = p.c;
      Val v;
      if (I.imm && S->race) { // atomic: does not race; acquires unless relaxed
        RaceSt *sr = S->race; S->race = 0; bool ok = load(a, I.w2, I.w, v); S->race = sr;
        if (!ok) { S->icount = ic; goto done; }
        if (I.imm == 2) raceAcq(a);
        R[I.dst] = v; F->pc++; break;
      }
      if (!load(a, I.w2, I.w, v)) { S->icount = ic; goto done; }
      R[I.dst] = v; F->pc++; break;
    }
    case I_STORE: {
      u64 a; const Val &p = OPV(I.b);
      if (p.e) { S->icount = ic; a = concretize(p.e); RELOAD(); } else a = p.c;
      if (I.imm && S->race) { // atomic: does not race; releases unless relaxed
        if (I.imm == 2) raceRel(a);
        RaceSt *sr = S->race; S->race = 0; bool ok = store(a, I.w2, OPV(I.a)); S->race = sr;
        if (!ok) { S->icount = ic; goto done; }
        F->pc++; break;
      }
      if (!store(a, I.w2, OPV(I.a))) { S->icount = ic; goto done; }
      F->pc++; break;
    }
    case I_GEP: {
      const Val &p = OPV(I.a);
      auto *ts = (std::vector<GepTerm> *)I.x;
      if (!ts) { R[I.dst] = p.e ? mkV(eBin(E_ADD, p.e, eConst(I.imm, 64))) : Val{p.c + I.imm, 0}; F->pc++; break; }
      bool sym = p.e; u64 off = I.imm;
      for (auto &t : *ts) { const Val &x = OPV(t.idx); if (x.e) sym = true; else off += (u64)(sextw(x.c, t.w) * t.scale); }
      if (!sym) R[I.dst] = {p.c + off, 0};
      else {
        EP e = eBin(E_ADD, toE(p, 64), eConst(off, 64));
        for (auto &t : *ts) { const Val &x = OPV(t.idx); if (x.e) e = eBin(E_ADD, e, eBin(E_MUL, eSext(x.e, 64), eConst((u64)t.scale, 64))); }
        R[I.dst] = mkV(e);
      }
      F->pc++; break;
    }
    case I_ALLOCA: {
      u64 cnt = 1;
      if (I.b != INT32_MIN) { const Val &c = OPV(I.b); if (c.e) { S->icount = ic; cnt = concretize(c.e); RELOAD(); } else cnt = c.c; }
      u64 sz = I.imm * cnt, al = I.w2 < 16 ? 16 : I.w2;
      u64 a = (C->sp - 16 - sz) & ~(al - 1);
      u64 lo = a - 16;
      // the whole frame area must be mapped
      auto bad = [&](u64 x) { Page *p = S->mem.rd(x); return !p || p->st[x & 255] == ST_PROT || p->st[x & 255] == ST_NONE; };
      if (bad(lo) || bad(a)) { S->icount = ic; violation("memory", "stack overflow"); goto done; }
      S->mem.setState(lo, 16, ST_SRED, false);
      S->mem.setState(a, sz, ST_OK, false);
      S->mem.setState(a + sz, C->sp - (a + sz), ST_SRED, false);
      if (S->race) raceForget(a, sz);
      for (u64 x = a; x < a + sz;) { // junk fill
        u64 m = std::min(a + sz - x, 256 - (x & 255)); Page *p = S->mem.wr(x); 
        if (!p) { S->icount = ic; violation("memory", "stack overflow"); goto done; }
        memset(p->v + (x & 255), 0xA5, m);
        if (p->nsym) for (u64 j = 0; j < m; j++) if (p->sym->e[(x & 255) + j]) { p->sym->e[(x & 255) + j] = 0; p->nsym--; }
        x += m;
      }
      C->sp = lo;
      R[I.dst] = {a, 0}; F->pc++; break;
    }
    case I_BR: takeEdge(I.a); break;
    case I_CBR: {
      const Val &c = OPV(I.a);
      bool t;
      if (c.e) { S->icount = ic; int r = decide(c.e); if (ENDK != RUN) goto done; RELOAD(); t = r; }
      else t = c.c;
      takeEdge(t ? I.b : I.c); break;
    }
    case I_SWITCH: {
      const Val &c = OPV(I.a); SwitchT *st = (SwitchT *)I.x;
      u64 v; int tgt = st->def;
      if (c.e) {
        S->icount = ic;
        EP e = c.e; v = eEval(e, S->asg);
        EP q = eConst(0, 1); bool hit = false;
        for (auto &k : st->cases) if (k.first == v) { tgt = k.second; hit = true; }
        for (auto &k : st->cases) if (!hit || k.second == tgt) q = eBin(E_OR, q, eBin(E_EQ, e, eConst(k.first, I.w)));
        if (!hit) q = eNot1(q);
        if (!isC(q)) {
          Iv iv = eIv(q, S->vr);
          if (iv.lo != 1) {
            Model m; EP nq = eNot1(q); int r = mayBe(nq, m);
            if (r < 0) { SH->incomplete++; r = 0; }
            if (r) { State *n = forkState(); addC(n, nq, m); WL.push_back(n); uniqueCtx(); RELOAD(); Model none; addC(S, q, none); }
          }
        }
      } else { v = c.c; for (auto &k : st->cases) if (k.first == v) { tgt = k.second; break; } }
      takeEdge(tgt); break;
    }
    case I_RET: {
      int n = I.n;
      for (int i = 0; i < n; i++) scratch[i] = I.a >= 0 ? R[I.a + i] : CONSTS[~I.a + i];
      if (C->sp < F->sp0) { S->mem.setState(C->sp, F->sp0 - C->sp, ST_DEAD, false); C->sp = F->sp0; }
      int rd = F->retdst;
      C->fr.pop_back();
      if (C->fr.empty()) {
        S->icount = ic;
        if (S->cur == 0 && !C->tok) { ENDK = END_OK; goto done; }
        engerr(C->tok ? "coroutine entry returned" : "thread entry returned"); goto done;
      }
      RELOAD();
      if (rd >= 0) for (int i = 0; i < n; i++) R[rd + i] = scratch[i];
      F->pc++; break;
    }
    case I_CALL: {
      CallT &ct = *(CallT *)I.x;
      Func *f = ct.f;
      if (!f) {
        const Val &p = OPV(ct.callee); u64 a;
        if (p.e) { S->icount = ic; a = concretize(p.e); RELOAD(); } else a = p.c;
        auto it = FADDR.find(a);
        if (it == FADDR.end()) { S->icount = ic; violation("memory", "call through a pointer that is not a function"); goto done; }
        f = it->second;
      }
      if (f->redirect) f = f->redirect;
      A.resize(ct.args.size());
      for (size_t i = 0; i < A.size(); i++) A[i] = OPV(ct.args[i]);
      if (f->decl) {
        S->icount = ic;
        if (f->bi == B_SWITCHCTX) {
          u64 from = A[0].c, to = A[1].c; Val rip, rsp, r12, r13;
          if (!chk(from, 64, true) || !chk(to, 64, false)) goto done;
          ldRaw(to, 8, 64, rip); ldRaw(to + 8, 8, 64, rsp); ldRaw(to + 32, 8, 64, r12); ldRaw(to + 40, 8, 64, r13);
          F->pc++; // resume after the call
          u64 tok = S->ntok++; u64 trip = 0xFE00000000000000ull + tok;
          stRaw(from, 8, {trip, 0}); stRaw(from + 8, 8, {C->sp, 0});
          S->parked.push_back({trip, S->th[S->cur].ctx}); S->th[S->cur].ctx = 0;
          if (rip.c == ENTRY_ADDR && ENTRY_ADDR) {
            auto it = FADDR.find(r12.c);
            if (it == FADDR.end() || it->second->decl) { S->th[S->cur].ctx = S->parked.back().second; S->parked.pop_back(); violation("memory", "switch to invalid entry"); goto done; }
            Ctx *n = new Ctx(); n->rc = 1; n->sp = rsp.c & ~15ull; n->tok = 1; 
            S->th[S->cur].ctx = n;
            std::vector<Val> as; as.push_back(r13);
            if (!pushFrame(n, it->second, as, -1, 0)) goto done;
          } else {
            Ctx *n = 0;
            for (size_t i = 0; i < S->parked.size(); i++) if (S->parked[i].first == rip.c) { n = S->parked[i].second; S->parked.erase(S->parked.begin() + i); break; }
            if (!n) { S->th[S->cur].ctx = S->parked.back().second; S->parked.pop_back(); violation("memory", "switch to a context that is not suspended"); goto done; }
            switchTo(n);
            if (rsp.c != S->ctx()->sp) { violation("memory", "context restored with a different stack pointer"); goto done; }
          }
          RELOAD(); break;
        }
        if (f->bi == B_TLS) { R[I.dst] = {S->th[S->cur].tls + A[0].c, 0}; F->pc++; break; }
        if (f->bi == B_THSWITCH) {
          u64 t = conc(A[0]); RELOAD();
          if (t >= S->th.size() || S->th[t].done) { engerr("switch to bad thread"); goto done; }
          F->pc++;
          S->cur = (int)t; uniqueCtx(); RELOAD(); break;
        }
        Val res[2];
        bool ok = builtin(f->bi, f, ct, A, res, I);
        if (!ok) goto done;
        uniqueCtx(); RELOAD();
        if (I.dst >= 0) { if (I.n >= 1) R[I.dst] = {res[0].e ? 0 : res[0].c & maskw(I.w ? I.w : 64), res[0].e && I.w && res[0].e->w > I.w ? eExtract(res[0].e, 0, I.w) : res[0].e}; if (R[I.dst].e && isC(R[I.dst].e)) R[I.dst] = {R[I.dst].e->c, 0}; if (I.n >= 2) R[I.dst + 1] = res[1]; }
        F->pc++; break;
      }
      if ((int)A.size() < f->nargs) { S->icount = ic; engerr("call with too few args: " + f->name); goto done; }
      S->icount = ic;
      if (!pushFrame(C, f, A, I.dst, I.n)) goto done;
      RELOAD(); break;
    }
    case I_UNREACH: S->icount = ic; violation("ub", "reached unreachable code"); goto done;
    case I_EXTRACTV: for (int i = 0; i < I.n; i++) { Val t = I.a >= 0 ? R[I.a + I.imm + i] : CONSTS[~I.a + I.imm + i]; R[I.dst + i] = t; } F->pc++; break;
    case I_INSERTV: {
      // dst(all c slots) = a with slots [imm, imm+n) replaced by b
      for (int i = 0; i < I.c; i++) scratch[i] = I.a >= 0 ? R[I.a + i] : CONSTS[~I.a + i];
      for (int i = 0; i < I.n; i++) scratch[I.imm + i] = I.b >= 0 ? R[I.b + i] : CONSTS[~I.b + i];
      for (int i = 0; i < I.c; i++) R[I.dst + i] = scratch[i];
      F->pc++; break;
    }
    case I_RMW: {
      S->icount = ic;
      u64 a = conc(OPV(I.a)); RELOAD(); Val old;
      RaceSt *sr = S->race; S->race = 0; // atomics do not race
      bool ok = load(a, I.w2, I.w, old);
      if (ok) {
        EP o = toE(old, I.w), v = toE(OPV(I.b), I.w), r = v;
        switch (I.imm) {
        case AtomicRMWInst::Xchg: r = v; break; case AtomicRMWInst::Add: r = eBin(E_ADD, o, v); break; case AtomicRMWInst::Sub: r = eBin(E_SUB, o, v); break;
        case AtomicRMWInst::And: r = eBin(E_AND, o, v); break; case AtomicRMWInst::Or: r = eBin(E_OR, o, v); break; case AtomicRMWInst::Xor: r = eBin(E_XOR, o, v); break;
        case AtomicRMWInst::Max: r = eIte(eBin(E_SLT, o, v), v, o); break; case AtomicRMWInst::Min: r = eIte(eBin(E_SLT, o, v), o, v); break;
        case AtomicRMWInst::UMax: r = eIte(eBin(E_ULT, o, v), v, o); break; case AtomicRMWInst::UMin: r = eIte(eBin(E_ULT, o, v), o, v); break;
        default: S->race = sr; engerr("atomicrmw"); goto done;
        }
        ok = store(a, I.w2, mkV(r));
      }
      S->race = sr;
      if (!ok) goto done;
      if (S->race) { raceAcq(a); raceRel(a); }
      R[I.dst] = old; F->pc++; break;
    }
    case I_CMPXCHG: {
      S->icount = ic;
      u64 a = conc(OPV(I.a)); RELOAD(); Val old;
      RaceSt *sr = S->race; S->race = 0;
      bool ok = load(a, I.w2, I.w, old);
      if (ok) {
        EP o = toE(old, I.w), eq = eBin(E_EQ, o, toE(OPV(I.b), I.w));
        ok = store(a, I.w2, mkV(eIte(eq, toE(OPV(I.c), I.w), o)));
        R[I.dst] = old; R[I.dst + 1] = mkV(eq);
      }
      S->race = sr;
      if (!ok) goto done;
      if (S->race) { raceAcq(a); raceRel(a); }
      F->pc++; break;
    }
    case I_FENCE: F->pc++; break;
    }
  }
done:
  if (S->icount < ic) S->icount = ic;
}

// ---------------------------------------------------------------- lowering
struct Lower {
  Func *F; std::map<const Value *, int> slot; std::map<const BasicBlock *, int> bstart;
  int nregs = 0;
  static int slots(Type *t) {
    if (t->isVoidTy()) return 0;
    if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (Type *e : st->elements()) n += slots(e); return n; }
    if (auto *at = dyn_cast<ArrayType>(t)) return slots(at->getElementType()) * at->getNumElements();
    if (t->isIntegerTy() || t->isPointerTy()) return 1;
    return 1;
  }
  static unsigned width(Type *t) {
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) return 255; return w; }
    return 255;
  }
  static int slotOff(Type *t, ArrayRef<unsigned> idx) {
    int o = 0;
    for (unsigned i : idx) {
      if (auto *st = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) o += slots(st->getElementType(k)); t = st->getElementType(i); }
      else { auto *at = cast<ArrayType>(t); o += slots(at->getElementType()) * i; t = at->getElementType(); }
    }
    return o;
  }
  int op(const Value *v);
};
static u64 constVal(const Constant *c, bool &ok);
static u64 faddr(const Function *f) { return FMAP.at(f)->addr; }
static u64 constVal(const Constant *c, bool &ok) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) { ok = false; return 0; } return ci->getZExtValue(); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return 0;
  if (auto *f = dyn_cast<Function>(c)) return faddr(f);
  if (auto *g = dyn_cast<GlobalVariable>(c)) { auto it = GADDR.find(g); if (it != GADDR.end()) return it->second; ok = false; return 0; }
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), ok);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: {
      APInt off(64, 0); auto *gep = cast<GEPOperator>(ce);
      if (!gep->accumulateConstantOffset(*DL, off)) { ok = false; return 0; }
      return constVal(cast<Constant>(gep->getPointerOperand()), ok) + off.getZExtValue();
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: return constVal(ce->getOperand(0), ok);
    case Instruction::Trunc: return constVal(ce->getOperand(0), ok) & maskw(Lower::width(ce->getType()));
    case Instruction::Sub: return (constVal(ce->getOperand(0), ok) - constVal(ce->getOperand(1), ok)) & maskw(Lower::width(ce->getType()));
    case Instruction::Add: return (constVal(ce->getOperand(0), ok) + constVal(ce->getOperand(1), ok)) & maskw(Lower::width(ce->getType()));
    default: ok = false; return 0;
    }
  }
  ok = false; return 0;
}
static void flatConst(const Constant *c, std::vector<Val> &out) {
  Type *t = c->getType();
  if (t->isStructTy() || t->isArrayTy()) {
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; i++) flatConst(c->getAggregateElement(i), out);
    return;
  }
  bool ok = true; u64 v = constVal(c, ok);
  if (!ok) v = 0xDEADDEAD0000ull;
  out.push_back({v, 0});
}
int Lower::op(const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) {
    static std::map<const Constant *, int> memo;
    auto it = memo.find(c); if (it != memo.end()) return it->second;
    int i = CONSTS.size();
    if (slots(c->getType()) <= 1) {
      bool ok = true; u64 x = constVal(c, ok);
      if (!ok) { std::string s; raw_string_ostream os(s); c->print(os); fprintf(stderr, "ENGINE: unsupported constant %s in %s\n", s.c_str(), F->name.c_str()); x = 0xDEADDEAD0000ull; }
      CONSTS.push_back({x, 0});
    } else flatConst(c, CONSTS);
    memo[c] = ~i;
    return ~i;
  }
  auto it = slot.find(v);
  if (it == slot.end()) {
    if (isa<MetadataAsValue>(v)) return ~0;
    fprintf(stderr, "ENGINE: value without slot in %s\n", F->name.c_str()); abort();
  }
  return it->second;
}
static int newEdge(Lower &L, const BasicBlock *from, const BasicBlock *to) {
  Edge e; e.target = -1; e.maxmv = 0;
  for (auto &phi : to->phis()) {
    int s = L.op(phi.getIncomingValueForBlock(from)), d = L.slot[&phi]; int n = Lower::slots(phi.getType());
    for (int i = 0; i < n; i++) e.mv.push_back({d + i, s >= 0 ? s + i : ~(~s + i)});
  }
  EDGES.push_back(e);
  return EDGES.size() - 1;
}
static std::string lowerErr;
static void lowerFunc(Func *F) {
  Function *f = F->ll; Lower L; L.F = F;
  for (auto &a : f->args()) { L.slot[&a] = L.nregs; L.nregs += 1; }
  for (auto &bb : *f) for (auto &in : bb) { int n = Lower::slots(in.getType()); if (n) { L.slot[&in] = L.nregs; L.nregs += n; } }
  F->nregs = L.nregs; F->hasAlloca = false;
  std::vector<std::pair<int, const BasicBlock *>> fix;
  for (auto &bb : *f) {
    L.bstart[&bb] = F->code.size();
    for (auto &in : bb) {
      if (isa<PHINode>(in)) continue;
      Inst I; memset(&I, 0, sizeof I); I.dst = -1;
      if (auto &dl = in.getDebugLoc()) I.line = dl.getLine();
      int ns = Lower::slots(in.getType()); I.n = ns;
      if (ns) I.dst = L.slot[&in];
      unsigned w = ns == 1 ? Lower::width(in.getType()) : 0;
      bool bad = w == 255;
      I.w = w;
      auto bin = [&](IOp o) { I.op = o; I.a = L.op(in.getOperand(0)); I.b = L.op(in.getOperand(1)); };
      switch (in.getOpcode()) {
      case Instruction::Add: bin(I_ADD); break; case Instruction::Sub: bin(I_SUB); break; case Instruction::Mul: bin(I_MUL); break;
      case Instruction::UDiv: bin(I_UDIV); break; case Instruction::SDiv: bin(I_SDIV); break; case Instruction::URem: bin(I_UREM); break;
      case Instruction::SRem: bin(I_SREM); break; case Instruction::And: bin(I_AND); break; case Instruction::Or: bin(I_OR); break;
      case Instruction::Xor: bin(I_XOR); break; case Instruction::Shl: bin(I_SHL); break; case Instruction::LShr: bin(I_LSHR); break;
      case Instruction::AShr: bin(I_ASHR); break;
      case Instruction::ICmp: {
        auto &ic = cast<ICmpInst>(in); auto p = ic.getPredicate(); bool sw = false;
        switch (p) {
        case CmpInst::ICMP_EQ: I.op = I_EQ; break; case CmpInst::ICMP_NE: I.op = I_NE; break;
        case CmpInst::ICMP_ULT: I.op = I_ULT; break; case CmpInst::ICMP_ULE: I.op = I_ULE; break;
        case CmpInst::ICMP_UGT: I.op = I_ULT; sw = true; break; case CmpInst::ICMP_UGE: I.op = I_ULE; sw = true; break;
        case CmpInst::ICMP_SLT: I.op = I_SLT; break; case CmpInst::ICMP_SLE: I.op = I_SLE; break;
        case CmpInst::ICMP_SGT: I.op = I_SLT; sw = true; break; default: I.op = I_SLE; sw = true; break;
        }
        I.a = L.op(in.getOperand(sw)); I.b = L.op(in.getOperand(!sw)); I.w = Lower::width(in.getOperand(0)->getType());
        bad = I.w == 255; break;
      }
      case Instruction::ZExt: I.op = I_ZEXT; I.a = L.op(in.getOperand(0)); break;
      case Instruction::SExt: I.op = I_SEXT; I.a = L.op(in.getOperand(0)); I.w2 = Lower::width(in.getOperand(0)->getType()); break;
      case Instruction::Trunc: I.op = I_TRUNC; I.a = L.op(in.getOperand(0)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: {
        I.op = I_MOV; I.a = L.op(in.getOperand(0));
        if (in.getOpcode() != Instruction::Freeze) {
          unsigned sw = Lower::width(in.getOperand(0)->getType());
          if (sw != w) I.op = sw > w ? I_TRUNC : I_ZEXT;
        }
        break;
      }
      case Instruction::Select: {
        I.a = L.op(in.getOperand(0)); I.b = L.op(in.getOperand(1)); I.c = L.op(in.getOperand(2)); I.op = I_SELECT; I.imm = in.getType()->isPointerTy();
        if (ns != 1) bad = true;
        break;
      }
      case Instruction::Load: I.op = I_LOAD; I.a = L.op(in.getOperand(0)); I.w2 = DL->getTypeStoreSize(in.getType()); if (ns != 1) bad = true; if (in.isAtomic()) I.imm = cast<LoadInst>(in).getOrdering() == AtomicOrdering::Monotonic ? 1 : 2; break;
      case Instruction::Store: { Type *t = in.getOperand(0)->getType(); I.op = I_STORE; I.a = L.op(in.getOperand(0)); I.b = L.op(in.getOperand(1)); I.w2 = DL->getTypeStoreSize(t); I.w = Lower::width(t); bad = I.w == 255 || Lower::slots(t) != 1; if (in.isAtomic()) I.imm = cast<StoreInst>(in).getOrdering() == AtomicOrdering::Monotonic ? 1 : 2; break; }
      case Instruction::GetElementPtr: {
        auto &g = cast<GetElementPtrInst>(in); I.op = I_GEP; I.a = L.op(g.getPointerOperand());
        auto *ts = new std::vector<GepTerm>(); int64_t off = 0;
        for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
          if (StructType *st = gi.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue());
          else {
            int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
            if (auto *ci = dyn_cast<ConstantInt>(gi.getOperand())) off += ci->getSExtValue() * sc;
            else ts->push_back({L.op(gi.getOperand()), sc, (uint8_t)Lower::width(gi.getOperand()->getType())});
          }
        }
        I.imm = off; I.x = ts->empty() ? (delete ts, nullptr) : ts; break;
      }
      case Instruction::Alloca: {
        auto &al = cast<AllocaInst>(in); I.op = I_ALLOCA; I.imm = DL->getTypeAllocSize(al.getAllocatedType()); I.w2 = al.getAlign().value();
        I.b = INT32_MIN; if (auto *ci = dyn_cast<ConstantInt>(al.getArraySize())) I.imm *= ci->getZExtValue(); else I.b = L.op(al.getArraySize());
        F->hasAlloca = true; break;
      }
      case Instruction::Br: {
        auto &br = cast<BranchInst>(in);
        if (br.isConditional()) { I.op = I_CBR; I.a = L.op(br.getCondition()); I.b = newEdge(L, &bb, br.getSuccessor(0)); fix.push_back({I.b, br.getSuccessor(0)}); I.c = newEdge(L, &bb, br.getSuccessor(1)); fix.push_back({I.c, br.getSuccessor(1)}); }
        else { I.op = I_BR; I.a = newEdge(L, &bb, br.getSuccessor(0)); fix.push_back({I.a, br.getSuccessor(0)}); }
        break;
      }
      case Instruction::Switch: {
        auto &sw = cast<SwitchInst>(in); I.op = I_SWITCH; I.a = L.op(sw.getCondition()); I.w = Lower::width(sw.getCondition()->getType());
        auto *st = new SwitchT(); st->def = newEdge(L, &bb, sw.getDefaultDest()); fix.push_back({st->def, sw.getDefaultDest()});
        std::map<const BasicBlock *, int> es;
        for (auto &cs : sw.cases()) { auto it = es.find(cs.getCaseSuccessor()); int e; if (it == es.end()) { e = newEdge(L, &bb, cs.getCaseSuccessor()); fix.push_back({e, cs.getCaseSuccessor()}); es[cs.getCaseSuccessor()] = e; } else e = it->second; st->cases.push_back({cs.getCaseValue()->getZExtValue(), e}); }
        I.x = st; break;
      }
      case Instruction::Ret: { I.op = I_RET; I.n = 0; if (in.getNumOperands()) { I.a = L.op(in.getOperand(0)); I.n = Lower::slots(in.getOperand(0)->getType()); } break; }
      case Instruction::Unreachable: I.op = I_UNREACH; break;
      case Instruction::ExtractValue: { auto &ev = cast<ExtractValueInst>(in); I.op = I_EXTRACTV; I.a = L.op(ev.getAggregateOperand()); I.imm = Lower::slotOff(ev.getAggregateOperand()->getType(), ev.getIndices()); bad = false; break; }
      case Instruction::InsertValue: { auto &iv = cast<InsertValueInst>(in); I.op = I_INSERTV; I.a = L.op(iv.getAggregateOperand()); I.b = L.op(iv.getInsertedValueOperand()); I.imm = Lower::slotOff(iv.getType(), iv.getIndices()); I.n = Lower::slots(iv.getInsertedValueOperand()->getType()); I.c = ns; break; }
      case Instruction::AtomicRMW: { auto &r = cast<AtomicRMWInst>(in); I.op = I_RMW; I.a = L.op(r.getPointerOperand()); I.b = L.op(r.getValOperand()); I.imm = r.getOperation(); I.w2 = DL->getTypeStoreSize(in.getType()); break; }
      case Instruction::AtomicCmpXchg: { auto &r = cast<AtomicCmpXchgInst>(in); I.op = I_CMPXCHG; I.a = L.op(r.getPointerOperand()); I.b = L.op(r.getCompareOperand()); I.c = L.op(r.getNewValOperand()); I.w = Lower::width(r.getCompareOperand()->getType()); I.w2 = DL->getTypeStoreSize(r.getCompareOperand()->getType()); break; }
      case Instruction::Fence: I.op = I_FENCE; break;
      case Instruction::Call: {
        auto &c = cast<CallInst>(in); I.op = I_CALL;
        if (c.isInlineAsm()) { // treated as a no-op barrier when it has no outputs
          if (ns) bad = true; I.op = I_FENCE; break;
        }
        auto *ct = new CallT(); ct->f = 0; ct->callee = 0;
        Value *cv = c.getCalledOperand()->stripPointerCasts();
        if (auto *cf = dyn_cast<Function>(cv)) {
          ct->f = FMAP.at(cf);
          if (cf->getName().starts_with("llvm.threadlocal.address")) {
            auto *g = cast<GlobalVariable>(c.getArgOperand(0)->stripPointerCasts());
            // lowered as MOV of tls base + offset: encoded as call to e_thread TLS
            Inst J = I; J.op = I_CALL; ct->args.clear(); ct->bi = B_TLS;
            // store offset as constant argument; resolved at run time
            int ci = CONSTS.size(); CONSTS.push_back({TLSV.at(g).off, 0}); ct->args.push_back(~ci); ct->aw.push_back(64);
            J.x = ct; F->code.push_back(J); continue;
          }
        } else ct->callee = L.op(cv);
        for (auto &a : c.args()) {
          if (a->getType()->isMetadataTy()) continue;
          ct->args.push_back(L.op(a.get())); ct->aw.push_back(Lower::width(a->getType()));
        }
        if (ct->f && (ct->f->name.compare(0, 8, "llvm.dbg") == 0)) { delete ct; continue; }
        I.x = ct; if (ns > 1) bad = false; break;
      }
      default: bad = true;
      }
      if (bad) { std::string s; raw_string_ostream os(s); in.print(os); lowerErr += F->name + ": " + s + "\n"; I.op = I_UNREACH; }
      F->code.push_back(I);
    }
  }
  for (auto &p : fix) EDGES[p.first].target = L.bstart[p.second];
}
static void initGlobal(State *s, const Constant *c, u64 a) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = DL->getTypeAllocSize(cd->getElementType());
    for (unsigned i = 0; i < cd->getNumElements(); i++) { u64 v = cd->getElementAsInteger(i); for (unsigned b = 0; b < es; b++) { u64 x = a + i * es + b; s->mem.wr(x, true)->v[x & 255] = v >> (8 * b); } }
    return;
  }
  if (isa<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(cast<StructType>(t)); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(s, cast<Constant>(c->getOperand(i)), a + sl->getElementOffset(i)); return; }
  if (isa<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initGlobal(s, cast<Constant>(c->getOperand(i)), a + es * i); return; }
  bool ok = true; u64 v = constVal(c, ok); unsigned n = DL->getTypeStoreSize(t);
  if (!ok) { std::string st; raw_string_ostream os(st); c->print(os); fprintf(stderr, "ENGINE: bad initializer %s\n", st.c_str()); }
  for (unsigned b = 0; b < n && b < 8; b++) s->mem.wr(a + b, true)->v[(a + b) & 255] = v >> (8 * b);
}
static u64 newTls() {
  u64 base = S->tlstop; S->tlstop += ((TLSSIZE + 255) & ~255ull) + 256;
  S->mem.setState(base, TLSSIZE + 64, ST_RED, true);
  for (auto *g : TLSORDER) { auto &t = TLSV[g]; S->mem.setState(base + t.off, t.size, ST_OK, true); if (g->hasInitializer()) { initGlobal(S, g->getInitializer(), base + t.off); } }
  S->mem.flush();
  return base;
}

// ---------------------------------------------------------------- driver
static void finishPath() {
  SH->insts += S->icount; if (S->icount > SH->maxinst) SH->maxinst = S->icount;
  if (ENDK == END_OK) {
    u64 n = SH->paths.fetch_add(1);
    int ns = SH->nsamples;
    // sample: the first few paths and then increasingly sparse ones
    bool take = n < 4 || (ns < SAMPLES && (n % 7 == 3 || n < 16)) || (n & (n - 1)) == 0 || (n % 4096 == 77);
    if (take && ns < SAMPLES * 3) { SH->nsamples++; dumpPath(outf("sample"), "ok", ""); }
  } else if (ENDK == END_PRUNED) SH->pruned++;
}
static void flushStats() {
  SH->queries += SV.nq; SH->qhits += SV.nhit; SH->qsat += SV.nsat; SH->qunsat += SV.nunsat; SH->qunk += SV.nunk; SH->solver_us += SV.us;
  if (SV.maxus > SH->qmaxus) SH->qmaxus = SV.maxus;
  SV.nq = SV.nhit = SV.nsat = SV.nunsat = SV.nunk = SV.us = 0;
}
static void splitCheck() {
  if (WL.size() < 2) return;
  int t = SH->tokens.load();
  if (t <= 0) return;
  if (!SH->tokens.compare_exchange_strong(t, t - 1)) return;
  flushStats();
  SH->live++;
  fflush(0);
  pid_t p = fork();
  if (p < 0) { SH->live--; SH->tokens++; return; }
  // child takes every other state, oldest-first bias
  std::vector<State *> keep;
  for (size_t i = 0; i < WL.size(); i++) { bool mine = (i % 2 == 0) == (p == 0); if (mine) keep.push_back(WL[i]); else if (0) delete WL[i]; }
  WL.swap(keep);
}
static void worker() {
  double last = nowS();
  while (!WL.empty()) {
    if (SH->stop) { SH->deferred += WL.size(); break; }
    S = WL.back(); WL.pop_back(); CURVR = &S->vr; if (getenv("NSYM_CHECK")) CURASG = &S->asg;
    if (S->icount == 0) {}
    runState();
    finishPath();
    CURVR = 0; CURASG = 0; delete S; S = 0;
    splitCheck();
    if (nowS() - last > 0.5) { last = nowS(); flushStats(); if (last - T0 > BUDGET) { SH->incomplete++; SH->stop = 1; } }
  }
  flushStats();
  SH->tokens++; SH->live--;
  fflush(0);
  _exit(0);
}

int main(int argc, char **argv) {
  std::string bc, entry = "main_harness";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") OUTDIR = argv[++i]; else if (a == "--entry") entry = argv[++i]; else if (a == "--jobs") JOBS = atoi(argv[++i]);
    else if (a == "--budget") BUDGET = atof(argv[++i]); else if (a == "--maxinst") MAXI = strtoull(argv[++i], 0, 10);
    else if (a == "--maxviol") MAXVIOL = atoi(argv[++i]); else if (a == "--samples") SAMPLES = atoi(argv[++i]); else if (a == "--name") HARNESS = argv[++i];
    else bc = a;
  }
  T0 = nowS(); SVDEADLINE = T0 + BUDGET + 2;
  LLVMContext LC; SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(bc, err, LC);
  if (!M) { err.print("nsym", errs()); return 3; }
  DL = new DataLayout(M->getDataLayout());
  SH = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  memset((void *)SH, 0, sizeof *SH);
  mkdir(OUTDIR.c_str(), 0777);
  ZEROPG = new Page(); memset(ZEROPG, 0, sizeof *ZEROPG); ZEROPG->rc = 1; memset(ZEROPG->st, ST_OK, 256);
  ZERONODE = new Node(); ZERONODE->rc = 1; for (auto &p : ZERONODE->p) { p = ZEROPG; ZEROPG->rc++; }
  S = new State(); CURVR = &S->vr; if (getenv("NSYM_CHECK")) CURASG = &S->asg; S->at = new AllocTab(); S->at->rc = 1; S->at->live = 0;
  S->heap = 0x20000000; S->maptop = 0x60000000; S->tlstop = 0x18000000;
  // functions
  u64 fa = 0x100000; int id = 0;
  for (auto &f : *M) {
    Func *F = new Func(); F->name = f.getName().str(); F->addr = fa; fa += 16; F->id = id++; F->ll = &f; F->decl = f.isDeclaration();
    F->nargs = f.arg_size(); F->vararg = f.isVarArg(); F->redirect = 0; F->bi = F->decl ? classify(F->name) : 0; F->nregs = 0;
    FMAP[&f] = F; FUNCS.push_back(F); FADDR[F->addr] = F;
    if (F->name == "_llco_asm_entry") ENTRY_ADDR = F->addr;
    if (id >= MAXFN) { fprintf(stderr, "too many functions\n"); return 3; }
  }
  for (auto *F : FUNCS) {
    if (F->bi && F->bi != B_UNKNOWN) continue;
    if (F->decl || 1) { Function *m = M->getFunction("m_" + F->name); if (m && !m->isDeclaration() && F->decl) F->redirect = FMAP[m]; }
  }
  // memcpy & co: prefer builtin
  u64 ga = 0x10000000;
  for (auto &g : M->globals()) {
    if (g.isThreadLocal()) {
      u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value()); TLSSIZE = (TLSSIZE + 16 + al - 1) & ~(al - 1);
      TLSV[&g] = {TLSSIZE, DL->getTypeAllocSize(g.getValueType())}; TLSSIZE += DL->getTypeAllocSize(g.getValueType()); TLSORDER.push_back(&g); continue;
    }
    u64 sz = DL->getTypeAllocSize(g.getValueType()); if (sz == 0) sz = 8;
    u64 al = std::max<u64>(16, g.getAlign().valueOrOne().value());
    ga = (ga + 16 + al - 1) & ~(al - 1); GADDR[&g] = ga; ga += sz + 16;
    if (g.getName() == "_llco_asm_entry") ENTRY_ADDR = GADDR[&g];
  }
  for (auto &g : M->globals()) {
    if (g.isThreadLocal()) continue;
    u64 a = GADDR[&g], sz = DL->getTypeAllocSize(g.getValueType()); if (sz == 0) sz = 8;
    S->mem.setState(a - 16, 16, ST_RED); S->mem.setState(a, sz, ST_OK); S->mem.setState(a + sz, 16, ST_RED);
  }
  for (auto &g : M->globals()) if (!g.isThreadLocal() && g.hasInitializer()) initGlobal(S, g.getInitializer(), GADDR[&g]);
  for (auto &g : M->globals()) if (!g.isThreadLocal() && g.isConstant()) S->mem.setState(GADDR[&g], DL->getTypeAllocSize(g.getValueType()), ST_RO);
  for (auto *F : FUNCS) if (!F->decl) lowerFunc(F);
  if (!lowerErr.empty()) fprintf(stderr, "ENGINE: unsupported instructions:\n%s", lowerErr.c_str());
  SV.init();
  Thread t; t.done = false; t.ctx = new Ctx(); t.ctx->rc = 1; t.ctx->tok = 0;
  u64 stk = S->maptop; S->maptop += 0x140000; S->mem.mapZero(stk, 0x100000); t.ctx->sp = stk + 0x100000 - 64; t.tls = newTls();
  S->th.push_back(t); S->cur = 0;
  Function *ef = M->getFunction(entry);
  if (!ef || ef->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 3; }
  std::vector<Val> as; ENDK = RUN;
  pushFrame(S->th[0].ctx, FMAP[ef], as, -1, 0);
  SH->tokens = JOBS - 1; SH->live = 1;
  setpgid(0, 0); prctl(PR_SET_CHILD_SUBREAPER, 1);
  fflush(0);
  pid_t w = fork();
  if (w == 0) { WL.push_back(S); worker(); }
  bool killed = false;
  while (true) {
    int st; pid_t p = waitpid(-1, &st, WNOHANG);
    if (p == 0) {
      if (!killed && nowS() - T0 > BUDGET + 45) { killed = true; signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); }
      usleep(5000); continue;
    }
    if (p < 0) { if (errno == EINTR) continue; break; }
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) { SH->failed++; SH->live--; SH->tokens++; SH->incomplete++; }
  }
  std::string fns;
  for (auto *F : FUNCS) if (SH->fn[F->id] && !F->decl) { if (!fns.empty()) fns += ","; fns += "\"" + F->name + "\""; }
  std::string cov; for (int i = 0; i < MAXCOV; i++) if (SH->cov[i]) { if (!cov.empty()) cov += ","; cov += std::to_string(i); }
  FILE *f = fopen((OUTDIR + "/summary.json").c_str(), "w");
  fprintf(f, "{\"harness\":\"%s\",\"paths\":%llu,\"pruned\":%llu,\"violations\":%d,\"engine_errors\":%llu,\"incomplete\":%llu,\"deferred\":%llu,\"worker_failures\":%d,"
    "\"insts\":%llu,\"max_path_insts\":%llu,\"max_vars\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"solver_ms\":%llu,\"max_query_ms\":%llu,\"wall_s\":%.3f,\"covers\":[%s],\"functions\":[%s]}\n",
    HARNESS.c_str(), (unsigned long long)SH->paths, (unsigned long long)SH->pruned, (int)SH->nviol, (unsigned long long)SH->engerr, (unsigned long long)SH->incomplete, (unsigned long long)SH->deferred, (int)SH->failed,
    (unsigned long long)SH->insts, (unsigned long long)SH->maxinst, (unsigned long long)SH->maxvars, (unsigned long long)SH->forks, (unsigned long long)SH->queries, (unsigned long long)SH->qsat, (unsigned long long)SH->qunsat, (unsigned long long)SH->qunk,
    (unsigned long long)SH->qhits, (unsigned long long)(SH->solver_us / 1000), (unsigned long long)(SH->qmaxus / 1000), nowS() - T0, cov.c_str(), fns.c_str());
  fclose(f);
  return 0;
}
