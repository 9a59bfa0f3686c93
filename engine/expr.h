// Hash-consed bit-vector expressions, interval analysis, Z3 back end.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <string>
#include <unistd.h>
#include <algorithm>
#include <z3.h>

enum Op : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND,
  E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE
};

struct VarSet {
  static constexpr int N = 6;
  uint64_t w[N];
  VarSet() { memset(w, 0, sizeof w); }
  void add(unsigned i) { w[i >> 6] |= 1ull << (i & 63); }
  bool has(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
  void join(const VarSet &o) { for (int i = 0; i < N; i++) w[i] |= o.w[i]; }
  bool meets(const VarSet &o) const {
    for (int i = 0; i < N; i++) if (w[i] & o.w[i]) return true;
    return false;
  }
};
static constexpr unsigned MAXVARS = VarSet::N * 64;

struct Expr {
  Op op;
  uint8_t w;        // width in bits, 1..64
  uint32_t id;
  uint64_t c;       // constant / var index / extract offset
  const Expr *k[3];
  uint64_t hash;
  mutable Z3_ast z, zb; // cached translations (bit-vector, Boolean)
  VarSet vars;
};
typedef const Expr *EP;

static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ull << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

struct ExprPool {
  struct H { size_t operator()(EP e) const { return e->hash; } };
  struct Q { bool operator()(EP a, EP b) const {
    return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] &&
           a->k[1] == b->k[1] && a->k[2] == b->k[2]; } };
  std::unordered_set<EP, H, Q> tab;
  uint32_t next = 1;
  EP intern(Op op, unsigned w, uint64_t c, EP a = 0, EP b = 0, EP d = 0) {
    Expr t;
    t.op = op; t.w = w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d; t.z = t.zb = 0;
    uint64_t h = op * 0x9E3779B97F4A7C15ull + w;
    h = (h ^ c) * 0xff51afd7ed558ccdull; h ^= h >> 32;
    for (int i = 0; i < 3; i++) { h = (h ^ (uint64_t)(uintptr_t)t.k[i]) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 29; }
    t.hash = h;
    auto it = tab.find(&t);
    if (it != tab.end()) return *it;
    Expr *e = new Expr(t);
    e->id = next++;
    for (int i = 0; i < 3; i++) if (e->k[i]) e->vars.join(e->k[i]->vars);
    if (op == E_VAR) e->vars.add((unsigned)c);
    tab.insert(e);
    return e;
  }
};
extern ExprPool POOL;

EP eConst(uint64_t v, unsigned w);
EP eVar(unsigned idx, unsigned w);
EP eBin(Op op, EP a, EP b);
EP eNot1(EP a); // boolean not
EP eZext(EP a, unsigned w);
EP eSext(EP a, unsigned w);
EP eExtract(EP a, unsigned off, unsigned w);
EP eConcat(EP hi, EP lo);
EP eIte(EP c, EP a, EP b);
static inline bool isC(EP e) { return e->op == E_CONST; }

// concrete evaluation under an assignment (var idx -> value)
uint64_t eEval(EP e, const std::vector<uint64_t> &asg);

// unsigned interval of an expression given per-variable intervals
struct Iv { uint64_t lo, hi; };
struct VarRange { uint64_t lo, hi; };
Iv eIv(EP e, const std::vector<VarRange> &vr);
// ranges used for simplification while building expressions
extern const std::vector<VarRange> *CURVR;
extern const std::vector<uint64_t> *CURASG;
// tighten variable ranges using a constraint that is known to hold
EP eLinDivNN(Op op, EP a, EP b); // a is known to be >= 0 (signed)
bool eLinRefine(EP c, std::vector<VarRange> &vr);

extern double SVDEADLINE;
struct Solver {
  Z3_context ctx;
  Z3_solver s;
  uint64_t nq = 0, nhit = 0, nsat = 0, nunsat = 0, nunk = 0, us = 0, maxus = 0;
  struct Res { int r; std::vector<std::pair<uint32_t, uint64_t>> model; };
  std::unordered_map<std::string, Res> cache;
  std::unordered_map<uint64_t, Z3_ast> varz;
  void init();
  Z3_ast tr(EP e);
  Z3_ast trB(EP e);
  // Is (conjunction of cs) and q satisfiable? 1 sat,0 unsat,-1 unknown.
  int check(const std::vector<EP> &cs, EP q, std::vector<std::pair<uint32_t, uint64_t>> &model);
};
