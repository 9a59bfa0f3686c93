#include "expr.h"
#include <chrono>
ExprPool POOL;

EP eConst(uint64_t v, unsigned w) { return POOL.intern(E_CONST, w, v & maskw(w)); }
EP eVar(unsigned idx, unsigned w) {
  if (idx >= MAXVARS) { fprintf(stderr, "ENGINE: too many symbolic variables\n"); _exit(97); }
  return POOL.intern(E_VAR, w, idx);
}

static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
  case E_ADD: return (a + b) & m;
  case E_SUB: return (a - b) & m;
  case E_MUL: return (a * b) & m;
  case E_UDIV: return b ? (a / b) & m : m;
  case E_UREM: return b ? (a % b) & m : a;
  case E_SDIV: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (y == 0) return (x >= 0 ? m : 1);
    if (y == -1) return (0 - (uint64_t)x) & m;
    return (uint64_t)(x / y) & m;
  }
  case E_SREM: {
    int64_t x = sextw(a, w), y = sextw(b, w);
    if (y == 0) return a;
    if (y == -1) return 0;
    return (uint64_t)(x % y) & m;
  }
  case E_AND: return a & b;
  case E_OR: return a | b;
  case E_XOR: return a ^ b;
  case E_SHL: return b >= w ? 0 : (a << b) & m;
  case E_LSHR: return b >= w ? 0 : a >> b;
  case E_ASHR: { int64_t x = sextw(a, w); return (uint64_t)(x >> (b >= w ? w - 1 : b)) & m; }
  case E_EQ: return a == b;
  case E_ULT: return a < b;
  case E_ULE: return a <= b;
  case E_SLT: return sextw(a, w) < sextw(b, w);
  case E_SLE: return sextw(a, w) <= sextw(b, w);
  default: abort();
  }
}
static bool isCmp(Op op) { return op >= E_EQ && op <= E_SLE; }

EP eNot1(EP a) {
  if (isC(a)) return eConst(!a->c, 1);
  if (a->op == E_XOR && isC(a->k[1]) && a->k[1]->c == 1) return a->k[0];
  if (a->op == E_ULT) return eBin(E_ULE, a->k[1], a->k[0]);
  if (a->op == E_ULE) return eBin(E_ULT, a->k[1], a->k[0]);
  if (a->op == E_SLT) return eBin(E_SLE, a->k[1], a->k[0]);
  if (a->op == E_SLE) return eBin(E_SLT, a->k[1], a->k[0]);
  return POOL.intern(E_XOR, 1, 0, a, eConst(1, 1));
}

// ---- linear forms: sums of coefficient * leaf, used to cancel and divide out the
// scale of time arithmetic before anything reaches the solver
const std::vector<VarRange> *CURVR = 0;
static const std::vector<VarRange> NOVR;
static Iv ivc(EP e) { return eIv(e, CURVR ? *CURVR : NOVR); }
typedef __int128 i128;
struct Lin {
  std::vector<std::pair<EP, int64_t>> t; // sorted by id
  uint64_t c = 0;                        // modulo 2^w
  bool ok = true;
};
static void linAdd(Lin &l, EP e, int64_t m, unsigned w, int depth) {
  if (!l.ok) return;
  if (isC(e)) { l.c = (l.c + (uint64_t)m * e->c) & maskw(w); return; }
  if (depth < 24) {
    if (e->op == E_ADD) { linAdd(l, e->k[0], m, w, depth + 1); linAdd(l, e->k[1], m, w, depth + 1); return; }
    if (e->op == E_SUB) { linAdd(l, e->k[0], m, w, depth + 1); linAdd(l, e->k[1], -m, w, depth + 1); return; }
    if (e->op == E_MUL && isC(e->k[1])) {
      int64_t k = sextw(e->k[1]->c, w), r;
      if (!__builtin_mul_overflow(k, m, &r) && r < (1ll << 50) && r > -(1ll << 50)) { linAdd(l, e->k[0], r, w, depth + 1); return; }
    }
  }
  for (auto &p : l.t) if (p.first == e) { p.second += m; if (p.second > (1ll << 52) || p.second < -(1ll << 52)) l.ok = false; return; }
  if (l.t.size() >= 48) { l.ok = false; return; }
  l.t.push_back({e, m});
}
static bool linOf(Lin &l, EP e, int64_t m, unsigned w) { linAdd(l, e, m, w, 0); return l.ok; }
static void linNorm(Lin &l) {
  std::vector<std::pair<EP, int64_t>> t;
  for (auto &p : l.t) if (p.second) t.push_back(p);
  std::sort(t.begin(), t.end(), [](auto &a, auto &b) { return a.first->id < b.first->id; });
  l.t.swap(t);
}
static EP rawBin(Op op, EP a, EP b) { return POOL.intern(op, a->w, 0, a, b); }
// sum over terms with positive (sg=1) or negative (sg=-1) coefficients, or 0
static EP linSum(const Lin &l, int sg, unsigned w) {
  EP r = 0;
  for (auto &p : l.t) if ((p.second > 0) == (sg > 0)) {
    uint64_t k = (uint64_t)(p.second > 0 ? p.second : -p.second);
    EP x = p.first->w == w ? p.first : eExtract(p.first, 0, w);
    if (k != 1) x = rawBin(E_MUL, x, eConst(k, w));
    r = r ? rawBin(E_ADD, r, x) : x;
  }
  return r;
}
static EP linBuild(const Lin &l, unsigned w) {
  EP p = linSum(l, 1, w), n = linSum(l, -1, w), r;
  if (!p && !n) return eConst(l.c, w);
  if (!n) r = p;
  else r = rawBin(E_SUB, p ? p : eConst(0, w), n);
  if (l.c & maskw(w)) r = rawBin(E_ADD, r, eConst(l.c, w));
  return r;
}
// exact (mathematical) range when leaves are read as unsigned and the constant as signed
static void linRange(const Lin &l, unsigned w, i128 &lo, i128 &hi, const std::vector<VarRange> &vr) {
  lo = hi = (i128)sextw(l.c, w);
  for (auto &p : l.t) {
    Iv iv = eIv(p.first, vr);
    i128 k = p.second;
    if (k > 0) { lo += k * iv.lo; hi += k * iv.hi; } else { lo += k * iv.hi; hi += k * iv.lo; }
  }
}
static inline const std::vector<VarRange> &curvr() { return CURVR ? *CURVR : NOVR; }
static bool linish(EP e) { return e->op == E_ADD || e->op == E_SUB || e->op == E_MUL; }
static i128 fdiv(i128 a, i128 b) { i128 q = a / b; if ((a % b) && ((a < 0) != (b < 0))) q--; return q; }
static EP linCmp(Op op, EP a, EP b) {
  unsigned w = a->w;
  Lin A, B;
  if (!linOf(A, a, 1, w) || !linOf(B, b, 1, w)) return 0;
  linNorm(A); linNorm(B);
  i128 al, ah, bl, bh;
  linRange(A, w, al, ah, curvr()); linRange(B, w, bl, bh, curvr());
  i128 H = (i128)1 << (w - 1), W = (i128)1 << w;
  bool sgd = op == E_SLT || op == E_SLE;
  i128 mn = sgd ? -H : 0, mx = sgd ? H : W;
  auto in = [&](i128 lo, i128 hi) { return lo >= mn && hi < mx; };
  // constants that are "negative" may really be large unsigned numbers
  i128 ca = sextw(A.c, w), cb = sextw(B.c, w);
  if (op == E_EQ) {
    // modular equality is integer equality when the difference stays below 2^w
    if (al - bh <= -W || ah - bl >= W) {
      i128 k = sextw((A.c - B.c) & maskw(w), w), d = k - (ca - cb);
      if (al - bh + d <= -W || ah - bl + d >= W) return 0;
      ca = k; cb = 0;
    }
  } else if (!in(al, ah)) { i128 s = sgd ? 0 : W; if (s && in(al + s, ah + s)) { al += s; ah += s; ca += s; } else return 0; }
  if (op != E_EQ && !in(bl, bh)) { i128 s = sgd ? 0 : W; if (s && in(bl + s, bh + s)) { bl += s; bh += s; cb += s; } else return 0; }
  Lin D = A;
  for (auto &p : B.t) { bool f = false; for (auto &q : D.t) if (q.first == p.first) { q.second -= p.second; f = true; } if (!f) D.t.push_back({p.first, -p.second}); }
  linNorm(D);
  i128 c = ca - cb;
  i128 lo = c, hi = c;
  for (auto &p : D.t) { Iv iv = ivc(p.first); i128 k = p.second; if (k > 0) { lo += k * iv.lo; hi += k * iv.hi; } else { lo += k * iv.hi; hi += k * iv.lo; } }
  if (op == E_EQ) { if (lo > 0 || hi < 0) return eConst(0, 1); if (lo == 0 && hi == 0) return eConst(1, 1); }
  else if (op == E_ULT || op == E_SLT) { if (hi < 0) return eConst(1, 1); if (lo >= 0) return eConst(0, 1); }
  else { if (hi <= 0) return eConst(1, 1); if (lo > 0) return eConst(0, 1); }
  if (D.t.empty()) return 0; // cannot happen: decided above
  int64_t g = 0;
  for (auto &p : D.t) { int64_t x = p.second < 0 ? -p.second : p.second; while (x) { int64_t t = g % x; g = x; x = t; } }
  for (auto &p : D.t) p.second /= g;
  // S + c (op) 0
  i128 K;
  if (op == E_EQ) { if (c % g) return eConst(0, 1); K = -c / g; }
  else if (op == E_ULT || op == E_SLT) K = fdiv(-c - 1, g); // S <= (-c-1)/g
  else K = fdiv(-c, g);
  D.c = 0;
  if (op == E_EQ) { // fix the sign so that equal facts share one form
    if (D.t[0].second < 0) { for (auto &p : D.t) p.second = -p.second; K = -K; }
  }
  // P (op) N + K
  i128 ph = 0, nh = 0;
  for (auto &p : D.t) { Iv iv = ivc(p.first); if (p.second > 0) ph += (i128)p.second * iv.hi; else nh += (i128)-p.second * iv.hi; }
  if (K < 0) ph += -K; else nh += K;
  i128 top = ph > nh ? ph : nh;
  unsigned n = top < 256 ? 8 : top < 65536 ? 16 : top < ((i128)1 << 32) ? 32 : 64;
  if (n > w) n = w;
  if (top >= ((i128)1 << n)) return 0;
  if (D.t.size() == 1) { int64_t k = D.t[0].second; if (k == 1 || k == -1) n = D.t[0].first->w; }
  for (auto &p : D.t) if (p.first->w < n) return 0;
  EP P = linSum(D, 1, n), N = linSum(D, -1, n);
  if (K < 0) { EP k = eConst((uint64_t)-K, n); P = P ? rawBin(E_ADD, P, k) : k; }
  else if (K > 0) { EP k = eConst((uint64_t)K, n); N = N ? rawBin(E_ADD, N, k) : k; }
  if (!P) P = eConst(0, n);
  if (!N) N = eConst(0, n);
  if (op == E_EQ) {
    if (isC(P)) std::swap(P, N);
    return POOL.intern(E_EQ, 1, 0, P, N);
  }
  if (isC(P) && isC(N)) return 0;
  return POOL.intern(E_ULE, 1, 0, P, N);
}
static EP linDiv(Op op, EP a, EP b, bool nonneg = false) {
  unsigned w = a->w;
  if (!isC(b) || b->c == 0) return 0;
  bool sgd = op == E_SDIV || op == E_SREM;
  uint64_t H = 1ull << (w - 1);
  if (sgd && b->c >= H) return 0;
  Lin A;
  if (!linOf(A, a, 1, w)) return 0;
  linNorm(A);
  i128 lo, hi;
  linRange(A, w, lo, hi, curvr());
  if (nonneg && lo < 0 && lo > -(i128)H) lo = 0;
  if (lo < 0 || hi >= (i128)H) return 0;
  i128 d = b->c;
  bool rem = op == E_UREM || op == E_SREM;
  if (hi < d) return rem ? a : eConst(0, w);
  for (auto &p : A.t) if (p.second % (int64_t)d) return 0;
  i128 c = sextw(A.c, w);
  i128 q = fdiv(c, d);
  if (rem) return eConst((uint64_t)(c - q * d), w);
  Lin Q = A;
  for (auto &p : Q.t) p.second /= (int64_t)d;
  Q.c = (uint64_t)q & maskw(w);
  return linBuild(Q, w);
}
EP eLinDivNN(Op op, EP a, EP b) { return linDiv(op, a, b, true); }
bool eLinRefine(EP c, std::vector<VarRange> &vr) {
  // bounds propagation over P <= N or P == N
  if (c->op != E_ULE && c->op != E_EQ && c->op != E_ULT) return false;
  unsigned w = c->k[0]->w;
  if (w < 8) return false;
  Lin A, B;
  if (!linOf(A, c->k[0], 1, w) || !linOf(B, c->k[1], 1, w)) return false;
  linNorm(A); linNorm(B);
  i128 al, ah, bl, bh, W = (i128)1 << w;
  A.c &= maskw(w); B.c &= maskw(w);
  auto rng = [&](Lin &l, i128 &lo, i128 &hi) {
    lo = hi = (i128)l.c;
    for (auto &p : l.t) { Iv iv = eIv(p.first, vr); i128 k = p.second; if (k > 0) { lo += k * iv.lo; hi += k * iv.hi; } else { lo += k * iv.hi; hi += k * iv.lo; } }
  };
  rng(A, al, ah); rng(B, bl, bh);
  if (al < 0 || ah >= W || bl < 0 || bh >= W) return false;
  bool any = false;
  auto leaf = [&](EP e) -> EP {
    while ((e->op == E_EXTRACT && e->c == 0) || e->op == E_ZEXT) {
      if (e->op == E_EXTRACT && eIv(e->k[0], vr).hi > maskw(e->w)) return 0;
      e = e->k[0];
    }
    return e->op == E_VAR ? e : 0;
  };
  auto pass = [&](Lin &L, Lin &R) { // L <= R (- strict)
    i128 st = c->op == E_ULT ? 1 : 0;
    i128 ll, lh, rl, rh;
    rng(L, ll, lh); rng(R, rl, rh);
    // slack: for each term k*x in L: k*x <= rh - (ll - k*xlo) - st
    for (auto &p : L.t) {
      EP v = leaf(p.first); if (!v || v->c >= vr.size()) continue;
      Iv iv = {vr[v->c].lo, vr[v->c].hi};
      i128 k = p.second;
      if (k > 0) {
        i128 rest = ll - k * iv.lo, x = fdiv(rh - st - rest, k);
        if (x < (i128)iv.hi && x >= (i128)iv.lo) { vr[v->c].hi = (uint64_t)x; any = true; return; }
      } else {
        i128 rest = ll - k * iv.hi, x = -fdiv(rh - st - rest, -k); // x >= -(rh-rest)/|k|
        if (x > (i128)iv.lo && x <= (i128)iv.hi) { vr[v->c].lo = (uint64_t)x; any = true; return; }
      }
    }
    for (auto &p : R.t) {
      EP v = leaf(p.first); if (!v || v->c >= vr.size()) continue;
      Iv iv = {vr[v->c].lo, vr[v->c].hi};
      i128 k = p.second;
      if (k > 0) {
        i128 rest = rh - k * iv.hi, x = -fdiv(-(ll + st - rest), k); // k*x >= ll+st-rest
        if (x > (i128)iv.lo && x <= (i128)iv.hi) { vr[v->c].lo = (uint64_t)x; any = true; return; }
      } else {
        i128 rest = rh - k * iv.lo, x = fdiv(rest - ll - st, -k);
        if (x < (i128)iv.hi && x >= (i128)iv.lo) { vr[v->c].hi = (uint64_t)x; any = true; return; }
      }
    }
  };
  pass(A, B);
  if (!any && c->op == E_EQ) pass(B, A);
  return any;
}

static unsigned tz(EP e, int depth = 0) { // known trailing zero bits
  if (depth > 8) return 0;
  switch (e->op) {
  case E_CONST: return e->c ? std::min<unsigned>(__builtin_ctzll(e->c), e->w) : e->w;
  case E_MUL: return std::min<unsigned>(e->w, tz(e->k[0], depth + 1) + tz(e->k[1], depth + 1));
  case E_ADD: case E_SUB: case E_OR: return std::min(tz(e->k[0], depth + 1), tz(e->k[1], depth + 1));
  case E_CONCAT: { unsigned l = tz(e->k[1], depth + 1); return l < e->k[1]->w ? l : l + tz(e->k[0], depth + 1); }
  default: return 0;
  }
}

static EP eBin0(Op op, EP a, EP b);
const std::vector<uint64_t> *CURASG = 0; // debug: cross-check simplifications
EP eBin(Op op, EP a, EP b) {
  EP r = eBin0(op, a, b);
  if (CURASG && eEval(r, *CURASG) != foldBin(op, eEval(a, *CURASG), eEval(b, *CURASG), a->w)) { fprintf(stderr, "ENGINE: simplifier bug op %d\n", op); abort(); }
  return r;
}
static EP eBin0(Op op, EP a, EP b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "ENGINE: width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  unsigned rw = isCmp(op) ? 1 : w;
  if (isC(a) && isC(b)) return eConst(foldBin(op, a->c, b->c, w), rw);
  if (w >= 32) {
    if ((op == E_ADD || op == E_SUB) && (!isC(b) || linish(a))) {
      Lin l;
      if (linOf(l, a, 1, w) && linOf(l, b, op == E_ADD ? 1 : -1, w)) { linNorm(l); return linBuild(l, w); }
    } else if (op == E_MUL && (isC(a) || isC(b))) {
      EP x = isC(a) ? b : a; int64_t k = sextw(isC(a) ? a->c : b->c, w);
      Lin l;
      if (linish(x) && k > -(1ll << 40) && k < (1ll << 40) && linOf(l, x, k, w)) { linNorm(l); return linBuild(l, w); }
    } else if (isCmp(op) && (linish(a) || linish(b))) {
      EP r = linCmp(op, a, b);
      if (r) return r;
    } else if (op >= E_UDIV && op <= E_SREM) {
      EP r = linDiv(op, a, b);
      if (r) return r;
    }
  }
  bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  uint64_t m = maskw(w);
  switch (op) {
  case E_ADD:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, a->k[0], eConst(a->k[1]->c + b->c, w));
    } else {
      if (a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, eBin(E_ADD, a->k[0], b), a->k[1]);
      if (b->op == E_ADD && isC(b->k[1])) return eBin(E_ADD, eBin(E_ADD, a, b->k[0]), b->k[1]);
      if (a->op == E_SUB && a->k[1] == b) return a->k[0];
      if (b->op == E_SUB && b->k[1] == a) return b->k[0];
    }
    break;
  case E_SUB:
    if (a == b) return eConst(0, w);
    if (isC(b)) return eBin(E_ADD, a, eConst(0 - b->c, w));
    if (a->op == E_ADD && isC(a->k[1])) return eBin(E_ADD, eBin(E_SUB, a->k[0], b), a->k[1]);
    if (b->op == E_ADD && isC(b->k[1])) return eBin(E_ADD, eBin(E_SUB, a, b->k[0]), eConst(0 - b->k[1]->c, w));
    if (a->op == E_ADD) { if (a->k[0] == b) return a->k[1]; if (a->k[1] == b) return a->k[0]; }
    if (b->op == E_SUB && isC(a) && a->c == 0) return eBin(E_SUB, b->k[1], b->k[0]);
    break;
  case E_MUL:
    if (isC(b)) { if (b->c == 0) return b; if (b->c == 1) return a; }
    break;
  case E_UDIV: case E_SDIV: if (isC(b) && b->c == 1) return a; break;
  case E_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == m) return a;
      // low mask -> zext(extract)
      if ((b->c & (b->c + 1)) == 0) {
        unsigned lw = 64 - __builtin_clzll(b->c);
        return eZext(eExtract(a, 0, lw), w);
      }
    }
    break;
  case E_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == m) return b; }
    if (isC(b) && w >= 32 && tz(a) >= 64u - __builtin_clzll(b->c)) return eBin(E_ADD, a, b);
    break;
  case E_XOR:
    if (a == b) return eConst(0, w);
    if (isC(b)) { if (b->c == 0) return a; if (w == 1) return eNot1(a); }
    break;
  case E_SHL: case E_LSHR: case E_ASHR:
    if (isC(b) && b->c == 0) return a;
    if (isC(b) && b->c >= w && op != E_ASHR) return eConst(0, w);
    if (isC(b) && op == E_LSHR) return eZext(eExtract(a, b->c, w - b->c), w);
    if (isC(b) && op == E_SHL) return eConcat(eExtract(a, 0, w - b->c), eConst(0, b->c));
    break;
  case E_EQ:
    if (a == b) return eConst(1, 1);
    if (isC(b)) {
      if (w == 1) return b->c ? a : eNot1(a);
      if (a->op == E_ADD && isC(a->k[1])) return eBin(E_EQ, a->k[0], eConst(b->c - a->k[1]->c, w));
      if (a->op == E_SUB && b->c == 0) return eBin(E_EQ, a->k[0], a->k[1]);
      if (a->op == E_ZEXT) {
        if (b->c & ~maskw(a->k[0]->w)) return eConst(0, 1);
        return eBin(E_EQ, a->k[0], eConst(b->c, a->k[0]->w));
      }
      if (a->op == E_SEXT) {
        uint64_t low = b->c & maskw(a->k[0]->w);
        if (((uint64_t)sextw(low, a->k[0]->w) & m) != b->c) return eConst(0, 1);
        return eBin(E_EQ, a->k[0], eConst(low, a->k[0]->w));
      }
      if (a->op == E_ITE && isC(a->k[1]) && isC(a->k[2])) {
        bool t = a->k[1]->c == b->c, f = a->k[2]->c == b->c;
        if (t && f) return eConst(1, 1);
        if (t) return a->k[0];
        if (f) return eNot1(a->k[0]);
        return eConst(0, 1);
      }
      if (a->op == E_XOR && isC(a->k[1])) return eBin(E_EQ, a->k[0], eConst(a->k[1]->c ^ b->c, w));
      if (a->op == E_CONCAT) {
        EP hi = a->k[0], lo = a->k[1];
        EP r1 = eBin(E_EQ, lo, eConst(b->c, lo->w));
        if (isC(r1) && !r1->c) return r1;
        EP r2 = eBin(E_EQ, hi, eConst(b->c >> lo->w, hi->w));
        return eBin(E_AND, r1, r2);
      }
    }
    break;
  case E_ULT:
    if (a == b) return eConst(0, 1);
    if (isC(b) && b->c == 0) return eConst(0, 1);
    if (isC(b) && b->c == 1) return eBin(E_EQ, a, eConst(0, w));
    if (isC(a) && a->c == m) return eConst(0, 1);
    if (a->op == E_ZEXT && isC(b)) {
      unsigned iw = a->k[0]->w;
      if (b->c > maskw(iw)) return eConst(1, 1);
      return eBin(E_ULT, a->k[0], eConst(b->c, iw));
    }
    if (b->op == E_ZEXT && isC(a)) {
      unsigned iw = b->k[0]->w;
      if (a->c >= maskw(iw)) return eConst(0, 1);
      return eBin(E_ULT, eConst(a->c, iw), b->k[0]);
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eBin(E_ULT, a->k[0], b->k[0]);
    break;
  case E_ULE:
    if (a == b) return eConst(1, 1);
    if (isC(a) && a->c == 0) return eConst(1, 1);
    if (isC(b) && b->c == m) return eConst(1, 1);
    if (isC(b) && b->c == 0) return eBin(E_EQ, a, b);
    if (a->op == E_ZEXT && isC(b)) {
      unsigned iw = a->k[0]->w;
      if (b->c >= maskw(iw)) return eConst(1, 1);
      return eBin(E_ULE, a->k[0], eConst(b->c, iw));
    }
    if (b->op == E_ZEXT && isC(a)) {
      unsigned iw = b->k[0]->w;
      if (a->c > maskw(iw)) return eConst(0, 1);
      return eBin(E_ULE, eConst(a->c, iw), b->k[0]);
    }
    if (a->op == E_ZEXT && b->op == E_ZEXT && a->k[0]->w == b->k[0]->w) return eBin(E_ULE, a->k[0], b->k[0]);
    break;
  case E_SLT: if (a == b) return eConst(0, 1);
    if (a->op == E_ZEXT && isC(b) && a->k[0]->w < w) {
      if (sextw(b->c, w) < 0) return eConst(0, 1);
      return eBin(E_ULT, a, b);
    }
    if (b->op == E_ZEXT && isC(a) && b->k[0]->w < w) {
      if (sextw(a->c, w) < 0) return eConst(1, 1);
      return eBin(E_ULT, a, b);
    }
    break;
  case E_SLE: if (a == b) return eConst(1, 1);
    if (a->op == E_ZEXT && isC(b) && a->k[0]->w < w) {
      if (sextw(b->c, w) < 0) return eConst(0, 1);
      return eBin(E_ULE, a, b);
    }
    if (b->op == E_ZEXT && isC(a) && b->k[0]->w < w) {
      if (sextw(a->c, w) < 0) return eConst(1, 1);
      return eBin(E_ULE, a, b);
    }
    break;
  default: break;
  }
  return POOL.intern(op, rw, 0, a, b);
}

EP eZext(EP a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eConst(a->c, w);
  if (a->op == E_ZEXT) return eZext(a->k[0], w);
  return POOL.intern(E_ZEXT, w, 0, a);
}
EP eSext(EP a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eConst((uint64_t)sextw(a->c, a->w), w);
  if (a->op == E_ZEXT && a->k[0]->w < a->w) return eZext(a->k[0], w);
  if (a->op == E_SEXT) return eSext(a->k[0], w);
  return POOL.intern(E_SEXT, w, 0, a);
}
EP eExtract(EP a, unsigned off, unsigned w) {
  if (off == 0 && w == a->w) return a;
  if (isC(a)) return eConst(a->c >> off, w);
  if (a->op == E_EXTRACT) return eExtract(a->k[0], off + a->c, w);
  if (a->op == E_ZEXT) {
    unsigned iw = a->k[0]->w;
    if (off >= iw) return eConst(0, w);
    if (off + w <= iw) return eExtract(a->k[0], off, w);
    if (off == 0) return eZext(a->k[0], w);
    return eZext(eExtract(a->k[0], off, iw - off), w);
  }
  if (a->op == E_SEXT) {
    unsigned iw = a->k[0]->w;
    if (off + w <= iw) return eExtract(a->k[0], off, w);
    if (off == 0) return eSext(a->k[0], w);
  }
  if (a->op == E_CONCAT) {
    unsigned lw = a->k[1]->w;
    if (off >= lw) return eExtract(a->k[0], off - lw, w);
    if (off + w <= lw) return eExtract(a->k[1], off, w);
    return eConcat(eExtract(a->k[0], 0, off + w - lw), eExtract(a->k[1], off, lw - off));
  }
  if (off == 0 && (a->op == E_ADD || a->op == E_SUB || a->op == E_MUL))
    return eBin(a->op, eExtract(a->k[0], 0, w), eExtract(a->k[1], 0, w));
  if (a->op == E_AND || a->op == E_OR || a->op == E_XOR)
    return eBin(a->op, eExtract(a->k[0], off, w), eExtract(a->k[1], off, w));
  if (a->op == E_ITE && (isC(a->k[1]) || isC(a->k[2])))
    return eIte(a->k[0], eExtract(a->k[1], off, w), eExtract(a->k[2], off, w));
  return POOL.intern(E_EXTRACT, w, off, a);
}
EP eConcat(EP hi, EP lo) {
  unsigned w = hi->w + lo->w;
  if (w > 64) abort();
  if (isC(hi) && isC(lo)) return eConst(hi->c << lo->w | lo->c, w);
  if (isC(hi) && hi->c == 0) return eZext(lo, w);
  if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0] == lo->k[0] && lo->c + lo->w == hi->c)
    return eExtract(hi->k[0], lo->c, w);
  if (hi->op == E_ZEXT && hi->k[0]->op == E_EXTRACT && lo->op == E_EXTRACT && hi->k[0]->k[0] == lo->k[0] && lo->c + lo->w == hi->k[0]->c)
    return eZext(eExtract(lo->k[0], lo->c, lo->w + hi->k[0]->w), w);
  // sign/zero-extension reassembly: extract pieces of one expr handled above
  return POOL.intern(E_CONCAT, w, 0, hi, lo);
}
EP eIte(EP c, EP a, EP b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : eNot1(c);
    if (isC(a)) return a->c ? eBin(E_OR, c, b) : eBin(E_AND, eNot1(c), b);
    if (isC(b)) return b->c ? eBin(E_OR, eNot1(c), a) : eBin(E_AND, c, a);
  }
  if (c->op == E_XOR && isC(c->k[1])) return eIte(c->k[0], b, a);
  return POOL.intern(E_ITE, a->w, 0, c, a, b);
}

uint64_t eEval(EP e, const std::vector<uint64_t> &asg) {
  switch (e->op) {
  case E_CONST: return e->c;
  case E_VAR: return e->c < asg.size() ? asg[e->c] & maskw(e->w) : 0;
  case E_ZEXT: return eEval(e->k[0], asg);
  case E_SEXT: return (uint64_t)sextw(eEval(e->k[0], asg), e->k[0]->w) & maskw(e->w);
  case E_EXTRACT: return (eEval(e->k[0], asg) >> e->c) & maskw(e->w);
  case E_CONCAT: return (eEval(e->k[0], asg) << e->k[1]->w | eEval(e->k[1], asg)) & maskw(e->w);
  case E_ITE: return eEval(e->k[0], asg) ? eEval(e->k[1], asg) : eEval(e->k[2], asg);
  default: return foldBin(e->op, eEval(e->k[0], asg), eEval(e->k[1], asg), e->k[0]->w);
  }
}

static Iv full(unsigned w) { return {0, maskw(w)}; }
Iv eIv(EP e, const std::vector<VarRange> &vr) {
  uint64_t m = maskw(e->w);
  switch (e->op) {
  case E_CONST: return {e->c, e->c};
  case E_VAR: return e->c < vr.size() ? Iv{vr[e->c].lo, vr[e->c].hi} : full(e->w);
  case E_ZEXT: return eIv(e->k[0], vr);
  case E_SEXT: {
    Iv a = eIv(e->k[0], vr);
    uint64_t sb = 1ull << (e->k[0]->w - 1);
    if (a.hi < sb) return a;
    if (a.lo >= sb) return {(uint64_t)sextw(a.lo, e->k[0]->w) & m, (uint64_t)sextw(a.hi, e->k[0]->w) & m};
    return full(e->w);
  }
  case E_EXTRACT: {
    Iv a = eIv(e->k[0], vr);
    if ((a.lo >> e->c) == (a.hi >> e->c) || (a.hi >> e->c) <= m) {
      uint64_t l = a.lo >> e->c, h = a.hi >> e->c;
      if ((l & ~m) == (h & ~m)) return {l & m, h & m};
    }
    return full(e->w);
  }
  case E_CONCAT: {
    Iv a = eIv(e->k[0], vr), b = eIv(e->k[1], vr);
    unsigned lw = e->k[1]->w;
    return {(a.lo << lw) | b.lo, (a.hi << lw) | b.hi};
  }
  case E_ITE: {
    Iv c = eIv(e->k[0], vr);
    if (c.lo == c.hi) return eIv(c.lo ? e->k[1] : e->k[2], vr);
    Iv a = eIv(e->k[1], vr), b = eIv(e->k[2], vr);
    return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)};
  }
  default: break;
  }
  if (e->op == E_ADD || e->op == E_SUB) {
    Lin l;
    if (linOf(l, e, 1, e->w)) {
      linNorm(l);
      i128 lo, hi, W = (i128)1 << e->w;
      linRange(l, e->w, lo, hi, vr);
      if (lo < 0 && hi < 0) { lo += W; hi += W; }
      else if (lo >= W) { lo -= W; hi -= W; }
      if (lo >= 0 && hi < W) return {(uint64_t)lo, (uint64_t)hi};
    }
    return full(e->w);
  }
  Iv a = eIv(e->k[0], vr), b = eIv(e->k[1], vr);
  unsigned kw = e->k[0]->w;
  switch (e->op) {
  case E_ADD: {
    unsigned __int128 lo = (unsigned __int128)a.lo + b.lo, hi = (unsigned __int128)a.hi + b.hi;
    unsigned __int128 M = (unsigned __int128)m + 1;
    if (hi < M) return {(uint64_t)lo, (uint64_t)hi};
    if (lo >= M) return {(uint64_t)(lo - M), (uint64_t)(hi - M)};
    return full(e->w);
  }
  case E_SUB:
    if (a.lo >= b.hi) return {a.lo - b.hi, a.hi - b.lo};
    if (a.hi < b.lo) return {(a.lo - b.hi) & m, (a.hi - b.lo) & m};
    return full(e->w);
  case E_MUL: {
    unsigned __int128 h = (unsigned __int128)a.hi * b.hi;
    if (h <= m) return {a.lo * b.lo, (uint64_t)h};
    return full(e->w);
  }
  case E_UDIV: if (b.lo > 0) return {a.lo / b.hi, a.hi / b.lo}; return full(e->w);
  case E_SDIV: {
    uint64_t sb = 1ull << (kw - 1);
    if (b.lo > 0 && b.hi < sb && a.hi < sb) return {a.lo / b.hi, a.hi / b.lo};
    return full(e->w);
  }
  case E_UREM: if (b.lo > 0) { if (a.hi < b.lo) return a; return {0, b.hi - 1}; } return full(e->w);
  case E_SREM: {
    uint64_t sb = 1ull << (kw - 1);
    if (b.lo > 0 && b.hi < sb && a.hi < sb) { if (a.hi < b.lo) return a; return {0, b.hi - 1}; }
    return full(e->w);
  }
  case E_AND: if (a.lo == a.hi && b.lo == b.hi) { uint64_t v = a.lo & b.lo; return {v, v}; }
    return {0, std::min(a.hi, b.hi)};
  case E_OR: {
    if (a.lo == a.hi && b.lo == b.hi) { uint64_t v = a.lo | b.lo; return {v, v}; }
    uint64_t h = a.hi | b.hi; int z = h ? 64 - __builtin_clzll(h) : 0;
    return {std::max(a.lo, b.lo), z >= 64 ? m : ((1ull << z) - 1) & m};
  }
  case E_XOR: if (a.lo == a.hi && b.lo == b.hi) { uint64_t v = (a.lo ^ b.lo) & m; return {v, v}; }
    if (e->w > 1) { // sign bit
      uint64_t H = 1ull << (e->w - 1);
      if ((a.lo < H) == (a.hi < H) && (b.lo < H) == (b.hi < H)) return (a.lo < H) == (b.lo < H) ? Iv{0, H - 1} : Iv{H, m};
    }
    return full(e->w);
  case E_EQ:
    if (a.lo == a.hi && b.lo == b.hi && a.lo == b.lo) return {1, 1};
    if (a.hi < b.lo || b.hi < a.lo) return {0, 0};
    return {0, 1};
  case E_ULT: if (a.hi < b.lo) return {1, 1}; if (a.lo >= b.hi) return {0, 0}; return {0, 1};
  case E_ULE: if (a.hi <= b.lo) return {1, 1}; if (a.lo > b.hi) return {0, 0}; return {0, 1};
  case E_SLT: case E_SLE: {
    uint64_t sb = 1ull << (kw - 1);
    int64_t al, ah, bl, bh;
    if ((a.lo < sb) == (a.hi < sb)) { al = sextw(a.lo, kw); ah = sextw(a.hi, kw); }
    else { al = sextw(sb, kw); ah = (int64_t)(sb - 1); }
    if ((b.lo < sb) == (b.hi < sb)) { bl = sextw(b.lo, kw); bh = sextw(b.hi, kw); }
    else { bl = sextw(sb, kw); bh = (int64_t)(sb - 1); }
    if (e->op == E_SLT) { if (ah < bl) return {1, 1}; if (al >= bh) return {0, 0}; }
    else { if (ah <= bl) return {1, 1}; if (al > bh) return {0, 0}; }
    return {0, 1};
  }
  default: return full(e->w);
  }
}

void Solver::init() {
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, getenv("NSYM_LOGIC") ? getenv("NSYM_LOGIC") : "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  Z3_params p = Z3_mk_params(ctx);
  Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), 20000);
  Z3_solver_set_params(ctx, s, p);
  Z3_params_dec_ref(ctx, p);
}

Z3_ast Solver::trB(EP e) {
  if (e->zb) return e->zb;
  Z3_ast r, a[2];
  switch (e->op) {
  case E_CONST: r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
  case E_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(ctx, trB(e->k[0]), trB(e->k[1])) : Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_ULT: r = Z3_mk_bvult(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_ULE: r = Z3_mk_bvule(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_SLT: r = Z3_mk_bvslt(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_SLE: r = Z3_mk_bvsle(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_AND: a[0] = trB(e->k[0]); a[1] = trB(e->k[1]); r = Z3_mk_and(ctx, 2, a); break;
  case E_OR: a[0] = trB(e->k[0]); a[1] = trB(e->k[1]); r = Z3_mk_or(ctx, 2, a); break;
  case E_XOR: if (isC(e->k[1])) r = e->k[1]->c ? Z3_mk_not(ctx, trB(e->k[0])) : trB(e->k[0]); else r = Z3_mk_xor(ctx, trB(e->k[0]), trB(e->k[1])); break;
  case E_ITE: r = Z3_mk_ite(ctx, trB(e->k[0]), trB(e->k[1]), trB(e->k[2])); break;
  default: r = Z3_mk_eq(ctx, tr(e), Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1))); break;
  }
  Z3_inc_ref(ctx, r);
  e->zb = r;
  return r;
}
Z3_ast Solver::tr(EP e) {
  if (e->z) return e->z;
  Z3_ast r;
  // width-1 values are translated as 1-bit vectors, except at top level
  auto b2v = [&](Z3_ast b) {
    Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
  };
  switch (e->op) {
  case E_CONST: r = Z3_mk_unsigned_int64(ctx, e->c, Z3_mk_bv_sort(ctx, e->w)); break;
  case E_VAR: {
    char nm[32]; snprintf(nm, sizeof nm, "v%u_%u", (unsigned)e->c, e->w);
    r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, e->w));
    break;
  }
  case E_ZEXT: r = Z3_mk_zero_ext(ctx, e->w - e->k[0]->w, tr(e->k[0])); break;
  case E_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, tr(e->k[0])); break;
  case E_EXTRACT: r = Z3_mk_extract(ctx, e->c + e->w - 1, e->c, tr(e->k[0])); break;
  case E_CONCAT: r = Z3_mk_concat(ctx, tr(e->k[0]), tr(e->k[1])); break;
  case E_ITE: {
    Z3_ast c = trB(e->k[0]);
    r = Z3_mk_ite(ctx, c, tr(e->k[1]), tr(e->k[2]));
    break;
  }
  case E_EQ: case E_ULT: case E_ULE: case E_SLT: case E_SLE: r = b2v(trB(e)); break;
  default: {
    Z3_ast a = tr(e->k[0]), b = tr(e->k[1]);
    switch (e->op) {
    case E_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
    case E_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
    case E_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
    case E_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
    case E_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
    case E_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
    case E_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
    case E_AND: r = Z3_mk_bvand(ctx, a, b); break;
    case E_OR: r = Z3_mk_bvor(ctx, a, b); break;
    case E_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
    case E_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
    case E_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
    case E_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
    default: abort();
    }
  }
  }
  Z3_inc_ref(ctx, r);
  e->z = r;
  return r;
}

static void collectVars(EP e, std::vector<EP> &out, std::unordered_set<EP> &seen) {
  if (e->op == E_CONST || !seen.insert(e).second) return;
  if (e->op == E_VAR) { out.push_back(e); return; }
  for (int i = 0; i < 3; i++) if (e->k[i]) collectVars(e->k[i], out, seen);
}

static uint64_t RESETQ = getenv("NSYM_RESET") ? strtoull(getenv("NSYM_RESET"), 0, 10) : 1000000000;
double SVDEADLINE = 0;
static double svNow() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
int Solver::check(const std::vector<EP> &cs, EP q, std::vector<std::pair<uint32_t, uint64_t>> &model) {
  std::vector<uint32_t> ids;
  ids.reserve(cs.size() + 1);
  for (EP c : cs) ids.push_back(c->id);
  ids.push_back(q->id);
  std::sort(ids.begin(), ids.end());
  ids.erase(std::unique(ids.begin(), ids.end()), ids.end());
  std::string key((const char *)ids.data(), ids.size() * 4);
  auto it = cache.find(key);
  if (it != cache.end()) { nhit++; model = it->second.model; return it->second.r; }
  if (SVDEADLINE && svNow() > SVDEADLINE) { nunk++; return -1; } // out of time: undecided
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver_push(ctx, s);
  for (EP c : cs) Z3_solver_assert(ctx, s, trB(c));
  Z3_solver_assert(ctx, s, trB(q));
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res;
  res.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, m);
    std::vector<EP> vars; std::unordered_set<EP> seen;
    for (EP c : cs) collectVars(c, vars, seen);
    collectVars(q, vars, seen);
    for (EP v : vars) {
      Z3_ast o; uint64_t x = 0;
      if (Z3_model_eval(ctx, m, tr(v), true, &o)) Z3_get_numeral_uint64(ctx, o, &x);
      res.model.push_back({(uint32_t)v->c, x});
    }
    Z3_model_dec_ref(ctx, m);
    nsat++;
  } else if (r == Z3_L_FALSE) nunsat++; else nunk++;
  Z3_solver_pop(ctx, s, 1);
  if (nq % RESETQ == RESETQ - 1) Z3_solver_reset(ctx, s);
  uint64_t d = std::chrono::duration_cast<std::chrono::microseconds>(std::chrono::steady_clock::now() - t0).count();
  us += d; if (d > maxus) maxus = d;
  if (getenv("NSYM_DUMPQ") && d > (getenv("NSYM_DUMPMS") ? atoi(getenv("NSYM_DUMPMS")) : 4000)) {
    static int nd = 0;
    if (nd++ < 60) {
      FILE *f = fopen((std::string(getenv("NSYM_DUMPQ")) + std::to_string(getpid()) + "_" + std::to_string(nd)).c_str(), "w");
      fprintf(f, "us %lu r %d\n", (unsigned long)d, res.r);
      for (EP c : cs) fprintf(f, "%s\n", Z3_ast_to_string(ctx, tr(c)));
      fprintf(f, "QUERY %s\n", Z3_ast_to_string(ctx, tr(q)));
      fclose(f);
    }
  }
  nq++;
  if (cache.size() < 2000000) cache[key] = res;
  model = res.model;
  return res.r;
}
