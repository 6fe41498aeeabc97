#include "expr.h"
#include <cmath>
#include <cfenv>
#include <algorithm>
#include <sstream>

ExprCtx X;

static inline bool isConst(E e) { return e->k == K_Const; }
static inline bool isZero(E e) { return e->k == K_Const && e->val == 0; }
static inline bool isOnes(E e) { return e->k == K_Const && e->val == maskW(e->w); }

static bool kindIsFP(K k) { return k >= K_FAdd; }

static inline u64 mixh(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  return h * 0xff51afd7ed558ccdull;
}

E ExprCtx::intern(K k, unsigned w, uint32_t aux, u128 val, E a, E b, E c) {
  u64 h = mixh(mixh(mixh(k * 131 + w, aux), (u64)val), (u64)(val >> 64));
  h = mixh(h, a ? a->id : 0); h = mixh(h, b ? b->id : 0); h = mixh(h, c ? c->id : 0);
  auto rg = table.equal_range(h);
  for (auto it = rg.first; it != rg.second; ++it) {
    E e = it->second;
    if (e->k == k && e->w == w && e->aux == aux && e->val == val && e->op[0] == a && e->op[1] == b && e->op[2] == c)
      return e;
  }
  Expr* e = new Expr();
  e->k = k; e->w = w; e->aux = aux; e->val = val; e->op[0] = a; e->op[1] = b; e->op[2] = c;
  e->id = nextId++; e->hash = h; e->hasFP = kindIsFP(k);
  for (int i = 0; i < 3; i++) if (e->op[i]) { e->vars |= e->op[i]->vars; e->hasFP |= e->op[i]->hasFP; }
  if (k == K_Sym) e->vars.set(aux % MAXVARS);
  e->dy = nullptr; e->evEpoch = 0; e->rgDone = false; e->zbv = e->zbool = e->zfp = nullptr; e->zEpoch = 0;
  table.emplace(h, e);
  return e;
}

E ExprCtx::sym(const std::string& name, unsigned w, bool uninit) {
  uint32_t id = syms.size();
  syms.push_back({name, w, uninit});
  return intern(K_Sym, w, id, 0);
}

static bool foldBin(K k, unsigned w, u128 a, u128 b, u128& r) {
  u128 m = maskW(w);
  switch (k) {
    case K_Add: r = (a + b) & m; return true;
    case K_Sub: r = (a - b) & m; return true;
    case K_Mul: r = (a * b) & m; return true;
    case K_UDiv: r = b ? a / b : m; return true;
    case K_URem: r = b ? a % b : a; return true;
    case K_SDiv: { i128 x = sextV(a, w), y = sextV(b, w);
      if (y == 0) r = x >= 0 ? m : 1; else if (y == -1) r = (u128)(0 - (u128)x) & m; else r = (u128)(x / y) & m; return true; }
    case K_SRem: { i128 x = sextV(a, w), y = sextV(b, w);
      if (y == 0) r = a; else if (y == -1) r = 0; else r = (u128)(x % y) & m; return true; }
    case K_And: r = a & b; return true;
    case K_Or: r = a | b; return true;
    case K_Xor: r = a ^ b; return true;
    case K_Shl: r = b >= w ? 0 : (a << (unsigned)b) & m; return true;
    case K_LShr: r = b >= w ? 0 : (a >> (unsigned)b); return true;
    case K_AShr: { i128 x = sextV(a, w); r = (u128)(x >> (b >= w ? (w >= 128 ? 127 : w - 1) : (unsigned)b)) & m; return true; }
    case K_Eq: r = a == b; return true;
    case K_Ult: r = a < b; return true;
    case K_Ule: r = a <= b; return true;
    case K_Slt: r = sextV(a, w) < sextV(b, w); return true;
    case K_Sle: r = sextV(a, w) <= sextV(b, w); return true;
    default: return false;
  }
}

static int bitsNeeded(i128 lo, i128 hi) {  // signed bits
  int n = 1;
  while (n < 127) {
    i128 mn = -((i128)1 << (n - 1)), mx = ((i128)1 << (n - 1)) - 1;
    if (lo >= mn && hi <= mx) return n;
    n++;
  }
  return 128;
}

void ExprCtx::range(E e, i128& lo, i128& hi) {
  if (e->rgDone) { lo = e->rlo; hi = e->rhi; return; }
  unsigned w = e->w;
  i128 flo, fhi;
  if (w >= 127) { flo = -((i128)1 << 126); fhi = ((i128)1 << 126); }
  else { flo = -((i128)1 << (w - 1)); fhi = ((i128)1 << (w - 1)) - 1; }
  lo = flo; hi = fhi;
  i128 a0, a1, b0, b1;
  auto fit = [&](i128 l, i128 h) { if (w < 100 && l >= flo && h <= fhi) { lo = l; hi = h; } };
  switch (e->k) {
    case K_Const: if (w < 127) lo = hi = sextV(e->val, w); break;
    case K_SExt: range(e->op[0], lo, hi); break;
    case K_ZExt: range(e->op[0], a0, a1);
      if (a0 >= 0) { lo = a0; hi = a1; } else { lo = 0; hi = e->op[0]->w < 126 ? (((i128)1 << e->op[0]->w) - 1) : fhi; } break;
    case K_Extract: if (e->aux == 0) { range(e->op[0], a0, a1); fit(a0, a1); } break;
    case K_Add: range(e->op[0], a0, a1); range(e->op[1], b0, b1); fit(a0 + b0, a1 + b1); break;
    case K_Sub: range(e->op[0], a0, a1); range(e->op[1], b0, b1); fit(a0 - b1, a1 - b0); break;
    case K_Mul: if (w <= 64) { range(e->op[0], a0, a1); range(e->op[1], b0, b1);
      if (bitsNeeded(a0, a1) + bitsNeeded(b0, b1) < 120) {
        i128 p[4] = {a0 * b0, a0 * b1, a1 * b0, a1 * b1};
        fit(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); } } break;
    case K_Concat: if (w < 100) { range(e->op[0], a0, a1); i128 f = (i128)1 << e->op[1]->w; lo = a0 * f; hi = a1 * f + (isConst(e->op[1]) ? (i128)e->op[1]->val : f - 1); if (isConst(e->op[1])) lo += (i128)e->op[1]->val; } break;
    case K_Ite: range(e->op[1], a0, a1); range(e->op[2], b0, b1); lo = std::min(a0, b0); hi = std::max(a1, b1); break;
    case K_And: range(e->op[0], a0, a1); range(e->op[1], b0, b1);
      if (b0 >= 0) { lo = 0; hi = b1; if (a0 >= 0 && a1 < hi) hi = a1; } else if (a0 >= 0) { lo = 0; hi = a1; } break;
    case K_URem: range(e->op[1], b0, b1); range(e->op[0], a0, a1); if (b0 > 0 ) { lo = 0; hi = b1 - 1; if (a0 >= 0 && a1 < hi) hi = a1; } break;
    case K_UDiv: range(e->op[1], b0, b1); range(e->op[0], a0, a1); if (a0 >= 0 && b0 > 0) { lo = a0 / b1; hi = a1 / b0; } break;
    case K_SRem: range(e->op[1], b0, b1); range(e->op[0], a0, a1);
      if (b0 > 0) { hi = b1 - 1; lo = -hi; if (a0 >= 0) lo = 0; if (a1 <= 0) hi = 0; if (a0 > lo) lo = a0; if (a1 < hi) hi = a1; } break;
    case K_SDiv: range(e->op[1], b0, b1); range(e->op[0], a0, a1); if (b0 > 0) { lo = std::min(a0, a0 / b0); lo = std::min(lo, a0); if (a0 >= 0) lo = 0; hi = std::max((i128)0, a1); } break;
    case K_Shl: if (isConst(e->op[1]) && e->op[1]->val < w && w <= 64) { range(e->op[0], a0, a1); if (bitsNeeded(a0, a1) + (int)e->op[1]->val < 120) fit(a0 * ((i128)1 << (int)e->op[1]->val), a1 * ((i128)1 << (int)e->op[1]->val)); } break;
    case K_AShr: if (isConst(e->op[1]) && e->op[1]->val < w) { range(e->op[0], a0, a1); lo = a0 >> (int)e->op[1]->val; hi = a1 >> (int)e->op[1]->val; } break;
    case K_LShr: if (isConst(e->op[1]) && e->op[1]->val < w) { range(e->op[0], a0, a1); if (a0 >= 0) { lo = a0 >> (int)e->op[1]->val; hi = a1 >> (int)e->op[1]->val; } else if (e->op[1]->val > 0 && w < 126) { lo = 0; hi = ((i128)1 << (w - (int)e->op[1]->val)) - 1; } } break;
    default: break;
  }
  e->rlo = lo; e->rhi = hi; e->rgDone = true;
}

// The signed value of e as an integer polynomial over atoms (other subexpressions): only through operations that
// cannot overflow at their width. Used to decide equalities between differently associated exact sums and products.
typedef std::map<std::vector<u64>, i128> Poly;
typedef std::shared_ptr<const Poly> PolyP;
static std::unordered_map<uint32_t, PolyP> polyMemo;
static const size_t PTERMS = 160, PDEG = 6;
static std::unordered_map<u64, E> atomE;
static PolyP atomP(u64 key, E e) { atomE[key] = e; auto p = std::make_shared<Poly>(); (*p)[{key}] = 1; return p; }
static bool bigC(i128 c) { return c > ((i128)1 << 90) || c < -((i128)1 << 90); }
static PolyP sval(E e) {
  auto it = polyMemo.find(e->id); if (it != polyMemo.end()) return it->second;
  auto atom = [&]() { return atomP((u64)e->id << 1, e); };
  PolyP r; unsigned w = e->w;
  i128 a0, a1, b0, b1;
  auto fits = [&](i128 l, i128 h) { if (w > 100) return false; i128 m = (i128)1 << (w - 1); return l >= -m && h < m; };
  auto lin = [&](PolyP x, PolyP y, i128 f) -> PolyP { // x + f*y
    auto p = std::make_shared<Poly>(*x);
    for (auto& t : *y) { i128& c = (*p)[t.first]; c += f * t.second; if (bigC(c)) return nullptr; if (c == 0) p->erase(t.first); }
    return p->size() > PTERMS ? nullptr : p; };
  switch (e->k) {
    case K_Const: if (w <= 100) { auto p = std::make_shared<Poly>(); i128 v = sextV(e->val, w); if (bigC(v)) break; if (v != 0) (*p)[{}] = v; r = p; } break;
    case K_SExt: r = sval(e->op[0]); break;
    case K_ZExt: X.range(e->op[0], a0, a1); r = a0 >= 0 ? sval(e->op[0]) : atomP(((u64)e->op[0]->id << 1) | 1, e->op[0]); break;
    case K_Extract: if (e->aux == 0) { X.range(e->op[0], a0, a1); if (e->op[0]->w <= 100 && fits(a0, a1)) r = sval(e->op[0]); } break;
    case K_Add: case K_Sub: {
      X.range(e->op[0], a0, a1); X.range(e->op[1], b0, b1);
      if (w > 100) break;
      bool add = e->k == K_Add; if (!(add ? fits(a0 + b0, a1 + b1) : fits(a0 - b1, a1 - b0))) break;
      r = lin(sval(e->op[0]), sval(e->op[1]), add ? 1 : -1); break; }
    case K_Shl: {
      if (w > 100 || !isConst(e->op[1]) || e->op[1]->val >= 60) break;
      int k = (int)e->op[1]->val; X.range(e->op[0], a0, a1); if (bitsNeeded(a0, a1) + k > 110 || !fits(a0 * ((i128)1 << k), a1 * ((i128)1 << k))) break;
      r = lin(std::make_shared<Poly>(), sval(e->op[0]), (i128)1 << k); break; }
    case K_Concat: // value of the high part times 2^k plus the (unsigned) low part
      if (w > 90 || !isConst(e->op[1])) break;
      { auto c = std::make_shared<Poly>(); if (e->op[1]->val) (*c)[{}] = (i128)e->op[1]->val; r = lin(c, sval(e->op[0]), (i128)1 << e->op[1]->w); } break;
    case K_Mul: {
      if (w > 100) break;
      X.range(e->op[0], a0, a1); X.range(e->op[1], b0, b1); if (bitsNeeded(a0, a1) + bitsNeeded(b0, b1) > 120) break;
      i128 q[4] = {a0 * b0, a0 * b1, a1 * b0, a1 * b1}; if (!fits(*std::min_element(q, q + 4), *std::max_element(q, q + 4))) break;
      PolyP x = sval(e->op[0]), y = sval(e->op[1]); if (x->size() * y->size() > 2 * PTERMS) break;
      auto p = std::make_shared<Poly>(); bool bad = false;
      for (auto& t : *x) for (auto& u : *y) {
        if (bigC(t.second) || bigC(u.second) || bitsNeeded(t.second, t.second) + bitsNeeded(u.second, u.second) > 90) { bad = true; break; }
        std::vector<u64> m = t.first; m.insert(m.end(), u.first.begin(), u.first.end()); if (m.size() > PDEG) { bad = true; break; }
        std::sort(m.begin(), m.end()); i128& c = (*p)[m]; c += t.second * u.second; if (c == 0) p->erase(m);
      }
      if (!bad && p->size() <= PTERMS) r = p; break; }
    default: break;
  }
  if (!r) r = atom();
  polyMemo[e->id] = r; return r;
}
static bool arith(E e) { while (e->k == K_SExt || (e->k == K_Extract && e->aux == 0) || e->k == K_ZExt) e = e->op[0]; return e->k == K_Add || e->k == K_Sub || e->k == K_Mul || e->k == K_Shl || (e->k == K_Concat && isConst(e->op[1])); }
static const bool selfTest = getenv("VSYM_SELFTEST") != nullptr;
// 1: equal, 0: different, -1: not decided
static int polyEq(E a, E b) {
  if (a->w < 4 || a->w > 100 || !(arith(a) || arith(b))) return -1;
  PolyP x = sval(a), y = sval(b);
  if (*x == *y) return 1;
  Poly d = *x; for (auto& t : *y) { i128& c = d[t.first]; c -= t.second; if (c == 0) d.erase(t.first); }
  if (d.empty()) return 1;
  if (d.size() == 1 && d.begin()->first.empty()) return 0;
  return -1;
}
// A comparison of exact sums and products, rewritten as one polynomial (common factor removed) against a constant at
// the smallest sufficient width, if that is smaller: q <= c or q == c.
static E narrowCmp(K k, E a, E b) {
  unsigned w = a->w; if (w <= 8 || w > 100 || !(arith(a) || arith(b))) return nullptr;
  Poly d = *sval(a); { PolyP y = sval(b); for (auto& t : *y) { i128& c = d[t.first]; c -= t.second; if (bigC(c)) return nullptr; if (c == 0) d.erase(t.first); } }
  i128 c0 = 0; auto z = d.find({}); if (z != d.end()) { c0 = z->second; d.erase(z); }
  if (d.empty()) return X.cst(k == K_Eq ? c0 == 0 : k == K_Slt ? c0 < 0 : c0 <= 0, 1);
  if (d.size() > 24) return nullptr;
  i128 g = 0; for (auto& t : d) { i128 u = t.second < 0 ? -t.second : t.second, v = g; while (v) { i128 r = u % v; u = v; v = r; } g = u; }
  auto fdiv = [](i128 n, i128 m) { i128 q = n / m; if (n % m != 0 && (n < 0) != (m < 0)) q--; return q; };
  // d = g*q + c0
  if (k == K_Eq && c0 % g != 0) return X.fls();
  i128 rhs = k == K_Eq ? -c0 / g : k == K_Sle ? fdiv(-c0, g) : fdiv(-c0 - 1, g);
  i128 bound = 0; // of the absolute value of any partial sum or product
  for (auto& t : d) { i128 m = 1; for (u64 key : t.first) { E e = atomE[key]; i128 l, h; X.range(e, l, h); if ((key & 1) && l < 0) { if (e->w > 60) return nullptr; h = ((i128)1 << e->w) - 1; l = 0; } i128 v = std::max(l < 0 ? -l : l, h < 0 ? -h : h); if (bitsNeeded(-v, v) + bitsNeeded(-m, m) > 100) return nullptr; if (v > 1) m *= v; if (m > bound) bound = m; }
    i128 c = t.second / g; if (c < 0) c = -c; if (bitsNeeded(-m, m) + bitsNeeded(-c, c) > 100) return nullptr; bound += m * c; }
  if (rhs < -bound) return X.fls(); if (rhs > bound) return k == K_Eq ? X.fls() : X.tru(); if (rhs == bound && k != K_Eq) return X.tru();
  unsigned W = bitsNeeded(-bound - 1, bound + 1); if (W >= w) return nullptr;
  E q = nullptr;
  for (auto& t : d) {
    E m = nullptr; for (u64 key : t.first) { E e = atomE[key]; E v = e->w > W ? X.extract(e, 0, W) : e->w == W ? e : (key & 1) ? X.zext(e, W) : X.sext(e, W); m = m ? X.bin(K_Mul, m, v) : v; }
    i128 c = t.second / g; E u = c == 1 || c == -1 ? m : X.bin(K_Mul, m, X.cst((u128)(c < 0 ? -c : c), W));
    q = !q ? (c < 0 ? X.sub(X.cst(0, W), u) : u) : c < 0 ? X.sub(q, u) : X.add(q, u);
  }
  return X.bin(k == K_Eq ? K_Eq : K_Sle, q, X.cst((u128)rhs, W));
}
static E tested(K k, E a, E b, E r) { // self test: compare with the evaluation under pseudo-random models
  if (!selfTest) return r;
  static u64 z = 88172645463325252ull; E raw = X.intern(k, 1, 0, 0, a, b);
  for (int t = 0; t < 8; t++) { std::vector<u128> m(X.syms.size()); for (auto& v : m) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; v = z; if (t & 1) v &= 3; } for (size_t i = 0; i < m.size(); i++) m[i] &= maskW(X.syms[i].w); X.newEpoch(); if (X.evalWith(raw, m) != X.evalWith(r, m)) { fprintf(stderr, "comparison self test failed\n"); abort(); } }
  X.newEpoch(); return r;
}

E ExprCtx::bin(K k, E a, E b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  bool cmp = k >= K_Eq && k <= K_Sle;
  unsigned rw = cmp ? 1 : w;
  if (isConst(a) && isConst(b)) { u128 r; foldBin(k, w, a->val, b->val, r); return cst(r, rw); }
  // commutative: constant second, else by id
  if (k == K_Add || k == K_Mul || k == K_And || k == K_Or || k == K_Xor || k == K_Eq) {
    if (isConst(a) || (!isConst(b) && a->id > b->id)) std::swap(a, b);
  }
  switch (k) {
    case K_Add:
      if (isZero(b)) return a;
      if (isConst(b) && a->k == K_Add && isConst(a->op[1])) return add(a->op[0], cst(a->op[1]->val + b->val, w));
      if (isConst(b) && a->k == K_Sub && isConst(a->op[0])) return sub(cst(a->op[0]->val + b->val, w), a->op[1]);
      if (isConst(b) && a->k == K_Ite && isConst(a->op[1]) && isConst(a->op[2]))
        return ite(a->op[0], add(a->op[1], b), add(a->op[2], b));
      // move constants outward
      if (a->k == K_Add && isConst(a->op[1])) return add(add(a->op[0], b), a->op[1]);
      if (b->k == K_Add && isConst(b->op[1])) return add(add(a, b->op[0]), b->op[1]);
      if (b->k == K_Sub && b->op[1] == a) return b->op[0];
      if (a->k == K_Sub && a->op[1] == b) return a->op[0];
      break;
    case K_Sub:
      if (a == b) return cst(0, w);
      if (isConst(b)) return add(a, cst(0 - b->val, w));
      if (a->k == K_Add && a->op[0] == b) return a->op[1];
      if (a->k == K_Add && a->op[1] == b) return a->op[0];
      if (a->k == K_Add && isConst(a->op[1])) return add(sub(a->op[0], b), a->op[1]);
      if (b->k == K_Add && isConst(b->op[1])) return add(sub(a, b->op[0]), cst(0 - b->op[1]->val, w));
      break;
    case K_Mul:
      if (isZero(b)) return b;
      if (isConst(b) && b->val == 1) return a;
      if (isConst(b) && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (((b->val >> s) & 1) == 0) s++; return bin(K_Shl, a, cst(s, w)); }
      if (isConst(b) && a->k == K_Add && isConst(a->op[1])) return add(bin(K_Mul, a->op[0], b), bin(K_Mul, a->op[1], b));
      break;
    case K_UDiv:
      if (isConst(b) && b->val == 1) return a;
      if (isConst(b) && b->val && (b->val & (b->val - 1)) == 0) { unsigned s = 0; while (((b->val >> s) & 1) == 0) s++; return bin(K_LShr, a, cst(s, w)); }
      if (isZero(a) && isConst(b)) return a;
      break;
    case K_SDiv: if (isConst(b) && b->val == 1) return a;
      // exact division of x*2^n (element difference)
      if (isConst(b) && a->k == K_Shl && isConst(a->op[1]) && b->val == ((u128)1 << (unsigned)a->op[1]->val)) {
        i128 lo, hi; range(a->op[0], lo, hi); if (bitsNeeded(lo, hi) + (int)a->op[1]->val <= (int)w) return a->op[0]; }
      break;
    case K_URem: if (isConst(b) && b->val == 1) return cst(0, w);
      if (isConst(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(K_And, a, cst(b->val - 1, w));
      break;
    case K_SRem: if (isConst(b) && b->val == 1) return cst(0, w); break;
    case K_And:
      if (isZero(b)) return b;
      if (isOnes(b)) return a;
      if (a == b) return a;
      if (w == 1) {
        if ((a->k == K_Xor && a->op[0] == b && isOnes(a->op[1])) || (b->k == K_Xor && b->op[0] == a && isOnes(b->op[1]))) return fls();
      }
      if (isConst(b) && a->k == K_And && isConst(a->op[1])) return bin(K_And, a->op[0], cst(b->val & a->op[1]->val, w));
      // low mask -> zext(extract)
      if (isConst(b) && w > 1 && (b->val & (b->val + 1)) == 0) {
        unsigned n = 0; while ((b->val >> n) & 1) n++;
        if (a->k == K_ZExt && a->op[0]->w <= n) return a;
        return zext(extract(a, 0, n), w);
      }
      if (isConst(b) && a->k == K_ZExt && a->op[0]->w < w) {
        unsigned n = a->op[0]->w;
        return zext(bin(K_And, a->op[0], cst(b->val, n)), w);
      }
      if (isConst(b) && a->k == K_Ite && isConst(a->op[1]) && isConst(a->op[2])) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
      break;
    case K_Or:
      if (isZero(b)) return a;
      if (isOnes(b)) return b;
      if (a == b) return a;
      if (w == 1) {
        if ((a->k == K_Xor && a->op[0] == b && isOnes(a->op[1])) || (b->k == K_Xor && b->op[0] == a && isOnes(b->op[1]))) return tru();
      }
      // disjoint zext | shl  -> concat
      if (w > 1) {
        E p = a, q = b;
        for (int t = 0; t < 2; t++, std::swap(p, q)) {
          if (p->k == K_ZExt && q->k == K_Shl && isConst(q->op[1]) && q->op[1]->val < w && p->op[0]->w <= q->op[1]->val) {
            unsigned s = (unsigned)q->op[1]->val;
            return concat(extract(q->op[0], 0, w - s), zext(p->op[0], s));
          }
          if (p->k == K_ZExt && q->k == K_Concat && isZero(q->op[1]) && p->op[0]->w <= q->op[1]->w)
            return concat(q->op[0], zext(p->op[0], q->op[1]->w));
        }
      }
      break;
    case K_Xor:
      if (isZero(b)) return a;
      if (a == b) return cst(0, w);
      if (isConst(b) && a->k == K_Xor && isConst(a->op[1])) return bin(K_Xor, a->op[0], cst(a->op[1]->val ^ b->val, w));
      if (w == 1 && isOnes(b)) {
        // push negation through comparisons
        if (a->k == K_Ult) return ule(a->op[1], a->op[0]);
        if (a->k == K_Ule) return ult(a->op[1], a->op[0]);
        if (a->k == K_Slt) return sle(a->op[1], a->op[0]);
        if (a->k == K_Sle) return slt(a->op[1], a->op[0]);
      }
      break;
    case K_Shl: case K_LShr: case K_AShr:
      if (isZero(b)) return a;
      if (isZero(a)) return a;
      if (isConst(b) && b->val >= w && k != K_AShr) return cst(0, w);
      if (k == K_LShr && isConst(b)) return zext(extract(a, (unsigned)b->val, w - (unsigned)b->val), w);
      if (k == K_Shl && isConst(b) && a->k == K_Shl && isConst(a->op[1])) return bin(K_Shl, a->op[0], cst(b->val + a->op[1]->val, w));
      if (k == K_Shl && isConst(b) && a->k == K_Add && isConst(a->op[1])) return add(bin(K_Shl, a->op[0], b), bin(K_Shl, a->op[1], b));
      if (k == K_AShr && isConst(b) && a->k == K_Shl && a->op[1] == b) {
        i128 lo, hi; range(a->op[0], lo, hi);
        if (bitsNeeded(lo, hi) + (int)b->val <= (int)w) return a->op[0];
        return sext(extract(a->op[0], 0, w - (unsigned)b->val), w);
      }
      if (k == K_AShr && isConst(b) && a->k == K_SExt && b->val >= a->op[0]->w) // all sign bits
        return sext(extract(a->op[0], a->op[0]->w - 1, 1), w);
      break;
    case K_Eq:
      if (a == b) return tru();
      { int q = polyEq(a, b);
        if (q >= 0 && selfTest) { // compare with the evaluation under pseudo-random models
          static u64 z = 88172645463325252ull; E raw = intern(K_Eq, 1, 0, 0, a, b);
          for (int t = 0; t < 8; t++) { std::vector<u128> m(syms.size()); for (auto& v : m) { z ^= z << 13; z ^= z >> 7; z ^= z << 17; v = z; if (t & 1) v &= 3; } for (size_t i = 0; i < m.size(); i++) m[i] &= maskW(syms[i].w); newEpoch(); if ((int)evalWith(raw, m) != q) { fprintf(stderr, "polynomial self test failed\n"); abort(); } }
          newEpoch();
        }
        if (q >= 0) return q ? tru() : fls(); }
      if (w == 1 && isConst(b)) return b->val ? a : lnot(a);
      if (isConst(b)) {
        if (a->k == K_Ite) {
          E x = a->op[1], y = a->op[2];
          if (isConst(x) && isConst(y)) {
            bool p = x->val == b->val, q = y->val == b->val;
            if (p && q) return tru(); if (!p && !q) return fls();
            return p ? a->op[0] : lnot(a->op[0]);
          }
          if (isConst(x)) { if (x->val == b->val) return lor(a->op[0], eq(y, b)); else return land(lnot(a->op[0]), eq(y, b)); }
          if (isConst(y)) { if (y->val == b->val) return lor(lnot(a->op[0]), eq(x, b)); else return land(a->op[0], eq(x, b)); }
        }
        if (a->k == K_ZExt) {
          if (b->val > maskW(a->op[0]->w)) return fls();
          return eq(a->op[0], cst(b->val, a->op[0]->w));
        }
        if (a->k == K_SExt) {
          if ((u128)sextV(b->val & maskW(a->op[0]->w), a->op[0]->w) % 1 == 0 && ((u128)sextV(b->val, a->op[0]->w) & maskW(w)) != b->val) return fls();
          return eq(a->op[0], cst(b->val, a->op[0]->w));
        }
        if (a->k == K_Add && isConst(a->op[1])) return eq(a->op[0], cst(b->val - a->op[1]->val, w));
        if (a->k == K_Xor && isConst(a->op[1])) return eq(a->op[0], cst(b->val ^ a->op[1]->val, w));
        if (a->k == K_Concat) {
          unsigned lw = a->op[1]->w;
          return land(eq(a->op[0], cst(b->val >> lw, a->op[0]->w)), eq(a->op[1], cst(b->val, lw)));
        }
        if (a->k == K_Shl && isConst(a->op[1])) {
          unsigned s = (unsigned)a->op[1]->val;
          if (b->val & maskW(s)) return fls();
          i128 lo, hi; range(a->op[0], lo, hi);
          if (bitsNeeded(lo, hi) + (int)s <= (int)w) return eq(a->op[0], cst((u128)(sextV(b->val, w) >> s), w));
        }
        i128 lo, hi; range(a, lo, hi); i128 v = sextV(b->val, w);
        if (w < 126 && (v < lo || v > hi)) return fls();
      }
      if (a->k == K_Concat && b->k == K_Concat && a->op[0]->w == b->op[0]->w)
        return land(eq(a->op[0], b->op[0]), eq(a->op[1], b->op[1]));
      if (a->k == K_ZExt && b->k == K_ZExt && a->op[0]->w == b->op[0]->w) return eq(a->op[0], b->op[0]);
      if (a->k == K_SExt && b->k == K_SExt && a->op[0]->w == b->op[0]->w) return eq(a->op[0], b->op[0]);
      if (a->k == K_Add && b->k == K_Add && isConst(a->op[1]) && a->op[1] == b->op[1]) return eq(a->op[0], b->op[0]);
      if (a->k == K_Ite && b->k == K_Ite && a->op[0] == b->op[0]) return ite(a->op[0], eq(a->op[1], b->op[1]), eq(a->op[2], b->op[2]));
      if (E r = narrowCmp(k, a, b)) return tested(k, a, b, r);
      break;
    case K_Ult: case K_Ule: case K_Slt: case K_Sle: {
      if (a == b) return cst(k == K_Ule || k == K_Sle, 1);
      if (k == K_Ult && isZero(b)) return fls();
      if (k == K_Ult && isConst(b) && b->val == 1) return eq(a, cst(0, w));
      if (k == K_Ule && isZero(a)) return tru();
      if (k == K_Ule && isOnes(b)) return tru();
      if (k == K_Ult && isZero(a)) return lnot(eq(b, a));
      if (w < 126) {
        i128 a0, a1, b0, b1; range(a, a0, a1); range(b, b0, b1);
        bool sgn = k == K_Slt || k == K_Sle;
        bool ok = sgn || (a0 >= 0 && b0 >= 0);
        if (!ok && (a1 < 0 && b1 < 0)) ok = true;
        if (ok) {
          bool strict = k == K_Ult || k == K_Slt;
          if (strict ? a1 < b0 : a1 <= b0) return tru();
          if (strict ? a0 >= b1 : a0 > b1) return fls();
        } else {
          // unsigned, differing signs fully
          if (a0 >= 0 && b1 < 0) return tru();
          if (a1 < 0 && b0 >= 0) return fls();
        }
      }
      if (a->k == K_ZExt && b->k == K_ZExt && a->op[0]->w == b->op[0]->w) return bin(k == K_Slt ? K_Ult : k == K_Sle ? K_Ule : k, a->op[0], b->op[0]);
      if (a->k == K_SExt && b->k == K_SExt && a->op[0]->w == b->op[0]->w && (k == K_Slt || k == K_Sle)) return bin(k, a->op[0], b->op[0]);
      if (a->k == K_Ite && isConst(a->op[1]) && isConst(a->op[2]) && isConst(b)) return ite(a->op[0], bin(k, a->op[1], b), bin(k, a->op[2], b));
      if (b->k == K_Ite && isConst(b->op[1]) && isConst(b->op[2]) && isConst(a)) return ite(b->op[0], bin(k, a, b->op[1]), bin(k, a, b->op[2]));
      { K s = k; if (k == K_Ult || k == K_Ule) { i128 a0, a1, b0, b1; range(a, a0, a1); range(b, b0, b1); s = w > 100 || a0 < 0 || b0 < 0 ? K_Const : k == K_Ult ? K_Slt : K_Sle; }
        if (s != K_Const) if (E r = narrowCmp(s, a, b)) return tested(k, a, b, r); }
      break; }
    default: break;
  }
  return intern(k, rw, 0, 0, a, b);
}

E ExprCtx::ite(E c, E a, E b) {
  if (isConst(c)) return c->val ? a : b;
  if (a == b) return a;
  if (c->k == K_Xor && c->w == 1 && isOnes(c->op[1])) return ite(c->op[0], b, a);
  if (a->w == 1) {
    if (isConst(a) && isConst(b)) return a->val ? c : lnot(c);
    if (isConst(a)) return a->val ? lor(c, b) : land(lnot(c), b);
    if (isConst(b)) return b->val ? lor(lnot(c), a) : land(c, a);
    if (a == c) return lor(c, b);
    if (b == c) return land(c, a);
  }
  if (a->k == K_Ite && a->op[0] == c) a = a->op[1];
  if (b->k == K_Ite && b->op[0] == c) b = b->op[2];
  if (b->k == K_Ite && b->op[1] == a) return ite(lor(c, b->op[0]), a, b->op[2]);
  if (a == b) return a;
  if (a->k == K_ZExt && b->k == K_ZExt && a->op[0]->w == b->op[0]->w) return zext(ite(c, a->op[0], b->op[0]), a->w);
  if (a->k == K_SExt && b->k == K_SExt && a->op[0]->w == b->op[0]->w) return sext(ite(c, a->op[0], b->op[0]), a->w);
  E r = intern(K_Ite, a->w, 0, 0, c, a, b);
  if (!r->dy && (a->dy || b->dy) && (a->w == 64 || a->w == 32)) {
    const Dy *da = dyOf(a), *db = dyOf(b);
    if (da && db) {
      int ex = std::min(da->exp, db->exp);
      i128 l1, h1, l2, h2; range(da->i, l1, h1); range(db->i, l2, h2);
      int s1 = da->exp - ex, s2 = db->exp - ex;
      if (s1 < 50 && s2 < 50) {
        int n = std::max(bitsNeeded(l1, h1) + s1, bitsNeeded(l2, h2) + s2);
        if (n <= (a->w == 64 ? 53 : 24)) {
          E ia = bin(K_Shl, trunc(sext(da->i, std::max<unsigned>(n, da->i->w)), n), cst(s1, n));
          E ib = bin(K_Shl, trunc(sext(db->i, std::max<unsigned>(n, db->i->w)), n), cst(s2, n));
          const_cast<Expr*>(r)->dy = new Dy{ite(c, ia, ib), ex};
        }
      }
    }
  }
  return r;
}

E ExprCtx::concat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (isConst(hi) && isConst(lo)) return cst((hi->val << lo->w) | lo->val, w);
  if (hi->k == K_Extract && lo->k == K_Extract && hi->op[0] == lo->op[0] && hi->aux == lo->aux + lo->w)
    return extract(hi->op[0], lo->aux, w);
  // the low part of a sum or product is kept as a narrow sum or product
  if (hi->k == K_Extract && hi->aux >= lo->w && (lo->k == K_Add || lo->k == K_Mul || lo->k == K_Sub || lo->k == K_Sym || lo->k == K_Shl)) {
    unsigned from = hi->aux - lo->w; E e = hi->op[0];
    if (from == 0 && extract(e, 0, lo->w) == lo) return extract(e, 0, w);
  }
  if (hi->k == K_Concat) { // right-assoc normalise: concat(concat(a,b),c) where b,c adjacent
    E b = hi->op[1];
    if (b->k == K_Extract && lo->k == K_Extract && b->op[0] == lo->op[0] && b->aux == lo->aux + lo->w)
      return concat(hi->op[0], extract(b->op[0], lo->aux, b->w + lo->w));
  }
  if (lo->k == K_Concat) {
    E b = lo->op[0];
    if (hi->k == K_Extract && b->k == K_Extract && hi->op[0] == b->op[0] && hi->aux == b->aux + b->w)
      return concat(extract(hi->op[0], b->aux, hi->w + b->w), lo->op[1]);
    if (isConst(hi) && isConst(b)) return concat(concat(hi, b), lo->op[1]);
  }
  if (isZero(hi)) return zext(lo, w);
  if (hi->k == K_Ite && lo->k == K_Ite && hi->op[0] == lo->op[0])
    return ite(hi->op[0], concat(hi->op[1], lo->op[1]), concat(hi->op[2], lo->op[2]));
  return intern(K_Concat, w, 0, 0, hi, lo);
}

E ExprCtx::extract(E a, unsigned lo, unsigned w) {
  assert(lo + w <= a->w);
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K_Const: return cst(a->val >> lo, w);
    case K_Extract: return extract(a->op[0], a->aux + lo, w);
    case K_Concat: {
      unsigned lw = a->op[1]->w;
      if (lo >= lw) return extract(a->op[0], lo - lw, w);
      if (lo + w <= lw) return extract(a->op[1], lo, w);
      return concat(extract(a->op[0], 0, lo + w - lw), extract(a->op[1], lo, lw - lo));
    }
    case K_ZExt: {
      unsigned n = a->op[0]->w;
      if (lo >= n) return cst(0, w);
      if (lo + w <= n) return extract(a->op[0], lo, w);
      return zext(extract(a->op[0], lo, n - lo), w);
    }
    case K_SExt: {
      unsigned n = a->op[0]->w;
      if (lo + w <= n) return extract(a->op[0], lo, w);
      if (lo == 0) return sext(a->op[0], w);
      if (lo < n) return sext(extract(a->op[0], lo, n - lo), w);
      return sext(extract(a->op[0], n - 1, 1), w);
    }
    case K_Add: case K_Sub: case K_Mul:
      if (lo == 0) return bin(a->k, extract(a->op[0], 0, w), extract(a->op[1], 0, w));
      break;
    case K_And: case K_Or: case K_Xor:
      return bin(a->k, extract(a->op[0], lo, w), extract(a->op[1], lo, w));
    case K_Shl:
      if (isConst(a->op[1]) && a->op[1]->val < a->w) {
        unsigned s = (unsigned)a->op[1]->val;
        if (lo >= s) return extract(a->op[0], lo - s, w);
        if (lo + w <= s) return cst(0, w);
        return concat(extract(a->op[0], 0, lo + w - s), cst(0, s - lo));
      }
      break;
    case K_Ite:
      if (a->op[1]->k == K_Const || a->op[2]->k == K_Const)
        return ite(a->op[0], extract(a->op[1], lo, w), extract(a->op[2], lo, w));
      break;
    default: break;
  }
  return intern(K_Extract, w, lo, 0, a);
}

E ExprCtx::zext(E a, unsigned w) {
  if (a->w == w) return a;
  assert(w > a->w);
  if (isConst(a)) return cst(a->val, w);
  if (a->k == K_ZExt) return zext(a->op[0], w);
  return intern(K_ZExt, w, 0, 0, a);
}
E ExprCtx::sext(E a, unsigned w) {
  if (a->w == w) return a;
  assert(w > a->w);
  if (isConst(a)) return cst((u128)sextV(a->val, a->w), w);
  if (a->k == K_SExt) return sext(a->op[0], w);
  if (a->k == K_ZExt) return zext(a->op[0], w);
  return intern(K_SExt, w, 0, 0, a);
}

// ---------------------------------------------------------------- floating point
static double asD(u128 v) { u64 x = (u64)v; double d; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { uint32_t x = (uint32_t)v; float d; memcpy(&d, &x, 4); return d; }
static u128 ofD(double d) { u64 x; memcpy(&x, &d, 8); return x; }
static u128 ofF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

template<class T> static T roundMode(T a, unsigned m) {
  switch (m) { case 0: return std::floor(a); case 1: return std::ceil(a); case 2: return std::trunc(a); case 3: return std::round(a); default: return std::nearbyint(a); }
}

u128 foldFP(K k, unsigned w, uint32_t aux, u128 a, unsigned aw, u128 b, u128 c) {
  if (k == K_SIToF) { i128 v = sextV(a, aw); return w == 64 ? ofD((double)v) : ofF((float)v); }
  if (k == K_UIToF) { return w == 64 ? ofD((double)a) : ofF((float)a); }
  if (k == K_FExt) return ofD((double)asF(a));
  if (k == K_FTrunc) return ofF((float)asD(a));
  if (k == K_FToSI) {
    double d = aw == 64 ? asD(a) : (double)asF(a);
    double lim = std::ldexp(1.0, w - 1);
    if (!(d > -lim - 1 && d < lim) || (w == 64 && d < -lim)) return ((u128)1 << (w - 1));
    return (u128)(i128)d & maskW(w);
  }
  if (aw == 64) {
    double x = asD(a), y = asD(b);
    switch (k) {
      case K_FAdd: return ofD(x + y); case K_FSub: return ofD(x - y); case K_FMul: return ofD(x * y); case K_FDiv: return ofD(x / y);
      case K_FRem: return ofD(std::fmod(x, y)); case K_FSqrt: return ofD(std::sqrt(x)); case K_FNeg: return a ^ ((u128)1 << 63);
      case K_FAbs: return a & maskW(63); case K_FMA: return ofD(std::fma(x, y, asD(c))); case K_FRound: return ofD(roundMode(x, aux));
      case K_FOeq: return x == y; case K_FOlt: return x < y; case K_FOle: return x <= y; case K_FNan: return x != x;
      default: break;
    }
  } else {
    float x = asF(a), y = asF(b);
    switch (k) {
      case K_FAdd: return ofF(x + y); case K_FSub: return ofF(x - y); case K_FMul: return ofF(x * y); case K_FDiv: return ofF(x / y);
      case K_FRem: return ofF(std::fmod(x, y)); case K_FSqrt: return ofF(std::sqrt(x)); case K_FNeg: return a ^ ((u128)1 << 31);
      case K_FAbs: return a & maskW(31); case K_FMA: return ofF(std::fma(x, y, asF(c))); case K_FRound: return ofF(roundMode(x, aux));
      case K_FOeq: return x == y; case K_FOlt: return x < y; case K_FOle: return x <= y; case K_FNan: return x != x;
      default: break;
    }
  }
  fprintf(stderr, "foldFP: kind %d\n", k); abort();
}

bool foldUF(const std::string& n, unsigned w, u128 a, u128 b, u128& r) {
  double x = w == 64 ? asD(a) : asF(a), y = w == 64 ? asD(b) : asF(b), z;
  if (w == 32) {
    float fx = asF(a), fy = asF(b), f;
    if (n == "sin") f = sinf(fx); else if (n == "cos") f = cosf(fx); else if (n == "exp") f = expf(fx); else if (n == "log") f = logf(fx);
    else if (n == "log10") f = log10f(fx); else if (n == "pow") f = powf(fx, fy); else if (n == "atan2") f = atan2f(fx, fy); else return false;
    r = ofF(f); return true;
  }
  if (n == "sin") z = sin(x); else if (n == "cos") z = cos(x); else if (n == "tan") z = tan(x); else if (n == "asin") z = asin(x);
  else if (n == "acos") z = acos(x); else if (n == "atan") z = atan(x); else if (n == "atan2") z = atan2(x, y); else if (n == "exp") z = exp(x);
  else if (n == "log") z = log(x); else if (n == "log10") z = log10(x); else if (n == "log2") z = log2(x); else if (n == "pow") z = pow(x, y);
  else if (n == "exp2") z = exp2(x); else if (n == "exp10") z = exp10(x); else if (n == "erf") z = erf(x); else if (n == "erfc") z = erfc(x); else if (n == "tgamma") z = tgamma(x);
  else if (n == "sinh") z = sinh(x); else if (n == "cosh") z = cosh(x); else if (n == "tanh") z = tanh(x); else if (n == "cbrt") z = cbrt(x);
  else if (n == "log1p") z = log1p(x); else if (n == "expm1") z = expm1(x); else if (n == "hypot") z = hypot(x, y);
  else return false;
  r = ofD(z); return true;
}

static const Dy* dyConst(u128 v, unsigned w) {
  double d = w == 64 ? asD(v) : (double)asF(v);
  if (!std::isfinite(d)) return nullptr;
  if (d == 0) return new Dy{X.cst(0, 1), 0};
  int ex; double m = std::frexp(d, &ex);       // d = m*2^ex, 0.5<=|m|<1
  i64 i = (i64)std::ldexp(m, 53); ex -= 53;
  while ((i & 1) == 0) { i >>= 1; ex++; }
  if (ex < -200 || ex > 200) return nullptr;
  int n = bitsNeeded(i, i);
  return new Dy{X.cst((u128)(i128)i, n), ex};
}
const Dy* ExprCtx::dyOf(E e) {
  if (e->dy) return e->dy;
  if (e->k == K_Const && (e->w == 64 || e->w == 32)) {
    const Dy* d = dyConst(e->val, e->w);
    const_cast<Expr*>(e)->dy = d; return d;
  }
  return nullptr;
}
// set the dyadic attribute of r if (i,exp) is exactly representable
static void setDy(E r, E i, int exp) {
  if (r->dy || r->k == K_Const) return;
  i128 lo, hi; X.range(i, lo, hi);
  int n = bitsNeeded(lo, hi);
  int lim = r->w == 64 ? 53 : 24;
  if (n - 1 > lim) return;
  if (exp < -100 || exp > (r->w == 64 ? 200 : 60)) return;
  if ((unsigned)n < i->w) i = X.extract(i, 0, n);
  const_cast<Expr*>(r)->dy = new Dy{i, exp};
}
static E sxt(E i, unsigned w) { return i->w > w ? X.extract(i, 0, w) : X.sext(i, w); }

static bool dyAlign(const Dy* a, const Dy* b, E& ia, E& ib, int& ex, int extra) {
  ex = std::min(a->exp, b->exp);
  if (isZero(a->i)) ex = b->exp; else if (isZero(b->i)) ex = a->exp;
  int s1 = isZero(a->i) ? 0 : a->exp - ex, s2 = isZero(b->i) ? 0 : b->exp - ex;
  if (s1 > 60 || s2 > 60) return false;
  i128 l1, h1, l2, h2; X.range(a->i, l1, h1); X.range(b->i, l2, h2);
  int n = std::max(bitsNeeded(l1, h1) + s1, bitsNeeded(l2, h2) + s2) + extra;
  if (n > 110) return false;
  ia = X.bin(K_Shl, sxt(a->i, n), X.cst(s1, n));
  ib = X.bin(K_Shl, sxt(b->i, n), X.cst(s2, n));
  return true;
}

E ExprCtx::fbin(K k, E a, E b) {
  if (isConst(a) && isConst(b)) return cst(foldFP(k, a->w, 0, a->val, a->w, b->val, 0), a->w);
  if ((k == K_FAdd || k == K_FMul) && a->id > b->id) std::swap(a, b);
  // x*1, x/1 are exact identities (for non-signalling NaN payloads)
  u128 one = a->w == 64 ? ofD(1.0) : ofF(1.0f);
  if (k == K_FMul && isConst(b) && b->val == one) return a;
  if (k == K_FMul && isConst(a) && a->val == one) return b;
  if (k == K_FDiv && isConst(b) && b->val == one) return a;
  E r = intern(k, a->w, 0, 0, a, b);
  if (!r->dy) {
    const Dy *da = dyOf(a), *db = dyOf(b);
    if (da && db) {
      E ia, ib; int ex;
      if (k == K_FAdd || k == K_FSub) {
        if (dyAlign(da, db, ia, ib, ex, 1)) setDy(r, k == K_FAdd ? add(ia, ib) : sub(ia, ib), ex);
      } else if (k == K_FMul) {
        i128 l1, h1, l2, h2; range(da->i, l1, h1); range(db->i, l2, h2);
        int n = bitsNeeded(l1, h1) + bitsNeeded(l2, h2);
        if (n <= 100) setDy(r, bin(K_Mul, sxt(da->i, n), sxt(db->i, n)), da->exp + db->exp);
      } else if (k == K_FDiv && isConst(db->i)) {
        i128 v = sextV(db->i->val, db->i->w);
        if (v == 1) setDy(r, da->i, da->exp - db->exp);
        else if (v == -1) { int n = da->i->w + 1; setDy(r, sub(cst(0, n), sxt(da->i, n)), da->exp - db->exp); }
      }
    }
  }
  return r;
}

static E dyTrunc(const Dy* d, unsigned mode, unsigned& n) {  // integer part; mode as K_FRound (0..3)
  i128 lo, hi; X.range(d->i, lo, hi);
  if (d->exp >= 0) {
    n = bitsNeeded(lo, hi) + d->exp; if (n > 100) return nullptr;
    return X.bin(K_Shl, sxt(d->i, n), X.cst(d->exp, n));
  }
  int s = -d->exp; if (s > 100) return nullptr;
  n = std::max(bitsNeeded(lo, hi), s + 1) + 2; if (n > 126) return nullptr;
  E i = sxt(d->i, n);
  E fl = X.bin(K_AShr, i, X.cst(s, n));
  E m = X.cst(((u128)1 << s) - 1, n);
  if (mode == 0) return fl;
  if (mode == 1) return X.bin(K_AShr, X.add(i, m), X.cst(s, n));
  E neg = X.slt(i, X.cst(0, n));
  if (mode == 2) return X.ite(neg, X.bin(K_AShr, X.add(i, m), X.cst(s, n)), fl);
  if (mode == 3) { // half away from zero
    E h = X.cst((u128)1 << (s - 1), n);
    E up = X.bin(K_AShr, X.add(i, h), X.cst(s, n));
    E dn = X.bin(K_AShr, X.add(i, X.cst(((u128)1 << (s - 1)) - 1, n)), X.cst(s, n));
    return X.ite(neg, dn, up);
  }
  if (mode == 4) { // half to even
    E h = X.cst((u128)1 << (s - 1), n);
    E up = X.bin(K_AShr, X.add(i, h), X.cst(s, n));
    E tie = X.eq(X.bin(K_And, i, m), h);
    E odd = X.eq(X.extract(up, 0, 1), X.cst(1, 1));
    return X.ite(X.land(tie, odd), X.sub(up, X.cst(1, n)), up);
  }
  return nullptr;
}

E ExprCtx::fun1(K k, E a, unsigned aux) {
  if (isConst(a)) return cst(foldFP(k, a->w, aux, a->val, a->w, 0, 0), a->w);
  if (k == K_FAbs && a->k == K_FAbs) return a;
  if (k == K_FNeg && a->k == K_FNeg) return a->op[0];
  if (k == K_FAbs && a->k == K_FNeg) a = a->op[0];
  // plain bit-vector operand: sign manipulation stays in BV
  if (k == K_FNeg && !a->hasFP) return bin(K_Xor, a, cst((u128)1 << (a->w - 1), a->w));
  if (k == K_FAbs && !a->hasFP) return bin(K_And, a, cst(maskW(a->w - 1), a->w));
  E r = intern(k, a->w, aux, 0, a);
  const Dy* d = dyOf(a);
  if (d && !r->dy) {
    unsigned n = d->i->w + 1;
    if (k == K_FNeg) setDy(r, sub(cst(0, n), sext(d->i, n)), d->exp);
    else if (k == K_FAbs) { E i = sext(d->i, n); setDy(r, ite(slt(i, cst(0, n)), sub(cst(0, n), i), i), d->exp); }
    else if (k == K_FRound) { unsigned m; E i = dyTrunc(d, aux, m); if (i) setDy(r, i, 0); }
  }
  return r;
}

E ExprCtx::ffma(E a, E b, E c) {
  if (isConst(a) && isConst(b) && isConst(c)) return cst(foldFP(K_FMA, a->w, 0, a->val, a->w, b->val, c->val), a->w);
  // exact product: fma == mul+add
  E p = fbin(K_FMul, a, b);
  if (p->dy || isConst(p)) return fbin(K_FAdd, p, c);
  return intern(K_FMA, a->w, 0, 0, a, b, c);
}

E ExprCtx::fnan_(E a) {
  if (isConst(a)) return cst(foldFP(K_FNan, 1, 0, a->val, a->w, 0, 0), 1);
  if (dyOf(a)) return fls();
  if (a->k == K_SIToF || a->k == K_UIToF) return fls();
  if (a->k == K_FExt || a->k == K_FNeg || a->k == K_FAbs || a->k == K_FTrunc) return fnan_(a->op[0]);
  if (a->k == K_Ite) return ite(a->op[0], fnan_(a->op[1]), fnan_(a->op[2]));
  if (!a->hasFP) {
    unsigned w = a->w; u128 inf = w == 64 ? (u128)0x7ff0000000000000ull : 0x7f800000u;
    return ult(cst(inf, w - 1), extract(a, 0, w - 1));
  }
  return intern(K_FNan, 1, 0, 0, a);
}

static E fpKey(E a) {  // monotone signed key of a non-NaN IEEE value; +-0 -> 0
  unsigned w = a->w;
  E az = X.ite(X.eq(a, X.cst((u128)1 << (w - 1), w)), X.cst(0, w), a);
  E neg = X.slt(az, X.cst(0, w));
  return X.ite(neg, X.bin(K_Xor, az, X.cst(maskW(w - 1), w)), az);
}

E ExprCtx::fcmp(K k, E a, E b) {
  if (isConst(a) && isConst(b)) return cst(foldFP(k, 1, 0, a->val, a->w, b->val, 0), 1);
  if (a == b) return k == K_FOlt ? fls() : lnot(fnan_(a));
  const Dy *da = dyOf(a), *db = dyOf(b);
  if (da && db) {
    E ia, ib; int ex;
    if (dyAlign(da, db, ia, ib, ex, 0)) return k == K_FOeq ? eq(ia, ib) : k == K_FOlt ? slt(ia, ib) : sle(ia, ib);
  }
  // constant NaN / infinity against a finite value
  for (int t = 0; t < 2; t++) {
    E c = t ? b : a, o = t ? a : b;
    if (!isConst(c)) continue;
    double v = c->w == 64 ? asD(c->val) : (double)asF(c->val);
    if (std::isnan(v)) return fls();
    if (std::isinf(v) && dyOf(o)) {
      if (k == K_FOeq) return fls();
      bool r = t ? v > 0 : v < 0;
      return cst(r, 1);
    }
  }
  if (k == K_FOeq && a->id > b->id) std::swap(a, b);
  if (!a->hasFP && !b->hasFP) {
    E nn = land(lnot(fnan_(a)), lnot(fnan_(b)));
    if (k == K_FOeq) {
      unsigned w = a->w;
      E bothz = land(eq(extract(a, 0, w - 1), cst(0, w - 1)), eq(extract(b, 0, w - 1), cst(0, w - 1)));
      return land(nn, lor(eq(a, b), bothz));
    }
    E ka = fpKey(a), kb = fpKey(b);
    return land(nn, k == K_FOlt ? slt(ka, kb) : sle(ka, kb));
  }
  if (a->k == K_Ite && (isConst(a->op[1]) || isConst(a->op[2]) || b->k != K_Ite)) return ite(a->op[0], fcmp(k, a->op[1], b), fcmp(k, a->op[2], b));
  if (b->k == K_Ite) return ite(b->op[0], fcmp(k, a, b->op[1]), fcmp(k, a, b->op[2]));
  return intern(k, 1, 0, 0, a, b);
}

E ExprCtx::fconv(K k, E a, unsigned w) {
  if (k == K_FToUI) {
    if (w < 32) return extract(fconv(K_FToSI, a, 32), 0, w);
    if (w < 64) return extract(fconv(K_FToSI, a, 64), 0, w);
    E s = fconv(K_FToSI, a, 64);
    const Dy* d = dyOf(a);
    if (d) { i128 lo, hi; range(d->i, lo, hi); if (lo >= 0 && s->k != K_FToSI) return s; if (s->k != K_FToSI && !(s->k == K_Const)) {
        // negative inputs: x86 sequence yields a | (b & a>>63), with b the conversion of (x - 2^63) = out of range = INT_MIN
        return bin(K_Or, s, bin(K_And, cst((u128)1 << 63, 64), bin(K_AShr, s, cst(63, 64)))); } }
    E two63 = cst(a->w == 64 ? ofD(9223372036854775808.0) : ofF(9223372036854775808.0f), a->w);
    E b = fconv(K_FToSI, fbin(K_FSub, a, two63), 64);
    return bin(K_Or, s, bin(K_And, b, bin(K_AShr, s, cst(63, 64))));
  }
  if (k == K_FToSI && w < 32) return extract(fconv(K_FToSI, a, 32), 0, w);
  if (isConst(a)) return cst(foldFP(k, w, 0, a->val, a->w, 0, 0), w);
  if (k == K_FToSI) {
    const Dy* d = dyOf(a);
    if (d) {
      unsigned n; E i = dyTrunc(d, 2, n);
      if (i) { i128 lo, hi; range(i, lo, hi); int nb = bitsNeeded(lo, hi);
        // range() is coarse through ite/ashr: use the operand's own bound
        i128 l0, h0; range(d->i, l0, h0); int nb2 = d->exp >= 0 ? bitsNeeded(l0, h0) + d->exp : bitsNeeded(l0, h0);
        if (std::min(nb, nb2) <= (int)w) return sxt(i, w); }
    }
    return intern(k, w, 0, 0, a);
  }
  if (k == K_UIToF) { i128 lo, hi; range(a, lo, hi); if (lo >= 0 && a->w < 126) k = K_SIToF; }
  if (k == K_FExt && w == a->w) return a;
  if (k == K_FTrunc && a->k == K_FExt && a->op[0]->w == w) return a->op[0];
  if (k == K_SIToF) {  // canonicalise the integer to its minimal width
    i128 lo, hi; range(a, lo, hi); unsigned n = bitsNeeded(lo, hi);
    if (n < a->w) a = extract(a, 0, n);
  }
  E r = intern(k, w, 0, 0, a);
  if (!r->dy) {
    if (k == K_SIToF) setDy(r, a, 0);
    else if (k == K_UIToF && a->w <= 63) setDy(r, zext(a, a->w + 1), 0);
    else if (k == K_FExt || k == K_FTrunc) { const Dy* d = dyOf(a); if (d) setDy(r, d->i, d->exp); }
  }
  return r;
}

E ExprCtx::uf(const std::string& name, unsigned w, E a, E b) {
  u128 r;
  if (isConst(a) && (!b || isConst(b)) && foldUF(name, w, a->val, b ? b->val : 0, r)) return cst(r, w);
  auto it = ufIdx.find(name);
  int idx;
  if (it == ufIdx.end()) { idx = ufs.size(); ufs.push_back(name); ufIdx[name] = idx; } else idx = it->second;
  return intern(K_UF, w, idx, 0, a, b);
}

u128 ExprCtx::eval(E e) {
  if (e->k == K_Const) return e->val;
  if (e->evEpoch == epoch) return e->evVal;
  u128 r = 0;
  switch (e->k) {
    case K_Sym: r = e->aux < curModel->size() ? (*curModel)[e->aux] : 0; r &= maskW(e->w); break;
    case K_Ite: r = eval(e->op[0]) ? eval(e->op[1]) : eval(e->op[2]); break;
    case K_Concat: r = (eval(e->op[0]) << e->op[1]->w) | eval(e->op[1]); break;
    case K_Extract: r = (eval(e->op[0]) >> e->aux) & maskW(e->w); break;
    case K_ZExt: r = eval(e->op[0]); break;
    case K_SExt: r = (u128)sextV(eval(e->op[0]), e->op[0]->w) & maskW(e->w); break;
    case K_UF: if (!foldUF(ufs[e->aux], e->w, eval(e->op[0]), e->op[1] ? eval(e->op[1]) : 0, r)) r = 0; break;
    default:
      if (e->k >= K_FAdd) r = foldFP(e->k, e->w, e->aux, eval(e->op[0]), e->op[0]->w, e->op[1] ? eval(e->op[1]) : 0, e->op[2] ? eval(e->op[2]) : 0);
      else foldBin(e->k, e->op[0]->w, eval(e->op[0]), eval(e->op[1]), r);
  }
  e->evEpoch = epoch; e->evVal = r;
  return r;
}

static const char* KN[] = {"Const","Sym","Add","Sub","Mul","UDiv","SDiv","URem","SRem","And","Or","Xor","Shl","LShr","AShr","Eq","Ult","Ule","Slt","Sle","Ite","Concat","Extract","ZExt","SExt","FAdd","FSub","FMul","FDiv","FRem","FSqrt","FNeg","FAbs","FMA","FRound","FOeq","FOlt","FOle","FNan","FToSI","FToUI","SIToF","UIToF","FExt","FTrunc","UF"};
std::string exprStr(E e, int depth) {
  std::ostringstream o;
  if (e->k == K_Const) { o << "0x" << std::hex << (u64)e->val << std::dec << ":" << e->w; return o.str(); }
  if (e->k == K_Sym) { o << X.syms[e->aux].name; return o.str(); }
  if (depth <= 0) return "...";
  o << "(" << KN[e->k]; if (e->k == K_Extract) o << "@" << e->aux; o << ":" << e->w;
  for (int i = 0; i < 3; i++) if (e->op[i]) o << " " << exprStr(e->op[i], depth - 1);
  o << ")"; return o.str();
}
