// Hash-consed bit-vector/floating-point expressions with constant folding,
// concrete evaluation and translation to Z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <bitset>
#include <cassert>
#include <functional>
#include <z3.h>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum K : uint8_t {
  K_Const, K_Sym,
  K_Add, K_Sub, K_Mul, K_UDiv, K_SDiv, K_URem, K_SRem,
  K_And, K_Or, K_Xor, K_Shl, K_LShr, K_AShr,
  K_Eq, K_Ult, K_Ule, K_Slt, K_Sle,
  K_Ite, K_Concat, K_Extract, K_ZExt, K_SExt,
  // floating point; operands and results are bit-vectors in IEEE layout (w = 32 or 64)
  K_FAdd, K_FSub, K_FMul, K_FDiv, K_FRem, K_FSqrt, K_FNeg, K_FAbs, K_FMA,
  K_FRound,            // aux: 0 floor 1 ceil 2 trunc 3 nearest-away 4 nearest-even
  K_FOeq, K_FOlt, K_FOle, K_FNan,
  K_FToSI, K_FToUI, K_SIToF, K_UIToF, K_FExt, K_FTrunc,
  K_UF                 // aux: function index (unary/binary libm call)
};

static const unsigned MAXVARS = 512;
typedef std::bitset<MAXVARS> VarSet;

struct Expr;
struct Dy { const Expr* i; int exp; };  // value == sext(i) * 2^exp exactly (up to sign of zero)

struct Expr {
  K k; uint16_t w; uint32_t aux; u128 val;
  const Expr* op[3];
  uint32_t id; u64 hash;
  VarSet vars;
  bool hasFP;                         // needs the FP theory in Z3
  const Dy* dy;
  // caches
  mutable uint32_t evEpoch; mutable u128 evVal;
  mutable bool rgDone; mutable i128 rlo, rhi;
  mutable Z3_ast zbv, zbool, zfp; mutable uint32_t zEpoch;
};
typedef const Expr* E;

static inline u128 maskW(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextV(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 s = (u128)1 << (w - 1);
  v &= maskW(w);
  return (i128)((v ^ s) - s);
}

struct SymInfo { std::string name; unsigned w; bool uninit; };

struct ExprCtx {
  std::vector<SymInfo> syms;
  std::vector<std::string> ufs; std::map<std::string,int> ufIdx;
  std::unordered_multimap<u64, E> table;
  uint32_t nextId = 1; uint32_t epoch = 1;
  const std::vector<u128>* curModel = nullptr;

  E intern(K k, unsigned w, uint32_t aux, u128 val, E a = nullptr, E b = nullptr, E c = nullptr);
  E cst(u128 v, unsigned w) { return intern(K_Const, w, 0, v & maskW(w)); }
  E tru() { return cst(1, 1); }
  E fls() { return cst(0, 1); }
  E sym(const std::string& name, unsigned w, bool uninit = false);
  E bin(K k, E a, E b);
  E add(E a, E b) { return bin(K_Add, a, b); }
  E sub(E a, E b) { return bin(K_Sub, a, b); }
  E eq(E a, E b) { return bin(K_Eq, a, b); }
  E ult(E a, E b) { return bin(K_Ult, a, b); }
  E ule(E a, E b) { return bin(K_Ule, a, b); }
  E slt(E a, E b) { return bin(K_Slt, a, b); }
  E sle(E a, E b) { return bin(K_Sle, a, b); }
  E land(E a, E b) { return bin(K_And, a, b); }
  E lor(E a, E b) { return bin(K_Or, a, b); }
  E lnot(E a) { return bin(K_Xor, a, cst(1, 1)); }
  E ite(E c, E a, E b);
  E concat(E hi, E lo);
  E extract(E a, unsigned lo, unsigned w);
  E zext(E a, unsigned w);
  E sext(E a, unsigned w);
  E trunc(E a, unsigned w) { return a->w == w ? a : extract(a, 0, w); }
  // fp
  E fbin(K k, E a, E b);
  E fun1(K k, E a, unsigned aux = 0);
  E ffma(E a, E b, E c);
  E fcmp(K k, E a, E b);
  E fnan_(E a);
  E fconv(K k, E a, unsigned w);
  E uf(const std::string& name, unsigned w, E a, E b = nullptr);

  void range(E e, i128& lo, i128& hi);
  u128 eval(E e);                       // under curModel
  u128 evalWith(E e, const std::vector<u128>& m) {
    if (e->k == K_Const) return e->val;
    if (curModel != &m) { curModel = &m; ++epoch; }
    return eval(e);
  }
  void newEpoch() { ++epoch; curModel = nullptr; }

  // dyadic helpers
  const Dy* mkDy(E i, int exp);
  const Dy* dyOf(E e);
  E dyInt(E e, unsigned w);
};

extern ExprCtx X;

u128 foldFP(K k, unsigned w, uint32_t aux, u128 a, unsigned aw, u128 b, u128 c);
bool foldUF(const std::string& name, unsigned w, u128 a, u128 b, u128& r);
std::string exprStr(E e, int depth = 6);
