// Models of external functions, compiler intrinsics and the harness API.
#include "engine.h"
#include <cmath>
using namespace llvm;
#define H(name) static Val name(Engine& en, State& s, const DInst& d, std::vector<Val>& a)
#define C(i, what) en.conc(s, a[i], 64, what)

static unsigned typeW(Engine& en, Type* t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; return 0; }
static unsigned retW(Engine& en, const DInst& d) { return typeW(en, d.I->getType()); }
static unsigned argW(Engine& en, const DInst& d, unsigned i) { return typeW(en, cast<CallBase>(d.I)->getArgOperand(i)->getType()); }

H(h_nop) { return Val(0); }
H(h_arg0) { return a[0]; }
H(h_zero) { return Val(0); }

// ---- allocation
static Val doAlloc(Engine& en, State& s, u64 n, char how, bool zero) {
  if (n > (1ull << 26)) { en.violation(s, s.model, "memory", "huge allocation"); throw PathEnd{"violation"}; }
  return Val(en.alloc(s, n, O_Heap, "heap", how, !zero));
}
static u64 concSize(Engine& en, State& s, Val v) {
  if (v.e) { // an allocation size beyond the address space makes operator new throw
    if (!en.branch(s, X.ule(v.e, X.cst(1ull << 26, 64)))) return ~0ull;
  }
  return en.conc(s, v, 64, "allocation size");
}
H(h_new) { u64 n = concSize(en, s, a[0]); if (n > (1ull << 40)) { en.throwStd(s, "_ZTISt9bad_alloc"); return Val(); } return doAlloc(en, s, n, 'n', false); }
H(h_newa) { u64 n = concSize(en, s, a[0]); if (n > (1ull << 40)) { en.throwStd(s, "_ZTISt9bad_alloc"); return Val(); } return doAlloc(en, s, n, 'a', false); }
H(h_newnt) { u64 n = concSize(en, s, a[0]); if (n > (1ull << 26)) return Val(0); return doAlloc(en, s, n, 'n', false); }
H(h_malloc) { u64 n = concSize(en, s, a[0]); if (n > (1ull << 26)) return Val(0); return doAlloc(en, s, n, 'm', false); }
H(h_calloc) { return doAlloc(en, s, C(0, "calloc") * C(1, "calloc"), 'm', true); }
static void doFree(Engine& en, State& s, u64 p, char how) {
  if (!p) return;
  const Obj* o = en.find(s, p);
  if (!o || o->base != p || o->kind != O_Heap) { en.violation(s, s.model, "memory", o ? "invalid free (not the start of a heap block)" : "double free or free of an invalid pointer"); throw PathEnd{"memory-error"}; }
  if (o->how != 'e' && o->how != how) { en.violation(s, s.model, "memory", "mismatched allocation and deallocation functions"); throw PathEnd{"memory-error"}; }
  if (s.th.size() > 1) en.raceCheck(s, p, o->size, true);
  en.release(s, p);
}
H(h_free) { doFree(en, s, C(0, "free"), 'm'); return Val(); }
H(h_del) { doFree(en, s, C(0, "delete"), 'n'); return Val(); }
H(h_dela) { doFree(en, s, C(0, "delete[]"), 'a'); return Val(); }
H(h_realloc) {
  u64 p = C(0, "realloc"), n = C(1, "realloc"); Val q = doAlloc(en, s, n, 'm', false);
  if (p) { const Obj* o = en.access(s, p, 0, false, "realloc"); en.copyMem(s, q.c, p, std::min(n, o->size)); doFree(en, s, p, 'm'); }
  return q;
}

// ---- memory block functions
static u64 blockLen(Engine& en, State& s, Val v) {
  if (v.e && !en.branch(s, X.ule(v.e, X.cst(1ull << 26, 64)))) { en.violation(s, s.model, "memory", "block operation with a huge length"); throw PathEnd{"memory-error"}; }
  u64 n = en.conc(s, v, 64, "length");
  if (n > (1ull << 26)) { en.violation(s, s.model, "memory", "block operation with a huge length"); throw PathEnd{"memory-error"}; }
  return n;
}
static Val symcopy(Engine& en, State& s, std::vector<Val>& a) {
  u64 n = blockLen(en, s, a[2]);
  if (n) en.copyMem(s, en.conc(s, a[0], 64, "ptr"), en.conc(s, a[1], 64, "ptr"), n);
  return a[0];
}
H(h_memcpy) { return symcopy(en, s, a); }
H(h_memset) {
  u64 n = blockLen(en, s, a[2]), p = C(0, "ptr"); if (!n) return a[0];
  en.access(s, p, n, true, "write"); if (s.th.size() > 1) en.raceCheck(s, p, n, true);
  Obj* o = en.findW(s, en.find(s, p)->base); Val b = a[1]; if (b.e) b = Val::ex(X.trunc(b.e, 8)); else b.c &= 255;
  if (!b.e) { memset(&o->c[p - o->base], (int)b.c, n); if (!o->s.empty()) for (u64 i = 0; i < n; i++) o->s[p - o->base + i] = nullptr; }
  else for (u64 i = 0; i < n; i++) en.storeObj(s, *o, p - o->base + i, b, 8);
  return a[0];
}
static E byteE(Engine& en, State& s, u64 p) { const Obj* o = en.access(s, p, 1, false, "read"); return en.byteAt(s, o->base, p - o->base); }
H(h_memcmp) {
  u64 n = blockLen(en, s, a[2]); if (!n) return Val(0);
  u64 p = C(0, "ptr"), q = C(1, "ptr"); en.access(s, p, n, false, "read"); en.access(s, q, n, false, "read");
  E r = X.cst(0, 32);
  for (u64 i = n; i-- > 0;) { E x = byteE(en, s, p + i), y = byteE(en, s, q + i); r = X.ite(X.eq(x, y), r, X.ite(X.ult(x, y), X.cst(0xffffffffu, 32), X.cst(1, 32))); }
  return Val::ex(r);
}
H(h_memchr) {
  u64 n = blockLen(en, s, a[2]); if (!n) return Val(0);
  u64 p = C(0, "ptr"); E c = X.trunc(en.toE(a[1], 32), 8);
  for (u64 i = 0; i < n; i++) if (en.branch(s, X.eq(byteE(en, s, p + i), c))) return Val(p + i);
  return Val(0);
}
H(h_strlen) { u64 p = C(0, "ptr"); for (u64 i = 0;; i++) if (en.branch(s, X.eq(byteE(en, s, p + i), X.cst(0, 8)))) return Val(i); }
H(h_strcmp) {
  u64 p = C(0, "ptr"), q = C(1, "ptr");
  for (u64 i = 0;; i++) {
    E x = byteE(en, s, p + i), y = byteE(en, s, q + i);
    if (!en.branch(s, X.eq(x, y))) return en.branch(s, X.ult(x, y)) ? Val(0xffffffffu) : Val(1);
    if (en.branch(s, X.eq(x, X.cst(0, 8)))) return Val(0);
  }
}
H(h_tolower) { E c = en.toE(a[0], 32); return Val::ex(X.ite(X.land(X.sle(X.cst('A', 32), c), X.sle(c, X.cst('Z', 32))), X.add(c, X.cst(32, 32)), c)); }
H(h_toupper) { E c = en.toE(a[0], 32); return Val::ex(X.ite(X.land(X.sle(X.cst('a', 32), c), X.sle(c, X.cst('z', 32))), X.add(c, X.cst((u64)-32, 32)), c)); }
H(h_isspace) { E c = en.toE(a[0], 32); return Val::ex(X.zext(X.lor(X.eq(c, X.cst(32, 32)), X.land(X.sle(X.cst(9, 32), c), X.sle(c, X.cst(13, 32)))), 32)); }
H(h_isdigit) { E c = en.toE(a[0], 32); return Val::ex(X.zext(X.land(X.sle(X.cst('0', 32), c), X.sle(c, X.cst('9', 32))), 32)); }

// ---- harness API
H(h_sym) {
  unsigned bits = (unsigned)a[0].c; std::string n = en.cstr(s, a[1].c);
  // one solver variable per (order, name, width): paths share variables
  static std::map<std::string, E> known; std::string key = std::to_string(s.syms.size()) + "|" + n + "|" + std::to_string(bits);
  auto it = known.find(key); E v;
  if (it != known.end()) v = it->second; else { v = X.sym(n, bits); known[key] = v; }
  s.syms.push_back({v, n});
  return Val::ex(bits < 64 ? X.zext(v, 64) : v);
}
H(h_assume) {
  E c = X.trunc(en.toE(a[0], argW(en, d, 0)), 1);
  Model om; int r = en.decide(s, c, om);
  if (r == 0) throw PathEnd{"assumed-away"};
  if (r == 2) { if (!X.evalWith(c, *s.model)) s.model = om; en.addPC(s, c); }
  return Val();
}
H(h_check) { en.assertE(s, X.trunc(en.toE(a[0], argW(en, d, 0)), 1), "assert", en.cstr(s, a[1].c)); return Val(); }
H(h_reach) { std::string n = en.cstr(s, a[0].c); for (auto& r : s.reached) if (r == n) return Val(); s.reached.push_back(n); return Val(); }
H(h_observe) { s.obs.push_back({en.cstr(s, a[0].c), a[1]}); return Val(); }
H(h_abort_ok) { s.abortOk = X.trunc(en.toE(a[0], argW(en, d, 0)), 1); return Val(); }
H(h_throw_ok) { s.throwOk = a[0].c & 1; return Val(); }
H(h_conc) { return Val(C(0, "harness")); }
H(h_is_sym) { return Val(a[0].e ? 1 : 0); }
H(h_engine) { return Val(1); }
H(h_exit) {
  u64 code = C(0, "exit status");
  en.assertE(s, s.abortOk, "abort", "unexpected run-time error (vif_check/exit) on a valid call");
  (void)code; throw PathEnd{"aborted"};
}
H(h_abort) { en.violation(s, s.model, "crash", "abort()/terminate()/failed assertion reached"); throw PathEnd{"violation"}; }
H(h_assert_fail) { en.violation(s, s.model, "memory", "libstdc++ assertion failed (container index or iterator out of range)"); throw PathEnd{"memory-error"}; }

// ---- exceptions
H(h_alloc_exc) { return Val(en.alloc(s, C(0, "exc") + 64, O_Heap, "exception", 'e', false)); }
H(h_free_exc) { return Val(); }
H(h_throw) { en.unwind(s, a[0].c, a[1].c); return Val(); }
H(h_begin_catch) { s.caught.push_back({a[0].c, s.fr().excTI}); return a[0]; }
H(h_end_catch) { if (!s.caught.empty()) s.caught.pop_back(); return Val(); }
H(h_rethrow) { if (s.caught.empty()) throw Unsupported{"rethrow"}; auto c = s.caught.back(); en.unwind(s, c.first, c.second); return Val(); }
H(h_typeid_for) { u64 t = a[0].c; return Val(en.tids.emplace(t, (int)en.tids.size() + 1).first->second); }
H(h_throw_oor) { en.throwStd(s, "_ZTISt12out_of_range"); return Val(); }
H(h_throw_len) { en.throwStd(s, "_ZTISt12length_error"); return Val(); }
H(h_throw_logic) { en.throwStd(s, "_ZTISt11logic_error"); return Val(); }
H(h_throw_inv) { en.throwStd(s, "_ZTISt16invalid_argument"); return Val(); }
H(h_throw_bada) { en.throwStd(s, "_ZTISt9bad_alloc"); return Val(); }
H(h_throw_badf) { en.throwStd(s, "_ZTISt17bad_function_call"); return Val(); }
H(h_throw_badc) { en.throwStd(s, "_ZTISt8bad_cast"); return Val(); }
H(h_throw_sys) { en.throwStd(s, "_ZTISt12system_error"); return Val(); }

// ---- intrinsics
H(h_assume_intr) { return Val(); }
template<bool SG, bool MAX> static Val minmax(Engine& en, State& s, const DInst& d, std::vector<Val>& a) {
  unsigned w = retW(en, d); E x = en.toE(a[0], w), y = en.toE(a[1], w);
  E lt = SG ? X.slt(x, y) : X.ult(x, y); return Val::ex(MAX ? X.ite(lt, y, x) : X.ite(lt, x, y));
}
H(h_abs) { unsigned w = retW(en, d); E x = en.toE(a[0], w); return Val::ex(X.ite(X.slt(x, X.cst(0, w)), X.sub(X.cst(0, w), x), x)); }
H(h_fsh) { // funnel shifts, constant amount
  unsigned w = retW(en, d); bool left = cast<CallBase>(d.I)->getCalledFunction()->getName().contains("fshl");
  u64 n = en.conc(s, a[2], w, "shift") % w; E x = en.toE(a[0], w), y = en.toE(a[1], w);
  if (n == 0) return Val::ex(left ? x : y);
  unsigned l = left ? (unsigned)n : w - (unsigned)n;
  return Val::ex(X.concat(X.extract(x, 0, w - l), X.extract(y, w - l, l)));
}
H(h_bswap) { unsigned w = retW(en, d); E x = en.toE(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { E b = X.extract(x, i, 8); r = r ? X.concat(r, b) : b; } return Val::ex(r); }
H(h_ctpop) { unsigned w = retW(en, d); E x = en.toE(a[0], w), r = X.cst(0, w); for (unsigned i = 0; i < w; i++) r = X.add(r, X.zext(X.extract(x, i, 1), w)); return Val::ex(r); }
H(h_ctlz) { unsigned w = retW(en, d); E x = en.toE(a[0], w), r = X.cst(w, w); for (unsigned i = 0; i < w; i++) r = X.ite(X.extract(x, i, 1), X.cst(w - 1 - i, w), r); return Val::ex(r); }
H(h_cttz) { unsigned w = retW(en, d); E x = en.toE(a[0], w), r = X.cst(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(x, i, 1), X.cst(i, w), r); return Val::ex(r); }
static Val ovf(Engine& en, const DInst& d, std::vector<Val>& a, K k, bool sg) {
  unsigned w = argW(en, d, 0), v = k == K_Mul ? 2 * w : w + 1; if (v > 128) v = 128;
  E x = en.toE(a[0], w), y = en.toE(a[1], w); E r = X.bin(k, x, y);
  E X2 = sg ? X.sext(x, v) : X.zext(x, v), Y2 = sg ? X.sext(y, v) : X.zext(y, v); E f = X.bin(k, X2, Y2);
  E o = X.lnot(X.eq(f, sg ? X.sext(r, v) : X.zext(r, v)));
  return Val::ag(new Agg{Val::ex(r), Val::ex(o)});
}
H(h_uaddo) { return ovf(en, d, a, K_Add, false); } H(h_usubo) { return ovf(en, d, a, K_Sub, false); } H(h_umulo) { return ovf(en, d, a, K_Mul, false); }
H(h_saddo) { return ovf(en, d, a, K_Add, true); } H(h_ssubo) { return ovf(en, d, a, K_Sub, true); } H(h_smulo) { return ovf(en, d, a, K_Mul, true); }
H(h_usubsat) { unsigned w = retW(en, d); E x = en.toE(a[0], w), y = en.toE(a[1], w); return Val::ex(X.ite(X.ult(x, y), X.cst(0, w), X.sub(x, y))); }
H(h_uaddsat) { unsigned w = retW(en, d); E x = en.toE(a[0], w), y = en.toE(a[1], w); E r = X.add(x, y); return Val::ex(X.ite(X.ult(r, x), X.cst(maskW(w), w), r)); }
#define CW unsigned w = retW(en, d); if (!w || w > 64) throw Unsupported{"fp width"};
H(h_fabs) { CW return Val::ex(X.fun1(K_FAbs, en.toE(a[0], w))); }
H(h_sqrt) { CW return Val::ex(X.fun1(K_FSqrt, en.toE(a[0], w))); }
H(h_floor) { CW return Val::ex(X.fun1(K_FRound, en.toE(a[0], w), 0)); }
H(h_ceil) { CW return Val::ex(X.fun1(K_FRound, en.toE(a[0], w), 1)); }
H(h_truncf) { CW return Val::ex(X.fun1(K_FRound, en.toE(a[0], w), 2)); }
H(h_round) { CW return Val::ex(X.fun1(K_FRound, en.toE(a[0], w), 3)); }
H(h_rint) { CW return Val::ex(X.fun1(K_FRound, en.toE(a[0], w), 4)); }
H(h_fma) { CW return Val::ex(X.ffma(en.toE(a[0], w), en.toE(a[1], w), en.toE(a[2], w))); }
H(h_fmuladd) { CW return Val::ex(X.fbin(K_FAdd, X.fbin(K_FMul, en.toE(a[0], w), en.toE(a[1], w)), en.toE(a[2], w))); }
H(h_copysign) { CW E x = en.toE(a[0], w), y = en.toE(a[1], w); return Val::ex(X.concat(X.extract(y, w - 1, 1), X.extract(x, 0, w - 1))); }
H(h_fmin) { CW E x = en.toE(a[0], w), y = en.toE(a[1], w); return Val::ex(X.ite(X.fnan_(x), y, X.ite(X.fnan_(y), x, X.ite(X.fcmp(K_FOlt, y, x), y, x)))); }
H(h_fmax) { CW E x = en.toE(a[0], w), y = en.toE(a[1], w); return Val::ex(X.ite(X.fnan_(x), y, X.ite(X.fnan_(y), x, X.ite(X.fcmp(K_FOlt, x, y), y, x)))); }
H(h_fmod) { CW return Val::ex(X.fbin(K_FRem, en.toE(a[0], w), en.toE(a[1], w))); }
H(h_isfpclass) {
  unsigned w = argW(en, d, 0); u64 m = a[1].c; E x = en.toE(a[0], w); E nan = X.fnan_(x); E ab = X.fun1(K_FAbs, x);
  u64 infb = w == 64 ? 0x7ff0000000000000ull : 0x7f800000u; E inf = X.fcmp(K_FOeq, ab, X.cst(infb, w)); E neg = X.fcmp(K_FOlt, x, X.cst(0, w));
  E zero = X.fcmp(K_FOeq, x, X.cst(0, w)); E r = X.fls();
  u64 minn = w == 64 ? 0x0010000000000000ull : 0x00800000u;
  E fin = X.land(X.lnot(nan), X.lnot(inf)); E normal = X.land(fin, X.fcmp(K_FOle, X.cst(minn, w), ab)); E sub = X.land(X.land(fin, X.lnot(zero)), X.fcmp(K_FOlt, ab, X.cst(minn, w)));
  if (m & 3) r = X.lor(r, nan);
  if (m & 4) r = X.lor(r, X.land(inf, neg)); if (m & 512) r = X.lor(r, X.land(inf, X.lnot(neg)));
  if (m & 8) r = X.lor(r, X.land(normal, neg)); if (m & 256) r = X.lor(r, X.land(normal, X.lnot(neg)));
  if (m & 16) r = X.lor(r, X.land(sub, neg)); if (m & 128) r = X.lor(r, X.land(sub, X.lnot(neg)));
  if ((m & 96) == 96) r = X.lor(r, zero); else if (m & 96) { E sb = X.extract(x, w - 1, 1); r = X.lor(r, X.land(zero, (m & 32) ? sb : X.lnot(sb))); }
  return Val::ex(r);
}
H(h_uf1) { CW FInfo* f = d.callee; std::string n = f->F->getName().str(); if (n.rfind("llvm.", 0) == 0) { n = n.substr(5); n = n.substr(0, n.find('.')); } else if (w == 32 && n.back() == 'f' && n != "erf") n.pop_back(); return Val::ex(X.uf(n, w, en.toE(a[0], w), a.size() > 1 ? en.toE(a[1], w) : nullptr)); }
H(h_objectsize) { return Val((u64)maskW(retW(en, d))); }
H(h_lround) { unsigned w = retW(en, d); return Val::ex(X.fconv(K_FToSI, X.fun1(K_FRound, en.toE(a[0], argW(en, d, 0)), 3), w)); }

// ---- threads
H(h_spawn) { en.schedPoint(s); int t = en.spawn(s, C(0, "fn"), C(1, "arg")); return Val(t); }
H(h_join) {
  u64 t = C(0, "tid");
  if (s.th[t].status == 9) { en.acquire(s, 0x9000000000ull + t); return Val(); }
  s.th[s.cur].status = 2; s.th[s.cur].waitTid = (int)t; s.hint = 1;
  // blocked: keep the call pending and run another thread
  int me = s.cur; en.switchFrom(s, true); (void)me; return Val();
}
H(h_yield) {
  if (s.th.size() <= 1) { if (++s.spins > en.maxSpins * 4) { en.violation(s, s.model, "hang", "waits forever for a condition no other thread can establish"); throw PathEnd{"violation"}; } return Val(); }
  // finish the call first, then give the processor away
  int me = s.cur; en.finishCall(s, d, Val(0)); s.hint = 1; s.th[me].yielded = true; s.th[me].waitTid = -1; en.switchFrom(s, false); return Val();
}
H(h_mutex_lock) {
  en.schedPoint(s); u64 m = C(0, "mutex");
  if (s.mutexOwner.count(m)) {
    if (s.mutexOwner[m] == s.cur) { en.violation(s, s.model, "deadlock", "mutex locked twice by the same thread"); throw PathEnd{"violation"}; }
    s.th[s.cur].status = 1; s.th[s.cur].waitOn = m; s.hint = 1; en.switchFrom(s, true); return Val();
  }
  s.mutexOwner[m] = s.cur; en.acquire(s, m); return Val(0);
}
H(h_mutex_trylock) { en.schedPoint(s); u64 m = C(0, "mutex"); if (s.mutexOwner.count(m)) return Val(16); s.mutexOwner[m] = s.cur; en.acquire(s, m); return Val(0); }
H(h_mutex_unlock) {
  u64 m = C(0, "mutex"); auto it = s.mutexOwner.find(m);
  if (it == s.mutexOwner.end() || it->second != s.cur) { en.violation(s, s.model, "crash", "unlock of a mutex the thread does not hold"); throw PathEnd{"violation"}; }
  s.mutexOwner.erase(it); en.releaseS(s, m); en.progress(s); return Val(0);
}
H(h_cv_wait) { // spurious-wakeup semantics: release, yield, re-acquire
  u64 m = C(1, "mutex");
  if (s.mutexOwner.count(m) && s.mutexOwner[m] == s.cur && !s.th[s.cur].waitOn) {
    s.mutexOwner.erase(m); en.releaseS(s, m); en.progress(s);
    s.th[s.cur].waitOn = m; s.th[s.cur].yielded = true; s.hint = 1; en.switchFrom(s, s.th.size() > 1); return Val();
  }
  if (s.mutexOwner.count(m)) { s.th[s.cur].status = 1; s.hint = 1; en.switchFrom(s, true); return Val(); }
  s.mutexOwner[m] = s.cur; s.th[s.cur].waitOn = 0; en.acquire(s, m); return Val(0);
}
H(h_cv_notify) { en.progress(s); return Val(0); }
H(h_tid) { return Val(s.cur); }
H(h_nthreads) { return Val(s.th.size()); }
H(h_guard_acquire) { u64 g = C(0, "guard"); Val v = en.load(s, Val(g), 8); return Val(v.c ? 0 : 1); }
H(h_guard_release) { u64 g = C(0, "guard"); en.store(s, Val(g), Val(1), 8); return Val(); }

struct Ent { const char* n; Handler h; };
static const Ent exact[] = {
  {"vf_sym", h_sym}, {"vf_assume", h_assume}, {"vf_check_", h_check}, {"vf_reach", h_reach}, {"vf_observe", h_observe}, {"vf_abort_ok", h_abort_ok}, {"vf_throw_ok", h_throw_ok}, {"vf_conc", h_conc}, {"vf_is_sym", h_is_sym}, {"vf_engine", h_engine},
  {"vf_spawn", h_spawn}, {"vf_join", h_join}, {"vf_yield", h_yield}, {"vf_tid", h_tid}, {"vf_nthreads", h_nthreads}, {"vf_cv_wait", h_cv_wait}, {"vf_cv_notify", h_cv_notify},
  {"_Znwm", h_new}, {"_Znam", h_newa}, {"_ZnwmRKSt9nothrow_t", h_newnt}, {"_ZdlPv", h_del}, {"_ZdaPv", h_dela}, {"_ZdlPvm", h_del}, {"_ZdaPvm", h_dela}, {"_ZdlPvRKSt9nothrow_t", h_del},
  {"malloc", h_malloc}, {"calloc", h_calloc}, {"realloc", h_realloc}, {"free", h_free},
  {"memcpy", h_memcpy}, {"memmove", h_memcpy}, {"memset", h_memset}, {"memcmp", h_memcmp}, {"bcmp", h_memcmp}, {"memchr", h_memchr}, {"strlen", h_strlen}, {"strcmp", h_strcmp},
  {"tolower", h_tolower}, {"toupper", h_toupper}, {"isspace", h_isspace}, {"isdigit", h_isdigit},
  {"exit", h_exit}, {"_exit", h_exit}, {"abort", h_abort}, {"_ZSt9terminatev", h_abort}, {"__assert_fail", h_abort}, {"__cxa_pure_virtual", h_abort}, {"__clang_call_terminate", h_abort},
  {"_ZSt21__glibcxx_assert_failPKciS0_S0_", h_assert_fail},
  {"__cxa_allocate_exception", h_alloc_exc}, {"__cxa_free_exception", h_free_exc}, {"__cxa_throw", h_throw}, {"__cxa_begin_catch", h_begin_catch}, {"__cxa_end_catch", h_end_catch}, {"__cxa_rethrow", h_rethrow}, {"__cxa_get_exception_ptr", h_arg0},
  {"__cxa_atexit", h_zero}, {"__cxa_guard_acquire", h_guard_acquire}, {"__cxa_guard_release", h_guard_release}, {"__cxa_guard_abort", h_nop},
  {"_ZSt20__throw_out_of_rangePKc", h_throw_oor}, {"_ZSt24__throw_out_of_range_fmtPKcz", h_throw_oor}, {"_ZSt20__throw_length_errorPKc", h_throw_len}, {"_ZSt19__throw_logic_errorPKc", h_throw_logic},
  {"_ZSt24__throw_invalid_argumentPKc", h_throw_inv}, {"_ZSt17__throw_bad_allocv", h_throw_bada}, {"_ZSt28__throw_bad_array_new_lengthv", h_throw_bada}, {"_ZSt25__throw_bad_function_callv", h_throw_badf}, {"_ZSt16__throw_bad_castv", h_throw_badc}, {"_ZSt20__throw_system_errori", h_throw_sys},
  {"fabs", h_fabs}, {"fabsf", h_fabs}, {"sqrt", h_sqrt}, {"sqrtf", h_sqrt}, {"floor", h_floor}, {"floorf", h_floor}, {"ceil", h_ceil}, {"ceilf", h_ceil}, {"trunc", h_truncf}, {"truncf", h_truncf}, {"round", h_round}, {"roundf", h_round}, {"rint", h_rint}, {"nearbyint", h_rint}, {"fma", h_fma}, {"fmin", h_fmin}, {"fmax", h_fmax}, {"fmod", h_fmod}, {"fmodf", h_fmod}, {"lround", h_lround}, {"llround", h_lround},
  {"sin", h_uf1}, {"cos", h_uf1}, {"tan", h_uf1}, {"asin", h_uf1}, {"acos", h_uf1}, {"atan", h_uf1}, {"atan2", h_uf1}, {"exp", h_uf1}, {"log", h_uf1}, {"log10", h_uf1}, {"log2", h_uf1}, {"pow", h_uf1}, {"exp2", h_uf1}, {"exp10", h_uf1}, {"erf", h_uf1}, {"erfc", h_uf1}, {"tgamma", h_uf1}, {"sinh", h_uf1}, {"cosh", h_uf1}, {"tanh", h_uf1}, {"cbrt", h_uf1}, {"log1p", h_uf1}, {"expm1", h_uf1}, {"hypot", h_uf1}, {"sinf", h_uf1}, {"cosf", h_uf1}, {"expf", h_uf1}, {"logf", h_uf1}, {"log10f", h_uf1}, {"powf", h_uf1},
  {"pthread_mutex_lock", h_mutex_lock}, {"pthread_mutex_unlock", h_mutex_unlock}, {"pthread_mutex_trylock", h_mutex_trylock}, {"pthread_mutex_destroy", h_zero}, {"pthread_mutex_init", h_zero}, {"sched_yield", h_yield}, {"nanosleep", h_yield}, {"usleep", h_yield}, {"pthread_self", h_tid},
  {"getenv", h_zero}, {"printf", h_zero}, {"fprintf", h_zero}, {"puts", h_zero}, {"putchar", h_zero}, {"fflush", h_zero}, {"fwrite", h_zero},
  {nullptr, nullptr}};
static const Ent intr[] = {
  {"llvm.memcpy.", h_memcpy}, {"llvm.memmove.", h_memcpy}, {"llvm.memset.", h_memset}, {"llvm.lifetime.", h_nop}, {"llvm.assume", h_assume_intr}, {"llvm.experimental.noalias.scope", h_nop}, {"llvm.dbg.", h_nop}, {"llvm.donothing", h_nop}, {"llvm.invariant.", h_nop}, {"llvm.var.annotation", h_nop},
  {"llvm.umax.", minmax<false, true>}, {"llvm.umin.", minmax<false, false>}, {"llvm.smax.", minmax<true, true>}, {"llvm.smin.", minmax<true, false>}, {"llvm.abs.", h_abs}, {"llvm.fshl.", h_fsh}, {"llvm.fshr.", h_fsh}, {"llvm.bswap.", h_bswap}, {"llvm.ctpop.", h_ctpop}, {"llvm.ctlz.", h_ctlz}, {"llvm.cttz.", h_cttz},
  {"llvm.uadd.with.overflow", h_uaddo}, {"llvm.usub.with.overflow", h_usubo}, {"llvm.umul.with.overflow", h_umulo}, {"llvm.sadd.with.overflow", h_saddo}, {"llvm.ssub.with.overflow", h_ssubo}, {"llvm.smul.with.overflow", h_smulo}, {"llvm.usub.sat.", h_usubsat}, {"llvm.uadd.sat.", h_uaddsat},
  {"llvm.fabs.", h_fabs}, {"llvm.sqrt.", h_sqrt}, {"llvm.floor.", h_floor}, {"llvm.ceil.", h_ceil}, {"llvm.trunc.", h_truncf}, {"llvm.round.", h_round}, {"llvm.roundeven.", h_rint}, {"llvm.rint.", h_rint}, {"llvm.nearbyint.", h_rint}, {"llvm.fma.", h_fma}, {"llvm.fmuladd.", h_fmuladd}, {"llvm.copysign.", h_copysign}, {"llvm.minnum.", h_fmin}, {"llvm.maxnum.", h_fmax}, {"llvm.is.fpclass", h_isfpclass},
  {"llvm.sin.", h_uf1}, {"llvm.cos.", h_uf1}, {"llvm.exp.", h_uf1}, {"llvm.exp2.", h_uf1}, {"llvm.exp10.", h_uf1}, {"llvm.log.", h_uf1}, {"llvm.log10.", h_uf1}, {"llvm.log2.", h_uf1}, {"llvm.pow.", h_uf1},
  {"llvm.expect.", h_arg0}, {"llvm.launder.", h_arg0}, {"llvm.strip.invariant", h_arg0}, {"llvm.stacksave", h_zero}, {"llvm.stackrestore", h_nop}, {"llvm.objectsize.", h_objectsize}, {"llvm.is.constant.", h_zero}, {"llvm.eh.typeid.for", h_typeid_for}, {"llvm.trap", h_abort}, {"llvm.ubsantrap", h_abort}, {"llvm.lround.", h_lround}, {"llvm.llround.", h_lround},
  {nullptr, nullptr}};

static bool starts(const std::string& s, const char* p) { return s.rfind(p, 0) == 0; }
Handler findHandler(Engine& en, FInfo* f) {
  if (starts(f->name, "llvm.")) { for (const Ent* e = intr; e->n; e++) if (starts(f->name, e->n)) return e->h; return nullptr; }
  for (const Ent* e = exact; e->n; e++) if (f->name == e->n) return e->h;
  const std::string& n = f->dem;
  // console output has no effect on the properties
  static const char* silent[] = {"void vif::error<", "void vif::warning<", "void vif::note<", "void vif::print<", "vif::error(", "vif::warning(", "vif::note(", "vif::print(", "vif::backtrace(", nullptr};
  for (const char** p = silent; *p; p++) if (starts(n, *p)) return h_nop;
  if (starts(n, "std::ios_base::Init::")) return h_nop;
  if (starts(n, "std::basic_ostream<char, std::char_traits<char>>& ") || starts(n, "std::ostream::") || starts(n, "std::basic_ostream<char, std::char_traits<char>>::") || starts(n, "std::ostream& ")) return h_arg0;
  if (f->F->isDeclaration() && starts(n, "std::exception::~")) return h_nop;
  return nullptr;
}
