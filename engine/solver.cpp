#include "solver.h"
#include <chrono>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cmath>

static void zerr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); abort(); }

Solver::Solver() { reset(); }
void Solver::reset() {
  if (ctx) Z3_del_context(ctx);
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(ctx, zerr);
  inc = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, inc);
  gen = nullptr;
  Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
  Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs);
  Z3_solver_set_params(ctx, inc, p);
  Z3_params_dec_ref(ctx, p);
  zEpoch++; lit.clear(); ntrans = 0; symDecl.clear();
}

Z3_sort Solver::fps(unsigned w) { return w == 64 ? Z3_mk_fpa_sort_64(ctx) : Z3_mk_fpa_sort_32(ctx); }
Z3_ast Solver::rne() { return Z3_mk_fpa_rne(ctx); }

static Z3_ast mkNum(Z3_context ctx, u128 v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(ctx, w);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, s);
  Z3_ast hi = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
  Z3_ast lo = Z3_mk_unsigned_int64(ctx, (u64)v, Z3_mk_bv_sort(ctx, 64));
  return Z3_mk_concat(ctx, hi, lo);
}

Z3_ast Solver::bl(E e) {
  touch(e);
  if (e->zbool) return e->zbool;
  ntrans++;
  Z3_ast r;
  Z3_ast a[2];
  switch (e->k) {
    case K_Const: r = e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case K_And: a[0] = bl(e->op[0]); a[1] = bl(e->op[1]); r = Z3_mk_and(ctx, 2, a); break;
    case K_Or: a[0] = bl(e->op[0]); a[1] = bl(e->op[1]); r = Z3_mk_or(ctx, 2, a); break;
    case K_Xor: if (e->op[1]->k == K_Const && e->op[1]->val) r = Z3_mk_not(ctx, bl(e->op[0])); else r = Z3_mk_xor(ctx, bl(e->op[0]), bl(e->op[1])); break;
    case K_Ite: r = Z3_mk_ite(ctx, bl(e->op[0]), bl(e->op[1]), bl(e->op[2])); break;
    case K_Eq: if (e->op[0]->w == 1) r = Z3_mk_iff(ctx, bl(e->op[0]), bl(e->op[1])); else r = Z3_mk_eq(ctx, bv(e->op[0]), bv(e->op[1])); break;
    case K_Ult: r = Z3_mk_bvult(ctx, bv(e->op[0]), bv(e->op[1])); break;
    case K_Ule: r = Z3_mk_bvule(ctx, bv(e->op[0]), bv(e->op[1])); break;
    case K_Slt: r = Z3_mk_bvslt(ctx, bv(e->op[0]), bv(e->op[1])); break;
    case K_Sle: r = Z3_mk_bvsle(ctx, bv(e->op[0]), bv(e->op[1])); break;
    case K_FOeq: r = Z3_mk_fpa_eq(ctx, fp(e->op[0]), fp(e->op[1])); break;
    case K_FOlt: r = Z3_mk_fpa_lt(ctx, fp(e->op[0]), fp(e->op[1])); break;
    case K_FOle: r = Z3_mk_fpa_leq(ctx, fp(e->op[0]), fp(e->op[1])); break;
    case K_FNan: r = Z3_mk_fpa_is_nan(ctx, fp(e->op[0])); break;
    default: r = Z3_mk_eq(ctx, bv(e), mkNum(ctx, 1, 1)); break;
  }
  e->zbool = r; return r;
}

Z3_ast Solver::bv(E e) {
  touch(e);
  if (e->zbv) return e->zbv;
  ntrans++;
  Z3_ast r;
  auto B = [&](Z3_ast (Z3_API *f)(Z3_context, Z3_ast, Z3_ast)) { return f(ctx, bv(e->op[0]), bv(e->op[1])); };
  if (e->w == 1 && ((e->k >= K_Eq && e->k <= K_Ite) || e->k == K_And || e->k == K_Or || e->k == K_Xor || (e->k >= K_FOeq && e->k <= K_FNan))) {
    r = Z3_mk_ite(ctx, bl(e), mkNum(ctx, 1, 1), mkNum(ctx, 0, 1));
    e->zbv = r; return r;
  }
  switch (e->k) {
    case K_Const: r = mkNum(ctx, e->val, e->w); break;
    case K_Sym: {
      std::string n = "s" + std::to_string(e->aux);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n.c_str()), Z3_mk_bv_sort(ctx, e->w));
      if (symDecl.size() <= e->aux) symDecl.resize(e->aux + 1, nullptr);
      symDecl[e->aux] = Z3_get_app_decl(ctx, Z3_to_app(ctx, r));
      break; }
    case K_Add: r = B(Z3_mk_bvadd); break;
    case K_Sub: r = B(Z3_mk_bvsub); break;
    case K_Mul: r = B(Z3_mk_bvmul); break;
    case K_UDiv: r = B(Z3_mk_bvudiv); break;
    case K_SDiv: r = B(Z3_mk_bvsdiv); break;
    case K_URem: r = B(Z3_mk_bvurem); break;
    case K_SRem: r = B(Z3_mk_bvsrem); break;
    case K_And: r = B(Z3_mk_bvand); break;
    case K_Or: r = B(Z3_mk_bvor); break;
    case K_Xor: r = B(Z3_mk_bvxor); break;
    case K_Shl: r = B(Z3_mk_bvshl); break;
    case K_LShr: r = B(Z3_mk_bvlshr); break;
    case K_AShr: r = B(Z3_mk_bvashr); break;
    case K_Ite: r = Z3_mk_ite(ctx, bl(e->op[0]), bv(e->op[1]), bv(e->op[2])); break;
    case K_Concat: r = B(Z3_mk_concat); break;
    case K_Extract: r = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, bv(e->op[0])); break;
    case K_ZExt: r = Z3_mk_zero_ext(ctx, e->w - e->op[0]->w, bv(e->op[0])); break;
    case K_SExt: r = Z3_mk_sign_ext(ctx, e->w - e->op[0]->w, bv(e->op[0])); break;
    case K_FToSI: {
      Z3_ast x = fp(e->op[0]);
      unsigned aw = e->op[0]->w;
      Z3_sort s = fps(aw);
      double lim = std::ldexp(1.0, e->w - 1);
      Z3_ast lo = Z3_mk_fpa_numeral_double(ctx, -lim, s), hi = Z3_mk_fpa_numeral_double(ctx, lim, s);
      Z3_ast c[2];
      if (aw == 64 && e->w == 32) { lo = Z3_mk_fpa_numeral_double(ctx, -lim - 1, s); c[0] = Z3_mk_fpa_gt(ctx, x, lo); }
      else c[0] = Z3_mk_fpa_geq(ctx, x, lo);
      c[1] = Z3_mk_fpa_lt(ctx, x, hi);
      r = Z3_mk_ite(ctx, Z3_mk_and(ctx, 2, c), Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), x, e->w), mkNum(ctx, (u128)1 << (e->w - 1), e->w));
      break; }
    case K_UF: {
      unsigned n = e->op[1] ? 2 : 1; Z3_sort d[2]; Z3_ast a[2];
      for (unsigned i = 0; i < n; i++) { a[i] = bv(e->op[i]); d[i] = Z3_mk_bv_sort(ctx, e->op[i]->w); }
      std::string nm = "uf_" + X.ufs[e->aux] + std::to_string(e->w);
      Z3_func_decl f = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, nm.c_str()), n, d, Z3_mk_bv_sort(ctx, e->w));
      r = Z3_mk_app(ctx, f, n, a); break; }
    default:
      if (e->k >= K_FAdd) { r = Z3_mk_fpa_to_ieee_bv(ctx, fp(e)); break; }
      fprintf(stderr, "bv: kind %d\n", e->k); abort();
  }
  e->zbv = r; return r;
}

Z3_ast Solver::fp(E e) {
  touch(e);
  if (e->zfp) return e->zfp;
  ntrans++;
  Z3_ast r;
  switch (e->k) {
    case K_FAdd: r = Z3_mk_fpa_add(ctx, rne(), fp(e->op[0]), fp(e->op[1])); break;
    case K_FSub: r = Z3_mk_fpa_sub(ctx, rne(), fp(e->op[0]), fp(e->op[1])); break;
    case K_FMul: r = Z3_mk_fpa_mul(ctx, rne(), fp(e->op[0]), fp(e->op[1])); break;
    case K_FDiv: r = Z3_mk_fpa_div(ctx, rne(), fp(e->op[0]), fp(e->op[1])); break;
    case K_FSqrt: r = Z3_mk_fpa_sqrt(ctx, rne(), fp(e->op[0])); break;
    case K_FNeg: r = Z3_mk_fpa_neg(ctx, fp(e->op[0])); break;
    case K_FAbs: r = Z3_mk_fpa_abs(ctx, fp(e->op[0])); break;
    case K_FMA: r = Z3_mk_fpa_fma(ctx, rne(), fp(e->op[0]), fp(e->op[1]), fp(e->op[2])); break;
    case K_FRound: {
      Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rna(ctx) : rne();
      r = Z3_mk_fpa_round_to_integral(ctx, m, fp(e->op[0])); break; }
    case K_SIToF: r = Z3_mk_fpa_to_fp_signed(ctx, rne(), bv(e->op[0]), fps(e->w)); break;
    case K_UIToF: r = Z3_mk_fpa_to_fp_unsigned(ctx, rne(), bv(e->op[0]), fps(e->w)); break;
    case K_FExt: case K_FTrunc: r = Z3_mk_fpa_to_fp_float(ctx, rne(), fp(e->op[0]), fps(e->w)); break;
    case K_Ite: r = Z3_mk_ite(ctx, bl(e->op[0]), fp(e->op[1]), fp(e->op[2])); break;
    case K_FRem: fprintf(stderr, "symbolic fmod unsupported\n"); throw std::string("symbolic fmod");
    default: r = Z3_mk_fpa_to_fp_bv(ctx, bv(e), fps(e->w)); break;
  }
  e->zfp = r; return r;
}

static bool readModel(Z3_context ctx, Z3_model m, const std::vector<Z3_func_decl>& decl, std::vector<u128>& out) {
  out.assign(X.syms.size(), 0);
  for (size_t i = 0; i < decl.size() && i < out.size(); i++) {
    if (!decl[i]) continue;
    Z3_ast v = Z3_model_get_const_interp(ctx, m, decl[i]);
    if (!v) continue;
    const char* s = Z3_get_numeral_binary_string(ctx, v);
    u128 x = 0; for (; *s; s++) x = (x << 1) | (*s == '1');
    out[i] = x;
  }
  return true;
}

int Solver::check(const std::vector<E>& pc, E cond, Model hint, Model& m) {
  if (cond->k == K_Const) { if (cond->val) { m = hint; return 1; } return 0; }
  if (hint && X.evalWith(cond, *hint)) { m = hint; st.modelHits++; return 1; }
  // independence slice
  std::vector<E> sl; VarSet vs = cond->vars; std::vector<char> used(pc.size(), 0);
  for (bool ch = true; ch;) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) if (!used[i] && (pc[i]->vars & vs).any()) { used[i] = 1; vs |= pc[i]->vars; sl.push_back(pc[i]); ch = true; }
  }
  bool fpq = cond->hasFP; for (E e : sl) fpq |= e->hasFP;
  std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
  sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
  std::vector<uint32_t> key; u64 h = 1469598103934665603ull;
  for (E e : sl) { key.push_back(e->id); } key.push_back(cond->id);
  for (auto k : key) { h ^= k; h *= 1099511628211ull; }
  auto merge = [&](const std::vector<u128>& part) {
    // part is valid for the slice; other variables from the hint
    auto r = std::make_shared<std::vector<u128>>(X.syms.size(), 0); X.newEpoch();
    for (size_t i = 0; i < r->size(); i++) {
      bool in = vs.test(i % MAXVARS);
      if (in) { if (i < part.size()) (*r)[i] = part[i]; } else if (hint && i < hint->size()) (*r)[i] = (*hint)[i];
    }
    return r;
  };
  auto it = cache.find(h);
  if (it != cache.end() && it->second.first == key) {
    st.cacheHits++;
    if (it->second.second == 1) { m = merge(*cacheModel[h]); }
    return it->second.second;
  }
  for (auto& pm : pool) {
    if (!X.evalWith(cond, *pm)) continue;
    bool ok = true;
    for (E e : sl) if (!X.evalWith(e, *pm)) { ok = false; break; }
    if (ok) { st.modelHits++; m = merge(*pm); return 1; }
  }
  if (ntrans > 400000 || lit.size() > 40000) reset();
  auto t0 = std::chrono::steady_clock::now();
  int res = -1; Model nm;
  st.queries++;
  Z3_lbool z; Z3_model zm = nullptr;
  if (!dumpDir.empty()) {
    Z3_solver s = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, s);
    for (E e : sl) Z3_solver_assert(ctx, s, bl(e));
    Z3_solver_assert(ctx, s, bl(cond));
    std::string f = dumpDir + "/q" + std::to_string(st.queries) + ".smt2";
    FILE* o = fopen(f.c_str(), "w");
    if (o) { fprintf(o, "%s\n(check-sat)\n", Z3_solver_to_string(ctx, s)); fclose(o); }
    Z3_solver_dec_ref(ctx, s);
  }
  if (!fpq) {
    // three ways of asking the same question (incremental with assumptions, fresh bit-blasting solver, fresh simple
    // solver); the one that has been cheapest is used, the others are tried again now and then
    int arm = 0; for (int i = 1; i < 3; i++) if (armT[i] < armT[arm]) arm = i;
    if (++armN % 16 == 0) { int o = (arm + 1 + (armN / 16) % 2) % 3; if (armT[o] < 0.5) arm = o; }
    for (int tries = 0; tries < 3; tries++, arm = arm == 0 ? 1 : arm == 1 ? 2 : 0) {
      auto ta = std::chrono::steady_clock::now();
      if (arm == 0) {
        std::vector<Z3_ast> as;
        auto mk = [&](E e) {
          auto f = lit.find(e->id);
          if (f != lit.end()) return f->second;
          Z3_ast p = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("p" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(ctx));
          Z3_solver_assert(ctx, inc, Z3_mk_implies(ctx, p, bl(e)));
          lit[e->id] = p; return p;
        };
        for (E e : sl) as.push_back(mk(e));
        as.push_back(mk(cond));
        z = Z3_solver_check_assumptions(ctx, inc, as.size(), as.data());
        if (z == Z3_L_TRUE) zm = Z3_solver_get_model(ctx, inc);
        if (zm) Z3_model_inc_ref(ctx, zm);
      } else {
        Z3_solver s = arm == 1 ? Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV")) : Z3_mk_simple_solver(ctx);
        Z3_solver_inc_ref(ctx, s);
        Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
        Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), arm == 2 && tries < 2 ? std::min(timeoutMs, 1000u) : timeoutMs);
        Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
        for (E e : sl) Z3_solver_assert(ctx, s, bl(e));
        Z3_solver_assert(ctx, s, bl(cond));
        z = Z3_solver_check(ctx, s);
        if (z == Z3_L_TRUE) zm = Z3_solver_get_model(ctx, s);
        if (zm) Z3_model_inc_ref(ctx, zm);
        Z3_solver_dec_ref(ctx, s);
      }
      double da = std::chrono::duration<double>(std::chrono::steady_clock::now() - ta).count();
      armT[arm] = armT[arm] * 0.8 + da * 0.2;
      if (z != Z3_L_UNDEF || arm == 0) break;
    }
  } else {
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_FPBV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), timeoutMs * 2);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
    for (E e : sl) Z3_solver_assert(ctx, s, bl(e));
    Z3_solver_assert(ctx, s, bl(cond));
    z = Z3_solver_check(ctx, s);
    if (z == Z3_L_TRUE) zm = Z3_solver_get_model(ctx, s);
    if (zm) Z3_model_inc_ref(ctx, zm);
    Z3_solver_dec_ref(ctx, s);
  }
  if (z == Z3_L_TRUE) {
    auto part = std::make_shared<std::vector<u128>>();
    readModel(ctx, zm, symDecl, *part); Z3_model_dec_ref(ctx, zm);
    X.newEpoch();
    nm = part;
    bool ok = X.evalWith(cond, *part);
    for (E e : sl) if (ok && !X.evalWith(e, *part)) ok = false;
    X.newEpoch();
    if (!ok) st.mismatches++;
    res = 1;
    pool.push_front(nm); if (pool.size() > 12) pool.pop_back();
    m = merge(*nm); st.sat++;
  } else if (z == Z3_L_FALSE) { res = 0; st.unsat++; }
  else { res = -1; st.unknown++; reset(); }
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
  if (res >= 0) { cache[h] = {key, res}; if (res == 1) cacheModel[h] = nm; }
  return res;
}
