//BOUND 1 to 3 parameters (4 thorough), 1 to 4 points; models for which the normal matrix is inverted without rounding (L*Q with L lower triangular and orthonormal rows Q), errors 1/2, 1, 2, any small integer data; NO_LAPACK build
#include "hg.h"
#include <vif/math/base.hpp>
#include <vif/reflex/reflex.hpp>
#include <vif/math/reduce.hpp>
#include <vif/math/linfit.hpp>
// models x = (L*Q)*e with orthonormal rows Q
struct design { u64 np, nm; double x[4][4], e[4]; };
static design make_design(u64 np, u64 nm, bool had, bool sing = false) {
    design d; d.np = np; d.nm = nm; double l[4][4] = {{0}}, q[4][4] = {{0}};
    static const double H[4][4] = {{.5,.5,.5,.5},{.5,-.5,.5,-.5},{.5,.5,-.5,-.5},{.5,-.5,-.5,.5}};
    u64 sh = had ? 0 : (u64)pick(0, (i64)nm - 1, "shift"); bool neg = vf_conc(sym_bool("neg"));
    for (u64 k = 0; k < np; ++k) for (u64 m = 0; m < nm; ++m) { q[k][m] = had ? H[k][m] : m == (k + sh)%nm ? 1.0 : 0.0; if (neg && k == 0) q[k][m] = -q[k][m]; }
    u64 z = sing ? (u64)pick(0, (i64)np - 1, "zero") : np;
    for (u64 k = 0; k < np; ++k) { l[k][k] = k == z ? 0 : 2; for (u64 j = k + 1; j < np; ++j) l[j][k] = k == z ? 0.0 : np <= 2 ? (double)pick(-1, 1, "l") : j == k + 1 ? (double)pick(0, 1, "l") : 0.0; }
    u64 es = (u64)pick(0, 2, "e"); static const double E[3] = {1, 2, .5};
    for (u64 m = 0; m < nm; ++m) { d.e[m] = E[(es + (es ? m : 0))%3]; for (u64 i = 0; i < np; ++i) { d.x[i][m] = 0; for (u64 k = 0; k < np; ++k) d.x[i][m] += l[i][k]*q[k][m]; d.x[i][m] *= d.e[m]; } }
    return d;
}
static vec1d row(const design& d, u64 i) { vec1d r(d.nm); for (u64 m = 0; m < d.nm; ++m) r.data[m] = d.x[i][m]; return r; }
static vec1d errs(const design& d) { vec1d r(d.nm); for (u64 m = 0; m < d.nm; ++m) r.data[m] = d.e[m]; return r; }
static vec2d packed(const design& d) { vec2d r(d.np, d.nm); for (u64 i = 0; i < d.np*d.nm; ++i) r.data[i] = d.x[i/d.nm][i%d.nm]; return r; }
static void check_errors(const design& d, const linfit_result& f) {
    bool ok = f.cov.dims[0] == d.np && f.cov.dims[1] == d.np && f.errors.dims[0] == d.np && f.errors.data.size() == d.np; CHECKM(ok, "fit: dimensions of the errors and covariances");
    for (u64 i = 0; i < d.np; ++i) for (u64 j = 0; j < d.np; ++j) {
        double s = 0; for (u64 k = 0; k < d.np; ++k) { double a = 0; for (u64 m = 0; m < d.nm; ++m) a += d.x[i][m]/d.e[m]*(d.x[k][m]/d.e[m]); s += a*f.cov.base.data[k*d.np + j]; }
        ok &= s == (i == j ? 1.0 : 0.0);
    }
    CHECKM(ok, "fit: the covariances are the inverse of the normal matrix");
    for (u64 i = 0; i < d.np; ++i) { double c = f.cov.base.data[i*d.np + i], e2 = f.errors.data[i]*f.errors.data[i]; ok &= f.errors.data[i] > 0 && e2 <= c*(1 + 1e-14) && c <= e2*(1 + 1e-14); }
    CHECKM(ok, "fit: the errors are the square roots of the variances");
}
static void check_params(const design& d, const vec1d& y, const linfit_result& f) {
    CHECKM(f.success, "fit: a regular problem succeeds");
    CHECKM(f.params.dims[0] == d.np && f.params.data.size() == d.np, "fit: number of parameters");
    double c2 = 0, res[4]; for (u64 m = 0; m < d.nm; ++m) { double s = 0; for (u64 i = 0; i < d.np; ++i) s += f.params.data[i]*(d.x[i][m]/d.e[m]); res[m] = y.data[m]/d.e[m] - s; c2 += res[m]*res[m]; }
    bool ok = true; for (u64 i = 0; i < d.np; ++i) { double g = 0; for (u64 m = 0; m < d.nm; ++m) g += d.x[i][m]/d.e[m]*res[m]; ok &= g == 0; }
    CHECKM(ok, "fit: the parameters minimise the chi2");
    CHECKM(f.chi2 == c2, "fit: chi2 of the best fit");
}
static linfit_result fit_args(const design& d, const vec1d& y, const vec1d& e) {
    if (d.np == 1) return linfit(y, e, row(d, 0));
    if (d.np == 2) return linfit(y, e, row(d, 0), row(d, 1));
    if (d.np == 3) return linfit(y, e, row(d, 0), row(d, 1), row(d, 2));
    return linfit(y, e, row(d, 0), row(d, 1), row(d, 2), row(d, 3));
}
static void same_fit(const linfit_result& a, const linfit_result& b, const char* msg) {
    bool ok = a.success == b.success && a.params.dims == b.params.dims && a.errors.dims == b.errors.dims && a.params.data.size() == b.params.data.size() && a.errors.data.size() == b.errors.data.size();
    CHECKM(ok, msg); for (u64 i = 0; i < a.params.data.size(); ++i) ok &= same_(a.params.data[i], b.params.data[i]) && same_(a.errors.data[i], b.errors.data[i]);
    ok &= same_(a.chi2, b.chi2); CHECKM(ok, msg);
    if (a.success) for (u64 i = 0; i < a.cov.base.data.size(); ++i) CHECKM(a.cov.base.data[i] == b.cov.base.data[i], msg);
}
//RUN both h_fit 1 1..3 0
//RUN both h_fit 2 2..3 0
//RUN both h_fit 3 3 0
//RUN both h_fit 1..3 4 1
//RUN thorough h_fit 4 4 1
//RUN thorough h_fit 3 4 0
ENTRY h_fit(u64 np, u64 nm, u64 had) {
    design d = make_design(np, nm, had); vec1d y(nm), e = errs(d); fill_q(y, -4, 4); const vec1d y0 = y;
    auto f = fit_args(d, y, e); check_params(d, y0, f); check_errors(d, f);
    for (u64 m = 0; m < nm; ++m) CHECKM(y.data[m] == y0.data[m] && e.data[m] == d.e[m], "fit: the data are not modified");
    vec2d x = packed(d); same_fit(linfit_pack(y, e, x), f, "packed fit: same result");
    REACH("fit");
}
// batch: the same results, for several data and after changes of the models
//RUN both h_batch 1 2 0
//RUN both h_batch 2 2..3 0
//RUN both h_batch 2..3 4 1
ENTRY h_batch(u64 np, u64 nm, u64 had) {
    design d = make_design(np, nm, had); vec1d y(nm), z(nm), e = errs(d); fill_q(y, -4, 4); fill_q(z, -4, 4);
    auto run = [&](linfit_batch_t<vec1d> b, const char* msg) {
        check_errors(d, b.fr); b.fit(y); same_fit(b.fr, fit_args(d, y, e), msg);
        b.fit(z); same_fit(b.fr, fit_args(d, z, e), msg);
        b.fit_nochi2(y); b.update_chi2(y); same_fit(b.fr, fit_args(d, y, e), msg);
    };
    if (np == 1) run(linfit_batch(e, row(d, 0)), "batch fit: same result");
    else if (np == 2) run(linfit_batch(e, row(d, 0), row(d, 1)), "batch fit: same result");
    else run(linfit_batch(e, row(d, 0), row(d, 1), row(d, 2)), "batch fit: same result");
    run(linfit_pack_batch(e, packed(d)), "packed batch fit: same result");
    REACH("batch");
}
//RUN both h_update 2 2..3 0
//RUN both h_update 2..3 4 1
ENTRY h_update(u64 np, u64 nm, u64 had) {
    design d = make_design(np, nm, had); vec1d y(nm), e = errs(d), junk(nm); fill_q(y, -4, 4);
    u64 i = (u64)pick(0, (i64)np - 1, "model"), k = (i + 1)%np; bool both = vf_conc(sym_bool("both"));
    vec2d x = packed(d); double s = (double)pick(0, 3, "junk"); for (u64 m = 0; m < nm; ++m) { x.data[i*nm + m] *= s; if (both) x.data[k*nm + m] *= s; }
    auto b = linfit_pack_batch(e, x); b.fit(y);
    CHECKM(b.fr.success == (s != 0), "batch fit: singular problems are reported");
    if (s == 0) for (u64 p = 0; p < np; ++p) CHECKM(is_nan_(b.fr.params.data[p]) && is_nan_(b.fr.errors.data[p]), "batch fit: no parameters for singular problems");
    if (both) b.update_models(i, row(d, i), k, row(d, k)); else b.update_model(i, row(d, i));
    b.fit(y); same_fit(b.fr, fit_args(d, y, e), "batch fit after a change of models"); check_errors(d, b.fr);
    REACH("update");
}
//RUN both h_singular 1 1..2 0
//RUN both h_singular 2 2..3 0
//RUN both h_singular 2..3 4 1
ENTRY h_singular(u64 np, u64 nm, u64 had) {
    design d = make_design(np, nm, had, true); vec1d y(nm), e = errs(d); fill_q(y, -4, 4);
    auto bad = [&](const linfit_result& f) {
        CHECKM(!f.success && is_nan_(f.chi2) && f.params.data.size() == np && f.errors.data.size() == np, "a singular fit is reported");
        for (u64 i = 0; i < np; ++i) CHECKM(is_nan_(f.params.data[i]) && is_nan_(f.errors.data[i]), "a singular fit has no parameters");
    };
    bad(fit_args(d, y, e)); bad(linfit_pack(y, e, packed(d))); auto b = linfit_pack_batch(e, packed(d)); b.fit(y); bad(b.fr);
    REACH("singular");
}
// scalar errors or models, several dimensions
//RUN both h_forms
ENTRY h_forms() {
    vec1d y(4); fill_q(y, -4, 4); vec2d y2(2, 2); y2.data = y.data; vec1d x = {1, -1, 1, -1}, one = {1, 1, 1, 1}, e = {2, 2, 2, 2}; vec2d x2(2, 2), e2(2, 2); x2.data = x.data; e2.data = e.data;
    auto f = linfit(y, e, one, x);
    CHECKM(f.success && f.params.data[0] == (y.data[0] + y.data[1] + y.data[2] + y.data[3])/4 && f.params.data[1] == (y.data[0] - y.data[1] + y.data[2] - y.data[3])/4, "fit of a mean and an alternating term");
    CHECKM(f.errors.data[0] == 1 && f.errors.data[1] == 1, "errors");
    same_fit(linfit(y, e, 1.0, x), f, "a scalar model is constant");
    same_fit(linfit(y, 2.0, one, x), f, "a scalar error is the same everywhere");
    same_fit(linfit(y2, e2, 1.0, x2), f, "2-D data"); same_fit(linfit(y2, 2.0, 1.0 + x2*0, x2), f, "2-D data with a scalar error");
    vec<3,double> x3(2, 2, 2); for (u64 i = 0; i < 4; ++i) { x3.data[i] = 1; x3.data[4 + i] = x.data[i]; }
    same_fit(linfit_pack(y2, e2, x3), f, "packed 2-D models");
    auto b = linfit_batch(e2, 1.0, x2); b.fit(y2); same_fit(b.fr, f, "batch of 2-D data"); auto c = linfit_pack_batch(e2, x3); c.fit(y2); same_fit(c.fr, f, "batch of packed 2-D models");
    vec1u id = {3, 1, 2, 0}; same_fit(linfit(y[id], e[id], one[id], x[id]), f, "views, in any order of the points");
    REACH("forms");
}
//RUN both h_dims 0..8
ENTRY h_dims(u64 kind) {
    u64 n = (u64)pick(0, 3, "n"), m = (u64)pick(1, 3, "m"); vec1d y(m), e(m), x(n), w(m); e[_] = 1; if (m) w.data[0] = 1; if (n) x.data[0] = 1; REACH("dims");
    if (kind == 0) { AbortIff ab(n != m); auto f = linfit(y, e, x); ab.returned("fit: model of another size"); CHECKM(f.success, "fit"); }
    else if (kind == 1) { x[_] = 1; AbortIff ab(n != m); auto f = linfit(y, x, w); ab.returned("fit: errors of another size"); CHECKM(f.success, "fit"); }
    else if (kind == 2) { vec2d p(1, n); if (n) p.data[0] = 1; AbortIff ab(n != m); auto f = linfit_pack(y, e, p); ab.returned("packed fit: models of another size"); CHECKM(f.success, "fit"); }
    else if (kind == 3) { auto b = linfit_batch(e, w); AbortIff ab(n != m); b.update_model(0, x); ab.returned("batch fit: new model of another size"); CHECKM(b.fr.success, "fit"); }
    else if (kind == 4) { vec2d p(1, n); if (n) p.data[0] = 1; AbortIff ab(n != m); auto b = linfit_pack_batch(e, p); ab.returned("packed batch fit: models of another size"); CHECKM(b.fr.success, "fit"); }
    else if (kind == 6) { vec2d p(1, m); p.data[0] = 1; x[_] = 1; AbortIff ab(n != m); auto f = linfit_pack(x, e, p); ab.returned("packed fit: data of another size"); CHECKM(f.success, "fit"); }
    else if (kind == 7) { vec2d p(1, m); p.data[0] = 1; x[_] = 1; AbortIff ab(n != m); auto f = linfit_nn_pack(x, e, p); ab.returned("packed non-negative fit: data of another size"); CHECKM(f.success, "fit"); }
    else if (kind == 8) { y[_] = 1; AbortIff ab(n != m); auto f = linfit_nn(y, e, x); ab.returned("non-negative fit: model of another size"); CHECKM(f.success, "fit"); }
    else { auto b = linfit_batch(e, w); u64 i = sym_u64("i"); bool big = n != m; ASSUME(i == 0 || big); if (!big) { b.fit(y); CHECKM(b.fr.params.data[0] == 0, "fit"); } else { AbortIff ab(i != 0); b.update_model(i, w); ab.returned("batch fit: no such model"); AbortIff ac(true); b.fit(x); ac.returned("batch fit: data of another size"); } }
}
// non-negative fit: disjoint non-negative models have the exact solution max(0, x.y/x.x)
//RUN both h_nn 1 1..2
//RUN both h_nn 2 2..3
//RUN thorough h_nn 3 3
ENTRY h_nn(u64 np, u64 nm) {
    vec1d y(nm), e(nm); e[_] = 2.0; for (u64 m = 0; m < nm; ++m) y.data[m] = (double)pick(-2, 2, "y"); vec2d x(np, nm); for (u64 m = 0; m < nm; ++m) x.data[(m%np)*nm + m] = m%2 ? 2 : 1;
    auto f = linfit_nn_pack(y, e, x); bool one = nm <= np; 
    CHECKM(f.success && f.params.data.size() == np && f.params.dims[0] == np, "non-negative fit: success");
    double c2 = 0; bool ok = true; double p[3];
    for (u64 i = 0; i < np; ++i) { double b = 0, a = 0; for (u64 m = 0; m < nm; ++m) { b += x.data[i*nm + m]*y.data[m]; a += x.data[i*nm + m]*x.data[i*nm + m]; } p[i] = b > 0 ? b/a : 0; double df = f.params.data[i] - p[i]; ok &= f.params.data[i] >= 0 && df < 1e-3 && df > -1e-3; if (one) ok &= df < 1e-12 && df > -1e-12; }
    CHECKM(ok, "non-negative fit: parameters");
    for (u64 m = 0; m < nm; ++m) { double s = y.data[m]; for (u64 i = 0; i < np; ++i) s -= f.params.data[i]*x.data[i*nm + m]; c2 += s*s/4; }
    double dc = f.chi2 - c2; CHECKM(dc < 1e-9 && dc > -1e-9, "non-negative fit: chi2");
    if (np == 2) { vec1d x0(nm), x1(nm); for (u64 m = 0; m < nm; ++m) { x0.data[m] = x.data[m]; x1.data[m] = x.data[nm + m]; } auto g = linfit_nn(y, e, x0, x1); CHECKM(g.success && same_(g.chi2, f.chi2) && g.params.data[0] == f.params.data[0] && g.params.data[1] == f.params.data[1], "non-negative fit: same result packed or not"); }
    REACH("nn");
}
// overlapping non-negative models and data that are an exact combination of them
//RUN both h_nn_mix
ENTRY h_nn_mix() {
    double p = (double)pick(0, 4, "p"), q = (double)pick(0, 4, "q"), k = (double)pick(0, 2, "overlap"); vec1d x0 = {2, k, 0}, x1 = {0, k, 2}, e = {1, 1, 1}, y = p*x0 + q*x1;
    auto f = linfit_nn(y, e, x0, x1); double a = f.params.data[0] - p, b = f.params.data[1] - q, t = 0.01 + 0.02*(p + q);
    CHECKM(f.success && f.params.data[0] >= 0 && f.params.data[1] >= 0, "non-negative fit of overlapping models: success");
    CHECKM(a < t && a > -t && b < t && b > -t && f.chi2 >= 0 && f.chi2 < t, "non-negative fit of overlapping models: parameters");
    REACH("nn_mix");
}
