//BOUND products: matrices of up to 3x3 (dimensions 0..3) of arbitrary small integers; factorisations: every matrix P*L*U (n up to 3, 4 thorough) with a permutation P, factors of small exact entries and pivots +-1, +-2, +-4, for which no rounding occurs, and any small right hand side; NO_LAPACK build
#include "hg.h"
#include <vif/math/base.hpp>
#include <vif/math/matrix.hpp>
namespace mx = vif::matrix;
typedef mx::mat<int> mati;
static mati smat(u64 n, u64 m, const char* nm = "a") { mati r(n, m); for (u64 i = 0; i < n*m; ++i) r.base.data[i] = sym_i8(nm); return r; }
template<class M> static bool mdims(const M& m, u64 a, u64 b) { return m.dims[0] == a && m.dims[1] == b && m.base.dims[0] == a && m.base.dims[1] == b && m.base.data.size() == a*b; }
//RUN quick h_mul 0..3 0..2 0..3
//RUN thorough h_mul 0..3 0..4 0..3
ENTRY h_mul(u64 n, u64 k, u64 m) {
    mati a = smat(n, k), b = smat(k, m, "b");
    auto r = a*b;
    CHECKM(mdims(r, n, m), "matrix product: dimensions");
    vec<2,int> va = a.base; const vec<2,int> vb = b.base;
    auto r2 = mx::as_matrix(va)*mx::as_matrix(vb);
    bool ok = true, ok2 = true;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < m; ++j) {
        int e = 0; for (u64 l = 0; l < k; ++l) e += a.base.data[i*k + l]*b.base.data[l*m + j];
        ok &= r.base.data[i*m + j] == e; ok2 &= r2.base.data[i*m + j] == e;
    }
    CHECKM(ok, "matrix product: sum over k of a(i,k)*b(k,j)");
    CHECKM(ok2, "matrix product of wrapped vectors");
    if (n == k && k == m) {
        mati c = a; c *= b; bool o3 = mdims(c, n, n), o4 = true;
        for (u64 i = 0; i < n*n; ++i) o3 &= c.base.data[i] == r.base.data[i];
        CHECKM(o3, "matrix product in place");
        auto s = a*a; c = a; c *= c; for (u64 i = 0; i < n*n; ++i) o4 &= c.base.data[i] == s.base.data[i];
        CHECKM(o4, "square in place");
    }
    REACH("mul");
}
//RUN both h_mulvec 0..3 0..3
ENTRY h_mulvec(u64 n, u64 k) {
    mati a = smat(n, k); vec<1,int> x(k), y(n);
    for (u64 i = 0; i < k; ++i) x.data[i] = sym_i8("x");
    for (u64 i = 0; i < n; ++i) y.data[i] = sym_i8("y");
    auto r = a*x; auto s = y*a; bool ok = r.dims[0] == n && r.data.size() == n && s.dims[0] == k && s.data.size() == k;
    CHECKM(ok, "matrix times vector: dimensions");
    for (u64 i = 0; i < n; ++i) { int e = 0; for (u64 l = 0; l < k; ++l) e += a.base.data[i*k + l]*x.data[l]; CHECKM(r.data[i] == e, "matrix times vector"); }
    for (u64 l = 0; l < k; ++l) { int e = 0; for (u64 i = 0; i < n; ++i) e += y.data[i]*a.base.data[i*k + l]; CHECKM(s.data[l] == e, "vector times matrix"); }
    vec<2,int> va = a.base; auto r2 = mx::as_matrix(va)*x; for (u64 i = 0; i < n; ++i) CHECKM(r2.data[i] == r.data[i], "wrapped vector");
    REACH("mulvec");
}
//RUN both h_mismatch 0..5 0..2 0..2
ENTRY h_mismatch(u64 kind, u64 n, u64 m) {
    u64 k = (u64)pick(0, 2); if (k == n && m == n) ASSUME(true);
    mati a = smat(1, k); REACH("mismatch");
    if (kind == 0) { mati b = smat(n, m, "b"); AbortIff ab(k != n); auto r = a*b; ab.returned("product of incompatible matrices"); CHECKM(mdims(r, 1, m), "dims"); }
    else if (kind == 3) { mati b = smat(n, m, "b"); vec<1,int> x(k); AbortIff ab(k != n); auto r = x*b; ab.returned("product of a vector of the wrong size with a matrix"); CHECKM(r.size() == m, "dims"); }
    else if (kind == 4) { mx::mat2d d2 = mx::make_identity(n); vec1d x(k); mx::decompose_lu d; d.decompose(d2); AbortIff ab(k != n); vec1d r = d.solve(x); ab.returned("LU: right hand side of the wrong size"); CHECKM(r.size() == n, "dims"); }
    else if (kind == 5) { mx::mat2d d2 = mx::make_identity(n); vec1d x(k); mx::decompose_cholesky d; d.decompose(d2); AbortIff ab(k != n); vec1d r = m == 0 ? d.solve(x) : m == 1 ? d.substitute_forward(x) : d.substitute_backward(x); ab.returned("Cholesky: right hand side of the wrong size"); CHECKM(r.size() == n, "dims"); }
    else if (kind == 1) { vec<1,int> x(n); AbortIff ab(k != n); auto r = a*x; ab.returned("product of a matrix with a vector of the wrong size"); }
    else { mati b = smat(n, m, "b"); bool add = vf_conc(sym_bool("add")); AbortIff ab(n != 1 || m != k); if (add) { auto r = a + b; CHECKM(mdims(r, 1, k), "dims"); } else { auto r = a - b; CHECKM(mdims(r, 1, k), "dims"); } ab.returned("sum of matrices of different dimensions"); }
}
// element-wise operations
//RUN both h_elem 1..2 1..3
ENTRY h_elem(u64 n, u64 m) {
    mati a = smat(n, m), b = smat(n, m, "b"); int s = sym_i8("s"); u64 i = (u64)pick(0, (i64)(n*m) - 1);
    int x = a.base.data[i], y = b.base.data[i];
    auto at = [&](const mati& r) { CHECKM(mdims(r, n, m), "element-wise: dimensions"); return r.base.data[i]; };
    CHECKM(at(a + b) == x + y && at(a - b) == x - y, "sum and difference of matrices");
    CHECKM(at(a*s) == x*s && at(s*a) == s*x && at(a + s) == x + s && at(s + a) == s + x && at(a - s) == x - s && at(s - a) == s - x, "matrix and scalar");
    CHECKM(at(mati(a) + mati(b)) == x + y && at(mati(a) - mati(b)) == x - y && at(a - mati(b)) == x - y && at(mati(a)*s) == x*s && at(s - mati(a)) == s - x, "temporaries");
    CHECKM(at(-a) == -x && at(+a) == x, "unary operators");
    { int d = (int)pick(1, 3, "d"); CHECKM(at(a/d) == x/d, "matrix over scalar"); mati c = a; c /= d; CHECKM(at(c) == x/d, "matrix over scalar in place"); }
    vec<2,int> va = a.base; const vec<2,int> vb = b.base; auto wa = mx::as_matrix(va); auto wb = mx::as_matrix(vb);
    CHECKM(at(wa + wb) == x + y && at(-wa) == -x && at(-wb) == -y && at(+wa) == x && at(+wb) == y, "wrapped vectors");
    wa = b; CHECKM(va.data[i] == y && va.dims[0] == n, "assignment through a wrapper");
    mati c = a; c += b; CHECKM(at(c) == x + y, "+="); c -= b; CHECKM(at(c) == x, "-="); c += s; CHECKM(at(c) == x + s, "+= scalar"); c -= s; CHECKM(at(c) == x, "-= scalar"); c *= s; CHECKM(at(c) == x*s, "*= scalar");
    mati e = c, f; f = e; mati g(std::move(e)); CHECKM(at(f) == x*s && at(g) == x*s, "copy and move"); f.base.data[i] = 99; CHECKM(g.base.data[i] == x*s, "copies are independent");
    auto t = mx::transpose(a); CHECKM(mdims(t, m, n), "transpose: dimensions");
    CHECKM(t.base.data[(i % m)*n + i/m] == x && at(mx::transpose(t)) == x, "transpose");
    REACH("elem");
}
// square matrices: diagonal, identity, symmetrize
//RUN both h_square 0..3
ENTRY h_square(u64 n) {
    mati a = smat(n, n), c = a; vec<1,int> v(n); for (u64 i = 0; i < n; ++i) v.data[i] = sym_int("v");
    vec<1,int> d = mx::diagonal(a); bool ok = d.dims[0] == n && d.data.size() == n;
    vec<1,int> d2 = mx::diagonal(mati(a)); ok &= d2.dims[0] == n && d2.data.size() == n;
    for (u64 i = 0; i < n; ++i) ok &= d.data[i] == c.base.data[i*n + i] && d2.data[i] == d.data[i];
    CHECKM(ok, "diagonal");
    { const mati ca = a; vec<1,int> d3 = mx::diagonal(ca); vec<2,int> va = a.base; auto w = mx::as_matrix(va); vec<1,int> d4 = mx::diagonal(w); ok &= d3.size() == n && d4.size() == n;
      for (u64 i = 0; i < n; ++i) ok &= d3.data[i] == d.data[i] && d4.data[i] == d.data[i]; CHECKM(ok, "diagonal of a constant or wrapped matrix"); }
    auto s = mx::as_diagonal(v); ok &= mdims(s, n, n);
    auto id = mx::make_identity<int>(n); ok &= mdims(id, n, n);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { ok &= s.base.data[i*n + j] == (i == j ? v.data[i] : 0); ok &= id.base.data[i*n + j] == (i == j); }
    CHECKM(ok, "as_diagonal, identity");
    mx::inplace_symmetrize(a);
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) ok &= a.base.data[i*n + j] == (i >= j ? c.base.data[i*n + j] : c.base.data[j*n + i]);
    CHECKM(ok, "symmetrize copies the lower half");
    a = c; mx::diagonal(a) = v;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) ok &= a.base.data[i*n + j] == (i == j ? v.data[i] : c.base.data[i*n + j]);
    CHECKM(ok, "the diagonal of a matrix can be assigned");
    REACH("square");
}
//RUN both h_nonsquare 0..5
ENTRY h_nonsquare(u64 kind) {
    u64 n = (u64)pick(0, 2), m = (u64)pick(0, 2); mx::mat2d a(n, m); for (u64 i = 0; i < n && i < m; ++i) a.base.data[i*m + i] = 1;
    REACH("nonsquare");
    AbortIff ab(n != m); u64 r = n; bool good = true;
    if (kind == 0) { vec1d d = mx::diagonal(a); r = d.size(); }
    else if (kind == 1) mx::inplace_symmetrize(a);
    else if (kind == 2) { mx::decompose_lu d; good = d.decompose(a); r = d.size(); }
    else if (kind == 3) { mx::decompose_cholesky d; good = d.decompose(a); r = d.size(); }
    else if (kind == 4) { good = mx::determinant(a) == 1.0; }
    else { mx::mat2d i; good = mx::invert(a, i); r = i.dims[0]; }
    ab.returned("operations on square matrices reject other matrices");
    CHECKM(r == n && good, "identity matrices are fine");
}
// plane transformations
//RUN both h_plane
ENTRY h_plane() {
    double x = sym_q(-8, 8), y = sym_q(-8, 8), p = sym_q(-8, 8), q = sym_q(-8, 8); vec1d v(3); v.data[0] = x; v.data[1] = y; v.data[2] = 1;
    vec1d s = mx::make_scale(p, q)*v, t = mx::make_translation(p, q)*v, u = mx::make_scale(p)*v;
    CHECKM(s.data[0] == p*x && s.data[1] == q*y && s.data[2] == 1, "scale");
    CHECKM(u.data[0] == p*x && u.data[1] == p*y && u.data[2] == 1, "uniform scale");
    CHECKM(t.data[0] == x + p && t.data[1] == y + q && t.data[2] == 1, "translation");
    vec1d r = mx::make_rotation(0.0)*v; CHECKM(r.data[0] == x && r.data[1] == y && r.data[2] == 1, "no rotation");
    REACH("plane");
}
// A = P*L*U with known factors, in which the pivots are unique: the factorisation involves no rounding
struct plu { u64 n; double a[16]; double det; bool singular; };
static plu make_plu(u64 n, bool perm, i64 span, bool sing) {
    plu p; p.n = n; p.det = 1; p.singular = false; double l[16] = {0}, u[16] = {0}, lu[16]; static const double dg[4] = {2, -4, 1, 4};
    u64 z = sing ? (u64)pick(0, (i64)n - 1, "zero") : n;
    for (u64 k = 0; k < n; ++k) {
        l[k*n + k] = k == z ? 0.0 : dg[(k + (u64)pick(0, 1, "d")*2) & 3]; u[k*n + k] = 1; p.det *= l[k*n + k];
        for (u64 j = k + 1; j < n; ++j) { l[j*n + k] = k == z || (l[k*n + k] == 1) ? 0.0 : (double)pick(-1, 1, "l"); u[k*n + j] = k == z ? 0.0 : (double)pick(-span, span, "u"); }
    }
    p.singular = z < n;
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { lu[i*n + j] = 0; for (u64 k = 0; k < n; ++k) lu[i*n + j] += l[i*n + k]*u[k*n + j]; }
    u64 o[4] = {0, 1, 2, 3};
    if (perm) for (u64 i = 0; i + 1 < n; ++i) { u64 s = i + (u64)pick(0, (i64)(n - 1 - i), "perm"); if (s != i) { u64 t = o[s]; o[s] = o[i]; o[i] = t; p.det = -p.det; } }
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) p.a[i*n + j] = lu[o[i]*n + j];
    return p;
}
static mx::mat2d mat_of(const plu& p) { mx::mat2d m(p.n, p.n); for (u64 i = 0; i < p.n*p.n; ++i) m.base.data[i] = p.a[i]; return m; }
static bool is_identity(const plu& p, const mx::mat2d& v) { // A*v == 1
    bool ok = mdims(v, p.n, p.n);
    for (u64 i = 0; i < p.n; ++i) for (u64 j = 0; j < p.n; ++j) { double s = 0; for (u64 k = 0; k < p.n; ++k) s += p.a[i*p.n + k]*v.base.data[k*p.n + j]; ok &= s == (i == j ? 1.0 : 0.0); }
    return ok;
}
static bool solves(const plu& p, const vec1d& x, const vec1d& b) {
    bool ok = x.dims[0] == p.n && x.data.size() == p.n;
    for (u64 i = 0; i < p.n; ++i) { double s = 0; for (u64 k = 0; k < p.n; ++k) s += p.a[i*p.n + k]*x.data[k]; ok &= s == b.data[i]; }
    return ok;
}
//RUN quick h_solve 0..2 1 2
//RUN quick h_solve 3 1 0
//RUN quick h_solve 3 0 1
//RUN thorough h_solve 3 1 1
ENTRY h_solve(u64 n, u64 perm, u64 span) {
    plu p = make_plu(n, perm, (i64)span, false); mx::mat2d a = mat_of(p); const mx::mat2d a0 = a;
    vec1d b(n), r; fill_q(b, -2, 2); auto same = [&](const vec1d& u, const vec1d& v) { bool ok = u.dims[0] == n && u.data.size() == n; for (u64 i = 0; i < n; ++i) ok &= u.data[i] == v.data[i]; return ok; };
    mx::decompose_lu d; CHECKM(d.decompose(a) && !d.bad && d.size() == n, "LU decomposition of a regular matrix");
    CHECKM(d.determinant() == p.det && mx::determinant(a) == p.det && mx::determinant(mx::as_matrix(a.base)) == p.det, "determinant");
    vec1d x = d.solve(b); CHECKM(solves(p, x, b), "A*solve(b) == b");
    CHECKM(mx::solve(a, b, r) && same(r, x), "solve");
    CHECKM(mx::solve_symmetric(a, b, r) && same(r, x), "solve_symmetric"); // NO_LAPACK: does not use the symmetry
    r = b; { mx::mat2d t = a; CHECKM(mx::inplace_solve(t, r) && same(r, x), "inplace_solve"); }
    for (u64 i = 0; i < n*n; ++i) CHECKM(a.base.data[i] == p.a[i], "the matrix is not modified");
    REACH("solve");
}
//RUN quick h_inverse 0..2 1 2
//RUN quick h_inverse 3 1 0
//RUN quick h_inverse 3 0 1
//RUN thorough h_inverse 3 1 1
ENTRY h_inverse(u64 n, u64 perm, u64 span) {
    plu p = make_plu(n, perm, (i64)span, false); mx::mat2d a = mat_of(p), i;
    mx::decompose_lu d; d.decompose(a); CHECKM(is_identity(p, d.invert()), "A*inverse == 1");
    CHECKM(mx::invert(a, i) && is_identity(p, i), "invert"); CHECKM(mx::invert_symmetric(a, i) && is_identity(p, i), "invert_symmetric");
    i = a; CHECKM(mx::inplace_invert(i) && is_identity(p, i), "inplace_invert"); i = a; CHECKM(mx::inplace_invert_symmetric(i) && is_identity(p, i), "inplace_invert_symmetric");
    REACH("inverse");
}
//RUN quick h_nopivot 1..2 2
//RUN quick h_nopivot 3 0
//RUN thorough h_nopivot 3 1
ENTRY h_nopivot(u64 n, u64 span) {
    plu p = make_plu(n, false, (i64)span, false); mx::mat2d a = mat_of(p); vec1d b(n); fill_q(b, -2, 2);
    mx::decompose_lu d; d.no_pivot = true; CHECKM(d.decompose(a), "LU decomposition without pivots");
    CHECKM(d.determinant() == p.det && solves(p, d.solve(b), b), "solution without pivots");
    CHECKM(is_identity(p, d.invert()), "inverse without pivots");
    REACH("nopivot");
}
//RUN quick h_singular 1..2 1 2
//RUN quick h_singular 3 1 0
//RUN thorough h_singular 3 1 1
ENTRY h_singular(u64 n, u64 perm, u64 span) {
    plu p = make_plu(n, perm, (i64)span, true); mx::mat2d a = mat_of(p), i; vec1d b(n), r; 
    mx::decompose_lu d; CHECKM(!d.decompose(a) && d.bad, "a singular matrix is reported");
    CHECKM(mx::determinant(a) == 0.0 && !mx::invert(a, i) && !mx::solve(a, b, r), "singular: determinant, invert, solve");
    plu q = make_plu(1, false, 0, false); CHECKM(d.decompose(mat_of(q)) && !d.bad && d.determinant() == q.det, "a decomposition can be used again");
    REACH("singular");
}
// A = L*L^t
//RUN both h_cholesky 0..3
//RUN thorough h_cholesky 4
ENTRY h_cholesky(u64 n) {
    double l[16] = {0}; static const double dg[2] = {2, 0.5}; plu p; p.n = n; double det = 1;
    for (u64 k = 0; k < n; ++k) { l[k*n + k] = dg[pick(0, 1, "d")]; det *= l[k*n + k]; for (u64 j = 0; j < k; ++j) l[k*n + j] = (double)pick(-1, 1, "l"); }
    for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) { p.a[i*n + j] = 0; for (u64 k = 0; k < n; ++k) p.a[i*n + j] += l[i*n + k]*l[j*n + k]; }
    mx::mat2d a = mat_of(p); vec1d b(n); fill_q(b, -2, 2);
    mx::decompose_cholesky d; CHECKM(d.decompose(a) && !d.bad && d.size() == n, "Cholesky decomposition of a positive definite matrix");
    bool ok = mdims(d.l, n, n); for (u64 i = 0; i < n*n; ++i) ok &= d.l.base.data[i] == l[i];
    CHECKM(ok, "Cholesky: lower triangular factor with positive diagonal");
    CHECKM(solves(p, d.solve(b), b), "Cholesky: A*solve(b) == b");
    vec1d y = b, x = d.solve(b); d.solve_inplace(y); for (u64 i = 0; i < n; ++i) CHECKM(y.data[i] == x.data[i], "Cholesky: solve in place");
    CHECKM(is_identity(p, d.invert()), "Cholesky: inverse");
    plu pl; pl.n = n; for (u64 i = 0; i < n*n; ++i) pl.a[i] = l[i];
    plu pt; pt.n = n; for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) pt.a[i*n + j] = l[j*n + i];
    CHECKM(is_identity(pl, d.lower_inverse()), "Cholesky: inverse of the factor");
    CHECKM(solves(pl, d.substitute_forward(b), b) && solves(pt, d.substitute_backward(b), b), "Cholesky: substitutions");
    CHECKM(d.lower_determinant() == det, "Cholesky: determinant of the factor");
    REACH("cholesky");
}
//RUN both h_notpos 1..3
ENTRY h_notpos(u64 n) {
    u64 z = (u64)pick(0, (i64)n - 1, "z"); double v = -(double)sym_in(0, 4, "v");
    mx::mat2d a(n, n); for (u64 i = 0; i < n; ++i) for (u64 j = 0; j < n; ++j) a.base.data[i*n + j] = i == j ? (i == z ? v : 4.0) : 0.0;
    mx::decompose_cholesky d; CHECKM(!d.decompose(a) && d.bad, "Cholesky: a matrix which is not positive definite is reported");
    mx::mat2d g(1, 1); g.base.data[0] = 4; CHECKM(d.decompose(g) && !d.bad && d.l.base.data[0] == 2, "Cholesky: a decomposition can be used again");
    REACH("notpos");
}
