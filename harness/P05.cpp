#include "hv.h"
//BOUND vectors of <=3 elements, 2-D up to 2x3; int/unsigned/double/bool/mixed element types, all bit patterns (double / and * on every bit pattern compared as terms)
//RUN both h_arith 0..3
//RUN both h_arith_d 0..2
//RUN both h_mixed 1..2
//RUN both h_div 1..2
//RUN both h_size 0..2 0..2
//RUN both h_dims2
//RUN both h_rv 1..3
//RUN both h_rv_d 1..2
//RUN both h_cmp 0..3
//RUN both h_cmp_d 1..2
//RUN both h_logic 0..3
//RUN both h_neg 0..3
//RUN both h_comp 0..3
//RUN both h_comp_size 0..2 0..2
//RUN both h_views
//RUN both h_str
//RUN both h_modcomp
//RUN both h_dimsop 0..8
//RUN both h_dimslog
//RUN both h_not2d
//RUN both h_dimscmp
typedef unsigned un;
#define ALL(n, e) for (u64 i = 0; i < (n); ++i) CHECK(e)
ENTRY h_arith(u64 n) { vec<1,un> a(n), b(n); for (u64 i = 0; i < n; ++i) { a.data[i] = (un)sym_int("a"); b.data[i] = (un)sym_int("b"); } un s = (un)sym_int("s"); const vec<1,un>&x = a, &y = b;
    auto r1 = x + y; auto r2 = x - y; auto r3 = x*y; auto r4 = x + s; auto r5 = s - x; auto r6 = x - s; auto r7 = s*x; auto r8 = x*s; auto r9 = s + x;
    CHECK(r1.size() == n && r1.dims[0] == n && r2.dims[0] == n && r3.size() == n && r4.dims[0] == n && r5.size() == n && r5.dims[0] == n);
    ALL(n, r1.data[i] == a.data[i] + b.data[i]); ALL(n, r2.data[i] == a.data[i] - b.data[i]); ALL(n, r3.data[i] == a.data[i]*b.data[i]); ALL(n, r4.data[i] == a.data[i] + s); ALL(n, r5.data[i] == s - a.data[i]); ALL(n, r6.data[i] == a.data[i] - s); ALL(n, r7.data[i] == s*a.data[i]); ALL(n, r8.data[i] == a.data[i]*s); ALL(n, r9.data[i] == a.data[i] + s);
    if (n) ASSUME((s != 0)); auto m1 = x % s; ALL(n, m1.data[i] == a.data[i] % s); auto d1 = x/s; ALL(n, d1.data[i] == a.data[i]/s); REACH("arith"); }
ENTRY h_arith_d(u64 n) { vec1d a(n), b(n); fill_sym(a); fill_sym(b); double s = sym_dbl(); const vec1d &x = a, &y = b; auto r1 = x + y; auto r2 = x - y; auto r3 = x*y; auto r4 = x/y; auto r5 = s - x; auto r6 = s/x; auto r7 = x/s; auto r8 = x + s;
    CHECK(r1.size() == n && r4.dims[0] == n && r6.dims[0] == n); ALL(n, same_(r1.data[i], a.data[i] + b.data[i])); ALL(n, same_(r2.data[i], a.data[i] - b.data[i])); ALL(n, same_(r3.data[i], a.data[i]*b.data[i])); ALL(n, same_(r4.data[i], a.data[i]/b.data[i])); ALL(n, same_(r5.data[i], s - a.data[i])); ALL(n, same_(r6.data[i], s/a.data[i])); ALL(n, same_(r7.data[i], a.data[i]/s)); ALL(n, same_(r8.data[i], a.data[i] + s)); REACH("arith_d"); }
// result type follows C++ promotion
ENTRY h_mixed(u64 n) { vec<1,int> a(n); vec1d b(n); for (u64 i = 0; i < n; ++i) { a.data[i] = (int)sym_in(-100, 100, "a"); b.data[i] = sym_q(-64, 64, 0.25); } const vec<1,int>& x = a; const vec1d& y = b;
    auto r = x + y; static_assert(std::is_same<decltype(r), vec1d>::value, "int+double"); ALL(n, r.data[i] == a.data[i] + b.data[i]); auto q = y - x; ALL(n, q.data[i] == b.data[i] - a.data[i]); auto t = x*0.5; static_assert(std::is_same<decltype(t), vec1d>::value, "int*double"); ALL(n, t.data[i] == a.data[i]*0.5); auto u = 0.5 - x; ALL(n, u.data[i] == 0.5 - a.data[i]); vec<1,int> c = x; c += 2; ALL(n, c.data[i] == a.data[i] + 2); c *= 0.5; ALL(n, c.data[i] == (int)((a.data[i] + 2)*0.5)); REACH("mixed"); }
ENTRY h_div(u64 n) { vec<1,int> a(n), b(n); fill_sym(a); fill_sym(b); int s = sym_int("s"); for (u64 i = 0; i < n; ++i) { ASSUME((b.data[i] != 0) & (b.data[i] != -1) & (s != 0) & (s != -1) & (a.data[i] != 0) & (a.data[i] != -1)); } const vec<1,int> &x = a, &y = b;
    auto r = x/y; ALL(n, r.data[i] == a.data[i]/b.data[i]); auto q = x % y; ALL(n, q.data[i] == a.data[i] % b.data[i]); auto t = s/x; ALL(n, t.data[i] == s/a.data[i]); auto u = s % x; ALL(n, u.data[i] == s % a.data[i]); REACH("div"); }
ENTRY h_size(u64 n, u64 m) { vec<1,un> a(n), b(m); vec1b l(n), k(m); int op = (int)pick(0, 9); AbortIff ab(n != m); const vec<1,un> &x = a, &y = b; const vec1b &p = l, &q = k; u64 s = 0;
    switch (op) { case 0: s = (x + y).size(); break; case 1: s = (x - y).size(); break; case 2: s = (x*y).size(); break; case 3: s = (x == y).size(); break; case 4: s = (x < y).size(); break; case 5: s = (p && q).size(); break; case 6: s = (p || q).size(); break; case 7: s = (vec<1,un>(a) + y).size(); break; case 8: s = (x + vec<1,un>(b)).size(); break; default: s = (x >= y).size(); }
    ab.returned("operands of different sizes accepted"); CHECK(s == n); REACH("size"); }
ENTRY h_dims2() { u64 a = (u64)pick(1, 2), b = (u64)pick(1, 3), c = (u64)pick(1, 3), d = (u64)pick(1, 2); vec<2,un> x(a, b), y(c, d); fill_iota(x); fill_iota(y, 3); AbortIff ab(a != c || b != d); auto r = x + y; ab.returned("2-D operands of different shape accepted"); CHECK(r.dims[0] == a && r.dims[1] == b && r.size() == a*b); ALL(a*b, r.data[i] == x.data[i] + y.data[i]); auto e = x == y; CHECK(e.dims[0] == a && e.dims[1] == b); auto f = 2*x; CHECK(f.dims[0] == a && f.dims[1] == b && f.data[0] == 20); REACH("dims2"); }
// temporaries are reused in place: same result
ENTRY h_rv(u64 n) { vec<1,un> a(n), b(n); for (u64 i = 0; i < n; ++i) { a.data[i] = (un)sym_int("a"); b.data[i] = (un)sym_int("b"); } un s = (un)sym_int("s"); const vec<1,un> &x = a, &y = b; auto A = [&]() { return vec<1,un>(a); }; auto B = [&]() { return vec<1,un>(b); };
    auto r1 = A() - y; ALL(n, r1.data[i] == a.data[i] - b.data[i]); auto r2 = x - B(); ALL(n, r2.data[i] == a.data[i] - b.data[i]); auto r3 = A() - B(); ALL(n, r3.data[i] == a.data[i] - b.data[i]); auto r4 = s - A(); ALL(n, r4.data[i] == s - a.data[i]); auto r5 = A() - s; ALL(n, r5.data[i] == a.data[i] - s); auto r6 = A()*y + s - B(); ALL(n, r6.data[i] == a.data[i]*b.data[i] + s - b.data[i]); auto r7 = -(A() + y); ALL(n, r7.data[i] == 0u - (a.data[i] + b.data[i])); CHECK(r1.size() == n && r6.dims[0] == n && r3.dims[0] == n && r4.size() == n); ALL(n, b.data[i] == y.data[i]); REACH("rv"); }
ENTRY h_rv_d(u64 n) { vec1d a(n), b(n); fill_sym(a); fill_sym(b); double s = sym_dbl(); const vec1d &x = a, &y = b; auto A = [&]() { return vec1d(a); }; auto B = [&]() { return vec1d(b); }; auto r1 = A()/y; ALL(n, same_(r1.data[i], a.data[i]/b.data[i])); auto r2 = x/B(); ALL(n, same_(r2.data[i], a.data[i]/b.data[i])); auto r3 = A()/B(); ALL(n, same_(r3.data[i], a.data[i]/b.data[i])); auto r4 = s/A(); ALL(n, same_(r4.data[i], s/a.data[i])); auto r5 = A()/s; ALL(n, same_(r5.data[i], a.data[i]/s)); REACH("rv_d"); }
ENTRY h_cmp(u64 n) { vec<1,int> a(n), b(n); fill_sym(a); fill_sym(b); int s = sym_int("s"); auto e = a == b, d = a != b, l = a < b, le = a <= b, g = a > b, ge = a >= b; CHECK(e.size() == n && e.dims[0] == n); for (u64 i = 0; i < n; ++i) { int p = a.data[i], q = b.data[i]; CHECK(((bool)e.data[i] == (p == q)) & ((bool)d.data[i] == (p != q)) & ((bool)l.data[i] == (p < q)) & ((bool)le.data[i] == (p <= q)) & ((bool)g.data[i] == (p > q)) & ((bool)ge.data[i] == (p >= q))); }
    e = a == s; d = s != a; l = a < s; le = s <= a; g = a > s; ge = s >= a; auto l2 = s < a, g2 = s > a, le2 = a <= s, ge2 = a >= s; for (u64 i = 0; i < n; ++i) { int p = a.data[i]; CHECK(((bool)e.data[i] == (p == s)) & ((bool)d.data[i] == (p != s)) & ((bool)l.data[i] == (p < s)) & ((bool)le.data[i] == (s <= p)) & ((bool)g.data[i] == (p > s)) & ((bool)ge.data[i] == (s >= p)) & ((bool)l2.data[i] == (s < p)) & ((bool)g2.data[i] == (s > p)) & ((bool)le2.data[i] == (p <= s)) & ((bool)ge2.data[i] == (p >= s))); } REACH("cmp"); }
ENTRY h_cmp_d(u64 n) { vec1d a(n), b(n); fill_sym(a); fill_sym(b); auto e = a == b, d = a != b, l = a < b, le = a <= b, g = a > b, ge = a >= b; for (u64 i = 0; i < n; ++i) { double p = a.data[i], q = b.data[i]; CHECK(((bool)e.data[i] == (p == q)) & ((bool)d.data[i] == (p != q)) & ((bool)l.data[i] == (p < q)) & ((bool)le.data[i] == (p <= q)) & ((bool)g.data[i] == (p > q)) & ((bool)ge.data[i] == (p >= q))); } REACH("cmp_d"); }
ENTRY h_logic(u64 n) { vec1b a(n), b(n); fill_sym(a); fill_sym(b); bool s = sym_bool(); const vec1b &x = a, &y = b; auto A = [&]() { return vec1b(a); }; auto B = [&]() { return vec1b(b); };
    vec1b r[] = {x && y, A() && y, x && B(), A() && B(), x || y, A() || y, x || B(), A() || B(), x && s, s && x, A() && s, s && A(), x || s, s || x, A() || s, s || A(), !x, !A()};
    for (int k = 0; k < 18; ++k) CHECK(r[k].size() == n && r[k].dims[0] == n); for (u64 i = 0; i < n; ++i) { bool p = a.data[i], q = b.data[i]; for (int k = 0; k < 18; ++k) { bool e = k < 4 ? (p & q) : k < 8 ? (p | q) : k < 12 ? (p & s) : k < 16 ? (p | s) : !p; CHECKM((bool)r[k].data[i] == e, "logical operator"); } } REACH("logic"); }
ENTRY h_neg(u64 n) { vec<1,int> a(n); fill_sym(a); auto r = -a; auto p = +a; CHECK(r.size() == n && r.dims[0] == n && p.size() == n); ALL(n, ((un)r.data[i] == 0u - (un)a.data[i]) & (p.data[i] == a.data[i])); auto w = -a[_]; CHECK(w.size() == n && w.dims[0] == n); ALL(n, (un)w.data[i] == 0u - (un)a.data[i]); REACH("neg"); }
ENTRY h_comp(u64 n) { vec<1,un> a(n), b(n); for (u64 i = 0; i < n; ++i) { a.data[i] = (un)sym_int("a"); b.data[i] = (un)sym_int("b"); } un s = (un)sym_int("s"); vec<1,un> c = a; c += b; ALL(n, c.data[i] == a.data[i] + b.data[i]); c = a; c -= b; ALL(n, c.data[i] == a.data[i] - b.data[i]); c = a; c *= b; ALL(n, c.data[i] == a.data[i]*b.data[i]); c = a; c += s; ALL(n, c.data[i] == a.data[i] + s); c = a; c -= s; ALL(n, c.data[i] == a.data[i] - s); c = a; c *= s; ALL(n, c.data[i] == a.data[i]*s); if (n) { ASSUME(s != 0); c = a; c /= s; ALL(n, c.data[i] == a.data[i]/s); } CHECK(c.size() == n && c.dims[0] == n); c = a; c += b[_]; ALL(n, c.data[i] == a.data[i] + b.data[i]); c = a; c[_] -= b; ALL(n, c.data[i] == a.data[i] - b.data[i]); REACH("comp"); }
ENTRY h_comp_size(u64 n, u64 m) { vec<1,un> a(n), b(m); int op = (int)pick(0, 6); AbortIff ab(n != m); switch (op) { case 0: a += b; break; case 1: a -= b; break; case 2: a *= b; break; case 3: a[_] += b; break; case 4: a += b[_]; break; case 5: a[_] -= b[_]; break; default: a[_] *= b; } ab.returned("compound operator on different sizes accepted"); REACH("comp_size"); }
ENTRY h_views() { vec<1,un> a(3), b(3); for (u64 i = 0; i < 3; ++i) { a.data[i] = (un)sym_int("a"); b.data[i] = (un)sym_int("b"); } vec1u id = {2, 0}, jd = {1, 1}; const vec<1,un>& c = b; auto r = a[id] + b[jd]; CHECK(r.size() == 2 && r.dims[0] == 2); CHECK(r.data[0] == a.data[2] + b.data[1] && r.data[1] == a.data[0] + b.data[1]); auto q = a[id]*c[jd]; CHECK(q.data[0] == a.data[2]*b.data[1]); auto s = a[id] - 3u; CHECK(s.data[1] == a.data[0] - 3u); auto e = a[id] < b[jd]; CHECK((bool)e.data[0] == (a.data[2] < b.data[1]) && (bool)e.data[1] == (a.data[0] < b.data[1])); auto t = 3u - a[id]; CHECK(t.data[0] == 3u - a.data[2]); vec<1,un> o = a; a[id] *= b[jd]; CHECK(a.data[2] == o.data[2]*b.data[1] && a.data[0] == o.data[0]*b.data[1] && a.data[1] == o.data[1]); REACH("views"); }
ENTRY h_str() { vec1s a = {std::string(1, sym_char()), std::string("xy")}, b = {std::string("b"), std::string()}; auto r = a + b; CHECK(r.size() == 2 && r.data[0].size() == 2 && r.data[0][0] == a.data[0][0] && r.data[0][1] == 'b' && r.data[1] == "xy"); auto q = "p" + a; CHECK(q.data[0].size() == 2 && q.data[0][0] == 'p' && q.data[0][1] == a.data[0][0] && q.data[1] == "pxy"); auto t = a + "s"; CHECK(t.data[1] == "xys"); auto e = a == b; CHECK((bool)e.data[0] == (a.data[0][0] == 'b') && !e.data[1]); auto l = a < "b"; CHECK((bool)l.data[0] == ((unsigned char)a.data[0][0] < (unsigned char)'b')); REACH("str"); }
ENTRY h_modcomp() { vec<1,un> a(2); a.data[0] = (un)sym_int(); a.data[1] = (un)sym_int(); un s = (un)sym_int(); ASSUME(s != 0); vec<1,un> o = a; a[_] %= s; CHECK(a.data[0] == o.data[0] % s && a.data[1] == o.data[1] % s); vec<1,un> r = vec<1,un>(o) % vec<1,un>{s, s}; CHECK(r.data[0] == o.data[0] % s); REACH("modcomp"); }
// the dimensions, not just the total sizes, must agree, whatever kind of operand each side is
typedef vec<2,un> V2; typedef vec<2,bool> B2;
struct Dm { u64 d[4]; bool bad; Dm() { int k = (int)pick(0, 4); u64 t[5][4] = {{2, 3, 3, 2}, {2, 3, 2, 3}, {1, 4, 2, 2}, {2, 3, 2, 2}, {1, 4, 4, 1}}; for (int i = 0; i < 4; ++i) d[i] = t[k][i]; bad = k != 1; } };
ENTRY h_dimsop(u64 k1) { Dm m; V2 x(m.d[0], m.d[1]), y(m.d[2], m.d[3]); fill_iota(x); fill_iota(y, 3); const V2 &cx = x, &cy = y; int op = (int)pick(0, 3); V2 ox = x, oy = y; V2 r; auto vx = x(_, _), vy = y(_, _); AbortIff ab(m.bad);
#define DO(A, B) do { if (op == 0) r = (A) + (B); else if (op == 1) r = (A) - (B); else if (op == 2) r = (A)*(B); else r = (A)/(B); } while (0)
    switch (k1) { case 0: DO(cx, cy); break; case 1: DO(V2(x), cy); break; case 2: DO(cx, V2(y)); break; case 3: DO(V2(x), V2(y)); break; case 4: DO(vx, cy); break; case 5: DO(cx, vy); break; case 6: DO(vx, vy); break; case 7: DO(V2(x), vy); break; default: DO(vx, V2(y)); }
    ab.returned("operator between vectors of other dimensions accepted"); CHECK(r.dims == ox.dims && dims_ok(r)); for (u64 i = 0; i < r.data.size(); ++i) { un a = ox.data[i], b = oy.data[i]; CHECK(r.data[i] == (op == 0 ? a + b : op == 1 ? a - b : op == 2 ? a*b : a/b)); } REACH("dimsop"); }
ENTRY h_dimslog() { Dm m; B2 x(m.d[0], m.d[1]), y(m.d[2], m.d[3]); fill_sym(x); fill_sym(y); const B2 &cx = x, &cy = y; B2 ox = x, oy = y; B2 r; auto vx = x(_, _), vy = y(_, _); int k = (int)pick(0, 7), op = (int)pick(0, 1); AbortIff ab(m.bad);
#define DL(A, B) do { if (op == 0) r = (A) && (B); else r = (A) || (B); } while (0)
    switch (k) { case 0: DL(cx, cy); break; case 1: DL(B2(x), cy); break; case 2: DL(cx, B2(y)); break; case 3: DL(B2(x), B2(y)); break; case 4: DL(vx, cy); break; case 5: DL(cx, vy); break; case 6: DL(vx, vy); break; default: DL(B2(x), vy); }
    ab.returned("logical operator between vectors of other dimensions accepted"); CHECK(r.dims == ox.dims && dims_ok(r)); for (u64 i = 0; i < r.data.size(); ++i) CHECK((bool)r.data[i] == (op == 0 ? ((bool)ox.data[i] & (bool)oy.data[i]) : ((bool)ox.data[i] | (bool)oy.data[i]))); REACH("dimslog"); }
ENTRY h_dimscmp() { Dm m; V2 x(m.d[0], m.d[1]), y(m.d[2], m.d[3]); fill_iota(x); fill_iota(y, (int)pick(9, 11)); V2 ox = x, oy = y; auto vx = x(_, _), vy = y(_, _); int k = (int)pick(0, 3), op = (int)pick(0, 5); B2 r; AbortIff ab(m.bad);
#define DC(A, B) do { switch (op) { case 0: r = (A) == (B); break; case 1: r = (A) != (B); break; case 2: r = (A) < (B); break; case 3: r = (A) <= (B); break; case 4: r = (A) > (B); break; default: r = (A) >= (B); } } while (0)
    switch (k) { case 0: DC(x, y); break; case 1: DC(vx, y); break; case 2: DC(x, vy); break; default: DC(V2(x), vy); } ab.returned("comparison of vectors of other dimensions accepted"); CHECK(r.dims == ox.dims && dims_ok(r)); for (u64 i = 0; i < r.data.size(); ++i) { un a = ox.data[i], b = oy.data[i]; CHECK((bool)r.data[i] == (op == 0 ? a == b : op == 1 ? a != b : op == 2 ? a < b : op == 3 ? a <= b : op == 4 ? a > b : a >= b)); } REACH("dimscmp"); }
ENTRY h_not2d() { B2 x(2, 3); fill_sym(x); B2 ox = x; const B2& cx = x; auto vx = x(_, _); int k = (int)pick(0, 3); B2 r; if (k == 0) r = !cx; else if (k == 1) r = !B2(x); else if (k == 2) r = !vx; else r = !(x && x); CHECK(r.dims == ox.dims && dims_ok(r)); for (u64 i = 0; i < 6; ++i) CHECK((bool)r.data[i] == !(bool)ox.data[i]); V2 u(2, 3); for (u64 i = 0; i < 6; ++i) u.data[i] = (un)sym_int(); vec<2,int> w(3, 2); fill_sym(w); vec<2,int> nw = k == 0 ? -w : -(w + 0); CHECK(nw.dims == w.dims); for (u64 i = 0; i < 6; ++i) CHECK((un)nw.data[i] == 0u - (un)w.data[i]); REACH("not2d"); }
