//BOUND any sequence of random numbers: any uniform deviates from zero (included) to one (excluded), any 32-bit value of the integer generator; ranges of up to 8 values between -4 and 12, vectors of up to 4 elements (6 when thorough), any probability; at most 3 values of the integer generator refused; normal deviates are outside (logarithms), and continuous distributions with a slope (square roots)
#include "hg.h"
#include <random>
namespace { struct Gen { typedef uint32_t result_type; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 0xffffffffu; } double u[8]; u64 nu = 0, calls = 0; uint32_t r[16]; uint32_t operator()() { CHECKM(calls < 16, "random numbers drawn"); return r[calls++]; } }; }
namespace std { template<> inline double generate_canonical<double,53,Gen>(Gen& g) { CHECKM(g.nu < 8, "deviates drawn"); return g.u[g.nu++]; } }
#include <vif/math/random.hpp>
static double unit() { double x = sym_dbl("u"); ASSUME(x >= 0 && x < 1); return x; }
static void feed(Gen& g, u64 n) { for (u64 i = 0; i < n; ++i) g.u[i] = unit(); }
static i64 down(double x) { i64 i = (i64)x; return (double)i > x ? i - 1 : i; }
//RUN both h_int -4..2 0..3
//RUN thorough h_int -3,0,5 4..7
ENTRY h_int(i64 a, i64 w) {
    i64 b = a + w; Gen g; feed(g, 1); g.u[1] = 0.25; vec1i v = randomi(g, a, b, 2); CHECKM(v.dims[0] == 2 && v.data.size() == 2 && g.nu == 2, "randomi: dimensions, one deviate each"); for (u64 i = 0; i < 2; ++i) { CHECKM(v.data[i] >= a && v.data[i] <= b, "randomi: values between the limits, included"); CHECKM(v.data[i] == a + down(g.u[i]*(double)(b - a + 1)), "randomi: each value has the same probability"); } REACH("int");
}
//RUN both h_intu 0..3
ENTRY h_intu(u64 c) { Gen h; feed(h, 1); h.u[1] = 0.5; vec2u w = randomi(h, u64(1), c + 1, 1, 2); CHECKM(w.dims[0] == 1 && w.dims[1] == 2 && w.data.size() == 2, "randomi: dimensions"); CHECKM(w.data[0] >= 1 && w.data[0] <= c + 1 && w.data[0] == 1 + (u64)down(h.u[0]*(double)(c + 1)) && w.data[1] == 1 + (c + 1)/2, "randomi: unsigned limits"); REACH("intu"); }
//RUN both h_int1
ENTRY h_int1() { Gen g; for (u64 i = 0; i < 16; ++i) g.r[i] = (uint32_t)i*77777777u; g.r[0] = (uint32_t)vf_sym(32, "r"); i64 a = pick(-4, 5, "a"), b = a + pick(0, 4, "w"); i64 x = randomi(g, a, b); CHECKM(x >= a && x <= b, "randomi: one value between the limits"); REACH("int1"); }
//RUN both h_unit
ENTRY h_unit() { Gen g; feed(g, 2); g.u[2] = 0.125; g.u[3] = 0; double x = randomu(g); vec1d v = randomu(g, 3); CHECKM(v.dims[0] == 3 && v.data.size() == 3 && g.nu == 4, "randomu: dimensions"); CHECKM(x == g.u[0] && v.data[0] == g.u[1] && v.data[1] == 0.125 && v.data[2] == 0, "randomu: one deviate for each element, in order"); CHECKM(x >= 0 && x < 1, "randomu: between zero and one"); vec2d w = randomu(g, 0, 2); CHECKM(w.dims[0] == 0 && w.dims[1] == 2 && w.data.empty() && g.nu == 4, "randomu: nothing drawn for an empty vector"); REACH("unit"); }
//RUN both h_coin
ENTRY h_coin() {
    Gen g; feed(g, 1); g.u[1] = 0; g.u[2] = g.u[0]; g.u[3] = 0.75; g.u[4] = g.u[0]; double p = sym_dbl("p"); ASSUME(p == p); bool b = random_coin(g, p); CHECKM(b == (g.u[0] < p), "random_coin: true with the given probability"); if (p <= 0) CHECKM(!b, "random_coin: never with a probability of zero"); if (p >= 1) CHECKM(b, "random_coin: always with a probability of one");
    vec1b v = random_coin(g, p, 2); CHECKM(v.dims[0] == 2 && v.data.size() == 2 && (bool)v.data[0] == (0 < p) && (bool)v.data[1] == (g.u[2] < p), "random_coin: several draws"); vec2d q(1, 2); q.data[0] = 0.75; q.data[1] = p; vec2b w = random_coin(g, q); CHECKM(w.dims[0] == 1 && w.dims[1] == 2 && w.data.size() == 2 && !w.data[0] && (bool)w.data[1] == (g.u[4] < p) && g.nu == 5, "random_coin: several probabilities"); REACH("coin");
}
//RUN both h_shuffle 0..3
//RUN both h_shuffle 4
//RUN thorough h_shuffle 5..6
ENTRY h_shuffle(u64 n) {
    Gen g; for (u64 i = 0; i < 16; ++i) g.r[i] = (uint32_t)i*99999989u; for (u64 i = 0; i < n; ++i) g.r[i] = (uint32_t)vf_sym(32, "r"); vec1i v(n), c; for (u64 i = 0; i < n; ++i) v.data[i] = sym_int("v"); c = v; vec1u id(n); for (u64 i = 0; i < n; ++i) id.data[i] = i; Gen h = g; vec1u ids = shuffle(h, id); vec1i s = shuffle(g, v); CHECKM(s.dims[0] == n && s.data.size() == n && ids.dims[0] == n && ids.data.size() == n, "shuffle: dimensions"); bool seen[8] = {}, ok = true; for (u64 i = 0; i < n; ++i) { CHECKM(ids.data[i] < n && !seen[ids.data[i]], "shuffle: each element once"); seen[ids.data[i]] = true; ok &= s.data[i] == c.data[ids.data[i]] && v.data[i] == c.data[i] && id.data[i] == i; } CHECKM(ok, "shuffle: a permutation that depends only on the generator, the argument is not modified"); REACH("shuffle");
}
//RUN both h_discrete 1..3
ENTRY h_discrete(u64 n) { Gen g; feed(g, 1); g.u[1] = 0.5; g.u[2] = 0.875; vec1d w(n); double tot = 0, cs = 0; for (u64 i = 0; i < n; ++i) w.data[i] = (double)pick(0, 2, "w"); for (u64 i = 0; i < n; ++i) tot += w.data[i]; ASSUME(tot == 1 || tot == 2 || tot == 4); u64 x = random_pdf_discrete(g, w); CHECKM(x < n, "random_pdf_discrete: one of the weights"); for (u64 i = 0; i < x; ++i) cs += w.data[i]; CHECKM(g.u[0] == 0 || (cs/tot < g.u[0] && g.u[0] <= (cs + w.data[x])/tot), "random_pdf_discrete: probability proportional to the weight"); vec1u v = random_pdf_discrete(g, w, 2); CHECKM(v.dims[0] == 2 && v.data.size() == 2 && (n == 1 || g.nu == 3) && v.data[0] < n && v.data[1] < n && v.data[0] <= v.data[1], "random_pdf_discrete: several draws"); REACH("discrete"); }

//RUN both h_flat 1..3
ENTRY h_flat(u64 n) { Gen g; g.u[0] = (double)sym_in(0, 255, "u")/256; g.u[1] = 0.5; g.u[2] = 0.25; double x0 = -1; vec1d x(n + 1), y(n + 1); i64 c = 2; double len = n == 1 ? 1 : n == 2 ? 4 : 8; for (u64 i = 0; i < n; ++i) { x.data[i] = x0 + (double)i; } x.data[n] = x0 + len; for (u64 i = 0; i <= n; ++i) y.data[i] = (double)c; double r = random_pdf(g, x, y); CHECKM(r >= x0 - 1e-9 && r <= x0 + len + 1e-9 && r - (x0 + len*g.u[0]) <= 1e-9 && r - (x0 + len*g.u[0]) >= -1e-9, "random_pdf: uniform when the density is constant"); vec1d v = random_pdf(g, x, y, 2); CHECKM(v.dims[0] == 2 && v.data.size() == 2 && g.nu == 3 && v.data[0] == x0 + len*0.5 && v.data[1] == x0 + len*0.25, "random_pdf: several draws"); REACH("flat"); }
