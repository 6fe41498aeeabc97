// Harness interface. Under the symbolic executor vf_* are intercepted; natively
// (replay) they are provided by replay_rt.cpp and read a recorded input vector.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstddef>
extern "C" {
uint64_t vf_sym(unsigned bits, const char* name);
void vf_assume(bool);
void vf_check_(bool, const char* msg);
void vf_reach(const char* label);
void vf_observe(const char* name, uint64_t v);
void vf_abort_ok(bool);
void vf_throw_ok(bool);
uint64_t vf_conc(uint64_t);
int vf_is_sym(uint64_t);
int vf_engine();
int vf_spawn(void (*)(void*), void*);
void vf_join(int);
void vf_yield();
int vf_tid();
int vf_nthreads();
void vf_cv_wait(void*, void*);
void vf_cv_notify(void*);
}
#define CHECK(c) vf_check_((c), #c)
#define CHECKM(c, m) vf_check_((c), m)
#define ASSUME(c) vf_assume(c)
#define REACH(l) vf_reach(l)
#define ENTRY extern "C" void __attribute__((noinline, used))
typedef uint64_t u64; typedef int64_t i64;

inline u64 bits_of(double d) { u64 r; std::memcpy(&r, &d, 8); return r; }
inline double dbl_of(u64 b) { double r; std::memcpy(&r, &b, 8); return r; }
inline void obs(const char* n, double d) { vf_observe(n, bits_of(d)); }
inline void obs(const char* n, float f) { uint32_t r; std::memcpy(&r, &f, 4); vf_observe(n, r); }
inline void obs(const char* n, u64 v) { vf_observe(n, v); }
inline void obs(const char* n, long long v) { vf_observe(n, (u64)v); }
inline void obs(const char* n, i64 v) { vf_observe(n, (u64)v); }
inline void obs(const char* n, int v) { vf_observe(n, (u64)(i64)v); }
inline void obs(const char* n, unsigned v) { vf_observe(n, v); }
inline void obs(const char* n, bool v) { vf_observe(n, v); }
inline void obs(const char* n, char v) { vf_observe(n, (unsigned char)v); }

inline bool sym_bool(const char* n = "b") { return vf_sym(1, n) != 0; }
inline char sym_char(const char* n = "c") { return (char)vf_sym(8, n); }
inline int sym_i8(const char* n = "i") { return (int8_t)vf_sym(8, n); }
inline int sym_int(const char* n = "i") { return (int)vf_sym(32, n); }
inline i64 sym_i64(const char* n = "l") { return (i64)vf_sym(64, n); }
inline u64 sym_u64(const char* n = "u") { return vf_sym(64, n); }
inline double sym_dbl(const char* n = "d") { return dbl_of(vf_sym(64, n)); }
inline float sym_flt(const char* n = "f") { uint32_t b = (uint32_t)vf_sym(32, n); float r; std::memcpy(&r, &b, 4); return r; }
// integer in [lo,hi] kept symbolic
inline i64 sym_in(i64 lo, i64 hi, const char* n = "k") {
    u64 span = (u64)(hi - lo); unsigned b = 1; while ((span >> b) != 0) ++b;
    u64 v = vf_sym(b, n); vf_assume(v <= span); return lo + (i64)v;
}
// integer in [lo,hi], one path per value
inline i64 pick(i64 lo, i64 hi, const char* n = "p") {
    i64 v = sym_in(lo, hi, n);
    return (i64)vf_conc((u64)v);
}
// a double that is a small integer times a power of two (arithmetic on these is exact)
inline double sym_q(i64 lo, i64 hi, double scale = 1.0, const char* n = "q") { return (double)sym_in(lo, hi, n)*scale; }
// a small exact double or NaN
inline double sym_qn(i64 lo, i64 hi, const char* n = "q") {
    bool nan = sym_bool("nan"); double v = (double)sym_in(lo, hi, n);
    return dbl_of(nan ? 0x7ff8000000000000ull : bits_of(v));
}
inline bool is_nan_(double d) { u64 b = bits_of(d) & 0x7fffffffffffffffull; return b > 0x7ff0000000000000ull; }
// same value: equal, or both NaN
inline bool same_(double a, double b) { return (a == b) | (is_nan_(a) & is_nan_(b)); }
inline bool same_(i64 a, i64 b) { return a == b; }
inline bool same_(int a, int b) { return a == b; }
template<class T> T sym(const char* n = "x");
template<> inline int sym<int>(const char* n) { return sym_int(n); }
template<> inline bool sym<bool>(const char* n) { return sym_bool(n); }
template<> inline char sym<char>(const char* n) { return sym_char(n); }
template<> inline double sym<double>(const char* n) { return sym_dbl(n); }
template<> inline float sym<float>(const char* n) { return sym_flt(n); }
template<> inline unsigned long sym<unsigned long>(const char* n) { return sym_u64(n); }
template<> inline long sym<long>(const char* n) { return sym_i64(n); }
// branch-free select for harness oracles
template<class T> inline T sel(bool c, T a, T b) { return c ? a : b; }
// declare in which circumstances the next call may stop the program; check that it did not
// return in those circumstances
struct AbortIff { bool c; explicit AbortIff(bool cc) : c(cc) { vf_abort_ok(c); } void returned(const char* m) { vf_abort_ok(false); vf_check_(!c, m); } };
