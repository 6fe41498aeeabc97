// Streams and files. In the symbolic executor the string and file streams used by the library are replaced by the small
// models below (names substituted after the standard headers are read; the library's own code is untouched); natively
// (replays of counterexamples and of passing witnesses) the real streams and a scratch file are used.
#pragma once
#include <iostream>
#include <iomanip>
#include <sstream>
#include <fstream>
#include <string>
#include <vector>
#include <array>
#include <map>
#include <memory>
#include <thread>
#include <functional>
#include <algorithm>
#include <tuple>
#include <stdexcept>
#include <limits>
#include <cmath>
#include <random>
#include <complex>
#include <regex>
#include <chrono>
#include <atomic>
#include <mutex>
#include <cctype>
#include "vf.h"
#ifdef VF_IR
// one file
static std::string vf_file_data; static bool vf_file_exists = false, vf_file_writable = true;
namespace std {
struct vf_ios {
    bool eof_ = false, fail_ = false; int prec_ = 6, mode_ = 0;
    enum { binary = 1, end = 2, beg = 4, in = 8, out = 16, app = 32, trunc = 64 };
    vf_ios() {} vf_ios(decltype(nullptr)) {}
    void copyfmt(const vf_ios& o) { prec_ = o.prec_; mode_ = o.mode_; }
    bool eof() const { return eof_; } bool fail() const { return fail_; } bool good() const { return !eof_ && !fail_; } explicit operator bool() const { return !fail_; } bool operator!() const { return fail_; }
    void clear() { eof_ = fail_ = false; }
};
struct vf_out : vf_ios {
    std::string b;
    vf_out& put_(char c) { b.push_back(c); return *this; }
    vf_out& num_(unsigned long v, bool neg) { char d[24]; int n = 0; if (v < 250) { unsigned char w = (unsigned char)v; do { d[n++] = (char)('0' + (unsigned char)(w % 10)); w /= 10; } while (w != 0); } else do { d[n++] = (char)('0' + v % 10); v /= 10; } while (v != 0); if (neg) b.push_back('-'); while (n > 0) b.push_back(d[--n]); return *this; }
    vf_out& operator<<(char c) { return put_(c); } vf_out& operator<<(signed char c) { return put_((char)c); } vf_out& operator<<(unsigned char c) { return put_((char)c); }
    vf_out& operator<<(const char* s) { while (*s) put_(*s++); return *this; }
    vf_out& operator<<(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) put_(s[i]); return *this; }
    vf_out& operator<<(bool v) { return put_(v ? '1' : '0'); }
    vf_out& operator<<(long v) { return v < 0 ? num_(0ul - (unsigned long)v, true) : num_((unsigned long)v, false); } vf_out& operator<<(int v) { return *this << (long)v; } vf_out& operator<<(short v) { return *this << (long)v; } vf_out& operator<<(long long v) { return *this << (long)v; }
    vf_out& operator<<(unsigned long v) { return num_(v, false); } vf_out& operator<<(unsigned v) { return num_(v, false); } vf_out& operator<<(unsigned short v) { return num_(v, false); } vf_out& operator<<(unsigned long long v) { return num_((unsigned long)v, false); }
    vf_out& operator<<(double v) { // integers below 10^6 (the default precision) only
        if (v != v) return *this << "nan"; bool ok = v > -1000000 && v < 1000000; long i = ok ? (long)v : 0; vf_check_(ok && (double)i == v, "harness: formatting of this floating point value is not modelled"); if (v == 0 && std::signbit(v)) put_('-'); return *this << i; }
    vf_out& operator<<(float v) { return *this << (double)v; }
};
struct vf_in : vf_ios {
    std::string b; size_t p = 0; vf_in* rdbuf() { return this; }
    static bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
    bool sentry_() { if (!good()) { fail_ = true; return false; } while (p < b.size() && ws(b[p])) ++p; if (p == b.size()) { eof_ = fail_ = true; return false; } return true; }
    // sign and digits; false if there is no digit
    bool int_(bool& neg, unsigned long& v, bool& big) {
        neg = false; v = 0; big = false; if (b[p] == '-' || b[p] == '+') neg = b[p++] == '-';
        bool any = false; while (p < b.size() && b[p] >= '0' && b[p] <= '9') { unsigned d = (unsigned)(b[p++] - '0'); any = true; if (v > (~0ul - d)/10) big = true; v = v*10 + d; }
        if (p == b.size()) eof_ = true; return any;
    }
    template<class T> vf_in& sint_(T& t) { if (!sentry_()) return *this; bool n, g; unsigned long v; if (!int_(n, v, g)) { t = 0; fail_ = true; return *this; }
        unsigned long mx = (unsigned long)std::numeric_limits<T>::max(); if (g || v > mx + (n ? 1 : 0)) { t = n ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max(); fail_ = true; } else t = (T)(n ? 0ul - v : v); return *this; }
    template<class T> vf_in& uint_(T& t) { if (!sentry_()) return *this; bool n, g; unsigned long v; if (!int_(n, v, g)) { t = 0; fail_ = true; return *this; }
        unsigned long mx = (unsigned long)std::numeric_limits<T>::max(); if (g || v > mx) { t = std::numeric_limits<T>::max(); fail_ = true; } else t = (T)(n ? 0ul - v : v); return *this; }
    vf_in& operator>>(int& t) { return sint_(t); } vf_in& operator>>(short& t) { return sint_(t); } vf_in& operator>>(long& t) { return sint_(t); } vf_in& operator>>(long long& t) { return sint_(t); }
    vf_in& operator>>(unsigned& t) { return uint_(t); } vf_in& operator>>(unsigned short& t) { return uint_(t); } vf_in& operator>>(unsigned long& t) { return uint_(t); } vf_in& operator>>(unsigned long long& t) { return uint_(t); }
    vf_in& operator>>(bool& t) { long v = 0; bool was = fail_; if (!sentry_()) return *this; bool n, g; unsigned long u; if (!int_(n, u, g)) { t = false; fail_ = true; return *this; } if (!g && u == 0) t = false; else { t = true; if (g || n || u != 1) fail_ = true; } (void)v; (void)was; return *this; }
    vf_in& operator>>(double& t) { if (!sentry_()) return *this; bool n, g; unsigned long v; // digits [. digits], at most 15 digits
        n = false; if (b[p] == '-' || b[p] == '+') n = b[p++] == '-'; v = 0; int k = 0, f = 0; bool dot = false; while (p < b.size() && ((b[p] >= '0' && b[p] <= '9') || (b[p] == '.' && !dot))) { if (b[p] == '.') dot = true; else { v = v*10 + (unsigned)(b[p] - '0'); ++k; if (dot) ++f; } ++p; }
        if (p < b.size() && (b[p] == 'e' || b[p] == 'E') && k > 0) { vf_check_(false, "harness: exponents are not modelled"); } if (p == b.size()) eof_ = true; (void)g;
        if (k == 0) { t = 0; fail_ = true; return *this; } vf_check_(k <= 15, "harness: more than 15 digits are not modelled"); double d = 1; while (f-- > 0) d *= 10; double r = (double)(long)v/d; t = n ? -r : r; return *this; }
    vf_in& operator>>(float& t) { double d = 0; *this >> d; t = (float)d; return *this; }
    vf_in& operator>>(char& t) { if (!sentry_()) return *this; t = b[p++]; return *this; }
    vf_in& operator>>(std::string& t) { if (!sentry_()) return *this; t.clear(); while (p < b.size() && !ws(b[p])) t.push_back(b[p++]); if (p == b.size()) eof_ = true; return *this; }
};
inline vf_in& getline(vf_in& in, std::string& s) {
    if (!in.good()) { in.fail_ = true; return in; } s.clear(); bool any = false;
    while (true) { if (in.p == in.b.size()) { in.eof_ = true; if (!any) in.fail_ = true; return in; } char c = in.b[in.p++]; any = true; if (c == '\n') return in; s.push_back(c); }
}
struct vf_ostringstream : vf_out { std::string str() const { return b; } };
struct vf_istringstream : vf_in { vf_istringstream() {} vf_istringstream(const std::string& s) { b = s; } };
struct vf_ifstream : vf_in {
    bool open_ = false; vf_ifstream() {} vf_ifstream(const std::string&, int = 0) { open_ = vf_file_exists; fail_ = !open_; b = vf_file_data; } bool is_open() const { return open_; }
    vf_ifstream& seekg(long o, int w = vf_ios::beg) { if (!fail_) { eof_ = false; p = w == vf_ios::end ? b.size() : (size_t)o; } return *this; } long tellg() { return fail_ ? -1 : (long)p; }
    vf_ifstream& read(char* d, long n) { while (n-- > 0) { if (p == b.size()) { eof_ = fail_ = true; break; } *d++ = b[p++]; } return *this; } void close() { open_ = false; }
};
struct vf_ofstream : vf_out {
    bool open_ = false; vf_ofstream() {} vf_ofstream(const std::string& n, int = 0) { open(n); } void open(const std::string&, int = 0) { open_ = vf_file_writable; fail_ = !open_; b.clear(); } bool is_open() const { return open_; }
    void close() { if (open_) { vf_file_data = b; vf_file_exists = true; } open_ = false; } ~vf_ofstream() { close(); }
};
inline vf_out& operator<<(vf_out& o, decltype(std::setprecision(0)) p) { return o; }
inline vf_out& operator<<(vf_out& o, vf_in* i) { if (i->p == i->b.size()) o.fail_ = true; while (i->p < i->b.size()) o.put_(i->b[i->p++]); return o; }
}
#define ostringstream vf_ostringstream
#define istringstream vf_istringstream
#define ifstream vf_ifstream
#define ofstream vf_ofstream
#define ios vf_ios
static std::string vf_path() { return "f"; }
static void vf_put_file(const std::string& s) { vf_file_data = s; vf_file_exists = true; }
static std::string vf_get_file() { return vf_file_data; }
#else
#include <cstdlib>
#include <unistd.h>
struct vf_scratch { std::string dir; vf_scratch() { char t[] = "/tmp/vfioXXXXXX"; dir = mkdtemp(t); } std::string path() { return dir + "/f"; } ~vf_scratch() { ::unlink(path().c_str()); ::rmdir(dir.c_str()); } };
static vf_scratch& vf_sc() { static vf_scratch s; return s; }
static std::string vf_path() { return vf_sc().path(); }
static void vf_put_file(const std::string& s) { std::ofstream o(vf_path(), std::ios::binary); o << s; }
static std::string vf_get_file() { std::ifstream i(vf_path(), std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str(); }
#endif
