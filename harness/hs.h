// strings
#pragma once
#include "hg.h"
#include <vif/utility/string.hpp>
typedef std::string str;
// g_pad > 0: the main string gets g_pad fixed characters in its middle, to make it longer than what is symbolic
static u64 g_pad = 0;
static str padded(const str& s, char c, const char* nm) { if (g_pad == 0 || nm[0] != 'c') return s; u64 h = s.size()/2; str r; for (u64 i = 0; i < h; ++i) r.push_back(s.data()[i]); for (u64 i = 0; i < g_pad; ++i) r.push_back(i % 7 == 3 ? 'y' : c); for (u64 i = h; i < s.size(); ++i) r.push_back(s.data()[i]); return r; }
// n arbitrary bytes
inline str sstr(u64 n, const char* nm = "c") { str s(n, 'x'); for (u64 i = 0; i < n; ++i) s[i] = sym_char(nm); return padded(s, 'x', nm); }
// n characters of a small alphabet (k letters from "ab c;")
inline str astr(u64 n, const char* alpha, const char* nm = "c") {
    u64 k = std::strlen(alpha); str s(n, 'x');
    for (u64 i = 0; i < n; ++i) { u64 j = (u64)sym_in(0, (i64)k - 1, nm); s[i] = pick_at(alpha, k, j); }
    return padded(s, alpha[0], nm);
}
// branch-free comparison of two strings of known sizes
inline bool eq(const str& a, const str& b) { if (a.size() != b.size()) return false; bool r = true; for (u64 i = 0; i < a.size(); ++i) r &= a.data()[i] == b.data()[i]; return r; }
// does p occur in s at i (i + |p| <= |s|)
inline bool at(const str& s, u64 i, const str& p) { if (i + p.size() > s.size()) return false; bool r = true; for (u64 k = 0; k < p.size(); ++k) r &= s.data()[i + k] == p.data()[k]; return r; }
inline bool inset(char c, const str& set) { bool r = false; for (u64 k = 0; k < set.size(); ++k) r |= c == set.data()[k]; return r; }
inline str cat(const str& a, u64 from, u64 to) { str r; for (u64 i = from; i < to; ++i) r.push_back(a.data()[i]); return r; }
