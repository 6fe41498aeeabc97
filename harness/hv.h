// Common includes and builders for harnesses on vif vectors.
#pragma once
#include "vf.h"
#include <string>
#include <vif/core/vec.hpp>
#include <vif/core/range.hpp>
#include <vif/core/print.hpp>
#include <vif/core/error.hpp>
#include <vif/core/string_conversion.hpp>
using namespace vif;
#define MAXN 32
// fill an already dimensioned vector with fresh symbolic values
template<std::size_t D, class T> inline void fill_sym(vec<D,T>& v, const char* n = "e") { for (std::size_t i = 0; i < v.data.size(); ++i) v.data[i] = sym<T>(n); }
template<std::size_t D> inline void fill_sym(vec<D,bool>& v, const char* n = "e") { for (std::size_t i = 0; i < v.data.size(); ++i) v.data[i] = sym_bool(n); }
// small exact doubles / with NaN
template<std::size_t D> inline void fill_q(vec<D,double>& v, i64 lo, i64 hi) { for (std::size_t i = 0; i < v.data.size(); ++i) v.data[i] = sym_q(lo, hi); }
template<std::size_t D> inline void fill_qn(vec<D,double>& v, i64 lo, i64 hi) { for (std::size_t i = 0; i < v.data.size(); ++i) v.data[i] = sym_qn(lo, hi); }
template<class T> inline vec<1,T> svec(u64 n, const char* nm = "e") { vec<1,T> v(n); fill_sym(v, nm); return v; }
// concrete distinct elements 10,11,12,...
template<std::size_t D, class T> inline void fill_iota(vec<D,T>& v, int b = 10) { for (std::size_t i = 0; i < v.data.size(); ++i) v.data[i] = (T)(b + (int)i); }
template<std::size_t D, class T> inline bool dims_ok(const vec<D,T>& v) { std::size_t s = 1; for (std::size_t i = 0; i < D; ++i) s *= v.dims[i]; return s == v.data.size(); }
// arr[idx] for symbolic idx<n, branch free
template<class T> inline T pick_at(const T* a, u64 n, u64 idx) { T r = a[0]; for (u64 i = 1; i < n; ++i) { T x = a[i]; bool c = idx == i; r = c ? x : r; } return r; }
