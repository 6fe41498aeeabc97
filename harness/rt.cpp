// Definitions, in IR, of the few non-header libstdc++ functions the library under test uses.
// Balanced-tree rebalancing is not observable, so plain binary-tree operations are used.
#include <map>
#include <list>
#include <cstddef>
#include <string>
template class std::basic_string<char>;
extern "C" int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" {
static int errno_;
int* __errno_location() noexcept { return &errno_; }
char* strcpy(char* d, const char* s) noexcept { char* r = d; while ((*d++ = *s++)) ; return r; }
double difftime(long a, long b) noexcept { return (double)(a - b); }
}
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; // header
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
        if (h._M_parent == o) h._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
        if (n) n->_M_parent = o->_M_parent;
    };
    if (h._M_left == z) h._M_left = z->_M_right ? _Rb_tree_node_base::_S_minimum(z->_M_right) : z->_M_parent;
    if (h._M_right == z) h._M_right = z->_M_left ? _Rb_tree_node_base::_S_maximum(z->_M_left) : z->_M_parent;
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        _Rb_tree_node_base* y = _Rb_tree_node_base::_S_minimum(z->_M_right);
        if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
    if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto* t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept {
    if (a._M_next != &a) {
        if (b._M_next != &b) { auto* t = a._M_next; a._M_next = b._M_next; b._M_next = t; t = a._M_prev; a._M_prev = b._M_prev; b._M_prev = t; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next->_M_prev = b._M_prev->_M_next = &b; }
        else { b._M_next = a._M_next; b._M_prev = a._M_prev; b._M_next->_M_prev = b._M_prev->_M_next = &b; a._M_next = a._M_prev = &a; }
    } else if (b._M_next != &b) { a._M_next = b._M_next; a._M_prev = b._M_prev; a._M_next->_M_prev = a._M_prev->_M_next = &a; b._M_next = b._M_prev = &b; }
}
}
}
// std::thread on top of the engine's threads
#include <thread>
#include "vf.h"
namespace std {
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)()) { _State* p = st.release(); _M_id = id((unsigned long)vf_spawn([](void* q) { _State* s = (_State*)q; s->_M_run(); delete s; }, p) + 1); }
void thread::join() { vf_join((int)(native_handle() - 1)); _M_id = id(); }
}
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(); }
} } }
// std::runtime_error: a pointer to a copy of the text after the vtable pointer
extern "C" {
void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void** self, const std::string& s) { char* p = (char*)__builtin_malloc(s.size() + 1); for (unsigned long i = 0; i < s.size(); ++i) p[i] = s[i]; p[s.size()] = 0; self[1] = p; }
void _ZNSt13runtime_errorD2Ev(void** self) { __builtin_free(self[1]); }
const char* _ZNKSt13runtime_error4whatEv(void** self) { return (const char*)self[1]; }
}
