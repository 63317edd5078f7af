// Bitcode C++ library support for the symbolic run only (natively the real libraries are used).
#include "sx.h"
#include <list>
#include <map>
#include <new>
#include <unordered_map>
namespace std {
// red-black tree support as an unbalanced binary search tree (the balance is not observable)
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black; h._M_color = _S_red;
  if (p == &h) { h._M_parent = h._M_left = h._M_right = x; } else if (left) { p->_M_left = x; if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
  if (h._M_left == z) { h._M_left = z->_M_right ? [&] { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; return y; }() : z->_M_parent; }
  if (h._M_right == z) { h._M_right = z->_M_left ? [&] { auto y = z->_M_left; while (y->_M_right) y = y->_M_right; return y; }() : z->_M_parent; }
  if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
  else { _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
}
const nothrow_t nothrow{};
}
#include <stdexcept>
#include <string>
namespace std { // exception classes of the C++ library (the message text is kept)
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
static char* sx_dup(const char* s, size_t n) { char* p = (char*)__builtin_malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
#define SX_EXC(T, B) T::T(const char* s) : B() { *(char**)&_M_msg = sx_dup(s, __builtin_strlen(s)); } T::T(const string& s) : B() { *(char**)&_M_msg = sx_dup(s.data(), s.size()); } T::~T() noexcept {} const char* T::what() const noexcept { return *(char* const*)&_M_msg; }
__cow_string::__cow_string() {} __cow_string::~__cow_string() {}
SX_EXC(runtime_error, exception) SX_EXC(logic_error, exception)
invalid_argument::invalid_argument(const char* s) : logic_error(s) {} invalid_argument::invalid_argument(const string& s) : logic_error(s) {} invalid_argument::~invalid_argument() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {} out_of_range::out_of_range(const string& s) : logic_error(s) {} out_of_range::~out_of_range() noexcept {}
}
namespace std { namespace __detail {
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { static const size_t pr[] = {1, 2, 3, 5, 7, 11, 13, 17, 29, 37, 59, 97, 127, 257, 541, 1109, 2357, 5087, 10273, 20753}; for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const { if (ne + ni > nb || nb < 2) return {true, _M_next_bkt(std::max<size_t>((ne + ni) * 2, 13))}; return {false, 0}; }
} 
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* s = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + s[i]; return h; }
}
