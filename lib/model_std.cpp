// bodies of the standard library templates that libstdc++ declares extern, and
// plain models of the few functions of its containers that live in the library
#include <string>
#include <list>
#include <map>
#include <unordered_map>
template class std::basic_string<char>;
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t p[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033, 28411, 57557, 116731}; for (size_t x : p) if (x >= n) { const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = x; return x; } return n; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b || b < 2) return {true, _M_next_bkt(e + i > 2 * b ? e + i : 2 * b)}; return {false, 0}; }
}
// search trees without rebalancing: the order, which is all that can be observed, is the same
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
  auto rep = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) { auto p = u->_M_parent; if (p == &h) h._M_parent = v; else if (p->_M_left == u) p->_M_left = v; else p->_M_right = v; if (v) v->_M_parent = p; };
  if (h._M_left == z && h._M_right == z) { h._M_left = h._M_right = &h; h._M_parent = nullptr; return z; }
  if (h._M_left == z) h._M_left = _Rb_tree_increment(z); else if (h._M_right == z) h._M_right = _Rb_tree_decrement(z);
  if (!z->_M_left) rep(z, z->_M_right); else if (!z->_M_right) rep(z, z->_M_left);
  else { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { rep(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } rep(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
  return z;
}
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  auto fix = [](_List_node_base& n, _List_node_base& o) { if (n._M_next == &o) n._M_next = n._M_prev = &n; else n._M_next->_M_prev = n._M_prev->_M_next = &n; };
  auto a = x._M_next, b = x._M_prev; x._M_next = y._M_next; x._M_prev = y._M_prev; y._M_next = a; y._M_prev = b; fix(x, y); fix(y, x);
}
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
}
}
