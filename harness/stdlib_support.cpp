// Bodies of standard-library functions that live in libstdc++.so, so that the executor can run them.
// Compiled with -D_GLIBCXX_EXTERN_TEMPLATE=0.
#include <string>
#include <map>
#include <list>
#include <unordered_map>
template class std::basic_string<char>;
namespace std {
// simplified (unbalanced) red-black tree primitives: same ordering semantics
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
  h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *nl = nullptr, *nr = nullptr;
  if (z == h._M_left) nl = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment(z) : &h;
  if (z == h._M_right) nr = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h;
  auto replace = [&](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (o->_M_parent == &h) h._M_parent = n;
    else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n;
    else o->_M_parent->_M_right = n;
    if (n) n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left) replace(z, z->_M_right);
  else if (!z->_M_right) replace(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  if (nl) h._M_left = nl;
  if (nr) h._M_right = nr;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  std::size_t r = n < 13 ? 13 : (n | 1);
  _M_next_resize = r * _M_max_load_factor;
  return r;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t b, std::size_t e, std::size_t i) const {
  if (e + i > b) return {true, _M_next_bkt((e + i) * 2)};
  return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 31 + ((const unsigned char*) p)[i];
  return h;
}
}
#include <cstdlib>
extern "C" ldiv_t ldiv(long a, long b) noexcept { ldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
extern "C" lldiv_t lldiv(long long a, long long b) noexcept { lldiv_t r; r.quot = a / b; r.rem = a % b; return r; }
extern "C" div_t div(int a, int b) noexcept { div_t r; r.quot = a / b; r.rem = a % b; return r; }
