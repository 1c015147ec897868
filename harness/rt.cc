// Bodies of functions that libstdc++ and libc keep in their binaries, so that the analysis can
// look into code that uses ordered and hashed containers, lists and number parsing.
#include <cstddef>
#include <list>
#include <map>
#include <unordered_map>
#include <cstd.hh>

// reference counts are taken to be shared between threads
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 0;

namespace std
{
  // search trees without rebalancing: the order of the nodes is what matters
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
  {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red;
  }
  static _Rb_tree_node_base* v_increment(_Rb_tree_node_base* x) noexcept
  {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
  }
  static _Rb_tree_node_base* v_decrement(_Rb_tree_node_base* x) noexcept
  {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
  }
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return v_increment(x); }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return v_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return v_decrement(x); }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return v_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
  {
    auto replace = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* w) {
      if (h._M_parent == u) h._M_parent = w; else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = w; else u->_M_parent->_M_right = w;
      if (w) w->_M_parent = u->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else
    {
      _Rb_tree_node_base* y = z->_M_right; while (y->_M_left) y = y->_M_left;
      if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
      replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; y->_M_color = _S_black;
    }
    _Rb_tree_node_base* r = h._M_parent;
    if (!r) { h._M_left = h._M_right = &h; return z; }
    h._M_left = r; while (h._M_left->_M_left) h._M_left = h._M_left->_M_left;
    h._M_right = r; while (h._M_right->_M_right) h._M_right = h._M_right->_M_right;
    return z;
  }

  namespace __detail
  {
    void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
    void _List_node_base::_M_unhook() noexcept { _List_node_base *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
    void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
    {
      if (this == last) return;
      last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
      _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
    }
    void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
    void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
    {
      _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev; const bool ex = xn == &x, ey = yn == &y;
      if (ey) x._M_next = x._M_prev = &x; else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = yp->_M_next = &x; }
      if (ex) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y; }
    }
    std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { std::size_t k = 13; while (k < n) k = 2*k + 1; _M_next_resize = k; return k; }
    std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t bkt, std::size_t elt, std::size_t ins) const
    { return elt + ins > _M_next_resize ? std::pair<bool, std::size_t>(true, _M_next_bkt(elt + ins > 2*bkt ? elt + ins : 2*bkt)) : std::pair<bool, std::size_t>(false, 0); }
  }
  std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed)
  { std::size_t h = seed; for (std::size_t i = 0; i < n; ++i) h = 31*h + static_cast<const unsigned char*>(p)[i]; return h; }
}
