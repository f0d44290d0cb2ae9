// bodies for the few libstdc++ functions that live in the shared library
#include <unordered_map>
#include <map>
#include <set>
namespace std {
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 13; while (p < n) p = 2 * p + 1; _M_next_resize = p; return p; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize || nb == 1) { size_t want = ne + ni; if (nb == 1 || want >= nb) return {true, _M_next_bkt(want + 1 > 2 * nb ? want + 1 : 2 * nb)}; _M_next_resize = nb; }
  return {false, 0};
}
}
}
#include <string>
template class std::basic_string<char>;
// the tree of std::map and std::set, kept as a plain search tree: every node black, no rebalancing
namespace std {
typedef _Rb_tree_node_base RbN;
static RbN *rb_inc(RbN *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  RbN *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static RbN *rb_dec(RbN *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { RbN *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  RbN *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
RbN *_Rb_tree_increment(RbN *x) throw() { return rb_inc(x); }
const RbN *_Rb_tree_increment(const RbN *x) throw() { return rb_inc(const_cast<RbN *>(x)); }
RbN *_Rb_tree_decrement(RbN *x) throw() { return rb_dec(x); }
const RbN *_Rb_tree_decrement(const RbN *x) throw() { return rb_dec(const_cast<RbN *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, RbN *x, RbN *p, RbN &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
RbN *_Rb_tree_rebalance_for_erase(RbN *const z, RbN &h) throw() {
  RbN *nl = z == h._M_left ? rb_inc(z) : h._M_left, *nr = z == h._M_right ? rb_dec(z) : h._M_right, *r;
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    RbN *s = z->_M_right; while (s->_M_left) s = s->_M_left;
    if (s != z->_M_right) { s->_M_parent->_M_left = s->_M_right; if (s->_M_right) s->_M_right->_M_parent = s->_M_parent; s->_M_right = z->_M_right; s->_M_right->_M_parent = s; }
    s->_M_left = z->_M_left; s->_M_left->_M_parent = s; r = s;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r; else z->_M_parent->_M_right = r;
  h._M_left = h._M_parent ? nl : &h; h._M_right = h._M_parent ? nr : &h;
  return z;
}
}
#include <list>
namespace std { namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  _List_node_base *t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
} }
