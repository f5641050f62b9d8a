// The parts of libstdc++'s node-based containers which live in the compiled library, as C++ code for the
// symbolic executor.  The tree is not balanced, which does not change the order of its elements.
#pragma once
namespace std
{
__attribute__((used)) inline _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
  if (x->_M_right)
  {
    x = x->_M_right;
    while (x->_M_left)
      x = x->_M_left;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right)
  {
    x = y;
    y = y->_M_parent;
  }
  return x->_M_right != y ? y : x;
}
__attribute__((used)) inline const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x));
}
__attribute__((used)) inline _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x)
    return x->_M_right;
  if (x->_M_left)
  {
    x = x->_M_left;
    while (x->_M_right)
      x = x->_M_right;
    return x;
  }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left)
  {
    x = y;
    y = y->_M_parent;
  }
  return y;
}
__attribute__((used)) inline const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{
  return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x));
}
// all nodes are black, the header is red
__attribute__((used)) inline void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
  x->_M_parent = p;
  x->_M_left = x->_M_right = nullptr;
  x->_M_color = _S_black;
  if (left)
  {
    p->_M_left = x;
    if (p == &h)
    {
      h._M_parent = x;
      h._M_right = x;
    }
    else if (p == h._M_left)
      h._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if (p == h._M_right)
      h._M_right = x;
  }
}
__attribute__((used)) inline _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
  if (z == h._M_left)
    h._M_left = z->_M_right || z->_M_parent != &h ? _Rb_tree_increment(z) : &h;
  if (z == h._M_right)
    h._M_right = z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h;
  const auto replace = [&h](_Rb_tree_node_base* o, _Rb_tree_node_base* n) {
    if (h._M_parent == o)
      h._M_parent = n;
    else if (o->_M_parent->_M_left == o)
      o->_M_parent->_M_left = n;
    else
      o->_M_parent->_M_right = n;
    if (n)
      n->_M_parent = o->_M_parent;
  };
  if (!z->_M_left)
    replace(z, z->_M_right);
  else if (!z->_M_right)
    replace(z, z->_M_left);
  else
  {
    _Rb_tree_node_base* y = z->_M_right;
    while (y->_M_left)
      y = y->_M_left;
    if (y != z->_M_right)
    {
      replace(y, y->_M_right);
      y->_M_right = z->_M_right;
      y->_M_right->_M_parent = y;
    }
    replace(z, y);
    y->_M_left = z->_M_left;
    y->_M_left->_M_parent = y;
  }
  return z;
}
}  // namespace std
