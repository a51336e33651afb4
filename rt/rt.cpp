// Definitions of out-of-line standard library functions, executed symbolically.
#include <cstddef>
#include <cstring>
#include <map>
#include <unordered_map>
#include <list>
namespace std
{
// search tree without rebalancing: same observable order
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
	if (x->_M_right)
	{
		x = x->_M_right;
		while (x->_M_left) x = x->_M_left;
	}
	else
	{
		_Rb_tree_node_base* y = x->_M_parent;
		while (x == y->_M_right) { x = y; y = y->_M_parent; }
		if (x->_M_right != y) x = y;
	}
	return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
	else if (x->_M_left)
	{
		_Rb_tree_node_base* y = x->_M_left;
		while (y->_M_right) y = y->_M_right;
		x = y;
	}
	else
	{
		_Rb_tree_node_base* y = x->_M_parent;
		while (x == y->_M_left) { x = y; y = y->_M_parent; }
		x = y;
	}
	return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
	x->_M_parent = p;
	x->_M_left = 0;
	x->_M_right = 0;
	x->_M_color = _S_black;
	if (left)
	{
		p->_M_left = x;
		if (p == &h) { h._M_parent = x; h._M_right = x; }
		else if (p == h._M_left) h._M_left = x;
	}
	else
	{
		p->_M_right = x;
		if (p == h._M_right) h._M_right = x;
	}
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
	_Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right;
	_Rb_tree_node_base *y = z, *x = 0, *xp = 0;
	if (y->_M_left == 0) x = y->_M_right;
	else if (y->_M_right == 0) x = y->_M_left;
	else
	{
		y = y->_M_right;
		while (y->_M_left != 0) y = y->_M_left;
		x = y->_M_right;
	}
	if (y != z)
	{
		z->_M_left->_M_parent = y;
		y->_M_left = z->_M_left;
		if (y != z->_M_right)
		{
			xp = y->_M_parent;
			if (x) x->_M_parent = y->_M_parent;
			y->_M_parent->_M_left = x;
			y->_M_right = z->_M_right;
			z->_M_right->_M_parent = y;
		}
		else xp = y;
		if (root == z) root = y;
		else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
		else z->_M_parent->_M_right = y;
		y->_M_parent = z->_M_parent;
		y = z;
	}
	else
	{
		xp = y->_M_parent;
		if (x) x->_M_parent = y->_M_parent;
		if (root == z) root = x;
		else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
		else z->_M_parent->_M_right = x;
		if (lm == z)
		{
			if (z->_M_right == 0) lm = z->_M_parent;
			else { _Rb_tree_node_base* q = x; while (q->_M_left) q = q->_M_left; lm = q; }
		}
		if (rm == z)
		{
			if (z->_M_left == 0) rm = z->_M_parent;
			else { _Rb_tree_node_base* q = x; while (q->_M_right) q = q->_M_right; rm = q; }
		}
	}
	(void)xp;
	return y;
}
namespace __detail
{
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
	static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949};
	size_t i = 0;
	while (i < 11 && pr[i] < n) ++i;
	_M_next_resize = pr[i];
	return pr[i];
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
	if (ne + ni > _M_next_resize || nb < ne + ni) return std::make_pair(true, _M_next_bkt(ne + ni + 1 > nb * 2 ? ne + ni + 1 : nb * 2));
	return std::make_pair(false, (size_t)0);
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
	_M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
	_M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
	if (this == last) return;
	last->_M_prev->_M_next = this;
	first->_M_prev->_M_next = last;
	_M_prev->_M_next = first;
	_List_node_base* const t = _M_prev;
	_M_prev = last->_M_prev;
	last->_M_prev = first->_M_prev;
	first->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept
{
	_List_node_base* t = this;
	do
	{
		_List_node_base* n = t->_M_next;
		t->_M_next = t->_M_prev;
		t->_M_prev = n;
		t = n;
	} while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
	bool xe = x._M_next == &x, ye = y._M_next == &y;
	_List_node_base a = x, b = y;
	if (ye) x._M_next = x._M_prev = &x; else { x = b; x._M_next->_M_prev = x._M_prev->_M_next = &x; }
	if (xe) y._M_next = y._M_prev = &y; else { y = a; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
}
}
}
namespace std
{
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
	size_t h = seed ^ 14695981039346656037ul;
	for (size_t i = 0; i < n; ++i) { h ^= ((const unsigned char*)p)[i]; h *= 1099511628211ul; }
	return h;
}
}
