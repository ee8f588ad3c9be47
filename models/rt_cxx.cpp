// C++ runtime model for the symbolic executor (engine builds only): the out-of-line parts of libstdc++ that headers call.
#include <map>
#include <list>
#include <unordered_map>
#include <cmath>
#include <string>
template class std::__cxx11::basic_string<char>; template class std::__cxx11::basic_string<wchar_t>;
extern "C" { void sx_cut(const char*); void abort(); 
void* _ZTVN10__cxxabiv117__class_type_infoE[4]; void* _ZTVN10__cxxabiv120__si_class_type_infoE[4]; void* _ZTVN10__cxxabiv121__vmi_class_type_infoE[4];
int __cxa_guard_acquire(long long* g) { return !*(char*)g; } void __cxa_guard_release(long long* g) { *(char*)g = 1; } void __cxa_pure_virtual() { abort(); }
int __gthr_win32_mutex_lock(void*) { return 0; } int __gthr_win32_mutex_unlock(void*) { return 0; } int __gthr_win32_mutex_trylock(void*) { return 0; } void __gthr_win32_mutex_init_function(void*) {} int __gthr_win32_mutex_destroy(void*) { return 0; }
int __gthr_win32_recursive_mutex_lock(void*) { return 0; } int __gthr_win32_recursive_mutex_unlock(void*) { return 0; } int __gthr_win32_recursive_mutex_init_function(void*) { return 0; }
int pthread_mutex_lock(void*) { return 0; } int pthread_mutex_unlock(void*) { return 0; }
}
namespace std {
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
// an unbalanced binary search tree has the same observable order
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    h._M_color = _S_red;
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    // standard unlink, no recolouring
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    _Rb_tree_node_base*& root = h._M_parent;
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (h._M_left == z) { if (!z->_M_right) h._M_left = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
        if (h._M_right == z) { if (!z->_M_left) h._M_right = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
    }
    return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto* t = this; do { auto* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3469, 6949, 14033};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = p; return p; } sx_cut("rehash"); return 0; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
    if (ne + ni <= _M_next_resize) return {false, 0};
    size_t mb = ne + ni; if (mb < 11 && !_M_next_resize) mb = 11;
    if (mb >= nb) { size_t w = mb + 1 > nb * 2 ? mb + 1 : nb * 2; return {true, _M_next_bkt(w)}; }
    _M_next_resize = nb; return {false, 0};
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + c[i]; return h; }
}
