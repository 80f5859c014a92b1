// Support library for the symbolic build: bodies (interpreted like any other code) for a few libc /
// libstdc++ functions that exist only in binary form.  Trusted: they state the documented behaviour.
#pragma once
// loops of the search tree and of sorted runs, for harnesses that give invariants for other loops only
#define INV_tree_lower_bound
#define INV_tree_upper_equal_bound
#define INV_tree_lower_equal_bound
#define INV_tree_join_fwd_up
#define INV_tree_join_fwd_down
#define INV_tree_join_back_up
#define INV_tree_join_back_down
#define INV_tree_link_upper
#define INV_tree_insert_upper
#define INV_tree_minimum
#define INV_tree_maximum
#define INV_sorted_join_fwd
#define INV_sorted_join_back
#define INV_bindex_insert_split
#define INV_sv_pop_front_move
#define INV_sv_pop_front_skip
#define INV_sv_pop_back_skip
#define INV_sv_bulk_push_back
#define INV_sv_insert_reverse
#define INV_sv_insert_reverse_shift
#define INV_sv_insert_shift
#define INV_sv_erase_shift
#define INV_sv_bulk_erase
#define INV_sv_bulk_erase_sorted
#define INV_sv_unique_fill
#define INV_sv_unique_merge
#define INV_sv_unique_append
#ifndef DB0_INVARIANT
#define DB0_INVARIANT(x)
#endif
#ifdef VC_SYMBOLIC
#include <cstddef>
#include <cstdint>
#include <string.h>
#undef memchr
extern "C" {
int memcmp(const void *a, const void *b, size_t n) noexcept {
    const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void *a, const void *b, size_t n) noexcept { return memcmp(a, b, n); }
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) noexcept { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) ; return r; }
void *vrt_memchr(const void *p, int c, size_t n) __asm__("memchr");
void *vrt_memchr(const void *p, int c, size_t n) { const unsigned char *x = (const unsigned char *)p; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return nullptr; }
}
#include <map>
#include <list>
#include <unordered_map>
namespace std {
    // red-black tree: insertion/erasure without rebalancing (a BST with the same in-order sequence)
    _Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) noexcept {
        if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
        return x;
    }
    const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
    _Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) noexcept {
        if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
        if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        return y;
    }
    const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
    void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept {
        x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
        if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
        else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    }
    namespace __detail {
        void _List_node_base::_M_hook(_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
        void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
        void _List_node_base::_M_transfer(_List_node_base *f, _List_node_base *l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
        std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { return {false, 0}; }
        size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n ? n : 1; }
    }
    size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 131 + ((const unsigned char *)p)[i]; return h; }
}
#endif
#if defined(VC_SYMBOLIC) && defined(VRT_STRING)
#include <string>
template class std::basic_string<char>;
#endif
