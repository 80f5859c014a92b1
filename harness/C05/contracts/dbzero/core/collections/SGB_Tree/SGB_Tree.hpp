// Contract of the ordered set used by the allocator (the real container is the subject of C12).  Found before the real
// header on the include path of proof_crdt_steps.cpp only; the allocator's own code is compiled unchanged against it.
#pragma once
#include <array>
#include <utility>
#include <dbzero/core/memory/Memspace.hpp>
namespace db0 {
    template <class T> struct SetContract;      // ghost state and behaviour, defined by the harness
    struct o_null;
    template <class T, class CompT, class EqT, class SizeT, class AddrT, class... X> struct SGB_Tree {
        struct Node { bool operator!=(const Node &) const { return true; } bool operator==(const Node &) const { return false; } };
        struct ItemIterator { T *first = nullptr; Node second; };
        struct ConstItemIterator {
            const T *first = nullptr; Node second;
            ConstItemIterator() = default; ConstItemIterator(const T *p): first(p) {} ConstItemIterator(const ItemIterator &i): first(i.first) {}
            bool isEnd() const { return !first; } bool validate() const { return true; }
            const T *operator->() const { return first; }
        };
        struct Unsorted {
            ConstItemIterator it; int left = 3;
            bool is_end() const { return it.isEnd(); } const T &operator*() const { return *it.first; }
            void operator++() { it = SetContract<SGB_Tree>::next(left--); }
            const ConstItemIterator &get() const { return it; } ConstItemIterator &getMutable() { return it; }
        };
        using WindowT = std::array<ConstItemIterator, 3>;
        typedef SetContract<SGB_Tree> C;
        template <class K> bool lower_equal_window(const K &k, WindowT &w) const { return C::window(k, w); }
        static T *modify(WindowT &w) { return const_cast<T *>(w[1].first); }
        static T *modify(ConstItemIterator &i) { return const_cast<T *>(i.first); }
        void insert(const T &t) { C::insert(t); }
        template <class... A> ItemIterator emplace(A... a) { return { C::emplace(a...), {} }; }
        void erase(ConstItemIterator &i) { C::erase(i.first); }
        void erase(Unsorted &i) { C::erase(i.it.first); }
        template <class K> ConstItemIterator find_equal(const K &k) const { return C::find_equal(k); }
        template <class K> ConstItemIterator lower_equal_bound(const K &k) const { return C::lower_equal_bound(k); }
        template <class K> ConstItemIterator upper_equal_bound(const K &k) const { return C::upper_equal_bound(k); }
        ConstItemIterator find_max() const { return C::find_max(); }
        bool empty() const { return C::empty(); }
        Unsorted upper_slice(const ConstItemIterator &i) const { Unsorted u; u.it = i; return u; }
        Unsorted rbegin_unsorted() const { Unsorted u; ++u; return u; }
    };
}
