// Contract of the ordered tree behind the page indexes (the real container: bounded histories here and in C12).  Found
// before the real header on the include path of proof_index.cpp only; the index code is compiled unchanged against it.
#pragma once
#include <array>
#include <utility>
#include <optional>
#include <dbzero/core/memory/Memspace.hpp>
#include <dbzero/core/memory/AccessOptions.hpp>
#include <dbzero/core/memory/config.hpp>
namespace db0 {
    template <class T> struct TreeContract;     // ghost state and behaviour, defined by the harness
    template <class C, class H> struct ContractNodeIt { struct Node { const H &header() const { return *C::header(); } }; Node n; const Node *operator->() const { return &n; } };
    template <class C, class H, class MemberT> MemberT &modifyMember(ContractNodeIt<C, H> &, const MemberT &m) { return const_cast<MemberT &>(m); }
    template <class ItemT, class CompressedItemT, class HeaderT, class C1, class C2, class E1, class E2, class TreeHeaderT> struct SGB_CompressedLookupTree {
        typedef TreeContract<SGB_CompressedLookupTree> C;
        typedef ContractNodeIt<C, HeaderT> sg_tree_const_iterator;
        struct ConstItemIterator: std::pair<const CompressedItemT *, sg_tree_const_iterator> { bool isEnd() const { return !this->first; } const CompressedItemT *get() const { return this->first; } };
        SGB_CompressedLookupTree() = default;
        SGB_CompressedLookupTree(Memspace &, std::size_t, AccessType) {}
        SGB_CompressedLookupTree(mptr, std::size_t, AccessType) {}
        void insert(const ItemT &i) { C::insert(i); }
        template <class K> std::optional<ItemT> lower_equal_bound(const K &k) const { return C::lower(k); }
        template <class K> const CompressedItemT *lower_equal_bound(const K &k, sg_tree_const_iterator &) const { return C::lowerPtr(k); }
        template <class K> std::optional<ItemT> upper_equal_bound(const K &k) const { return C::upper(k); }
        template <class K> ConstItemIterator findLower(const K &k) const { ConstItemIterator r; r.first = C::lowerPtr(k); return r; }
        const TreeHeaderT &treeHeader() const { return C::th(); }
        TreeHeaderT &modifyTreeHeader() { return C::th(); }
        template <class F> void forAll(const F &) const {}
        Address getAddress() const { return {}; }
        bool empty() const { return C::empty(); } std::size_t size() const { return 0; } void commit() const {} void detach() const {} bool operator!() const { return false; }
    };
}
