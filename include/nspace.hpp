// Workspace for bounded stand-ins: the real prefix/cache over the real no-op storage, with an allocator that
// detects overlaps (every allocation gets addresses never used before).
#pragma once
#include <nb.hpp>
#include <unordered_map>
#include <dbzero/core/memory/Memspace.hpp>
#include <dbzero/core/memory/CacheRecycler.hpp>
#include <dbzero/core/memory/PrefixImpl.hpp>
#include <dbzero/core/storage/Storage0.hpp>
#include <dbzero/core/memory/Allocator.hpp>
namespace nb {
    class Bump: public db0::Allocator {
    public:
        std::unordered_map<uint64_t, std::size_t> live; uint64_t next = 4096; uint64_t step;
        explicit Bump(uint64_t s): step(s) {}
        std::optional<db0::Address> tryAlloc(std::size_t size, std::uint32_t, bool, unsigned char, unsigned char) override { uint64_t a = next; next += (size + step - 1) / step * step; live[a] = size; return db0::Address::fromOffset(a); }
        std::optional<db0::UniqueAddress> tryAllocUnique(std::size_t size, std::uint32_t, bool, unsigned char, unsigned char) override { uint64_t a = next; next += (size + step - 1) / step * step; live[a] = size; return db0::UniqueAddress(db0::Address::fromOffset(a), 1); }
        void free(db0::Address a) override { if (!live.erase(a.getOffset())) nb::fail("free of an address that is not allocated"); }
        std::size_t getAllocSize(db0::Address a) const override { auto i = live.find(a.getOffset()); if (i == live.end()) nb::fail("size of an address that is not allocated"); return i->second; }
        bool isAllocated(db0::Address a, std::size_t *s) const override { auto i = live.find(a.getOffset()); if (i == live.end()) return false; if (s) *s = i->second; return true; }
        void commit() const override {} void detach() const override {}
    };
    struct Space {
        std::atomic<std::size_t> dirty{0}; db0::CacheRecycler rec; std::shared_ptr<db0::Prefix> prefix; std::shared_ptr<Bump> alloc; db0::Memspace ms;
        explicit Space(std::size_t page = 4096, std::size_t step = 4096): rec(2u << 30, dirty) {
            prefix = std::shared_ptr<db0::Prefix>(new db0::PrefixImpl(std::string("nb"), dirty, rec, std::make_shared<db0::Storage0>(page)));
            alloc = std::make_shared<Bump>(step); ms = db0::Memspace(prefix, alloc, 1);
        }
        ~Space() { ms = db0::Memspace(); prefix->close(); prefix = nullptr; rec.clear(); }
    };
}
