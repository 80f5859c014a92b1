// Specification primitives.  In the verifier (VC_SYMBOLIC) they are interpreted by engine/vc.cpp;
// in a native build (replay of a counterexample, or a bounded stand-in) they are defined in vnative.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
    void v_assume(int);                               // precondition / hypothesis
    void v_assert(int, const char *);                 // postcondition (named obligation)
    void v_require(int, const char *);                // precondition of a replaced callee
    void v_inv(int);                                  // loop invariant (cut point of the innermost loop)
    void v_variant(uint64_t);                         // decreasing measure, stated just before v_inv
    void v_cover(const char *);                       // must be reachable (vacuity guard)
    void v_throws(int);                               // from here on an exception is permitted iff cond
    uint8_t v_in8(const char *); uint16_t v_in16(const char *); uint32_t v_in32(const char *); uint64_t v_in64(const char *); bool v_inbool(const char *);
    void *v_buf(const char *, uint64_t bytes, uint64_t elem); // buffer with arbitrary content
    uint64_t v_case(uint64_t, uint64_t limit);        // exhaustive case split
    void v_havoc(void *, uint64_t);
    void v_havoc_obj(void *);
    uint64_t v_fresh64();
    void v_replace(const char *, void *);             // replace calls by a contract
    void v_bounded(const char *);                     // this unit is a bounded check
    void v_note(const char *);                        // assumption recorded in the evidence
    void v_maxpaths(uint64_t);
    uint64_t v_uf(const char *, uint64_t, uint64_t);
    uint64_t v_ite(int, uint64_t, uint64_t);
    int v_and(int, int);
    uint64_t v_objsize(void *);
    int v_symbolic_mode();
}
#define V_UNIT(name) extern "C" __attribute__((used, noinline)) void v_unit_##name()
#define V_ASSERT(c) v_assert((c), #c)
