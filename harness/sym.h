// Harness API: interpreted symbolically by the engine (engine/intr.inc), natively by replay/runtime.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sym_bits(const char* name, int bits);          // fresh symbolic input
void sym_assume(int c);
void sym_assert(int c, const char* label);
void sym_assert_tag(int c, const char* label, uint64_t tag);
void sym_reach(const char* label);                       // vacuity witness: must be satisfiable
uint64_t sym_concretize(uint64_t v);
void sym_simplify(void* p, size_t n);                    // semantics: no-op
void sym_hint_equal(void* p, const void* q, size_t n);    // semantics: no-op (solver hint)
void sym_prune();                                        // semantics: no-op (solver hint)
void sym_vlist(void* p, size_t elem);                    // semantics: no-op
int sym_vcontains(const void* b, const void* e, uint32_t v, uint32_t mask);
uint32_t sym_vcount(const void* b, const void* e, uint32_t v, uint32_t mask);
long sym_param(const char* name, long dflt);
void sym_policy(const char* name, int v);
void sym_note(const char* name, uint64_t v);
void sym_allow_throw(int v);
uint64_t sym_ite(int c, uint64_t a, uint64_t b);         // branch-free if-then-else
int sym_or(int a, int b);
int sym_and(int a, int b);
int sym_native();                                         // 0 under the engine, 1 when replaying on the real build
int sym_uf(const char* name, uint64_t arg);              // uninterpreted predicate
}
