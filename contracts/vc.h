// Contract language: executable specifications.  Under irvc every vc_nondet is universally quantified and
// every vc_assert is a proof obligation; in a native build the same text is run on concrete inputs
// (counterexample replay, bounded stand-ins).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vc_nondet(unsigned bits, const char* name);
void vc_assume(bool c);
void vc_assert(bool c, const char* id);
void vc_cover(const char* id);
int64_t vc_param(int i);
int vc_symbolic();
void* vc_sink_new(int elemSize);
bool vc_sink_has(void* s, uint32_t value, uint32_t mask);
bool vc_sink_dup(void* s, uint32_t value, uint32_t mask);
void vc_sink_end(void* s, void* end);
int64_t vc_sink_n(void* s);
bool vc_sink_guard(void* s, int64_t k);
uint32_t vc_sink_value(void* s, int64_t k);
int vc_is_const(uint64_t v);
int vc_feasible(bool c);
bool vc_threw();
void* vc_loop_local(int64_t size);
void vc_frame(const void* p, int64_t n);
void vc_havoc(void* p, int64_t n);
void vc_contract_loop();
void vc_log(const char* s, int64_t v);
}
// a value in [0,n)
static inline uint64_t vc_range(uint64_t n, const char* name) {
    unsigned bits = 0; while ((1ull << bits) < n) ++bits;
    uint64_t v = vc_nondet(bits, name); if ((1ull << bits) != n) vc_assume(v < n); return v;
}
