// Native execution of the contracts: nondeterministic values come from a counterexample (replay), or from a
// generator callback (bounded stand-ins); a false assumption abandons the case, a false assertion reports it.
#include "vc.h"
#include "vc_native.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <utility>
#include <setjmp.h>
namespace vcn {
std::vector<std::pair<std::string, uint64_t>> queue; size_t qpos = 0; bool misaligned = false;
std::vector<int64_t> params; std::vector<std::string> failures; uint64_t nAsserts = 0, nAssumeFail = 0; bool threwFlag = false;
std::function<uint64_t(unsigned, const char*)> gen; 
struct Sink { std::vector<uint32_t> mem; };
}
using namespace vcn;
extern "C" {
uint64_t vc_nondet(unsigned bits, const char* name) {
    uint64_t v = 0;
    if (gen) v = gen(bits, name);
    else if (qpos < queue.size()) { if (queue[qpos].first != name) { // tolerate skipped path-dependent values
            size_t k = qpos; while (k < queue.size() && queue[k].first != name) ++k; if (k < queue.size()) qpos = k; else { misaligned = true; return 0; } }
        v = queue[qpos++].second; }
    if (bits < 64) v &= (1ull << bits) - 1;
    return v;
}
void vc_assume(bool c) { if (!c) { ++nAssumeFail; throw AssumeFail(); } }
void vc_assert(bool c, const char* id) { ++nAsserts; if (!c) { if (failures.size() < 50) failures.push_back(id); } }
void vc_cover(const char*) {}
int64_t vc_param(int i) { return (size_t)i < params.size() ? params[i] : 0; }
int vc_symbolic() { return 0; }
static const size_t SINKSZ = 1 << 16; static int sinkElem = 8; static void* sinkEnd = nullptr;
void* vc_sink_new(int e) { sinkElem = e; char* p = (char*)calloc(1, SINKSZ); sinkEnd = p; return p; }
void vc_sink_end(void*, void* end) { sinkEnd = end; }
int64_t vc_sink_n(void* s) { return ((char*)sinkEnd - (char*)s) / sinkElem; }
uint32_t vc_sink_value(void* s, int64_t k) { uint32_t v; memcpy(&v, (char*)s + k * sinkElem, 4); return v; }
static int count(void* s, uint32_t value, uint32_t mask) { int n = 0; for (int64_t k = 0; k < vc_sink_n(s); ++k) n += (vc_sink_value(s, k) & mask) == (value & mask); return n; }
bool vc_sink_has(void* s, uint32_t value, uint32_t mask) { return count(s, value, mask) > 0; }
bool vc_sink_dup(void* s, uint32_t value, uint32_t mask) { return count(s, value, mask) > 1; }
bool vc_sink_guard(void*, int64_t) { return true; }
int vc_is_const(uint64_t) { return 1; }
int vc_feasible(bool c) { return c; }
bool vc_threw() { return threwFlag; }
void vc_havoc(void*, int64_t) {}
void vc_frame(const void*, int64_t) {}
void* vc_loop_local(int64_t) { return nullptr; }
void vc_contract_loop() {}
void vc_log(const char*, int64_t) {}
}
