#pragma once
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
namespace vcn {
struct AssumeFail {};
extern std::vector<std::pair<std::string, uint64_t>> queue; extern size_t qpos; extern bool misaligned;
extern std::vector<int64_t> params; extern std::vector<std::string> failures; extern uint64_t nAsserts, nAssumeFail; extern bool threwFlag;
extern std::function<uint64_t(unsigned, const char*)> gen;
}
