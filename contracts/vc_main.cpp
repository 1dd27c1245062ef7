// replay <entry> <file> params... : run a contract natively on a counterexample.  exit 1: violated, 0: holds, 3: assumptions do not hold.
#include "vc.h"
#include "vc_native.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
extern "C" void vc_native_init(void);
int main(int argc, char** argv) {
    vc_native_init(); std::string mode = argv[1], entry = argv[2];
    void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, entry.c_str()); if (!f) { fprintf(stderr, "no entry\n"); return 3; }
    std::ifstream in(argv[3]); std::string n; uint64_t v; while (in >> n >> v) vcn::queue.push_back({n, v});
    for (int i = 4; i < argc; ++i) vcn::params.push_back(strtoll(argv[i], 0, 0));
    try { f(); } catch (vcn::AssumeFail&) { printf("assumption not satisfied\n"); if (vcn::failures.empty()) return 3; }
    catch (std::exception& e) { printf("uncaught exception %s\n", e.what()); return 1; }
    for (auto& s : vcn::failures) printf("violated: %s\n", s.c_str());
    printf("%llu assertions evaluated\n", (unsigned long long)vcn::nAsserts); return vcn::failures.empty() ? 0 : 1;
}
