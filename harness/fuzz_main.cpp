// libFuzzer driver: the first byte selects the law, the rest are the choices.
#include "engine.h"
#include <cstdio>
#include <cstdlib>
namespace pbt {
std::vector<Law>& laws() { static std::vector<Law> v; return v; }
std::vector<Finding>& findings() { static std::vector<Finding> v; return v; }
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    if (size < 1) return 0;
    auto& L = pbt::laws();
    pbt::Gen g; g.mode = pbt::Gen::Bytes; g.bytes = data + 1; g.nbytes = size - 1; g.reset();
    try { L[data[0] % L.size()].fn(g); }
    catch (const pbt::Discard&) { return -1; }
    catch (const std::exception& e) { fprintf(stderr, "law %s: %s\n", L[data[0] % L.size()].name, e.what()); abort(); }
    return 0;
}
