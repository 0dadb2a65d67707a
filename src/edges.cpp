// Counts the control-flow edges executed in units compiled with
// -fsanitize-coverage=trace-pc-guard.
#include "pbt.hpp"
unsigned long long g_edges = 0;
extern "C" void __sanitizer_cov_trace_pc_guard_init(unsigned* start, unsigned* stop) { for (unsigned* p = start; p < stop; ++p) *p = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard(unsigned*) { ++g_edges; }

namespace cplx
{
struct Cost { pbt::u64 e, c, p, a, b, s; };
// For calibration: PBT_STAT names a file that receives the costs.
void stat(const char* what, pbt::u64 units, const Cost& d)
{
    static FILE* f = std::getenv("PBT_STAT") ? std::fopen(std::getenv("PBT_STAT"), "a") : nullptr;
    if (f) { std::fprintf(f, "%s|%llu|%llu|%llu|%llu|%llu\n", what, (unsigned long long)units, (unsigned long long)d.e, (unsigned long long)d.c, (unsigned long long)d.a, (unsigned long long)d.s); std::fflush(f); }
}
}
