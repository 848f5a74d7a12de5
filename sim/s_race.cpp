// C14: the workloads and faults of the other scenarios, watched for unsynchronised accesses and
// for uses of memory that is not there (any more).  What the replies say is not judged here.
#include "scen.hpp"

namespace sim {
static std::unique_ptr<Scenario> c14() {
    static const char* base[] = {
        "c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c08", "c09", "c09", "c10", "c11", "c12", "c13", "c13", "c16",
        "c17", "c18", "c19", "c19", "c20", "c20", "c21", "c22", "c22", "c23", "c23" };
    const char* b = base[(g_cfg.seed * 0x9E3779B97F4A7C15ull >> 33) % (sizeof base / sizeof *base)];
    g_race_on = true;
    g_only = {"race", "memory"};
    reach((string("workload-") + b).c_str());
    return scenarios()[b]();
}
static RegScen reg_c14("c14", c14);
} // namespace sim
