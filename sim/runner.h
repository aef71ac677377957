// Scenario registry and check tables.
#pragma once
#include "core.h"
namespace sim {
struct Scenario { const char *name; void (*fn)(int param); };
struct Plan { const char *scenario; int param; int quick, thorough; };
// asan: runs repeated with the code under test compiled with AddressSanitizer,
// where only the classes of failure that mean "the process crashed" count.
struct Check { const char *id; std::vector<Plan> plans; const char *rule; std::vector<Plan> asan; };
std::vector<Scenario> &scenarios();
std::vector<Check> &checks();
struct RegScenario { RegScenario(const char *n, void (*f)(int)) { scenarios().push_back(Scenario{n, f}); } };
struct RegCheck { RegCheck(const char *id, const char *rule, std::vector<Plan> p, std::vector<Plan> asan = {}) { checks().push_back(Check{id, p, rule, asan}); } };
#define SCENARIO(name) static void scn_##name(int param); static sim::RegScenario reg_##name(#name, scn_##name); static void scn_##name(int param)
extern std::string g_sample;     // human readable description of the run
inline void nontrivial() { stat("nontrivial"); }
// A failure of the harness itself (never a verdict about the code).
[[noreturn]] void harnessError(const std::string &msg);
} // namespace sim
