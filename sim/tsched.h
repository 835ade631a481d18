// Cooperative scheduler for real threads: one runs at a time, every switch is
// chosen here.  The repository's code is compiled so that each of its memory
// accesses calls into this file.
#ifndef SIM_TSCHED_H
#define SIM_TSCHED_H
#include "core.h"
namespace sim::ts {
static const int MAXT = 8;
struct Params { uint64_t seed = 1; int pg = 500, ps = 300, pa = 500; uint64_t po = 0; int pct = 0; uint64_t expect = 1000; uint64_t limit = 1ull << 26; bool explicit_ = false; std::vector<std::pair<std::pair<int, long long>, int>> sw; };
// The current process only counts accesses and notes which globals it writes.
void record(bool on);
uint64_t recorded();
// Globals written: kept in memory shared with the processes forked later.
void share_hot();
// Runs the bodies as threads under the scheduler; returns when all are done.
void run(const Params &p, const std::vector<std::function<void()>> &bodies);
uint64_t schedule_hash();
} // namespace sim::ts
#endif
