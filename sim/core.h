// Deterministic simulation core: PRNG, plans, simulated-process bookkeeping,
// search, minimisation, replay and evidence.  Shared by all simulators.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdint.h>
#include <stddef.h>
#include <functional>
#include <map>
#include <string>
#include <utility>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- PRNG
// xoshiro256** seeded by splitmix64.  Every random choice comes from one.
uint64_t mix64(uint64_t x);
inline uint64_t mix(uint64_t a, uint64_t b) { return mix64(mix64(a + 0x9e3779b97f4a7c15ull) ^ (b * 0xff51afd7ed558ccdull + 0x2545f4914f6cdd1dull)); }
struct Rng {
  uint64_t s[4];
  long drawn = 0, alter = -1; uint64_t by = 0; // draw number `alter` comes out changed
  explicit Rng(uint64_t seed = 1) { reseed(seed); }
  void reseed(uint64_t seed);
  uint64_t next();
  uint64_t below(uint64_t n) { return n <= 1 ? 0 : next() % n; }
  int range(int lo, int hi) { return hi <= lo ? lo : lo + (int)below((uint64_t)((int64_t)hi - lo + 1)); }
  bool chance(int num, int den) { return (int)below(den) < num; }
  template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- plans
// A plan is the complete, explicit description of one simulated run: a pure
// function of (property, seed), or read from a replay file.
struct Line {
  std::string kind;
  std::vector<std::pair<std::string, std::string>> kv;
  Line() {}
  explicit Line(const std::string &k) : kind(k) {}
  bool has(const char *k) const;
  std::string str(const char *k, const std::string &dflt = "") const;
  long long num(const char *k, long long dflt = 0) const;
  uint64_t u64(const char *k, uint64_t dflt = 0) const;
  Line &set(const char *k, const std::string &v);
  Line &set(const char *k, long long v);
  Line &setu(const char *k, uint64_t v);
  std::string text() const;
};
struct Plan {
  std::vector<Line> lines;
  Line &add(const std::string &kind) { lines.emplace_back(kind); return lines.back(); }
  const Line *first(const std::string &kind) const;
  std::vector<const Line *> all(const std::string &kind) const;
  std::string text() const;
  static bool parse(const std::string &text, Plan &out);
};
std::string enc(const std::string &s); // percent-encoding, no blanks
std::string dec(const std::string &s);

// ---------------------------------------------------------------- counters
#define SIM_COUNTERS(X) \
  X(cases, "cases (single executions judged)") \
  X(histories, "histories executed") \
  X(steps, "history steps executed") \
  X(oracle, "oracle comparisons") \
  X(procs, "simulated processes run") \
  X(f_alloc, "fault: allocation failed") \
  X(f_alloc_persist, "fault: memory exhausted for the rest of the call") \
  X(f_read_err, "fault: read error delivered") \
  X(f_read_short, "fault: short read delivered") \
  X(f_read_eintr, "fault: interrupted read delivered") \
  X(f_open, "fault: open failed") \
  X(f_write_short, "fault: short write") \
  X(f_write_eintr, "fault: interrupted write") \
  X(f_write_err, "fault: write failed (disk full, device error, reader gone)") \
  X(f_close_err, "fault: close failed") \
  X(f_trunc, "fault: input truncated") \
  X(f_damage, "fault: input byte damaged") \
  X(f_popen, "fault: sub-command could not be started") \
  X(f_inner_kill, "fault: sub-command killed") \
  X(f_inner_exit, "fault: sub-command exited with failure") \
  X(f_pipe_err, "fault: pipe read failed") \
  X(f_switch, "context switches forced inside calls") \
  X(f_malformed, "malformed inputs rejected with an exception") \
  X(f_clock, "clock readings served by the simulator") \
  X(f_entropy, "entropy words forced") \
  X(f_dev_eof, "fault: random device reported end of file") \
  X(p_oom_reported, "probe: out-of-memory reported by exception") \
  X(p_oom_stream, "probe: out-of-memory reported as a failed stream") \
  X(p_oom_completed, "probe: completed although an allocation failed") \
  X(p_reject, "probe: input rejected") \
  X(p_accept, "probe: input accepted") \
  X(p_prefix, "probe: whole-row prefix accepted") \
  X(p_retry_ok, "probe: retry after a fault succeeded") \
  X(p_exit0, "probe: process exited 0") \
  X(p_exitn, "probe: process exited with failure") \
  X(p_conflict, "probe: two threads touched the same shared word inside calls") \
  X(p_blocked, "probe: a thread had to wait for another") \
  X(p_global, "probe: accesses to writable globals") \
  X(p_carry, "probe: generator counter carried") \
  X(p_selfseed, "probe: generator seeded itself") \
  X(p_nested, "probe: nested sub-command") \
  X(p_irreducible, "probe: irreducible produced") \
  X(p_stored, "probe: store reported success") \
  X(p_store_failed, "probe: store reported failure") \
  X(accesses, "memory accesses under scheduler control") \
  X(sim_us, "simulated microseconds") \
  X(allocs, "allocations under simulator control") \
  X(bytes_in, "bytes delivered to the code by the simulator") \
  X(bytes_out, "bytes accepted from the code by the simulator")
enum Ctr {
#define X(n, d) C_##n,
  SIM_COUNTERS(X)
#undef X
  C_COUNT
};

// ---------------------------------------------------------------- run result
// Lives in memory shared between the search process and the simulated ones.
enum { ST_RUNNING = 0, ST_OK = 1, ST_VIOLATION = 2, ST_ERROR = 3 };
struct Result {
  int status;
  int nontrivial;
  char cls[160];
  char msg[6000];
  uint64_t hash;    // over the event log
  uint64_t nevents;
  uint64_t shape;   // distinctness measure (interleaving / fault placement)
  uint64_t ctr[C_COUNT];
  uint32_t ndistinct;
  uint64_t distinct[512]; // hashes of the distinct cases inside this run
  uint32_t trace_len;
  char trace[1 << 20];    // event log text (only kept when tracing)
  uint32_t extra_len;
  char extra[1 << 18];    // explicit schedule recorded by the run, plan lines
};
extern Result *R;
extern bool g_trace; // keep the event log text (never changes any choice)

void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void evh(uint64_t v);
void count(Ctr c, uint64_t n = 1);
void distinct(uint64_t h);
uint64_t hash_str(const std::string &s);
[[noreturn]] void violate(const std::string &cls, const std::string &msg);
[[noreturn]] void harness_error(const std::string &msg);
void extra_line(const std::string &line);

// ---------------------------------------------------------------- properties
struct Prop {
  const char *id;
  // Build the plan for one seed.
  void (*gen)(Rng &rng, Plan &plan);
  // Execute a plan inside a fresh simulated process; reports through R.
  void (*exec)(const Plan &plan);
  long quick_runs, thorough_runs; // number of seeds
  const char *rule;
  const char *components_real;
  const char *components_stub;
  // Per-worker initialisation, before the zygote forks (may be null).
  void (*init)();
};
std::vector<Prop> &props();
struct PropReg { PropReg(const Prop &p) { props().push_back(p); } };

std::string sprintf_s(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

int sim_main(int argc, char **argv);
} // namespace sim
#endif
