// The simulated operating system seen by the code under test (build A):
// memory, files, standard streams, sub-commands, clock, process id, random
// device.  Everything here is driven by explicit configuration taken from the
// plan; nothing reads the real clock, the real file system or real randomness.
#ifndef SIM_OS_H
#define SIM_OS_H
#include "core.h"
#include <istream>
#include <streambuf>
#include <string>
#include <vector>

namespace sim::os {

// ---------------------------------------------------------------- memory
struct AllocPlan {
  std::vector<uint64_t> fail; // 1-based indices of failing allocations
  uint64_t from = 0;          // all allocations from this index on fail (0: none)
};
void alloc_on(const AllocPlan *plan = nullptr); // start tracking and injecting
void alloc_off();
void alloc_resume();                     // continue tracking with the current plan
bool alloc_tracking();
uint64_t alloc_count();                  // allocations since alloc_on
uint64_t alloc_fired();                  // failures injected since alloc_on
uint64_t alloc_live();                   // tracked blocks not yet freed
uint64_t alloc_live_bytes();
uint64_t alloc_total();                  // ever
// Tracked blocks not freed, allocated after mark: "size@seq" list.
std::string alloc_live_list(uint64_t mark, int max = 8);
uint64_t alloc_mark();                   // current sequence number
uint64_t alloc_live_since(uint64_t mark);
struct Track { // RAII: tracked region
  explicit Track(const AllocPlan *p = nullptr) { alloc_on(p); }
  ~Track() { alloc_off(); }
};

// ---------------------------------------------------------------- delivery
// How the bytes of an input are cut into reads.
struct Delivery {
  uint64_t seed = 0;  // random sizes
  int chunk = 0;      // 0: as much as asked; n>0: at most n; -n: random 1..n
  int eintr = 0;      // per mille of interrupted reads (file streams only)
  long long err_at = -1; // byte offset at which reading fails
  int err_no = 5;     // EIO
  static Delivery from(const Line &l);
};
struct Acceptance {   // how output is accepted
  uint64_t seed = 0;
  int chunk = 0;      // as above: short writes
  int eintr = 0;      // per mille (file streams only)
  long long cap = -1; // bytes accepted before writing fails
  int err_no = 28;    // ENOSPC; 32 = EPIPE
  int once = 0;       // fail only once (transient), then accept
  int close_err = 0;
  static Acceptance from(const Line &l);
};

// ---------------------------------------------------------------- files
void file_put(const std::string &path, const std::string &content);
bool file_get(const std::string &path, std::string &content);
void file_read_cfg(const std::string &path, const Delivery &d, int open_errno = 0);
void file_write_cfg(const std::string &path, const Acceptance &a, int open_errno = 0);
int files_open(); // descriptors opened by the code and not closed

// ---------------------------------------------------------------- stdio
void stdio_install();                 // replace the standard streams
void stdin_set(const std::string &content, const Delivery &d);
void stdout_set(const Acceptance &a); // clears what was captured
std::string stdout_text();
std::string stderr_text();

// ---------------------------------------------------------------- clock
struct Clock { long long us = 1700000000000000ll; int step_us = 7; int pid = 4242; };
void clock_set(const Clock &c);
uint64_t clock_reads();

// ---------------------------------------------------------------- random device
struct DevStep { int kind; int n; }; // kind 0: deliver n bytes, 1: EINTR, 2: EIO, 3: EOF
struct Dev {
  bool active = false;
  std::vector<int> open_results;     // errno per open (0 ok); then ok
  std::vector<DevStep> reads;        // per read; then full delivery
  size_t oi = 0, ri = 0;
  uint64_t pos = 0;                  // bytes delivered so far
  uint64_t seed = 1;
  uint8_t byte(uint64_t i) const {
    // Every other device holds words that a careless caller might take for something else.
    if (seed & 1) { uint64_t h = mix(seed, ~(i / 4)); if (h % 3 == 0) { static const uint32_t w[] = {0, 0xffffffffu, 1, 0x80000000u, 0x7fffffffu, 0x5555aaaau}; return (uint8_t)(w[h / 3 % 6] >> (8 * (i % 4))); } }
    return (uint8_t)(mix(seed, i / 8) >> (8 * (i % 8)));
  }
};
extern Dev dev;
int dev_open_count();

// ---------------------------------------------------------------- processes
struct InnerFault { int kind = 0; int arg = 0; }; // 0 none 1 popen fails 2 killed 3 exit status arg 4 pipe read error after arg bytes 5 pclose fails 6 inner out of memory from allocation arg 7 inner output lost after arg bytes
struct Proc {
  std::vector<std::string> argv;
  std::string in; Delivery in_d;
  Acceptance out_a;
  AllocPlan alloc;
  Clock clock;
  Delivery pipe_d;                    // how sub-command output is delivered
  std::map<int, InnerFault> inner;    // by global sub-command number
  bool stdin_closed = false;
};
struct ProcResult {
  int status = 0;                     // wait status
  bool exited = false; int code = -1; int sig = 0;
  std::string out, err, crash;        // crash: sanitizer report, if any
  uint64_t allocs = 0, popens = 0, fired = 0, clock_reads = 0, in_taken = 0;
  bool ok() const { return exited && code == 0; }
};
ProcResult run_spiff(const Proc &p);

// ---------------------------------------------------------------- streams
// An istream source that delivers in pieces and fails by throwing, which
// istream turns into badbit (what a stream over a failing device does).
class PieceBuf : public std::streambuf {
public:
  PieceBuf(const std::string &s, const Delivery &d) : s_(s), d_(d), rng_(d.seed) {}
protected:
  int_type underflow() override;
private:
  std::string s_; Delivery d_; Rng rng_; size_t pos_ = 0; char buf_[512];
};

// Entropy override for the built-in generator is by seeding; nothing here.
} // namespace sim::os
#endif
