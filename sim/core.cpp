#include "core.h"
#include <algorithm>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <set>
#include <unordered_set>

namespace sim {

// ================================================================ PRNG
uint64_t mix64(uint64_t x) {
  x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
  x ^= x >> 27; x *= 0x94d049bb133111ebull;
  x ^= x >> 31; return x;
}
void Rng::reseed(uint64_t seed) {
  for (int i = 0; i < 4; i++) { seed += 0x9e3779b97f4a7c15ull; s[i] = mix64(seed); }
}
static inline uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t Rng::next() {
  uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
  s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
  return drawn++ == alter ? r ^ by : r;
}

// ================================================================ plans
std::string sprintf_s(const char *fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); return b;
}
std::string enc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c > 32 && c < 127 && c != '%' && c != '=') r += (char)c;
    else { char b[4]; snprintf(b, sizeof b, "%%%02x", c); r += b; }
  }
  return r.empty() ? "%" : r;
}
std::string dec(const std::string &s) {
  if (s == "%") return "";
  std::string r;
  for (size_t i = 0; i < s.size(); i++) {
    if (s[i] == '%' && i + 2 < s.size()) { r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; }
    else r += s[i];
  }
  return r;
}
bool Line::has(const char *k) const { for (auto &p : kv) if (p.first == k) return true; return false; }
std::string Line::str(const char *k, const std::string &d) const { for (auto &p : kv) if (p.first == k) return dec(p.second); return d; }
long long Line::num(const char *k, long long d) const { for (auto &p : kv) if (p.first == k) return strtoll(p.second.c_str(), 0, 10); return d; }
uint64_t Line::u64(const char *k, uint64_t d) const { for (auto &p : kv) if (p.first == k) return strtoull(p.second.c_str(), 0, 10); return d; }
Line &Line::set(const char *k, const std::string &v) {
  std::string e = enc(v);
  for (auto &p : kv) if (p.first == k) { p.second = e; return *this; }
  kv.emplace_back(k, e); return *this;
}
Line &Line::set(const char *k, long long v) { return set(k, std::to_string(v)); }
Line &Line::setu(const char *k, uint64_t v) { return set(k, std::to_string(v)); }
std::string Line::text() const { std::string r = kind; for (auto &p : kv) r += " " + p.first + "=" + p.second; return r; }
const Line *Plan::first(const std::string &kind) const { for (auto &l : lines) if (l.kind == kind) return &l; return nullptr; }
std::vector<const Line *> Plan::all(const std::string &kind) const { std::vector<const Line *> r; for (auto &l : lines) if (l.kind == kind) r.push_back(&l); return r; }
std::string Plan::text() const { std::string r; for (auto &l : lines) r += l.text() + "\n"; return r; }
bool Plan::parse(const std::string &text, Plan &out) {
  size_t i = 0;
  while (i < text.size()) {
    size_t j = text.find('\n', i); if (j == std::string::npos) j = text.size();
    std::string l = text.substr(i, j - i); i = j + 1;
    if (l.empty() || l[0] == '#') continue;
    Line ln; size_t p = 0; bool first = true;
    while (p < l.size()) {
      size_t q = l.find(' ', p); if (q == std::string::npos) q = l.size();
      std::string w = l.substr(p, q - p); p = q + 1;
      if (w.empty()) continue;
      if (first) { ln.kind = w; first = false; continue; }
      size_t e = w.find('='); if (e == std::string::npos) return false;
      ln.kv.emplace_back(w.substr(0, e), w.substr(e + 1));
    }
    out.lines.push_back(ln);
  }
  return true;
}

// ================================================================ run result
Result *R;
bool g_trace = false;
static const char *ctr_desc[] = {
#define X(n, d) d,
  SIM_COUNTERS(X)
#undef X
};
static const char *ctr_name[] = {
#define X(n, d) #n,
  SIM_COUNTERS(X)
#undef X
};
uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return mix64(h);
}
void evh(uint64_t v) { R->hash = mix(R->hash, v); R->nevents++; }
void ev(const char *fmt, ...) {
  char b[4096]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (n >= (int)sizeof b) n = sizeof b - 1;
  uint64_t h = 1469598103934665603ull;
  for (int i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 1099511628211ull;
  evh(h);
  if (g_trace && R->trace_len + n + 2 < sizeof R->trace) {
    memcpy(R->trace + R->trace_len, b, n); R->trace_len += n; R->trace[R->trace_len++] = '\n';
  }
}
void count(Ctr c, uint64_t n) { R->ctr[c] += n; }
void distinct(uint64_t h) { if (R->ndistinct < 512) R->distinct[R->ndistinct++] = h; }
void extra_line(const std::string &l) {
  if (R->extra_len + l.size() + 2 < sizeof R->extra) {
    memcpy(R->extra + R->extra_len, l.data(), l.size()); R->extra_len += l.size(); R->extra[R->extra_len++] = '\n';
  }
}
static std::string clean(const std::string &s) {
  std::string r; for (char c : s) r += (c == '\n') ? ' ' : c; return r;
}
void violate(const std::string &cls, const std::string &msg) {
  snprintf(R->cls, sizeof R->cls, "%s", clean(cls).c_str());
  snprintf(R->msg, sizeof R->msg, "%s", msg.c_str());
  R->status = ST_VIOLATION;
  syscall(SYS_exit_group, 0); __builtin_unreachable();
}
void harness_error(const std::string &msg) {
  snprintf(R->cls, sizeof R->cls, "harness-error");
  snprintf(R->msg, sizeof R->msg, "%s", msg.c_str());
  R->status = ST_ERROR;
  syscall(SYS_exit_group, 0); __builtin_unreachable();
}
std::vector<Prop> &props() { static std::vector<Prop> p; return p; }

static double now() { timespec t; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static void reset_result() {
  R->status = ST_RUNNING; R->nontrivial = 0; R->cls[0] = R->msg[0] = 0;
  R->hash = 0x51ed; R->nevents = 0; R->shape = 0; R->ndistinct = 0; R->trace_len = 0; R->extra_len = 0;
  memset(R->ctr, 0, sizeof R->ctr);
}

static int g_errfd = -1;
static std::string read_err() {
  std::string s; char b[65536]; ssize_t n = pread(g_errfd, b, sizeof b, 0); if (n > 0) s.assign(b, n); return s;
}

// Runs one plan in a forked simulated process.
static void execute(const Prop &p, const Plan &plan) {
  reset_result();
  if (ftruncate(g_errfd, 0)) {}
  lseek(g_errfd, 0, SEEK_SET);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    dup2(g_errfd, 2); dup2(g_errfd, 1);
    rlimit rl; rl.rlim_cur = 20; rl.rlim_max = 25; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    alarm(120);
    if (plan.first("generate")) { snprintf(R->msg, sizeof R->msg, "preparing the run"); Plan q; Rng rng(plan.first("run")->u64("x_seed")); p.gen(rng, q); } // died while being made
    else p.exec(plan);
    if (R->status == ST_RUNNING) R->status = ST_OK;
    syscall(SYS_exit_group, 0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (R->status == ST_VIOLATION || R->status == ST_ERROR) return;
  if (R->status == ST_OK && WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  std::string err = read_err();
  std::string cls, where = R->msg; // exec keeps "what is running" in msg
  if (WIFSIGNALED(st)) {
    int s = WTERMSIG(st);
    cls = (s == SIGXCPU || s == SIGKILL || s == SIGALRM) ? "hang" : sprintf_s("crash:signal%d", s);
  } else {
    cls = sprintf_s("crash:exit%d", WEXITSTATUS(st));
    size_t i = err.find("AddressSanitizer: ");
    if (i != std::string::npos) { i += 18; size_t j = err.find_first_of(" \n", i); cls = "crash:" + err.substr(i, j - i); }
  }
  if (!where.empty()) { size_t e = where.find_first_of(" :("); cls += ":" + where.substr(0, e); }
  snprintf(R->cls, sizeof R->cls, "%s", cls.c_str());
  std::string m = "while running: " + where + "\n" + err.substr(0, 3500);
  snprintf(R->msg, sizeof R->msg, "%s", m.c_str());
  R->status = ST_VIOLATION;
}

// ================================================================ known findings
struct Known { std::string prop, cls, what; };
static std::vector<Known> load_known(const std::string &file) {
  // Lines: KNOWN property=<id> class=<class> <what fails>
  std::vector<Known> r; FILE *f = fopen(file.c_str(), "r"); if (!f) return r;
  char b[4096];
  while (fgets(b, sizeof b, f)) {
    if (strncmp(b, "KNOWN ", 6)) continue;
    char id[64], cl[512]; int n = 0;
    if (sscanf(b, "KNOWN property=%63s class=%511s %n", id, cl, &n) >= 2) {
      std::string w = b + n; while (!w.empty() && (w.back() == '\n')) w.pop_back();
      r.push_back({id, dec(cl), w});
    }
  }
  fclose(f); return r;
}

// ================================================================ minimiser
static bool same_class(const Prop &p, const Plan &plan, const std::string &cls, long &execs) {
  execs++; execute(p, plan);
  return R->status == ST_VIOLATION && cls == R->cls;
}
static Plan minimise(const Prop &p, Plan cur, const std::string &cls, double budget, long &execs) {
  double t0 = now();
  auto out_of_time = [&] { return now() - t0 > budget; };
  bool changed = true;
  while (changed && !out_of_time()) {
    changed = false;
    size_t chunk = std::max<size_t>(1, cur.lines.size() / 2);
    while (!out_of_time()) {
      for (size_t i = 0; i < cur.lines.size() && !out_of_time();) {
        Plan t; size_t removed = 0;
        for (size_t j = 0; j < cur.lines.size(); j++) {
          if (j >= i && j < i + chunk && cur.lines[j].kind != "run" && cur.lines[j].kind != "explicit" && cur.lines[j].kind != "generate") { removed++; continue; }
          t.lines.push_back(cur.lines[j]);
        }
        if (removed && same_class(p, t, cls, execs)) { cur = t; changed = true; } else i += chunk;
      }
      if (chunk == 1) break;
      chunk /= 2;
    }
    for (size_t i = 0; i < cur.lines.size() && !out_of_time(); i++)
      for (size_t k = 0; k < cur.lines[i].kv.size() && !out_of_time(); k++) {
        std::string key = cur.lines[i].kv[k].first;
        std::string val = cur.lines[i].kv[k].second;
        if (key == "seed" || key == "op" || key == "prop" || key.substr(0, 2) == "x_") continue;
        char *end; long long v = strtoll(val.c_str(), &end, 10);
        if (*end || val.empty() || v <= 0) continue;
        long long cand[] = {0, 1, v / 2, v - 1};
        for (long long c : cand) {
          if (c >= v || c < 0) continue;
          Plan t = cur; t.lines[i].kv[k].second = std::to_string(c);
          if (same_class(p, t, cls, execs)) { cur = t; changed = true; break; }
        }
      }
  }
  return cur;
}

// ================================================================ workers
struct Shared {
  volatile long next;          // next run index
  volatile int stop;
  volatile long viol_count;
  struct V { volatile int used; long index; char cls[160]; char msg[1500]; } viol[4096];
};
struct WorkerOut {
  long runs, nontrivial; double busy;
  uint64_t ctr[C_COUNT];
  uint64_t nevents;
  uint32_t nhash; uint64_t hashes[1 << 19];
  uint32_t nshape; uint64_t shapes[1 << 17];
  uint32_t nclash; long clash_index[8];
  int errors; char errmsg[2000];
};

static std::string json_esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
    else if (c == '\n') r += "\\n";
    else if (c < 32 || c >= 127) r += sprintf_s("\\u%04x", c);
    else r += (char)c;
  }
  return r;
}

static void full_plan(const Prop &p, uint64_t base, long idx, Plan &plan) {
  uint64_t seed = mix(mix(base, hash_str(p.id)), (uint64_t)idx);
  Rng rng(seed);
  Line &l = plan.add("run"); l.set("prop", std::string(p.id)); l.setu("x_seed", seed); l.set("x_index", idx);
  p.gen(rng, plan);
}
// Makes the plan in a process of its own: generators build library objects, and
// must not leave the worker's state changed, or take the worker with them when
// the library crashes. A plan that cannot be made is itself a (failing) run.
static void made_plan(const Prop &p, uint64_t base, long idx, Plan &plan) {
  struct Box { volatile size_t len; char text[4 << 20]; };
  static Box *box = nullptr; static pid_t owner = 0;
  if (owner != getpid()) { box = (Box *)mmap(0, sizeof *box, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); owner = getpid(); }
  box->len = 0;
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(2); }
  if (pid == 0) {
    int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
    rlimit rl; rl.rlim_cur = 20; rl.rlim_max = 25; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl); alarm(120);
    Plan q; full_plan(p, base, idx, q); std::string t = q.text();
    if (t.size() < sizeof box->text) { memcpy(box->text, t.data(), t.size()); box->len = t.size(); }
    syscall(SYS_exit_group, 0);
  }
  int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  if (st == 0 && box->len) { Plan::parse(std::string(box->text, box->len), plan); return; }
  Line &l = plan.add("run"); l.set("prop", std::string(p.id)); l.setu("x_seed", mix(mix(base, hash_str(p.id)), (uint64_t)idx)); l.set("x_index", idx);
  plan.add("generate");
}
static void append_extra(Plan &plan) { // explicit schedule recorded by the run
  std::string s(R->extra, R->extra_len); Plan::parse(s, plan);
}

int sim_main(int argc, char **argv) {
  // Same addresses in every process, where the kernel lets us.
  if (!getenv("SIM_REEXEC")) {
    setenv("SIM_REEXEC", "1", 1);
    int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
      char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
      if (n > 0) { self[n] = 0; execv(self, argv); }
    }
  }
  std::map<std::string, std::string> o; std::vector<std::string> pos;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a.substr(0, 2) == "--" && i + 1 < argc) { o[a.substr(2)] = argv[++i]; } else pos.push_back(a);
  }
  std::string cmd = pos.empty() ? "" : pos[0];
  R = (Result *)mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_errfd = memfd_create("simerr", MFD_CLOEXEC);

  auto find = [&](const std::string &id) -> Prop * { for (auto &p : props()) if (id == p.id) return &p; return nullptr; };

  if (cmd == "list") { for (auto &p : props()) printf("%s %ld %ld\n", p.id, p.quick_runs, p.thorough_runs); return 0; }

  if (cmd == "replay") {
    FILE *f = fopen(pos[1].c_str(), "r"); if (!f) { perror(pos[1].c_str()); return 2; }
    std::string t; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) t.append(b, n); fclose(f);
    Plan plan; if (!Plan::parse(t, plan) || !plan.first("run")) { fprintf(stderr, "bad replay file\n"); return 2; }
    Prop *p = find(plan.first("run")->str("prop")); if (!p) { fprintf(stderr, "property not in this simulator\n"); return 2; }
    if (p->init) p->init();
    g_trace = o.count("trace");
    execute(*p, plan);
    printf("status=%s cls=%s hash=%016llx\n", R->status == ST_VIOLATION ? "violation" : R->status == ST_OK ? "ok" : "error", R->cls, (unsigned long long)R->hash);
    if (R->status != ST_OK) printf("%s\n", R->msg);
    if (g_trace) fwrite(R->trace, 1, R->trace_len, stdout);
    if (R->status == ST_VIOLATION) { printf("VIOLATION property=%s replay=%s\n", p->id, pos[1].c_str()); return 1; }
    return R->status == ST_OK ? 0 : 2;
  }

  Prop *p = find(o["prop"]);
  if (!p) { fprintf(stderr, "usage: %s run|plan|one|hashes --prop ID ... | replay FILE | list\n", argv[0]); return 2; }
  uint64_t seed = strtoull(o.count("seed") ? o["seed"].c_str() : "1", 0, 10);
  std::string tier = o.count("tier") ? o["tier"] : "quick";
  if (p->init) p->init();

  if (cmd == "plan" || cmd == "one") {
    long idx = atol(o["index"].c_str());
    Plan plan; made_plan(*p, seed, idx, plan);
    if (cmd == "plan") { fputs(plan.text().c_str(), stdout); return 0; }
    g_trace = true; double t0 = now(); execute(*p, plan);
    printf("status=%d cls=%s hash=%016llx events=%llu nontrivial=%d %.4fs\n%s\n", R->status, R->cls, (unsigned long long)R->hash, (unsigned long long)R->nevents, R->nontrivial, now() - t0, R->status == ST_OK ? "" : R->msg);
    fwrite(R->trace, 1, R->trace_len, stdout);
    fputs(read_err().c_str(), stdout);
    for (int i = 0; i < C_COUNT; i++) if (R->ctr[i]) printf("%s=%llu\n", ctr_name[i], (unsigned long long)R->ctr[i]);
    return 0;
  }

  long runs = tier == "thorough" ? p->thorough_runs : p->quick_runs;
  if (o.count("runs")) runs = atol(o["runs"].c_str());
  double cap = o.count("time") ? atof(o["time"].c_str()) : (tier == "thorough" ? 3000 : 240);
  int W = o.count("workers") ? atoi(o["workers"].c_str()) : 8;
  bool dump = cmd == "hashes";
  std::vector<Known> known = load_known(o.count("known") ? o["known"] : "known_findings.txt");
  double t_start = now();
  printf("%s seed=%llu tier=%s runs=%ld workers=%d\n", p->id, (unsigned long long)seed, tier.c_str(), runs, W);
  fflush(stdout);

  Shared *S = (Shared *)mmap(0, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<WorkerOut *> outs;
  uint64_t *runhash = dump ? (uint64_t *)mmap(0, runs * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0) : nullptr;
  std::vector<pid_t> pids;
  for (int w = 0; w < W; w++) {
    WorkerOut *O = (WorkerOut *)mmap(0, sizeof *O, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    outs.push_back(O);
    pid_t pid = fork();
    if (pid == 0) {
      R = (Result *)mmap(0, sizeof *R, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
      g_errfd = memfd_create("simerr", MFD_CLOEXEC);
      std::unordered_set<uint64_t> seen, shapes;
      while (!S->stop && now() - t_start < cap) {
        long i = __sync_fetch_and_add(&S->next, 1);
        if (i >= runs) break;
        Plan plan; made_plan(*p, seed, i, plan);
        execute(*p, plan);
        uint64_t h1 = R->hash;
        O->runs++; if (R->nontrivial) O->nontrivial++;
        for (int c = 0; c < C_COUNT; c++) O->ctr[c] += R->ctr[c];
        O->nevents += R->nevents;
        if (dump) runhash[i] = h1 ^ (uint64_t)R->status;
        if (R->nontrivial) {
          if (R->ndistinct == 0) { if (seen.insert(h1).second && O->nhash < (1u << 19)) O->hashes[O->nhash++] = h1; }
          for (uint32_t d = 0; d < R->ndistinct; d++) if (seen.insert(R->distinct[d]).second && O->nhash < (1u << 19)) O->hashes[O->nhash++] = R->distinct[d];
          if (shapes.insert(R->shape).second && O->nshape < (1u << 17)) O->shapes[O->nshape++] = R->shape;
        }
        if (R->status == ST_ERROR) { O->errors++; snprintf(O->errmsg, sizeof O->errmsg, "run %ld: %s", i, R->msg); }
        if (R->status == ST_VIOLATION) {
          long k = __sync_fetch_and_add(&S->viol_count, 1);
          if (k < 4096) {
            S->viol[k].index = i; memcpy(S->viol[k].cls, R->cls, sizeof R->cls); snprintf(S->viol[k].msg, sizeof S->viol[k].msg, "%s", R->msg);
            __sync_synchronize(); S->viol[k].used = 1;
          }
          bool kn = false; for (auto &q : known) if (q.prop == p->id && q.cls == R->cls) kn = true;
          if (!kn && !o.count("all")) S->stop = 1;
        } else if (R->status == ST_OK && i % 64 == 17 && !dump) {
          // Determinism gate: the same plan again must give the same events.
          execute(*p, plan);
          if (R->hash != h1 && O->nclash < 8) O->clash_index[O->nclash++] = i;
        }
      }
      O->busy = now() - t_start;
      _exit(0);
    }
    pids.push_back(pid);
  }
  int lost = 0; for (pid_t q : pids) { int st; if (waitpid(q, &st, 0) != q || st != 0) lost++; }
  double t_search = now() - t_start;

  // Merge.
  long done = 0, nontriv = 0; uint64_t ctr[C_COUNT] = {0}, nev = 0; int errors = 0, clashes = 0; long clash_at = -1; std::string errmsg;
  std::unordered_set<uint64_t> seen, shapes;
  for (auto *O : outs) {
    done += O->runs; nontriv += O->nontrivial; nev += O->nevents;
    for (int c = 0; c < C_COUNT; c++) ctr[c] += O->ctr[c];
    for (uint32_t i = 0; i < O->nhash; i++) seen.insert(O->hashes[i]);
    for (uint32_t i = 0; i < O->nshape; i++) shapes.insert(O->shapes[i]);
    errors += O->errors; if (O->errors) errmsg = O->errmsg;
    clashes += O->nclash; if (O->nclash) clash_at = O->clash_index[0];
  }
  if (dump) { // for determinism comparisons between processes and worker counts
    uint64_t h = 0; for (long i = 0; i < runs; i++) { h = mix(h, runhash[i]); if (o.count("each")) printf("%ld %016llx\n", i, (unsigned long long)runhash[i]); }
    printf("digest=%016llx done=%ld\n", (unsigned long long)h, done); return 0;
  }

  // Judge violations.
  int rc = 0; long nviol = 0; long kfound = 0;
  std::vector<Shared::V *> vs;
  for (long k = 0; k < S->viol_count && k < 4096; k++) if (S->viol[k].used) vs.push_back(&S->viol[k]);
  std::sort(vs.begin(), vs.end(), [](Shared::V *a, Shared::V *b) { return a->index < b->index; });
  if (o.count("all")) { std::map<std::string, int> m; for (auto *v : vs) m[v->cls]++; for (auto *v : vs) if (m[v->cls]) { printf("  x%d run %ld: %s\n     %s\n", m[v->cls], v->index, v->cls, std::string(v->msg).substr(0, 600).c_str()); m[v->cls] = 0; } }
  std::set<std::string> said;
  std::string vinfo;
  long unrepro = 0;
  for (auto *v : vs) {
    bool kn = false;
    for (auto &q : known) if (q.prop == p->id && q.cls == v->cls) {
      kn = true; kfound++;
      if (said.insert(q.cls).second) printf("KNOWN-FINDING: property=%s %s\n", p->id, q.what.c_str());
    }
    if (kn) continue;
    if (rc == 1) continue;
    nviol++;
    Plan plan; made_plan(*p, seed, v->index, plan);
    std::string cls = v->cls;
    long execs = 0;
    execute(*p, plan); uint64_t ha = R->hash; bool a = R->status == ST_VIOLATION && cls == R->cls;
    execute(*p, plan); bool b = R->status == ST_VIOLATION && cls == R->cls && R->hash == ha;
    if (!a || !b) { unrepro++; printf("not reproducible: run %ld %s\n", v->index, cls.c_str()); continue; }
    Plan expl = plan; append_extra(expl); // add the recorded schedule, if any
    if (R->extra_len) { if (!same_class(*p, expl, cls, execs)) { unrepro++; printf("schedule did not replay: run %ld %s\n", v->index, cls.c_str()); continue; } }
    Plan small = minimise(*p, expl, cls, o.count("minimise") ? atof(o["minimise"].c_str()) : 25, execs);
    g_trace = true; execute(*p, small); g_trace = false;
    uint64_t h = R->hash;
    if (R->status != ST_VIOLATION || cls != R->cls) { unrepro++; continue; }
    std::string dir = o.count("replaydir") ? o["replaydir"] : "replays"; mkdir(dir.c_str(), 0777);
    std::string path = dir + "/" + p->id + sprintf_s("-%llu-%ld.replay", (unsigned long long)seed, v->index);
    FILE *f = fopen(path.c_str(), "w");
    if (!f) { perror(path.c_str()); return 2; }
    std::string msg = R->msg; std::string cm; for (char c : msg) { cm += c; if (c == '\n') cm += "#   "; }
    fprintf(f, "# property %s, VERIF_SEED %llu, run %ld\n# class %s\n# event hash %016llx, minimised from %zu to %zu lines in %ld executions\n# %s\n",
      p->id, (unsigned long long)seed, v->index, cls.c_str(), (unsigned long long)h, expl.lines.size(), small.lines.size(), execs, cm.c_str());
    fputs(small.text().c_str(), f);
    std::string tr(R->trace, R->trace_len); size_t q = 0; int nl = 0; 
    fprintf(f, "# --- event trace of the minimised run\n");
    while (q < tr.size() && nl < 400) { size_t e = tr.find('\n', q); if (e == std::string::npos) e = tr.size(); fprintf(f, "#> %s\n", tr.substr(q, e - q).c_str()); q = e + 1; nl++; }
    fclose(f);
    // Fresh-process replay.
    char self[4096]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0;
    int pfd[2]; if (pipe(pfd)) return 2;
    pid_t q2 = fork();
    if (q2 == 0) { dup2(pfd[1], 1); close(pfd[0]); execl(self, self, "replay", path.c_str(), (char *)0); _exit(9); }
    close(pfd[1]); std::string ro; char bb[4096]; while ((n = read(pfd[0], bb, sizeof bb)) > 0) ro.append(bb, n); close(pfd[0]);
    int st; waitpid(q2, &st, 0);
    std::string want = "status=violation cls=" + cls + sprintf_s(" hash=%016llx", (unsigned long long)h);
    bool crashy = cls.substr(0, 5) == "crash" || cls.substr(0, 4) == "hang";
    bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 1 && (ro.find(want) != std::string::npos || (crashy && ro.find("cls=" + cls) != std::string::npos));
    if (!ok) { unrepro++; printf("fresh-process replay differs: %s\n%s", want.c_str(), ro.substr(0, 400).c_str()); continue; }
    printf("%s\n%s\n", cls.c_str(), msg.c_str());
    char rp[4200]; if (!realpath(path.c_str(), rp)) snprintf(rp, sizeof rp, "%s", path.c_str());
    printf("VIOLATION property=%s replay=%s\n", p->id, rp);
    rc = 1;
  }
  if (rc == 0 && unrepro) { printf("ERROR: %ld violation(s) seen that do not reproduce; the simulator is not deterministic here\n", unrepro); rc = 2; }
  if (rc == 0 && lost) { printf("ERROR: %d worker(s) ended abnormally\n", lost); rc = 2; }
  if (rc == 0 && errors) { printf("ERROR: %d harness error(s): %s\n", errors, errmsg.c_str()); rc = 2; }
  if (rc == 0 && clashes) { printf("ERROR: run %ld is not repeatable (event hash differs)\n", clash_at); rc = 2; }
  if (rc == 0 && done < runs && o.count("need") && done < atol(o["need"].c_str())) { printf("ERROR: only %ld of %ld runs fit in the time limit\n", done, runs); rc = 2; }

  // Evidence.
  std::string evf = o.count("evidence") ? o["evidence"] : "";
  double wall = now() - t_start;
  if (!evf.empty()) {
    FILE *f = fopen(evf.c_str(), "w");
    if (!f) { perror(evf.c_str()); return rc ? rc : 2; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", p->id, tier.c_str(), (unsigned long long)seed);
    fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n", (unsigned long long)std::max<uint64_t>(ctr[C_cases], done), seen.size());
    fprintf(f, "  \"rule\": \"%s\",\n  \"samples\": [\n", json_esc(p->rule).c_str());
    for (int i = 0; i < 3 && i < done; i++) { Plan pl; made_plan(*p, seed, i * 7, pl); std::string t = pl.text(); fprintf(f, "   \"%s\"%s\n", json_esc(t.substr(0, 1500)).c_str(), i == 2 || i == done - 1 ? "" : ","); }
    fprintf(f, "  ],\n  \"simulated_runs\": %ld,\n  \"nontrivial_runs\": %ld,\n  \"seeds_per_hour\": %.0f,\n  \"runs_requested\": %ld,\n", done, nontriv, done / std::max(t_search, 0.001) * 3600, runs);
    fprintf(f, "  \"distinct_fault_or_schedule_shapes\": %zu,\n  \"events_logged\": %llu,\n  \"workers\": %d,\n", shapes.size(), (unsigned long long)nev, W);
    fprintf(f, "  \"simulated_seconds\": %.3f,\n", ctr[C_sim_us] / 1e6);
    fprintf(f, "  \"faults_and_probes\": {\n"); bool first = true;
    for (int c = 0; c < C_COUNT; c++) if (ctr[c]) { fprintf(f, "%s   \"%s\": %llu", first ? "" : ",\n", json_esc(ctr_desc[c]).c_str(), (unsigned long long)ctr[c]); first = false; }
    fprintf(f, "\n  },\n  \"real_components\": \"%s\",\n  \"stub_components\": \"%s\",\n", json_esc(p->components_real).c_str(), json_esc(p->components_stub).c_str());
    fprintf(f, "  \"determinism_gate\": \"every 64th run executed twice with equal event hash; %d clashes\",\n  \"known_findings_seen\": %ld\n },\n", clashes, kfound);
    fprintf(f, " \"assumptions\": [\"sampling: only the seeds run were explored\", \"the sanitizer-instrumented build behaves as the shipped one\"],\n");
    fprintf(f, " \"wall_s\": %.2f,\n \"violations\": %ld\n}\n", wall, nviol);
    fclose(f);
  }
  printf("%s: %ld runs, %llu cases, %zu distinct, %.1fs search, %.1fs total, exit %d\n", p->id, done, (unsigned long long)ctr[C_cases], seen.size(), t_search, wall, rc);
  if (o.count("verbose")) for (int c = 0; c < C_COUNT; c++) if (ctr[c]) printf("  %-55s %llu\n", ctr_desc[c], (unsigned long long)ctr[c]);
  return rc;
}
} // namespace sim
