#include "os.h"
#include <algorithm>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <new>
#include <ext/stdio_sync_filebuf.h>
#include <iostream>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/random.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern int spiff_main(int argc, char **argv) __attribute__((weak));

namespace sim::os {
// ================================================================ memory
struct Slot { void *p; uint64_t seq; size_t n; };
static const size_t TBL = 1 << 19;
static Slot g_tbl[TBL];
static size_t g_used;
static bool g_track;
static uint64_t g_n, g_fired, g_live, g_live_bytes, g_total, g_seq;
static uint64_t g_fail[32]; static int g_nfail; static uint64_t g_from;
static const size_t MEM_LIMIT = (size_t)1 << 29;

static size_t slot_of(void *p) { return mix64((uint64_t)p) & (TBL - 1); }
static void tbl_add(void *p, size_t n) {
  size_t i = slot_of(p);
  while (g_tbl[i].p && g_tbl[i].p != (void *)1) i = (i + 1) & (TBL - 1);
  if (!g_tbl[i].p) { if (++g_used > TBL - TBL / 8) { static const char m[] = "simulator: live table full\n"; (void)!::write(2, m, sizeof m); syscall(SYS_exit_group, 77); } }
  g_tbl[i] = {p, ++g_seq, n}; g_live++; g_live_bytes += n;
}
static void tbl_del(void *p) {
  size_t i = slot_of(p);
  while (g_tbl[i].p) {
    if (g_tbl[i].p == p) { g_live--; g_live_bytes -= g_tbl[i].n; g_tbl[i].p = g_tbl[(i + 1) & (TBL - 1)].p ? (void *)1 : nullptr; if (!g_tbl[i].p) g_used--; return; }
    i = (i + 1) & (TBL - 1);
  }
}
static bool should_fail(size_t n) {
  g_n++; g_total++;
  bool f = n > MEM_LIMIT;
  if (g_from && g_n >= g_from) f = true;
  for (int i = 0; i < g_nfail; i++) if (g_fail[i] == g_n) f = true;
  if (f) g_fired++;
  return f;
}
void alloc_on(const AllocPlan *p) {
  g_n = 0; g_fired = 0; g_nfail = 0; g_from = 0;
  if (p) { for (uint64_t x : p->fail) if (g_nfail < 32) g_fail[g_nfail++] = x; g_from = p->from; }
  g_track = true;
}
void alloc_off() { g_track = false; }
void alloc_resume() { g_track = true; }
bool alloc_tracking() { return g_track; }
uint64_t alloc_count() { return g_n; }
uint64_t alloc_fired() { return g_fired; }
uint64_t alloc_live() { return g_live; }
uint64_t alloc_live_bytes() { return g_live_bytes; }
uint64_t alloc_total() { return g_total; }
uint64_t alloc_mark() { return g_seq; }
uint64_t alloc_live_since(uint64_t mark) { uint64_t n = 0; if (g_live) for (size_t i = 0; i < TBL; i++) if ((uintptr_t)g_tbl[i].p > 1 && g_tbl[i].seq > mark) n++; return n; }
std::string alloc_live_list(uint64_t mark, int max) {
  std::vector<std::pair<uint64_t, size_t>> v;
  for (size_t i = 0; i < TBL; i++) if ((uintptr_t)g_tbl[i].p > 1 && g_tbl[i].seq > mark) v.emplace_back(g_tbl[i].seq, g_tbl[i].n);
  std::sort(v.begin(), v.end());
  std::string r; for (auto &x : v) { if (max-- <= 0) { r += " ..."; break; } r += sprintf_s(" %zu bytes", x.second); }
  return r;
}
static void *sim_alloc(size_t n) { // null: failed
  bool t = g_track;
  if (t && should_fail(n)) return nullptr;
  void *p = ::malloc(n ? n : 1);
  if (p && t) { memset(p, 0xCB, n); tbl_add(p, n); }
  return p;
}
static void sim_free(void *p) { if (!p) return; if (g_live) tbl_del(p); ::free(p); }
} // namespace sim::os

void *operator new(size_t n) { void *p = sim::os::sim_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = sim::os::sim_alloc(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::os::sim_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::os::sim_alloc(n); }
void operator delete(void *p) noexcept { sim::os::sim_free(p); }
void operator delete[](void *p) noexcept { sim::os::sim_free(p); }
void operator delete(void *p, size_t) noexcept { sim::os::sim_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::os::sim_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::os::sim_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::os::sim_free(p); }

// C allocation made by the code under test itself (linked with --wrap).
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *); char *__real_strdup(const char *);
void *__wrap_malloc(size_t n) {
  using namespace sim::os; bool t = g_track;
  if (t && should_fail(n)) { errno = ENOMEM; return nullptr; }
  void *p = __real_malloc(n); if (p && t) { memset(p, 0xCB, n); tbl_add(p, n); } return p;
}
void *__wrap_calloc(size_t a, size_t b) {
  using namespace sim::os; bool t = g_track;
  if (t && should_fail(a * b)) { errno = ENOMEM; return nullptr; }
  void *p = __real_calloc(a, b); if (p && t) tbl_add(p, a * b); return p;
}
void *__wrap_realloc(void *q, size_t n) {
  using namespace sim::os; bool t = g_track;
  if (t && should_fail(n)) { errno = ENOMEM; return nullptr; }
  if (q && g_live) tbl_del(q);
  void *p = __real_realloc(q, n); if (p && t) tbl_add(p, n); return p;
}
char *__wrap_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)__wrap_malloc(n); if (p) memcpy(p, s, n); return p; }
void __wrap_free(void *p) { using namespace sim::os; if (p && g_live) tbl_del(p); __real_free(p); }
}

namespace sim::os {
// ================================================================ delivery
Delivery Delivery::from(const Line &l) {
  Delivery d; d.seed = l.u64("dseed", 1); d.chunk = l.num("chunk", 0); d.eintr = l.num("eintr", 0); d.err_at = l.num("err_at", -1); d.err_no = l.num("errno", 5); return d;
}
Acceptance Acceptance::from(const Line &l) {
  Acceptance a; a.seed = l.u64("aseed", 1); a.chunk = l.num("wchunk", 0); a.eintr = l.num("weintr", 0); a.cap = l.num("cap", -1);
  a.err_no = l.num("werrno", 28); a.once = l.num("once", 0); a.close_err = l.num("close_err", 0); return a;
}
static size_t cut(Rng &r, int chunk, size_t want) {
  if (chunk == 0 || want == 0) return want;
  size_t k = chunk > 0 ? (size_t)chunk : 1 + r.below((uint64_t)-chunk);
  return std::min(k, want);
}
std::streambuf::int_type PieceBuf::underflow() {
  if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
  if (d_.err_at >= 0 && (long long)pos_ >= d_.err_at) { count(C_f_read_err); evh(0xE1); throw std::ios_base::failure("simulated device error"); }
  if (pos_ >= s_.size()) return traits_type::eof();
  size_t want = std::min(sizeof buf_, s_.size() - pos_);
  if (d_.err_at >= 0) want = std::min<size_t>(want, d_.err_at - pos_);
  size_t n = cut(rng_, d_.chunk, want);
  if (n < want) count(C_f_read_short);
  memcpy(buf_, s_.data() + pos_, n); pos_ += n; evh(n); count(C_bytes_in, n);
  setg(buf_, buf_, buf_ + n);
  return traits_type::to_int_type(buf_[0]);
}

// ================================================================ files
struct File { int mem = -1; Delivery rd; Acceptance wr; int open_r = 0, open_w = 0; };
static std::map<std::string, File> &files() { static std::map<std::string, File> f; return f; }
struct Open { bool used; File *f; bool writing; Rng *rng; uint64_t written; bool failed_once; };
static Open g_open[1024];
static int g_nopen;

struct Quiet { bool t; Quiet() : t(g_track) { g_track = false; } ~Quiet() { g_track = t; } };

void file_put(const std::string &path, const std::string &content) {
  Quiet q; File &f = files()[path];
  if (f.mem < 0) f.mem = memfd_create("simfile", MFD_CLOEXEC);
  if (ftruncate(f.mem, 0)) {}
  size_t o = 0; while (o < content.size()) { ssize_t n = pwrite(f.mem, content.data() + o, content.size() - o, o); if (n <= 0) break; o += n; }
}
bool file_get(const std::string &path, std::string &content) {
  Quiet q; auto it = files().find(path); if (it == files().end() || it->second.mem < 0) return false;
  content.clear(); char b[65536]; ssize_t n; off_t o = 0;
  while ((n = pread(it->second.mem, b, sizeof b, o)) > 0) { content.append(b, n); o += n; }
  return true;
}
void file_read_cfg(const std::string &path, const Delivery &d, int oe) { Quiet q; File &f = files()[path]; f.rd = d; f.open_r = oe; }
void file_write_cfg(const std::string &path, const Acceptance &a, int oe) { Quiet q; File &f = files()[path]; f.wr = a; f.open_w = oe; }
int files_open() { return g_nopen; }

static bool is_sim(const char *p) { return p && !strncmp(p, "/sim/", 5); }
static std::string norm(const char *p) { return p; }

static int sim_open_fd(const char *path, bool writing, bool trunc, bool append) {
  Quiet q; auto it = files().find(norm(path));
  ev("open %s %s", path, writing ? "w" : "r");
  if (it != files().end()) {
    int e = writing ? it->second.open_w : it->second.open_r;
    if (e) { count(C_f_open); ev("open error %d", e); errno = e; return -1; }
  }
  if (it == files().end() || it->second.mem < 0) {
    if (!writing) { errno = ENOENT; return -1; }
    file_put(norm(path), ""); it = files().find(norm(path));
  }
  char pp[64]; snprintf(pp, sizeof pp, "/proc/self/fd/%d", it->second.mem);
  int fd = (int)syscall(SYS_openat, AT_FDCWD, pp, (writing ? O_RDWR : O_RDONLY) | (trunc ? O_TRUNC : 0) | (append ? O_APPEND : 0) | O_CLOEXEC);
  if (fd < 0 || fd >= 1024) { errno = EMFILE; return -1; }
  g_open[fd] = {true, &it->second, writing, new Rng(writing ? it->second.wr.seed : it->second.rd.seed), 0, false};
  g_nopen++;
  return fd;
}
static ssize_t raw_read(int fd, void *b, size_t n) { return syscall(SYS_read, fd, b, n); }
static ssize_t raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }

static ssize_t sim_read(int fd, void *b, size_t n) {
  Quiet q; Open &o = g_open[fd]; Delivery &d = o.f->rd;
  if (n == 0) return 0;
  if (d.eintr && (int)o.rng->below(1000) < d.eintr) { count(C_f_read_eintr); ev("read EINTR"); errno = EINTR; return -1; }
  long long pos = lseek(fd, 0, SEEK_CUR);
  if (d.err_at >= 0 && pos >= d.err_at) { count(C_f_read_err); ev("read error at %lld", pos); errno = d.err_no; return -1; }
  size_t want = n; if (d.err_at >= 0) want = std::min<size_t>(want, d.err_at - pos);
  size_t k = cut(*o.rng, d.chunk, want);
  ssize_t r = raw_read(fd, b, k);
  if (r > 0 && (size_t)r == k && k < n) count(C_f_read_short);
  ev("read %zd", r); if (r > 0) count(C_bytes_in, r);
  return r;
}
static ssize_t accept_bytes(Acceptance &a, Rng &rng, uint64_t &written, bool &failed, const void *, size_t n, bool stdio) {
  // Decides how many bytes are taken; -1 with errno for a failure.
  if (n == 0) return 0;
  if (!stdio && a.eintr && (int)rng.below(1000) < a.eintr) { count(C_f_write_eintr); ev("write EINTR"); errno = EINTR; return -1; }
  if (a.cap >= 0 && (long long)written >= a.cap && !(a.once && failed)) {
    failed = true; count(C_f_write_err); ev("write error %d at %llu", a.err_no, (unsigned long long)written); errno = a.err_no; return -1;
  }
  size_t want = n; if (a.cap >= 0 && !(a.once && failed)) want = std::min<size_t>(want, a.cap - written);
  size_t k = cut(rng, a.chunk, want);
  if (k < n) count(C_f_write_short);
  ev("write %zu of %zu", k, n); written += k; count(C_bytes_out, k);
  return k;
}
static ssize_t sim_write(int fd, const void *b, size_t n) {
  Quiet q; Open &o = g_open[fd];
  ssize_t k = accept_bytes(o.f->wr, *o.rng, o.written, o.failed_once, b, n, false);
  if (k <= 0) return k;
  return raw_write(fd, b, k);
}
static bool fd_is_sim(int fd) { return fd >= 0 && fd < 1024 && g_open[fd].used; }
static int sim_fd_closed(int fd) { // returns errno of the close
  Open &o = g_open[fd]; int e = 0;
  if (o.writing && o.f->wr.close_err) {
    // What a failing close reports is that bytes accepted earlier never reached the disk.
    count(C_f_close_err); ev("close error"); e = o.f->wr.close_err;
    uint64_t keep = o.rng->chance(1, 3) ? 0 : o.rng->chance(1, 2) ? o.written / 2 : o.written - std::min<uint64_t>(o.written, 1 + o.rng->below(3));
    Quiet q; if (ftruncate(fd, (off_t)keep)) {}
  } else ev("close");
  delete o.rng; o.used = false; g_nopen--;
  return e;
}

// ================================================================ random device
Dev dev;
static bool g_devfd[1024]; static int g_ndev;
static bool is_dev(const char *path) { return dev.active && (!strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random")); }
static bool fd_is_dev(int fd) { return fd >= 0 && fd < 1024 && g_devfd[fd]; }
int dev_open_count() { return g_ndev; }
static int dev_open() {
  Quiet q; int e = dev.oi < dev.open_results.size() ? dev.open_results[dev.oi] : 0; dev.oi++;
  ev("device open -> %d", e);
  if (e) { count(C_f_open); errno = e; return -1; }
  int fd = memfd_create("simdev", MFD_CLOEXEC); if (fd < 0 || fd >= 1024) harness_error("no descriptor for the device");
  g_devfd[fd] = true; g_ndev++; return fd;
}
static int dev_close(int fd) { ev("device close"); g_devfd[fd] = false; g_ndev--; return (int)syscall(SYS_close, fd); }
static ssize_t dev_read(void *b, size_t n) {
  Quiet q; DevStep s{0, 1 << 30}; if (dev.ri < dev.reads.size()) s = dev.reads[dev.ri]; dev.ri++;
  if (s.kind == 1) { count(C_f_read_eintr); ev("device EINTR"); errno = EINTR; return -1; }
  if (s.kind == 2) { count(C_f_read_err); ev("device EIO"); errno = EIO; return -1; }
  if (s.kind == 3) { count(C_f_dev_eof); ev("device EOF"); return 0; }
  size_t k = std::min<size_t>(n, s.n < 1 ? 1 : s.n);
  if (k < n) count(C_f_read_short);
  uint8_t *p = (uint8_t *)b;
  for (size_t i = 0; i < k; i++) p[i] = dev.byte(dev.pos + i);
  dev.pos += k; ev("device read %zu of %zu", k, n);
  return k;
}

// ================================================================ clock
static Clock g_clock; static uint64_t g_clock_reads; static bool g_clock_on;
void clock_set(const Clock &c) { g_clock = c; g_clock_reads = 0; g_clock_on = true; }
uint64_t clock_reads() { return g_clock_reads; }
static long long tick() {
  Quiet q; g_clock_reads++; count(C_f_clock); count(C_sim_us, g_clock.step_us); long long t = g_clock.us; g_clock.us += g_clock.step_us; ev("clock %lld", t); return t;
}

// ================================================================ stdio
struct Sink { Acceptance a; Rng rng; uint64_t written = 0; bool failed = false; char *buf; uint64_t *len; uint64_t cap; };
static Sink *g_out, *g_err;
struct Source { std::string s; Delivery d; Rng rng; size_t pos = 0; bool used = false; };
static Source *g_in;
static bool g_stdio;
static const uint64_t SINK_MAX = 4 << 20;
struct ProcShm { uint64_t outlen, errlen, allocs, popens, fired, clock_reads, in_taken; char out[SINK_MAX]; char err[1 << 16]; };
static ProcShm *g_shm;

static ssize_t sink_put(Sink *s, const char *b, size_t n, bool stdio) {
  // Loops over short writes as the C library does for descriptor streams.
  Quiet q; size_t done = 0;
  while (done < n) {
    ssize_t k = accept_bytes(s->a, s->rng, s->written, s->failed, b + done, n - done, stdio);
    if (k < 0) { if (s->a.err_no == EPIPE) { signal(SIGPIPE, SIG_DFL); raise(SIGPIPE); } return done ? (ssize_t)done : -1; }
    size_t room = *s->len < s->cap ? s->cap - *s->len : 0; size_t m = std::min<size_t>(room, k);
    memcpy(s->buf + *s->len, b + done, m); *s->len += m;
    done += k;
    if (!stdio) break;
  }
  return done;
}
static ssize_t ck_out(void *c, const char *b, size_t n) { ssize_t r = sink_put((Sink *)c, b, n, true); return r < 0 ? 0 : r; }
static ssize_t src_get(Source *s, char *b, size_t n, bool stdio) {
  Quiet q; if (n == 0) return 0;
  if (s->d.err_at >= 0 && (long long)s->pos >= s->d.err_at) { count(C_f_read_err); ev("stdin error at %zu", s->pos); errno = s->d.err_no; return -1; }
  (void)stdio;
  size_t want = std::min(n, s->s.size() - s->pos); if (s->d.err_at >= 0) want = std::min<size_t>(want, s->d.err_at - s->pos);
  size_t k = cut(s->rng, s->d.chunk, want);
  if (k < want) count(C_f_read_short);
  memcpy(b, s->s.data() + s->pos, k); s->pos += k; ev("input %zu", k); count(C_bytes_in, k);
  if (g_shm && s == g_in) g_shm->in_taken = s->pos;
  return k;
}
static ssize_t ck_in(void *c, char *b, size_t n) { return src_get((Source *)c, b, n, true); }

void stdio_install() {
  Quiet q;
  if (!g_shm) g_shm = (ProcShm *)mmap(0, sizeof *g_shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  g_out = new Sink; g_out->buf = g_shm->out; g_out->len = &g_shm->outlen; g_out->cap = SINK_MAX;
  g_err = new Sink; g_err->buf = g_shm->err; g_err->len = &g_shm->errlen; g_err->cap = sizeof g_shm->err;
  g_in = new Source;
  g_shm->outlen = g_shm->errlen = 0;
  cookie_io_functions_t fo = {nullptr, ck_out, nullptr, nullptr}, fi = {ck_in, nullptr, nullptr, nullptr};
  stdout = fopencookie(g_out, "w", fo); setvbuf(stdout, nullptr, _IOFBF, 4096);
  stderr = fopencookie(g_err, "w", fo); setvbuf(stderr, nullptr, _IONBF, 0);
  stdin = fopencookie(g_in, "r", fi); setvbuf(stdin, nullptr, _IOFBF, 4096);
  std::cin.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdin));
  std::cout.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stdout));
  std::cerr.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
  std::clog.rdbuf(new __gnu_cxx::stdio_sync_filebuf<char>(stderr));
  std::cin.clear(); std::cout.clear(); std::cerr.clear();
  g_stdio = true;
}
void stdin_set(const std::string &content, const Delivery &d) {
  Quiet q; g_in->s = content; g_in->d = d; g_in->rng.reseed(d.seed); g_in->pos = 0;
  __fpurge(stdin); clearerr(stdin); std::cin.clear();
}
void stdout_set(const Acceptance &a) {
  Quiet q; __fpurge(stdout); clearerr(stdout); std::cout.clear();
  g_out->a = a; g_out->rng.reseed(a.seed); g_out->written = 0; g_out->failed = false; g_shm->outlen = 0;
}
std::string stdout_text() { Quiet q; return std::string(g_shm->out, g_shm->outlen); }
std::string stderr_text() { Quiet q; return std::string(g_shm->err, g_shm->errlen); }

// ================================================================ processes
static Proc *g_proc;       // configuration of the simulated process we are in
static int *g_popen_no;    // shared: global sub-command number, then the first crash report of a sub-command
static char *inner_crash() { return (char *)(g_popen_no + 1); }

// What a POSIX shell makes of a command line (the part the tool relies on).
struct Shell { std::vector<std::string> argv; bool syntax = false, lost_out = false, no_input = false; std::string rest; bool piped = false; };
static Shell sh_parse(const std::string &c) {
  Shell s; std::string w; bool have = false, quoted = false; size_t i = 0, n = c.size();
  auto flush = [&] {
    if (!have) return;
    if (!quoted && w == "*") { s.argv.push_back("README"); s.argv.push_back("src"); }
    else s.argv.push_back(w);
    w.clear(); have = quoted = false;
  };
  while (i < n) {
    char ch = c[i];
    if (ch == '\'') { size_t j = c.find('\'', i + 1); if (j == std::string::npos) { s.syntax = true; return s; } w += c.substr(i + 1, j - i - 1); have = quoted = true; i = j + 1; continue; }
    if (ch == '"') {
      i++; have = quoted = true; bool closed = false;
      while (i < n) {
        if (c[i] == '"') { closed = true; i++; break; }
        if (c[i] == '\\' && i + 1 < n && strchr("$`\"\\\n", c[i + 1])) { w += c[i + 1]; i += 2; continue; }
        if (c[i] == '`') { size_t j = c.find('`', i + 1); if (j == std::string::npos) { s.syntax = true; return s; } i = j + 1; continue; }
        if (c[i] == '$' && i + 1 < n && (isalnum(c[i + 1]) || strchr("_{(?$!#*@-", c[i + 1]))) { i += 2; while (i < n && (isalnum(c[i]) || c[i] == '_')) i++; continue; }
        w += c[i++];
      }
      if (!closed) { s.syntax = true; return s; }
      continue;
    }
    if (ch == '\\') { if (i + 1 < n) { w += c[i + 1]; have = quoted = true; } i += 2; continue; }
    if (ch == ' ' || ch == '\t') { flush(); i++; continue; }
    if (ch == '#' && !have) { while (i < n && c[i] != '\n') i++; continue; }
    if (ch == '\n' || ch == ';' || ch == '&' || ch == '|') { flush(); if (ch == '|') s.piped = true; s.rest = c.substr(i + 1); return s; }
    if (ch == '(' || ch == ')') { s.syntax = true; return s; }
    if (ch == '<') { s.no_input = true; flush(); i++; continue; }
    if (ch == '>') { s.lost_out = true; flush(); i++; while (i < n && c[i] == ' ') i++; while (i < n && !strchr(" \t\n;|&", c[i])) i++; continue; }
    if (ch == '`') { size_t j = c.find('`', i + 1); if (j == std::string::npos) { s.syntax = true; return s; } i = j + 1; continue; }
    if (ch == '$' && i + 1 < n && (isalnum(c[i + 1]) || strchr("_{(?$!#*@-", c[i + 1]))) { i += 2; while (i < n && (isalnum(c[i]) || c[i] == '_')) i++; continue; }
    w += ch; have = true; i++;
  }
  flush();
  return s;
}

static std::string g_argv0 = "/sim/bin/spiff";

[[noreturn]] static void proc_child(const Proc &p) {
  // In the forked process.
  g_track = false;
  for (int i = 0; i < 1024; i++) g_open[i].used = false;
  stdio_install();
  stdin_set(p.in, p.in_d); stdout_set(p.out_a);
  static Clock ck; ck = p.clock; clock_set(ck);
  g_proc = new Proc(p);
  int argc = p.argv.size(); char **argv = (char **)__real_malloc(sizeof(char *) * (argc + 1));
  for (int i = 0; i < argc; i++) argv[i] = __real_strdup(p.argv[i].c_str());
  argv[argc] = nullptr;
  alloc_on(&p.alloc);
  int rv = spiff_main(argc, argv);
  g_shm->allocs = g_n; g_shm->fired = g_fired;
  alloc_off();
  exit(rv);
}
static void on_exit_save() { if (g_shm && g_proc) { g_shm->allocs = g_n; g_shm->fired = g_fired; g_shm->clock_reads = g_clock_reads; g_track = false; } }

ProcResult run_spiff(const Proc &p) {
  Quiet q;
  ProcShm *shm = (ProcShm *)mmap(0, sizeof *shm, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  bool top = !g_popen_no;
  if (top) { g_popen_no = (int *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  std::string cl; for (auto &a : p.argv) cl += " " + enc(a);
  ev("process%s", cl.c_str());
  count(C_procs);
  int errfd = memfd_create("procerr", MFD_CLOEXEC);
  pid_t pid = fork();
  if (pid == 0) {
    g_shm = shm; dup2(errfd, 2); dup2(errfd, 1);
    rlimit rl; rl.rlim_cur = 20; rl.rlim_max = 25; setrlimit(RLIMIT_CPU, &rl);
    atexit(on_exit_save);
    proc_child(p);
  }
  ProcResult r; int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  r.status = st; r.exited = WIFEXITED(st); if (r.exited) r.code = WEXITSTATUS(st); else r.sig = WTERMSIG(st);
  r.out.assign(shm->out, shm->outlen); r.err.assign(shm->err, shm->errlen);
  r.allocs = shm->allocs; r.fired = shm->fired; r.popens = *g_popen_no; r.clock_reads = shm->clock_reads; r.in_taken = shm->in_taken;
  if ((r.exited && r.code == 99) || (!r.exited && r.sig != SIGPIPE && r.sig != SIGKILL)) {
    char b[6000]; ssize_t n = pread(errfd, b, sizeof b - 1, 0); r.crash = sprintf_s("exit %d signal %d\n", r.code, r.sig) + std::string(b, n > 0 ? n : 0);
  }
  if (!r.exited && r.sig == SIGKILL && !p.stdin_closed) r.crash = "killed (cpu limit)";
  close(errfd); munmap(shm, sizeof *shm);
  if (top && r.crash.empty() && *inner_crash()) r.crash = "in a sub-command: " + std::string(inner_crash());
  if (top) { munmap(g_popen_no, 8192); g_popen_no = nullptr; }
  ev("exit %d signal %d out %zu err %zu", r.code, r.sig, r.out.size(), r.err.size());
  evh(hash_str(r.out));
  if (r.ok()) count(C_p_exit0); else count(C_p_exitn);
  return r;
}

struct Pipe { Source src; int status; FILE *f; };
static std::vector<Pipe *> &pipes() { static std::vector<Pipe *> v; return v; }
static ssize_t ck_pipe(void *c, char *b, size_t n) { return src_get(&((Pipe *)c)->src, b, n, true); }

static FILE *sim_popen(const char *cmd, const char *mode) {
  Quiet q;
  int k = (*g_popen_no)++;
  InnerFault f; auto it = g_proc->inner.find(k); if (it != g_proc->inner.end()) f = it->second;
  ev("popen #%d fault %d/%d: %s", k, f.kind, f.arg, cmd);
  if (f.kind == 1) { count(C_f_popen); errno = EAGAIN; return nullptr; }
  (void)mode;
  Pipe *p = new Pipe; p->status = 0;
  std::string out, rest = cmd; bool first = true;
  if (k > 0) count(C_p_nested);
  int cmds = 0;
  while (!rest.empty() && cmds++ < 20) {
    Shell s = sh_parse(rest); rest = s.rest;
    if (s.syntax) { p->status = 2 << 8; break; }
    if (s.argv.empty()) { first = false; continue; }
    if (s.no_input) { p->status = 2 << 8; continue; }
    if (s.argv[0] != g_argv0) { p->status = 127 << 8; continue; }
    Proc ip; ip.argv = s.argv; ip.inner = g_proc->inner; ip.pipe_d = g_proc->pipe_d; ip.pipe_d.seed = mix(ip.pipe_d.seed, k + 1);
    ip.clock = g_proc->clock; ip.clock.pid += k + 1; ip.clock.us += 1000003ll * (k + 1);
    // The inner command shares the outer one's standard input.
    ip.in = g_proc->in; ip.in_d = g_proc->in_d;
    if (f.kind == 6) ip.alloc.from = f.arg;
    if (f.kind == 7) { ip.out_a.cap = f.arg; }
    if (f.kind == 2) { ip.out_a.cap = f.arg; ip.out_a.err_no = EPIPE; }
    ProcResult r = run_spiff(ip);
    if (!r.crash.empty() && !*inner_crash()) snprintf(inner_crash(), 8000, "%s", r.crash.c_str());
    std::string o = r.out;
    p->status = r.status;
    if (f.kind == 2) { count(C_f_inner_kill); p->status = SIGKILL; if ((size_t)f.arg < o.size()) o.resize(f.arg); }
    if (f.kind == 3) { count(C_f_inner_exit); p->status = (f.arg & 255) << 8; }
    if (!s.lost_out && !s.piped) out += o;
    first = false;
  }
  (void)first;
  p->src.s = out; p->src.d = g_proc->pipe_d; p->src.d.err_at = -1; p->src.rng.reseed(mix(g_proc->pipe_d.seed, k));
  if (f.kind == 4) { p->src.d.err_at = std::min<long long>(f.arg, out.size()); count(C_f_pipe_err); }
  if (f.kind == 5) p->status = -1;
  cookie_io_functions_t fi = {ck_pipe, nullptr, nullptr, nullptr};
  p->f = fopencookie(p, "r", fi); setvbuf(p->f, nullptr, _IOFBF, 4096);
  pipes().push_back(p);
  return p->f;
}
static bool sim_pclose(FILE *f, int &status) {
  Quiet q;
  for (size_t i = 0; i < pipes().size(); i++) if (pipes()[i]->f == f) {
    Pipe *p = pipes()[i]; status = p->status; pipes().erase(pipes().begin() + i);
    fclose(f); delete p; if (status == -1) errno = ECHILD; ev("pclose %d", status); return true;
  }
  return false;
}
} // namespace sim::os

// ================================================================ interposition
using namespace sim::os;
template <class T> static T next(const char *name) { return (T)dlsym(RTLD_NEXT, name); }

extern "C" {
static FILE *open_file(const char *path, const char *mode, const char *real) {
  if (is_sim(path)) {
    bool w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    int fd = sim_open_fd(path, w, strchr(mode, 'w'), strchr(mode, 'a')); if (fd < 0) return nullptr;
    Quiet q; return fdopen(fd, mode);
  }
  if (g_stdio) { errno = ENOENT; return nullptr; }
  typedef FILE *(*fn)(const char *, const char *); return next<fn>(real)(path, mode);
}
struct CFile { int fd; };
static ssize_t dv_r(void *c, char *b, size_t n) { int fd = ((CFile *)c)->fd; ssize_t r; do r = dev_read(b, n); while (r < 0 && errno == EINTR); return r; }
static int dv_c(void *c) { int fd = ((CFile *)c)->fd; delete (CFile *)c; return dev_close(fd); }
static ssize_t cf_r(void *c, char *b, size_t n) { int fd = ((CFile *)c)->fd; ssize_t r; do r = sim_read(fd, b, n); while (r < 0 && errno == EINTR); return r; }
static ssize_t cf_w(void *c, const char *b, size_t n) {
  int fd = ((CFile *)c)->fd; size_t d = 0; while (d < n) { ssize_t k = sim_write(fd, b + d, n - d); if (k < 0) { if (errno == EINTR) continue; return d; } d += k; } return d;
}
static int cf_s(void *c, off64_t *o, int w) { off_t r = lseek(((CFile *)c)->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int cf_c(void *c) { int fd = ((CFile *)c)->fd; delete (CFile *)c; int e = sim_fd_closed(fd); syscall(SYS_close, fd); if (e) { errno = e; return -1; } return 0; }
// C++ file streams open with fopen or fopen64 and then work on the descriptor;
// code that uses C streams directly gets one that is served by the simulator.
static bool from_libstdcxx(void *ret) { Dl_info i; return dladdr(ret, &i) && i.dli_fname && strstr(i.dli_fname, "libstdc++"); }
FILE *fopen64(const char *path, const char *mode) __attribute__((alias("fopen")));
FILE *fopen(const char *path, const char *mode) {
  if (is_dev(path)) {
    int fd = dev_open(); if (fd < 0) return nullptr;
    Quiet q; if (from_libstdcxx(__builtin_return_address(0))) return fdopen(fd, mode);
    cookie_io_functions_t f = {dv_r, nullptr, nullptr, dv_c}; return fopencookie(new CFile{fd}, mode, f);
  }
  if (is_sim(path) && !from_libstdcxx(__builtin_return_address(0))) {
    bool w = strchr(mode, 'w') || strchr(mode, 'a') || strchr(mode, '+');
    int fd = sim_open_fd(path, w, strchr(mode, 'w'), strchr(mode, 'a')); if (fd < 0) return nullptr;
    Quiet q; cookie_io_functions_t f = {cf_r, cf_w, cf_s, cf_c};
    return fopencookie(new CFile{fd}, mode, f);
  }
  return open_file(path, mode, "fopen");
}
int fclose(FILE *f) {
  typedef int (*fn)(FILE *); static fn real = next<fn>("fclose");
  int fd = f ? fileno(f) : -1;
  if (fd_is_dev(fd)) { Quiet q; g_devfd[fd] = false; g_ndev--; sim::ev("device close"); return real(f); }
  if (fd_is_sim(fd)) { Quiet q; int e = sim_fd_closed(fd); int rv = real(f); if (e) { errno = e; return EOF; } return rv; }
  return real(f);
}
int open(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (is_dev(path)) return dev_open();
  if (is_sim(path)) return sim_open_fd(path, (flags & O_ACCMODE) != O_RDONLY, flags & O_TRUNC, flags & O_APPEND);
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
int open64(const char *path, int flags, ...) {
  va_list ap; va_start(ap, flags); int mode = va_arg(ap, int); va_end(ap);
  if (is_dev(path)) return dev_open();
  if (is_sim(path)) return sim_open_fd(path, (flags & O_ACCMODE) != O_RDONLY, flags & O_TRUNC, flags & O_APPEND);
  return (int)syscall(SYS_openat, AT_FDCWD, path, flags, mode);
}
ssize_t read(int fd, void *b, size_t n) {
  if (fd_is_dev(fd)) return dev_read(b, n);
  if (fd_is_sim(fd)) return sim_read(fd, b, n);
  if (g_stdio && fd == 0) return src_get(g_in, (char *)b, n, false);
  return raw_read(fd, b, n);
}
ssize_t write(int fd, const void *b, size_t n) {
  if (fd_is_sim(fd)) return sim_write(fd, b, n);
  if (g_stdio && fd == 1) return sink_put(g_out, (const char *)b, n, false);
  if (g_stdio && fd == 2 && g_proc) return sink_put(g_err, (const char *)b, n, false);
  return raw_write(fd, b, n);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (fd_is_sim(fd) || (g_stdio && (fd == 1 || fd == 2))) {
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
      if (!v[i].iov_len) continue;
      ssize_t k = write(fd, v[i].iov_base, v[i].iov_len);
      if (k < 0) return t ? t : -1;
      t += k; if ((size_t)k < v[i].iov_len) break;
    }
    return t;
  }
  return syscall(SYS_writev, fd, v, c);
}
int close(int fd) {
  if (fd_is_dev(fd)) return dev_close(fd);
  if (fd_is_sim(fd)) { int e = sim_fd_closed(fd); syscall(SYS_close, fd); if (e) { errno = e; return -1; } return 0; }
  return (int)syscall(SYS_close, fd);
}
FILE *popen(const char *cmd, const char *mode) {
  if (g_proc) return sim_popen(cmd, mode);
  errno = EAGAIN; return nullptr;
}
int pclose(FILE *f) { int st; if (sim_pclose(f, st)) return st; return -1; }
int system(const char *) { errno = EAGAIN; return -1; }
int gettimeofday(struct timeval *tv, void *) noexcept {
  if (!g_clock_on) return (int)syscall(SYS_gettimeofday, tv, nullptr);
  long long t = tick(); tv->tv_sec = t / 1000000; tv->tv_usec = t % 1000000; return 0;
}
time_t time(time_t *p) noexcept {
  time_t t; if (!g_clock_on) { timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); t = ts.tv_sec; } else t = tick() / 1000000;
  if (p) *p = t;
  return t;
}
int clock_gettime(clockid_t c, struct timespec *ts) noexcept {
  if (!g_clock_on) return (int)syscall(SYS_clock_gettime, c, ts);
  long long t = tick(); ts->tv_sec = t / 1000000; ts->tv_nsec = t % 1000000 * 1000; return 0;
}
pid_t getpid(void) noexcept { if (g_clock_on) return g_clock.pid; return (pid_t)syscall(SYS_getpid); }
ssize_t getrandom(void *b, size_t n, unsigned) { return dev_read(b, n); }
int getentropy(void *b, size_t n) { return dev_read(b, n) == (ssize_t)n ? 0 : -1; }
int usleep(useconds_t us) { g_clock.us += us; return 0; }
unsigned sleep(unsigned s) { g_clock.us += s * 1000000ll; return 0; }
int nanosleep(const struct timespec *r, struct timespec *) { g_clock.us += r->tv_sec * 1000000ll + r->tv_nsec / 1000; return 0; }
}
bool std::ios_base::sync_with_stdio(bool) { return true; }
