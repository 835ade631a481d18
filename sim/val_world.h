// H02: a pool of real objects beside a pool of simple models.
#ifndef SIM_VAL_WORLD_H
#define SIM_VAL_WORLD_H
#include "core.h"
#include "os.h"
#include "spffl/base/spffl_exception.h"
#include <functional>
#include <memory>
#include <sstream>
namespace sim::val {
static const int SLOTS = 5;
enum Out { DONE, OOM, REJECT };
// Runs f with the k-th allocation failing (0: none).
Out attempt(uint64_t k, const std::function<void()> &f, std::string &what);

// Base for all kinds: a step is a pure function of its operation name, seed
// and the pool.
struct WorldBase {
  virtual ~WorldBase() {}
  virtual int nops() = 0;
  virtual const char *opname(int i) = 0;
  virtual void step(const std::string &op, uint64_t seed, uint64_t oom) = 0;
};
typedef WorldBase *(*Maker)(uint64_t seed);
struct KindReg { KindReg(const char *name, Maker m); };
std::vector<std::pair<std::string, Maker>> &kinds();

// A: T (real), M (model, copyable), and
//   static M fresh(W&, Rng&)               a random model value
//   T *make(const M&)                      a real object built from nothing
//   std::string check(T&, const M&)        "" or what differs
//   static bool same(const M&, const M&)   model equality
//   bool eq(const T&, const T&), ne        real comparison
//   std::string text(const M&)             for messages
template <class T, class M> struct World : WorldBase {
  typedef World<T, M> W;
  struct Op { const char *name; std::function<void(W &, Rng &, int, int, int)> f; };
  std::vector<Op> ops;
  std::unique_ptr<T> o[SLOTS]; M m[SLOTS];
  std::string kind, opn; uint64_t oom = 0; bool oomed = false;
  // provided by the kind
  std::function<M(Rng &)> fresh;
  std::function<T *(const M &)> make;
  std::function<std::string(T &, const M &)> check;
  std::function<std::string(T &, T &, const M &, const M &)> compare; // "" or what is wrong
  std::function<std::string(const M &)> text;
  std::function<bool(const M &)> toobig = [](const M &) { return false; };

  std::function<void()> start = [] {}; std::function<bool()> unsafe = [] { return false; }; // numbers outside the library's range: skip the step

  int nops() override { return (int)ops.size(); }
  const char *opname(int i) override { return ops[i].name; }
  void add(const char *n, std::function<void(W &, Rng &, int, int, int)> f) { ops.push_back({n, f}); }
  std::string pool() { std::string s; for (int i = 0; i < SLOTS; i++) s += sprintf_s(" x%d=", i) + text(m[i]); return s; }
  [[noreturn]] void bad(const std::string &cls, const std::string &w) { violate(cls + ":" + kind + "." + opn, kind + ": " + opn + (oomed ? " (abandoned: out of memory)" : "") + ": " + w + "; models:" + pool()); }
  void check_one(int i, const char *when) { count(C_oracle); std::string w = check(*o[i], m[i]); if (w != "") bad("value", sprintf_s("x%d %s ", i, when) + w); }
  void init(uint64_t seed) { Rng r(seed); opn = "construct"; for (int i = 0; i < SLOTS; i++) { m[i] = fresh(r); o[i].reset(make(m[i])); } verify(-1); }
  void verify(int except) { for (int i = 0; i < SLOTS; i++) if (i != except) check_one(i, i == except ? "" : "is"); }
  // Replace object a by a newly built one.
  void build(int a, const M &nm, const std::function<T *()> &f) {
    if (unsafe()) return; T *t = nullptr; std::string w; Out x = attempt(oom, [&] { t = f(); }, w);
    if (x == REJECT) bad("rejected", "unexpected exception: " + w);
    if (x == OOM) { oomed = true; verify(-1); return; }
    o[a].reset(t); m[a] = nm;
  }
  // Change object a.
  void mutate(int a, const M &nm, const std::function<void(T &)> &f) {
    if (unsafe()) return; std::string w; Out x = attempt(oom, [&] { f(*o[a]); }, w);
    if (x == REJECT) bad("rejected", "unexpected exception: " + w);
    if (x == DONE) { m[a] = nm; return; }
    recover(a);
  }
  void recover(int a) {
    oomed = true; verify(a); // nobody else changed
    Rng r(mix(oom, hash_str(opn))); // the abandoned one can be destroyed or assigned to
    if (r.chance(1, 2)) { m[a] = fresh(r); o[a].reset(make(m[a])); }
    else { int b = (a + 1 + (int)r.below(SLOTS - 1)) % SLOTS; *o[a] = *o[b]; m[a] = m[b]; }
  }
  // Change two objects.
  void mutate2(int a, int b, const M &na, const M &nb, const std::function<void(T &, T &)> &f) {
    if (unsafe()) return; std::string w; Out x = attempt(oom, [&] { f(*o[a], *o[b]); }, w);
    if (x == REJECT) bad("rejected", "unexpected exception: " + w);
    if (x == DONE) { m[a] = na; m[b] = nb; return; }
    oomed = true; for (int i = 0; i < SLOTS; i++) if (i != a && i != b) check_one(i, "is");
    Rng r(oom); m[a] = fresh(r); o[a].reset(make(m[a])); if (b != a) { m[b] = fresh(r); o[b].reset(make(m[b])); }
  }
  // A call that must be refused, leaving everything as it was.
  void refuse(const std::function<void()> &f) {
    std::string w; Out x = attempt(oom, f, w);
    if (x == DONE) bad("accepted", "should have been refused");
    if (x == REJECT) count(C_f_malformed); else oomed = true;
  }
  // A question; the answer as text.
  void ask(const std::string &want, const std::function<std::string()> &f) {
    if (unsafe()) return; std::string got, w; Out x = attempt(oom, [&] { got = f(); }, w);
    if (x == REJECT) bad("rejected", "unexpected exception: " + w);
    if (x == OOM) { oomed = true; return; }
    count(C_oracle); if (got != want) bad("answer", "answers " + got + ", the model says " + want);
  }
  void step(const std::string &op, uint64_t seed, uint64_t k) override {
    for (auto &p : ops) if (op == p.name) {
      Rng r(seed); opn = op; oom = k; oomed = false;
      int a = (int)r.below(SLOTS), b = r.chance(1, 4) ? a : (int)r.below(SLOTS), c = r.chance(1, 5) ? a : r.chance(1, 5) ? b : (int)r.below(SLOTS);
      start(); p.f(*this, r, a, b, c); count(C_steps); if (oomed) count(C_p_oom_reported);
      verify(-1);
      int i = (int)r.below(SLOTS), j = (int)r.below(SLOTS); std::string w; count(C_oracle);
      for (int z = 0; z < 2; z++) { w = compare(*o[i], *o[j], m[i], m[j]); if (w != "") bad("comparison", sprintf_s("x%d and x%d: ", i, j) + w); i = a; j = b; }
      for (int q = 0; q < SLOTS; q++) if (toobig(m[q])) { m[q] = fresh(r); o[q].reset(make(m[q])); }
      ev("%s %d %d %d%s", op.c_str(), a, b, c, oomed ? " abandoned" : ""); evh(hash_str(text(m[a])));
      return;
    }
    harness_error("no such step: " + kind + "." + op);
  }
  void common() { // what every kind has
    add("copy", [](W &w, Rng &, int a, int b, int) { M t = w.m[b]; w.build(a, t, [&] { return new T(*w.o[b]); }); });
    add("assign", [](W &w, Rng &, int a, int b, int) { M t = w.m[b]; w.mutate(a, t, [&](T &x) { x = *w.o[b]; }); });
    add("assign_chain", [](W &w, Rng &, int a, int b, int) { M t = w.m[b]; w.mutate(a, t, [&](T &x) { x = x; x = *w.o[b]; x = x; }); });
    add("make", [](W &w, Rng &r, int a, int, int) { M t = w.fresh(r); w.build(a, t, [&] { return w.make(t); }); });
    add("passbyvalue", [](W &w, Rng &, int a, int b, int) { M t = w.m[b]; w.mutate(a, t, [&](T &x) { auto g = [](T y) { T z(y); return z; }; x = g(*w.o[b]); }); });
    add("swap3", [](W &w, Rng &, int a, int b, int) { M p = w.m[a], q = w.m[b]; w.mutate2(a, b, q, p, [&](T &x, T &y) { T t(x); x = y; y = t; }); });
  }
};
template <class T> std::string show(const T &v) { std::ostringstream o; o << v; return o.str(); }
} // namespace sim::val
#endif
