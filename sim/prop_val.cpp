// H02: histories of operations on pools of objects.
#include "val_world.h"
#include <string.h>
namespace sim::val {
std::vector<std::pair<std::string, Maker>> &kinds() { static std::vector<std::pair<std::string, Maker>> k; return k; }
KindReg::KindReg(const char *n, Maker m) { auto &k = kinds(); size_t i = 0; while (i < k.size() && k[i].first < n) i++; k.insert(k.begin() + i, {n, m}); }
Out attempt(uint64_t k, const std::function<void()> &f, std::string &what) {
  os::AllocPlan p; if (k) p.fail.push_back(k); Out x = DONE;
  os::alloc_on(&p);
  try { f(); os::alloc_off(); }
  catch (const std::bad_alloc &) { os::alloc_off(); x = OOM; }
  catch (const spffl::exception_t &e) { os::alloc_off(); x = REJECT; what = e.what(); }
  catch (const std::exception &e) { os::alloc_off(); x = REJECT; what = e.what(); }
  count(C_f_alloc, os::alloc_fired()); count(C_allocs, os::alloc_count());
  if (x == OOM && !os::alloc_fired()) { x = REJECT; what = "out of memory although none was injected"; }
  return x;
}
static void h02_gen(Rng &r, Plan &p) {
  auto &k = kinds()[r.below(kinds().size())]; uint64_t ws = r.next() >> 30; std::unique_ptr<WorldBase> w(k.second(ws));
  Line &l = p.add("world"); l.set("op", k.first); l.setu("seed", ws);
  int n = r.range(8, 60); int focus = r.chance(1, 2) ? r.range(0, w->nops() - 1) : -1; bool ooms = r.chance(1, 2);
  for (int i = 0; i < n; i++) {
    Line &s = p.add("step"); s.set("op", w->opname(focus >= 0 && r.chance(1, 5) ? focus : (int)r.below(w->nops()))); s.setu("seed", r.next() >> 34);
    if (ooms && r.chance(1, 4)) s.set("oom", (long long)(r.chance(1, 2) ? r.range(1, 3) : r.range(1, 40)));
  }
}
static void h02_exec(const Plan &p) {
  const Line *l = p.first("world"); if (!l) { R->nontrivial = 0; return; }
  std::unique_ptr<WorldBase> w; std::string kind = l->str("op");
  for (auto &k : kinds()) if (k.first == kind) { snprintf(R->msg, sizeof R->msg, "%s: construction", kind.c_str()); w.reset(k.second(l->u64("seed"))); }
  if (!w) harness_error("no such kind: " + kind);
  uint64_t h = hash_str(kind); int n = 0;
  for (auto &s : p.lines) if (s.kind == "step") {
    snprintf(R->msg, sizeof R->msg, "%s.%s: step %d: %s", kind.c_str(), s.str("op").c_str(), n, s.text().c_str());
    w->step(s.str("op"), s.u64("seed"), s.u64("oom")); h = mix(h, hash_str(s.text())); distinct(h); n++;
  }
  snprintf(R->msg, sizeof R->msg, "%s: destruction", kind.c_str()); w.reset();
  count(C_histories); R->nontrivial = n > 0;
}
static PropReg h02_reg({"H02", h02_gen, h02_exec, 9000, 300000,
  "a step counts once per distinct history leading to it",
  "spffl/bits, spffl/containers, spffl/polynomials (all value types), compiled with the address sanitizer",
  "memory allocation (scripted failures)"});
} // namespace sim::val
