// A01 (out-of-memory safety), A02 (memory given back), H01 (no history).
#include "core.h"
#include "ops.h"
#include "os.h"
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
namespace sim {
using namespace sim::ops;
using os::AllocPlan;

static void running(const std::string &s) { snprintf(R->msg, sizeof R->msg, "%s", s.c_str()); }

struct Outcome { bool threw = false, oom = false; std::string type, text; bool sfail = false; };
static std::string show(const Outcome &o) { return o.threw ? "exception " + o.type + " (" + o.text + ")" : o.text; }
// One call under an allocation plan.  The result is left in the case.
static Outcome call(Case &c, const AllocPlan *p, uint64_t &nalloc, uint64_t &fired) {
  Outcome o; c.prepare();
  os::alloc_on(p);
  try { c.call(); os::alloc_off(); }
  catch (const std::bad_alloc &e) { os::alloc_off(); o.threw = o.oom = true; o.type = "out-of-memory"; }
  catch (const spffl::exception_t &e) { os::alloc_off(); o.threw = true; o.type = "spffl::exception_t"; o.text = e.what(); }
  catch (const std::exception &e) { os::alloc_off(); o.threw = true; o.type = typeid(e).name(); o.text = e.what(); }
  catch (...) { os::alloc_off(); o.threw = true; o.type = "unknown"; }
  nalloc = os::alloc_count(); fired = os::alloc_fired(); count(C_allocs, nalloc);
  if (!o.threw) { o.text = c.result(); o.sfail = c.stream_failed(); }
  return o;
}
// Which allocation fails: anywhere, or one of the first or last few ("edge").
static void fail_point(Rng &r, Line &l) {
  if (r.chance(1, 4)) l.set("edge", (long long)(r.chance(1, 3) ? r.range(1, 4) : -r.range(1, 6)));
  l.set("at", (long long)r.below(1000000));
}
static uint64_t point(long long at, long long edge, uint64_t n) {
  if (edge > 0) return std::min<uint64_t>(edge, n);
  if (edge < 0) return n >= (uint64_t)-edge ? n + 1 + edge : 1;
  return 1 + (uint64_t)at * n / 1000000;
}
static const Op &pick_op(Rng &r) { return all()[r.below(all().size())]; }

// ---------------------------------------------------------------- A01
static void a01_gen(Rng &r, Plan &p) {
  int n = r.range(3, 6);
  for (int i = 0; i < n; i++) {
    const Op &o = pick_op(r);
    Line &l = p.add("case"); l.set("op", o.name); l.setu("seed", r.next() >> 16); l.set("cold", r.chance(o.flags & F_GLOBAL ? 2 : 1, 4) ? 1 : 0);
    int k = r.range(6, 14);
    for (int j = 0; j < k; j++) {
      Line &f = p.add("fail"); fail_point(r, f);
      if (r.chance(1, 4)) f.set("persist", 1);
      else if (r.chance(1, 5)) f.set("also", (long long)r.range(1, 6));
    }
  }
}
static void judge_fault(const std::string &op, Case &c, const Op &o, const std::string &args, const Outcome &ok, const Outcome &f, uint64_t fired, const std::string &where) {
  count(C_oracle);
  if (fired) count(C_f_alloc, fired);
  std::string w = op + where + " args " + args;
  if (f.oom) { if (!fired) violate("oom-without-fault:" + op, w + ": reports out-of-memory although none was injected"); count(C_p_oom_reported); }
  else if (f.threw) {
    if (!ok.threw || ok.type != f.type) violate("wrong-exception:" + op, w + ": " + show(f) + "; without memory pressure: " + show(ok));
    count(C_p_oom_completed);
  } else if ((o.flags & F_STREAM) && f.sfail && !ok.sfail) {
    if (!fired) violate("stream-failed:" + op, w + ": stream failed although nothing was injected");
    count(C_p_oom_stream);
  } else {
    if (ok.threw || f.text != ok.text) violate("wrong-answer:" + op, w + ": returned " + f.text + "; without memory pressure: " + show(ok));
    if (fired) count(C_p_oom_completed);
  }
  std::string now = c.args();
  if (now != args) violate("argument-changed:" + op, w + ": afterwards its arguments are " + now);
  c.reassign_check(f.threw);
  c.drop();
}
// The outcome of the fault-free call made in a forked copy of this process.
struct Shm { uint64_t done, n; int threw, sfail, oom; char type[128]; uint32_t len; char text[1 << 18]; };
static bool in_copy(Case &c, Outcome &o, uint64_t &n) {
  Shm *s = (Shm *)mmap(0, sizeof *s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    uint64_t f; Outcome x = call(c, nullptr, s->n, f);
    s->threw = x.threw; s->sfail = x.sfail; snprintf(s->type, sizeof s->type, "%s", x.type.c_str()); s->oom = x.oom;
    s->len = std::min(x.text.size(), sizeof s->text); memcpy(s->text, x.text.data(), s->len); s->done = 1; _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  bool ok = s->done;
  if (ok) { o = Outcome(); o.threw = s->threw; o.sfail = s->sfail; o.type = s->type; o.oom = s->oom; o.text.assign(s->text, s->len); n = s->n; }
  munmap(s, sizeof *s);
  return ok;
}
static bool in_fresh(const std::string &op, const Args &seed, Outcome &o, uint64_t &n) {
  Shm *s = (Shm *)mmap(0, sizeof *s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pid_t pid = fork();
  if (pid == 0) {
    auto c = make(op, seed); uint64_t f; Outcome x = call(*c, nullptr, s->n, f);
    s->threw = x.threw; s->sfail = x.sfail; snprintf(s->type, sizeof s->type, "%s", x.type.c_str()); s->oom = x.oom;
    s->len = std::min(x.text.size(), sizeof s->text); memcpy(s->text, x.text.data(), s->len); s->done = 1; _exit(0);
  }
  int st; waitpid(pid, &st, 0);
  bool ok = s->done;
  if (ok) { o = Outcome(); o.threw = s->threw; o.sfail = s->sfail; o.type = s->type; o.oom = s->oom; o.text.assign(s->text, s->len); n = s->n; }
  munmap(s, sizeof *s);
  return ok;
}
static void a01_exec(const Plan &plan) {
  std::unique_ptr<Case> c; const Op *o = nullptr; Outcome ok; uint64_t n = 0; std::string name, args;
  for (auto &l : plan.lines) {
    if (l.kind == "case") {
      name = l.str("op"); running(name + ": making its arguments");
      c = make(name, Args::of(l), &o); args = c->args();
      ev("case %s %s", name.c_str(), args.c_str());
      running(name + " without any fault, args " + args);
      if (l.num("cold")) {
        // This process is to meet the operation for the first time under the fault.
        if (!in_copy(*c, ok, n)) { uint64_t f; call(*c, nullptr, n, f); harness_error("copy of " + name + " did not finish"); }
      } else { uint64_t f; ok = call(*c, nullptr, n, f); c->drop(); ok = call(*c, nullptr, n, f); c->drop(); }
      ev("reference n=%llu %s", (unsigned long long)n, show(ok).c_str());
    } else if (l.kind == "fail") {
      if (!c || n == 0) continue;
      AllocPlan p; uint64_t at = point(l.num("at"), l.num("edge"), n);
      if (l.num("persist")) { p.from = at; count(C_f_alloc_persist); } else { p.fail.push_back(at); if (l.has("also")) p.fail.push_back(at + l.num("also")); }
      std::string where = sprintf_s(" (allocation %llu of %llu failing%s)", (unsigned long long)at, (unsigned long long)n, p.from ? ", and all later ones" : "");
      running(name + where + " args " + args);
      uint64_t m, f; Outcome out = call(*c, &p, m, f);
      ev("%s -> %s fired=%llu", where.c_str(), show(out).c_str(), (unsigned long long)f);
      count(C_cases); if (f) R->nontrivial = 1;
      distinct(mix(mix(hash_str(name), at), mix(p.from ? 1 : 0, hash_str(args))));
      R->shape = mix(R->shape, mix(hash_str(name), at * 2 + (p.from ? 1 : 0)));
      judge_fault(name, *c, *o, args, ok, out, f, where);
      if (f) { // repeat with memory available
        running(name + ": retried after" + where + " args " + args);
        Outcome again = call(*c, nullptr, m, f); c->drop();
        if (show(again) != show(ok)) violate("retry-differs:" + name, name + where + " args " + args + ": retried with memory available: " + show(again) + "; ordinary answer: " + show(ok));
        count(C_p_retry_ok);
      }
    }
  }
}
static const char *REAL = "every library function in the operation catalogue (spffl/**), compiled from the working tree";
static const char *STUB = "operator new/malloc (simulated memory with scripted exhaustion)";
static PropReg reg_a01({"A01", a01_gen, a01_exec, 6000, 400000,
  "one case = one library call on seeded arguments with a scripted allocation (or all from it on) failing; distinct = (operation, arguments, failing allocation, persistence); non-trivial = the failure was really delivered", REAL, STUB, init_all});

// ---------------------------------------------------------------- A02
// Histories of calls; what they leave allocated must not grow.
static void hist_gen(Rng &r, Plan &p, int lo, int hi, int fault_num, int fault_den) {
  // A few operations in the centre of attention, each with a few argument
  // seeds, so that calls are repeated and alternate between arguments.
  std::vector<std::pair<std::string, Args>> focus;
  bool deep = r.chance(1, 4); // one operation, many arguments that differ a little
  int nf = deep ? 1 : r.range(1, 3);
  for (int i = 0; i < nf; i++) {
    const Op *o = &pick_op(r);
    if (r.chance(1, 3)) for (int t = 0; t < 40 && !(o->flags & F_GLOBAL); t++) o = &pick_op(r);
    Args first = Args::fresh(r); int ns = deep ? r.range(6, 14) : r.range(1, 4); for (int j = 0; j < ns; j++) focus.push_back({o->name, j == 0 ? first : r.chance(1, 2) ? first.near(r) : Args::fresh(r)});
  }
  int n = r.range(lo, hi);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("call"); std::string op; Args seed;
    if (r.chance(deep ? 9 : 6, deep ? 10 : 9)) { auto &f = r.pick(focus); op = f.first; seed = f.second; }
    else { const Op *o = &pick_op(r); while (o->flags & F_SLOW) o = &pick_op(r); op = o->name; seed = Args::fresh(r); }
    l.set("op", op); seed.put(l);
    if (r.chance(fault_num, fault_den)) { fail_point(r, l); if (r.chance(1, 4)) l.set("persist", 1); }
  }
}
struct Call { std::string name, args; const Op *op; std::unique_ptr<Case> c; long long at, edge; bool persist; uint64_t n; };
static Outcome one_call(Call &k, const AllocPlan *p, uint64_t &m, uint64_t &f) { Outcome o = call(*k.c, p, m, f); k.c->drop(); return o; }
static AllocPlan plan_of(const Call &k) {
  AllocPlan p; if (k.at >= 0 && k.n) { uint64_t at = point(k.at, k.edge, k.n); if (k.persist) p.from = at; else p.fail.push_back(at); } return p;
}
static std::string describe(const Call &k) {
  std::string s = k.name + " args " + k.args;
  if (k.at >= 0 && k.n) s += sprintf_s(" (allocation %llu of %llu failing%s)", (unsigned long long)point(k.at, k.edge, k.n), (unsigned long long)k.n, k.persist ? ", and all later ones" : "");
  return s;
}
static void a02_gen(Rng &r, Plan &p) { hist_gen(r, p, 6, 16, 1, 2); }
static void a02_exec(const Plan &plan) {
  std::vector<Call> calls;
  for (auto &l : plan.lines) if (l.kind == "call") {
    Call k; k.name = l.str("op"); running(k.name + ": making its arguments");
    k.c = make(k.name, Args::of(l), &k.op); k.args = k.c->args(); k.at = l.num("at", -1); k.edge = l.num("edge"); k.persist = l.num("persist"); k.n = 0;
    calls.push_back(std::move(k));
  }
  uint64_t m, f;
  // Once through without faults: tables that are filled once get filled.
  for (int pass = 0; pass < 2; pass++) for (auto &k : calls) { running(k.name + " args " + k.args + " without any fault"); one_call(k, nullptr, k.n, f); }
  uint64_t base = os::alloc_live();
  for (size_t i = 0; i < calls.size(); i++) {
    Call &k = calls[i]; AllocPlan p = plan_of(k);
    running(describe(k));
    uint64_t mark = os::alloc_mark();
    Outcome o = one_call(k, &p, m, f);
    count(C_cases); count(C_oracle); if (f) { count(C_f_alloc, f); if (k.persist) count(C_f_alloc_persist); }
    if (o.threw && !o.oom) count(C_f_malformed);
    R->nontrivial = 1;
    distinct(mix(mix(hash_str(k.name), hash_str(k.args)), mix(k.at, k.persist + 2 * (k.edge + 8)))); R->shape = mix(R->shape, mix(hash_str(k.name), k.at));
    uint64_t live = os::alloc_live();
    ev("%s -> %s live %lld", describe(k).c_str(), show(o).c_str(), (long long)(live - base));
    if (live > base) {
      std::string kept = os::alloc_live_list(mark);
      // Growth, or a table filled once?  Everything so far, again and again.
      uint64_t seen[6]; int grew = 0;
      for (int rep = 0; rep < 6; rep++) { uint64_t before = os::alloc_live(); for (size_t j = 0; j <= i; j++) { AllocPlan q = plan_of(calls[j]); one_call(calls[j], &q, m, f); } seen[rep] = os::alloc_live(); if (seen[rep] > before) grew++; }
      ev("repeated: %llu %llu %llu", (unsigned long long)seen[0], (unsigned long long)seen[2], (unsigned long long)seen[5]);
      if (grew == 6) violate(std::string(o.oom ? "leak-out-of-memory:" : o.threw ? "leak-exception:" : "leak:") + k.name, describe(k) + " ended with " + show(o) + " and kept allocated:" + kept + sprintf_s("; six repetitions of the history kept %llu blocks more", (unsigned long long)(seen[5] - live)));
      base = os::alloc_live();
    }
    k.c->reassign_check(o.threw);
  }
  // Over inputs not seen before: the number of live blocks must not keep growing.
  if (plan.lines.size() > 6) {
    Rng r(mix(0xA02, calls.size() ? hash_str(calls[0].name + calls[0].args) : 1));
    const Call *k = nullptr; for (auto &q : calls) if (!(q.op->flags & F_SLOW)) { k = &q; break; }
    if (k) {
      std::string op = k->name; uint64_t at[7], t0 = os::alloc_total();
      for (int b = 0; b < 7; b++) { for (int j = 0; j < 20; j++) { const Op *o; auto c = make(op, Args::fresh(r), &o); running(op + " on new arguments " + c->args()); call(*c, nullptr, m, f); c->drop(); count(C_cases); } at[b] = os::alloc_live(); }
      count(C_oracle);
      ev("fresh arguments of %s: %llu .. %llu", op.c_str(), (unsigned long long)at[0], (unsigned long long)at[6]);
      int grew = 0; for (int b = 1; b < 7; b++) if (at[b] > at[b - 1]) grew++;
      if (grew == 6 && at[6] - at[0] >= 30) { // A table of bounded size fills up in the end.
        uint64_t last = at[6], each = (os::alloc_total() - t0) / 140 + 1; bool still = true; int n = (int)std::max<uint64_t>(20, std::min<uint64_t>(100, 500000 / each));
        for (int b = 0; b < 8 && still; b++) { for (int j = 0; j < n; j++) { const Op *o; auto c = make(op, Args::fresh(r), &o); running(op + " on new arguments " + c->args()); call(*c, nullptr, m, f); c->drop(); count(C_cases); } uint64_t now = os::alloc_live(); still = now > last; last = now; }
        if (still) violate("grows:" + op, op + sprintf_s(": live blocks kept growing over %d calls on different arguments (%llu to %llu)", 140 + 8 * n, (unsigned long long)at[0], (unsigned long long)last));
      }
    }
  }
}
static PropReg reg_a02({"A02", a02_gen, a02_exec, 5000, 400000,
  "one case = one library call of a history, with or without a failing allocation; distinct = (operation, arguments, failing allocation); non-trivial = the live allocations were compared after it", REAL, STUB, init_all});

// ---------------------------------------------------------------- H01
static void h01_gen(Rng &r, Plan &p) { hist_gen(r, p, 8, 30, 1, 4); }
static void h01_exec(const Plan &plan) {
  std::map<std::string, std::pair<Outcome, uint64_t>> ref;
  // What each call answers as the first thing a process does.
  for (auto &l : plan.lines) if (l.kind == "call") {
    std::string key = l.str("op") + "#" + Args::of(l).key(); if (ref.count(key)) continue;
    running(l.str("op") + " as the first call");
    Outcome o; uint64_t n = 0;
    if (!in_fresh(l.str("op"), Args::of(l), o, n)) { uint64_t f; auto c = make(l.str("op"), Args::of(l)); call(*c, nullptr, n, f); harness_error("copy running " + l.str("op") + " did not finish"); }
    ref[key] = {o, n}; ev("first call %s -> %s", key.c_str(), show(o).c_str());
  }
  std::string before; int depth = 0;
  for (auto &l : plan.lines) if (l.kind == "call") {
    std::string name = l.str("op"), key = name + "#" + Args::of(l).key(); running(name + ": making its arguments");
    auto c = make(name, Args::of(l)); std::string args = c->args();
    auto &rf = ref[key]; uint64_t m, f;
    if (l.has("at") && rf.second) {
      AllocPlan p; uint64_t at = point(l.num("at"), l.num("edge"), rf.second); if (l.num("persist")) { p.from = at; count(C_f_alloc_persist); } else p.fail.push_back(at);
      running(name + sprintf_s(" (allocation %llu failing) args ", (unsigned long long)at) + args);
      Outcome o = call(*c, &p, m, f); c->drop(); count(C_f_alloc, f);
      ev("%s abandoned: %s", key.c_str(), show(o).c_str());
      before += name + sprintf_s("(oom@%llu) ", (unsigned long long)at);
      if (f) R->nontrivial = 1;
    }
    running(name + " args " + args + " after " + before.substr(before.size() > 300 ? before.size() - 300 : 0));
    Outcome o = call(*c, nullptr, m, f); c->drop();
    count(C_cases); count(C_oracle); depth++; if (depth > 1) R->nontrivial = 1;
    if (o.threw) count(C_f_malformed);
    ev("%s -> %s", key.c_str(), show(o).c_str());
    distinct(mix(hash_str(key), hash_str(before))); R->shape = mix(R->shape, hash_str(key));
    if (show(o) != show(rf.first)) violate("depends-on-history:" + name, name + " args " + args + " answered " + show(o) + " after: " + before + "; as the first call of a process it answers " + show(rf.first));
    before += name + " ";
  }
  count(C_histories);
}
static PropReg reg_h01({"H01", h01_gen, h01_exec, 55000, 1500000,
  "one case = one library call inside a history of other (also failed) calls, compared with the same call made first in a fresh process; distinct = (call, preceding history); non-trivial = something had run or failed before it", REAL, STUB, init_all});
} // namespace sim
