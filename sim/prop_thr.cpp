// S01: callers on several threads get the answers they would get alone.
#include "core.h"
#include "ops.h"
#include "tsched.h"
#include <string.h>
#include <iostream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace sim {
using namespace sim::ops;
static const uint64_t LONG = 400000; // accesses of one call, made alone

static bool suits(const Op &o) { return !(o.flags & F_RANDOM); }
static const Op &pick_op(Rng &r, bool global) {
  for (int i = 0;; i++) { const Op &o = all()[r.below(all().size())]; if (!suits(o)) continue; if ((o.flags & F_SLOW) && !r.chance(1, 8)) continue; if (global && i < 60 && !(o.flags & F_GLOBAL)) continue; return o; }
}
static void gen(Rng &r, Plan &p) {
  Line &s = p.add("sched"); s.setu("seed", r.next() >> 16);
  switch (r.below(5)) {
    case 0: s.set("pg", 500); s.set("ps", 300); s.set("pa", 500); break;
    case 1: s.set("pg", 100); s.set("ps", 100); s.set("pa", 200); break;
    case 2: s.set("pg", 20); s.set("ps", 20); s.set("pa", 50); s.set("points", r.range(1, 30)); break;
    case 3: s.set("pg", 0); s.set("ps", 0); s.set("pa", 100); s.set("pct", r.range(1, 4)); break;
    case 4: s.set("pg", 0); s.set("ps", 0); s.set("pa", 0); s.set("points", r.range(5, 300)); break;
  }
  int nt = r.range(2, 4), nf = r.chance(3, 5) ? 1 : r.range(2, 3);
  std::vector<std::string> focus; for (int i = 0; i < nf; i++) focus.push_back(pick_op(r, r.chance(1, 2)).name);
  std::vector<Args> seeds = {Args::fresh(r)}; for (int i = r.range(0, 4); i > 0; i--) seeds.push_back(r.chance(1, 3) ? seeds[0].near(r) : Args::fresh(r));
  auto call = [&](Line &l) { l.set("op", r.chance(9, 10) ? r.pick(focus) : pick_op(r, false).name); (r.chance(3, 4) ? r.pick(seeds) : Args::fresh(r)).put(l); };
  if (r.chance(1, 3)) for (int i = r.range(1, 3); i > 0; i--) call(p.add("warm"));
  int how = r.below(4); // 0, 1: values made by the thread; 2: beforehand; 3: copies of one original
  for (int t = 0; t < nt; t++) for (int i = r.range(1, 4); i > 0; i--) { Line &l = p.add("call"); l.set("thread", t); call(l); l.set("how", how < 2 ? 0 : how - 1); }
}
struct Shm { uint64_t done, n; uint32_t la, lr; char args[1 << 17], res[1 << 17]; };
struct Gold { bool ok = false; uint64_t n = 0; std::string args, res; };
static std::string outcome(Case &c) {
  try { c.prepare(); c.call(); std::string s = "value " + c.result(); return s; }
  catch (const std::exception &e) { return std::string("exception ") + e.what(); }
  catch (...) { return "exception of an unknown kind"; }
}
// The call made alone, in a process of its own.
static Gold alone(const std::string &op, const Args &seed) {
  static Shm *s; if (!s) s = (Shm *)mmap(0, sizeof *s, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  s->done = 0; pid_t pid = fork();
  if (!pid) {
    ts::record(true); auto c = make(op, seed); std::string r = outcome(*c), a = c->args(); ts::record(false);
    s->n = ts::recorded(); s->la = std::min(a.size(), sizeof s->args); s->lr = std::min(r.size(), sizeof s->res); memcpy(s->args, a.data(), s->la); memcpy(s->res, r.data(), s->lr); s->done = 1; _exit(0);
  }
  int st; waitpid(pid, &st, 0); Gold g; if (!s->done) return g;
  g.ok = true; g.n = s->n; g.args.assign(s->args, s->la); g.res.assign(s->res, s->lr); return g;
}
struct Nul : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
struct Call { const Op *o; std::string op; Args seed; int how; const Gold *g; std::unique_ptr<Case> c; std::string args, res; };
static void exec(const Plan &plan) {
  static Nul nul; std::cout.rdbuf(&nul);
  ts::share_hot();
  std::map<std::pair<std::string, Args>, Gold> gold; std::map<std::pair<std::string, Args>, std::unique_ptr<Case>> origs;
  auto golden = [&](const Line &l) -> Gold & { auto k = std::make_pair(l.str("op"), Args::of(l)); auto i = gold.find(k); if (i == gold.end()) i = gold.emplace(k, alone(k.first, k.second)).first; return i->second; };
  ts::Params P; std::vector<Call> th[ts::MAXT]; int nt = 0; uint64_t sum = 0; int points = 0; std::string names; uint64_t h = 0;
  for (auto &l : plan.lines) {
    if (l.kind == "warm" || l.kind == "call") { std::string n = l.str("op"); if (names.empty()) snprintf(R->msg, sizeof R->msg, "%s", n.c_str()); names += " " + n; golden(l); }
    else if (l.kind == "sched") { P.seed = l.u64("seed"); P.pg = l.num("pg"); P.ps = l.num("ps"); P.pa = l.num("pa"); P.pct = l.num("pct"); points = l.num("points"); }
    else if (l.kind == "explicit") P.explicit_ = true;
    else if (l.kind == "first") P.sw.push_back({{-1, 0}, (int)l.num("to")});
    else if (l.kind == "switch") P.sw.push_back({{(int)l.num("thread"), l.num("at")}, (int)l.num("to")});
    else if (l.kind == "wait") P.sw.push_back({{(int)l.num("thread"), -1}, (int)l.num("to")});
    else if (l.kind == "end") P.sw.push_back({{(int)l.num("thread"), -2}, (int)l.num("to")});
  }
  for (auto &l : plan.lines) {
    if (l.kind == "warm") { Gold &g = golden(l); if (!g.ok || g.n > LONG) continue; auto c = make(l.str("op"), Args::of(l)); std::string r = outcome(*c); ev("before: %s args %s -> %s", l.str("op").c_str(), g.args.c_str(), r.c_str()); }
    if (l.kind != "call") continue;
    Gold &g = golden(l); if (!g.ok || g.n > LONG || sum > 3 * LONG) continue;
    int t = l.num("thread"); if (t < 0 || t >= ts::MAXT) continue; nt = std::max(nt, t + 1); sum += g.n;
    Call k; k.op = l.str("op"); k.o = find(k.op); k.seed = Args::of(l); k.how = l.num("how"); k.g = &g;
    if (k.how == 1) k.c = make(k.op, k.seed);
    if (k.how == 2) { auto &o = origs[{k.op, k.seed}]; if (!o) o = make(k.op, k.seed); k.c = o->copy(); }
    h = mix(h, mix(hash_str(k.op), mix(t, hash_str(k.seed.key())))); th[t].push_back(std::move(k));
  }
  origs.clear(); // the original is gone before its copies are used
  if (nt < 1) return;
  std::vector<std::function<void()>> bodies;
  for (int t = 0; t < nt; t++) bodies.push_back([&, t] { for (auto &k : th[t]) { if (!k.c) { Rng r = k.seed.rng(); k.c = k.o->make(*k.o, r); } k.res = outcome(*k.c); k.args = k.c->args(); k.c->drop(); } });
  P.expect = std::max<uint64_t>(sum, 1); P.limit = 10 * sum + 1000000; if (points) P.po = std::max<uint64_t>(1, sum / (2 * points));
  ts::run(P, bodies);
  for (int t = 0; t < nt; t++) for (auto &k : th[t]) {
    count(C_cases); count(C_oracle); std::string w = sprintf_s("thread %d of %d: ", t, nt) + k.op + " args " + k.g->args;
    ev("thread %d %s args %s -> %s", t, k.op.c_str(), k.g->args.c_str(), k.res.c_str());
    if (k.args.substr(0, sizeof(Shm::args)) != k.g->args) violate("wrong-arguments:" + k.op, w + ": its own arguments became " + k.args + " (called together with" + names + ")");
    if (k.res.substr(0, sizeof(Shm::res)) != k.g->res) violate("wrong-answer:" + k.op, w + ": " + k.res + "; made alone: " + k.g->res + " (called together with" + names + ")");
  }
  count(C_histories); uint64_t sh = mix(h, ts::schedule_hash()); R->shape = sh; distinct(sh); if (R->ctr[C_f_switch]) R->nontrivial = 1;
}
static PropReg reg({"S01", gen, exec, 20000, 2000000,
  "one case = one library call made on a scheduled thread and compared with the same call made alone; distinct = (calls, sequence of context switches); non-trivial = at least one switch between threads",
  "every library function in the operation catalogue (spffl/**) on real threads, every memory access of it under the scheduler", "thread scheduling, locks, condition variables, once-guards (simulated); standard output discarded", init_all});
} // namespace sim
