// C01..C04: the command-line tool as a whole, run as simulated processes.
#include "cmds.h"
#include <string.h>
namespace sim {
using namespace sim::cmds;
using os::Proc; using os::ProcResult; using os::Delivery; using os::Acceptance;

static const char *REAL = "the whole tool (cli/spiff and the library) including command-line interpolation, compiled with the address sanitizer, one simulated process per command";
static const char *STUB = "kernel and C library entry points: popen/pclose, standard streams, files, memory allocation, clock, process id; the shell that popen runs is a model of POSIX word splitting and quoting";

static std::string clip(const std::string &s, size_t n = 300) { std::string r; for (char c : s.substr(0, n)) { if (c == '\n') r += "\\n"; else r += c; } return s.size() > n ? r + sprintf_s("...(%zu bytes)", s.size()) : r; }
static std::string show(const ProcResult &r) { return (r.exited ? sprintf_s("exit %d", r.code) : sprintf_s("killed by signal %d", r.sig)) + ", printed \"" + clip(r.out) + "\", said \"" + clip(r.err, 200) + "\""; }
static void crash_check(const ProcResult &r, const std::string &cls, const std::string &what) { if (!r.crash.empty()) violate("crash:" + cls, what + ": " + r.crash); }
static std::string diff_at(const std::string &a, const std::string &b) {
  size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  size_t f = i > 40 ? i - 40 : 0; return sprintf_s("(first difference at byte %zu: \"%s\" / \"%s\")", i, clip(a.substr(f, 100), 100).c_str(), clip(b.substr(f, 100), 100).c_str());
}
static Line &delivery(Rng &r, Plan &p, const char *kind, bool eintr = false) {
  Line &l = p.add(kind); l.setu("seed", r.below(1000000));
  switch (r.below(5)) { case 0: l.set("chunk", 1); break; case 1: l.set("chunk", (long long)-r.range(2, 64)); break; case 2: l.set("chunk", (long long)r.range(2, 4100)); break; case 3: l.set("chunk", (long long)-4096); break; default: break; }
  if (eintr && r.chance(1, 2)) l.set("eintr", (long long)r.range(50, 400));
  return l;
}

// ---------------------------------------------------------------- reference
// The command line with every braced sub-command run by itself first.
struct Ref { bool balanced = true, inner_failed = false; ProcResult r; Args flat; std::string why; int subs = 0; };
static int match(const Args &a, size_t l) { int d = 0; for (size_t i = l; i < a.size(); i++) { if (a[i] == "{") d++; else if (a[i] == "}" && --d == 0) return (int)i; } return -1; }
static bool balanced(const Args &a) { int d = 0; for (auto &w : a) { if (w == "{") d++; else if (w == "}" && --d < 0) return false; } return d == 0; }
static Ref reference(const Cmd &base, Args a) {
  Ref ref;
  if (!balanced(a)) { ref.balanced = false; return ref; }
  for (;;) {
    size_t l = 0; while (l < a.size() && a[l] != "{") l++;
    if (l == a.size()) break;
    int m = match(a, l); Args in(a.begin() + l + 1, a.begin() + m);
    Ref sub = reference(base, in); ref.subs += 1 + sub.subs;
    if (!sub.balanced || sub.inner_failed || !sub.r.ok()) { ref.inner_failed = true; ref.why = show(in); return ref; }
    Args w = words(sub.r.out), n(a.begin(), a.begin() + l);
    n.insert(n.end(), w.begin(), w.end()); n.insert(n.end(), a.begin() + m + 1, a.end()); a = n;
    if (!balanced(a)) { ref.balanced = false; return ref; }
  }
  Cmd c = base; c.args = a; ref.flat = a; ref.r = run_spiff(proc(c));
  crash_check(ref.r, "direct", cmds::show(a));
  return ref;
}

// ---------------------------------------------------------------- C01
static void c01_gen(Rng &r, Plan &p) {
  Cmd c; Style s; s.brace = r.range(30, 80); s.depth = r.range(1, 4); s.big = r.chance(1, 5);
  if (r.chance(1, 5)) { // a sub-command whose arguments mean something to a shell
    c = good(r, Style()); Args h = hostile(r); size_t at = r.below(c.args.size() + 1);
    Args b = {"{"}; b.insert(b.end(), h.begin(), h.end()); b.push_back("}");
    if (r.chance(1, 2)) c.args = {"z_gcd", "0"}, at = 2;
    c.args.insert(c.args.begin() + at, b.begin(), b.end());
  } else if (r.chance(1, 12)) { // no words, or no command
    c = good(r, s); size_t at = r.below(c.args.size() + 1); std::vector<Args> odd = {{"{", "z_op", "}"}, {"{", "}"}, {"{", "z_op", "3", "}"}, {"{", "f2_p_list", "2", "}"}, {"{", "{", "z_op", "}", "z_op", "5", "}"}, {"{", "-l", "}"}};
    const Args &o = r.pick(odd); c.args.insert(c.args.begin() + at, o.begin(), o.end());
  } else if (r.chance(1, 8)) { // a sub-command that reads a file
    c = good_io(r); if (!c.in.empty()) { c.in.clear(); c.args = {"f2_mat_op", "det", "/sim/w/a b.txt"}; c.files = {{"/sim/w/a b.txt", "1 0\n1 1\n"}}; }
    c.args.insert(c.args.begin(), "{"); c.args.push_back("}"); Args pre = r.pick(std::vector<Args>{{"f2_p_deg"}, {"z_gcd", "0"}, {"fp_ord", "7"}, {"z_totient"}}); c.args.insert(c.args.begin(), pre.begin(), pre.end());
  } else c = good(r, s);
  put_split(p, c);
  int n = r.range(1, 2); for (int i = 0; i < n; i++) delivery(r, p, "pipe");
}
static void c01_exec(const Plan &plan) {
  Cmd c = get_split(plan); std::string what = cmds::show(c.args); snprintf(R->msg, sizeof R->msg, "%s", (c.args.empty() ? "" : c.args[0]).c_str());
  Ref ref = reference(c, c.args);
  if (ref.subs) R->nontrivial = 1;
  distinct(hash_str(what)); if (ref.subs > 1) count(C_p_nested);
  for (auto *l : plan.all("pipe")) {
    Proc p = proc(c); p.pipe_d = Delivery::from(*l);
    ProcResult r = run_spiff(p); count(C_cases); count(C_oracle);
    R->shape = mix(R->shape, hash_str(what) ^ p.pipe_d.seed);
    crash_check(r, "braced", what);
    if (!ref.balanced || ref.inner_failed) {
      if (r.ok()) violate("answers-without-inner", what + ": the sub-command " + (ref.balanced ? ref.why : "(unbalanced braces)") + " fails when run by itself, yet: " + show(r));
      count(C_p_reject); continue;
    }
    std::string w = what + "\n  in place: " + clip(cmds::show(ref.flat), 600) + "\n  braced: " + show(r) + "\n  in place: " + show(ref.r);
    if (r.ok() != ref.r.ok()) violate("status-differs", w);
    if (r.out != ref.r.out) violate("output-differs", w + " " + diff_at(r.out, ref.r.out));
    count(r.ok() ? C_p_accept : C_p_reject);
  }
}
static PropReg c01({"C01", c01_gen, c01_exec, 3000, 30000,
  "a case is one execution of a command line with braces compared with the same line with the sub-commands' words in place; distinct means a distinct command line; counted only when it contains a sub-command", REAL, STUB, nullptr});

// ---------------------------------------------------------------- C02
static void c02_gen(Rng &r, Plan &p) {
  Style s; s.brace = r.range(40, 90); s.depth = r.range(1, 3); s.big = r.chance(1, 4);
  Cmd c;
  for (int i = 0; i < 30; i++) { c = good(r, s); bool b = false; for (auto &a : c.args) if (a == "{") b = true; if (b) break; }
  bool brk = false; for (auto &a : c.args) if (a == "{") brk = true;
  if (!brk) c.args = {"z_gcd", "0", "{", "z_list", "1", "5", "}"};
  if (r.chance(1, 6)) { // an inner command that cannot do its job
    Cmd b; if (r.chance(1, 2)) { do b = bad(r); while (!balanced(b.args)); } else { do b = good(r, Style()); while (b.args[0] == "-l"); mangle(r, b); }
    std::vector<size_t> opens; for (size_t i = 0; i < c.args.size(); i++) if (c.args[i] == "{") opens.push_back(i);
    size_t l = r.pick(opens); int m = match(c.args, l);
    c.args.erase(c.args.begin() + l + 1, c.args.begin() + m); c.args.insert(c.args.begin() + l + 1, b.args.begin(), b.args.end());
    put(p, c); p.first("cmd"); p.lines.back().set("natural", 1);
    delivery(r, p, "pipe"); return;
  }
  put(p, c); delivery(r, p, "pipe");
  int n = r.range(3, 6);
  for (int i = 0; i < n; i++) {
    Line &f = p.add("fault"); int k = r.range(1, 7); f.set("at", (long long)r.below(1000)); f.set("kind", k);
    long long a = 0;
    switch (k) {
    case 2: case 4: case 7: a = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.range(1, 12) : r.chance(1, 2) ? r.range(1, 4200) : 1 << 20; break;
    case 3: a = r.chance(1, 2) ? 1 : r.chance(1, 3) ? 127 : r.range(1, 255); break;
    case 6: a = r.range(1, 120); break;
    }
    f.set("arg", a); if (r.chance(1, 3)) f.set("keep", 1);
  }
}
static void no_answer(const ProcResult &r, const std::string &what) {
  if (r.ok()) violate("claims-success", what + ": " + show(r));
  if (!r.out.empty()) violate("answers-anyway", what + ": " + show(r));
  if (r.err.empty()) violate("says-nothing", what + ": " + show(r));
}
static void c02_exec(const Plan &plan) {
  const Line *cl = plan.first("cmd"); if (!cl) return;
  Cmd c = get(*cl); std::string what = cmds::show(c.args); snprintf(R->msg, sizeof R->msg, "%s", (c.args.empty() ? "" : c.args[0]).c_str());
  Delivery pd; if (auto *l = plan.first("pipe")) pd = Delivery::from(*l);
  Proc p0 = proc(c); p0.pipe_d = pd; ProcResult ok = run_spiff(p0); crash_check(ok, "fault-free", what);
  if (cl->num("natural")) { count(C_cases); count(C_oracle); count(C_f_inner_exit); R->nontrivial = 1; distinct(hash_str(what)); no_answer(ok, what); return; }
  if (!ok.popens) return;
  std::map<int, os::InnerFault> kept;
  for (auto *f : plan.all("fault")) {
    int at = (int)(f->num("at") % (long long)ok.popens); os::InnerFault in{(int)f->num("kind"), (int)f->num("arg")};
    if (in.kind < 1 || in.kind > 7) continue;
    Proc p = proc(c); p.pipe_d = pd; p.inner = kept; p.inner[at] = in;
    if (f->num("keep")) kept[at] = in;
    ProcResult r = run_spiff(p); count(C_cases); count(C_oracle);
    std::string w = what + sprintf_s(" with sub-command %d of %d %s", at + 1, (int)ok.popens, in.kind == 1 ? "not started" : in.kind == 2 ? sprintf_s("killed after %d bytes", in.arg).c_str() : in.kind == 3 ? sprintf_s("exiting with status %d", in.arg).c_str() : in.kind == 4 ? sprintf_s("unreadable after %d bytes", in.arg).c_str() : in.kind == 5 ? "lost (its status cannot be collected)" : in.kind == 6 ? sprintf_s("out of memory from allocation %d on", in.arg).c_str() : sprintf_s("unable to write after %d bytes", in.arg).c_str());
    crash_check(r, "fault", w);
    R->shape = mix(R->shape, mix(at, mix(in.kind, in.arg)));
    if (r.ok() && (in.kind == 6 || in.kind == 7 || kept.size() > 1 || (kept.size() == 1 && !kept.count(at)))) {
      // The inner command may have managed; the answer is then the whole answer.
      bool soft = true; for (auto &k : p.inner) if (k.second.kind != 6 && k.second.kind != 7) soft = false;
      if (soft) { if (r.out != ok.out) violate("answers-from-part", w + ": " + show(r) + "; undisturbed: " + show(ok)); count(C_p_accept); continue; }
    }
    if (!ok.ok()) { if (r.ok()) violate("claims-success", w + ": " + show(r)); continue; }
    R->nontrivial = 1; distinct(mix(hash_str(what), mix(at, mix(in.kind, in.arg))));
    no_answer(r, w); count(C_p_reject);
  }
}
static PropReg c02({"C02", c02_gen, c02_exec, 2400, 24000,
  "a case is one execution of a braced command line with one of its sub-commands failing in a chosen way; distinct means distinct command line, sub-command, kind and place of failure", REAL, STUB, nullptr});

// ---------------------------------------------------------------- C03
static void c03_gen(Rng &r, Plan &p) {
  Style s; s.brace = r.chance(1, 3) ? 40 : 0; s.depth = 2; s.big = r.chance(1, 2);
  put(p, r.chance(1, 8) ? good_io(r) : good(r, s));
  int n = r.range(4, 8);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("out"); l.setu("seed", r.below(1000000));
    switch (r.below(4)) { case 0: l.set("chunk", 1); break; case 1: l.set("chunk", (long long)-r.range(2, 600)); break; case 2: l.set("chunk", (long long)r.range(2, 4096)); break; default: break; }
    if (r.chance(5, 6)) { l.set("at", (long long)r.below(1000001)); l.set("err", (long long)r.pick(std::vector<int>{28, 28, 5, 32, 27, 122})); if (r.chance(1, 3)) l.set("once", 1); }
  }
}
static void c03_exec(const Plan &plan) {
  const Line *cl = plan.first("cmd"); if (!cl) return;
  Cmd c = get(*cl); std::string what = cmds::show(c.args); snprintf(R->msg, sizeof R->msg, "%s", (c.args.empty() ? "" : c.args[0]).c_str());
  ProcResult ok = run_spiff(proc(c)); crash_check(ok, "fault-free", what);
  for (auto *l : plan.all("out")) {
    Proc p = proc(c); p.out_a.seed = l->u64("seed"); p.out_a.chunk = (int)l->num("chunk"); long long cap = -1;
    if (l->has("at")) {
      // Places near the ends of the output and of its buffers matter most.
      long long v = l->num("at"), n = ok.out.size();
      cap = v % 5 == 0 ? 0 : v % 5 == 1 ? n - 1 : v % 5 == 2 ? (v / 5) % std::max<long long>(1, n) / 4096 * 4096 : (v / 5) % std::max<long long>(1, n);
      if (cap < 0) cap = 0;
      p.out_a.cap = cap; p.out_a.err_no = (int)l->num("err", 28); p.out_a.once = (int)l->num("once");
      if (p.out_a.once && p.out_a.err_no == 32) p.out_a.err_no = 28;
    }
    ProcResult r = run_spiff(p); count(C_cases); count(C_oracle);
    std::string w = what + (cap >= 0 ? sprintf_s(" with output failing (errno %d%s) after %lld of %zu bytes", p.out_a.err_no, p.out_a.once ? ", once" : "", cap, ok.out.size()) : std::string(" with output taken in pieces")) + (p.out_a.chunk ? sprintf_s(", written in pieces (%d)", p.out_a.chunk) : "");
    crash_check(r, "fault", w);
    if (ok.out.size()) { R->nontrivial = 1; distinct(mix(hash_str(what), mix(cap + 1, p.out_a.chunk + 100000ll * p.out_a.err_no + p.out_a.once))); }
    R->shape = mix(R->shape, mix(cap + 1, p.out_a.chunk));
    if (r.ok() && r.out != ok.out) violate("lost-output-unreported", w + ": " + show(r) + " " + diff_at(r.out, ok.out));
    if (cap < 0 && (r.out != ok.out || r.ok() != ok.ok())) violate("short-writes-change-output", w + ": " + show(r) + "; undisturbed: " + show(ok) + " " + diff_at(r.out, ok.out));
    if (cap >= 0 && !ok.ok() && r.ok()) violate("claims-success", w + ": " + show(r));
    if (cap >= 0 && !p.out_a.once && cap < (long long)ok.out.size() && r.ok()) violate("lost-output-unreported", w + ": " + show(r));
    if (cap >= 0 && !p.out_a.once && r.out != ok.out.substr(0, r.out.size())) violate("output-reordered", w + ": " + show(r) + " " + diff_at(r.out, ok.out));
  }
}
static PropReg c03({"C03", c03_gen, c03_exec, 2400, 24000,
  "a case is one execution of a command with its output accepted in pieces, refused from some byte on, or refused once; distinct means distinct command line and place, kind and size of the pieces", REAL, STUB, nullptr});

// ---------------------------------------------------------------- C04
static void c04_gen(Rng &r, Plan &p) {
  int k = (int)r.below(10);
  if (k < 1) { put(p, bad(r)); p.lines.back().set("bad", 1); return; }
  if (k < 3) { Cmd c; do c = good(r, Style()); while (c.args[0] == "-l"); mangle(r, c); put(p, c); p.lines.back().set("bad", 1); return; }
  Style s; s.brace = r.chance(1, 5) ? 40 : 0; s.depth = 2;
  Cmd c = k < 6 ? good_io(r) : good(r, s);
  put(p, c); p.lines.back().set("good", 1);
  int n = r.range(3, 8);
  for (int i = 0; i < n; i++) {
    if ((!c.in.empty() || !c.files.empty()) && r.chance(2, 3)) {
      Line &l = delivery(r, p, "input", true);
      if (r.chance(3, 4)) l.set("at", (long long)r.below(1000001)); else if (r.chance(1, 2)) l.set("open", r.pick(std::vector<int>{13, 2, 24, 5}));
      else if (r.chance(1, 2)) l.set("cutnl", 1);
    } else {
      Line &l = p.add("alloc"); l.set("at", (long long)r.below(1000001)); if (r.chance(1, 3)) l.set("persist", 1);
    }
  }
}
// Commands whose answer does not exist for some of the values generated.
static bool may_fail(const Cmd &c) {
  for (auto &w : c.args) if (w == "{" || w == "det" || w == "/" || w == "%" || w == "kerbas" || w == "rank" || w == "rr" || w == "rrnz" || w == "rech" || w == "rechnz" || w == "rechr") return true;
  return false;
}
static void c04_exec(const Plan &plan) {
  const Line *cl = plan.first("cmd"); if (!cl) return;
  Cmd c = get(*cl); std::string what = cmds::show(c.args); std::string name = c.args.empty() ? "" : c.args[0]; snprintf(R->msg, sizeof R->msg, "%s", name.c_str());
  ProcResult ok = run_spiff(proc(c)); crash_check(ok, "fault-free", what); count(C_cases); count(C_oracle);
  distinct(hash_str(what));
  if (cl->num("bad")) {
    R->nontrivial = 1;
    if (ok.ok()) violate("claims-success:" + name, what + ": " + show(ok));
    if (ok.err.empty()) violate("says-nothing:" + name, what + ": " + show(ok));
    return;
  }
  if (!ok.ok()) {
    if (ok.err.empty()) violate("says-nothing:" + name, what + ": " + show(ok));
    if (cl->num("good") && !may_fail(c)) violate("refuses:" + name, what + ": " + show(ok));
    count(C_p_reject);
  }
  for (auto &l : plan.lines) {
    Proc p = proc(c); std::string w = what; bool must_fail = false, benign = false;
    if (l.kind == "alloc") {
      if (!ok.allocs) continue;
      uint64_t at = 1 + l.u64("at") % ok.allocs;
      if (l.num("persist")) { p.alloc.from = at; count(C_f_alloc_persist); } else p.alloc.fail.push_back(at);
      w += sprintf_s(" with memory %s at allocation %llu of %llu", l.num("persist") ? "exhausted" : "refused", (unsigned long long)at, (unsigned long long)ok.allocs);
    } else if (l.kind == "input") {
      Delivery d; d.seed = l.u64("seed"); d.chunk = (int)l.num("chunk"); d.eintr = (int)l.num("eintr");
      size_t len = c.in.size(); if (!c.files.empty()) len = c.files[0].second.size();
      if (l.has("at")) { d.err_at = l.num("at") % (long long)(len + 1); must_fail = true; w += sprintf_s(" with its input failing after %lld of %zu bytes", d.err_at, len); }
      else if (!l.has("open")) { benign = true; w += " with its input delivered in pieces"; }
      if (!c.files.empty()) os::file_read_cfg(c.files[0].first, d, (int)l.num("open")); 
      if (l.num("open") && !c.files.empty()) { must_fail = true; w += sprintf_s(" with its input file not opening (errno %lld)", l.num("open")); }
      else if (l.num("open")) continue;
      if (c.files.empty()) { d.eintr = 0; p.in_d = d; }
    } else continue;
    ProcResult r = run_spiff(p); count(C_cases); count(C_oracle); R->nontrivial = 1;
    distinct(hash_str(w)); R->shape = mix(R->shape, hash_str(l.text()));
    if (l.kind == "alloc") count(C_f_alloc, r.fired);
    crash_check(r, "fault:" + name, w);
    if (!r.exited) violate("killed:" + name, w + ": " + show(r));
    if (r.ok() && r.out != ok.out) violate("claims-success:" + name, w + ": " + show(r) + "; undisturbed: " + show(ok));
    if (r.ok() && !ok.ok()) violate("claims-success:" + name, w + ": " + show(r) + "; undisturbed: " + show(ok));
    if (!r.ok() && r.err.empty()) violate("says-nothing:" + name, w + ": " + show(r));
    if (must_fail && r.ok()) violate("claims-success:" + name, w + ": " + show(r));
    if (benign && (r.ok() != ok.ok() || r.out != ok.out)) violate("pieces-change-answer:" + name, w + ": " + show(r) + "; undisturbed: " + show(ok));
    if (!r.ok()) count(l.kind == "alloc" ? C_p_oom_reported : C_p_reject);
  }
}
static PropReg c04({"C04", c04_gen, c04_exec, 4500, 45000,
  "a case is one execution of a command: one that can do its job, one that cannot, or one whose memory or input fails at a chosen point; distinct means distinct command line and place and kind of failure", REAL, STUB, nullptr});
} // namespace sim
