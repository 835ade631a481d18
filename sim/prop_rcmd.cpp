// G04: the commands of the tool that print random answers.
#include "cmds.h"
#include "rand_models.h"
#include <string.h>
#include <memory>
#include <functional>
namespace sim {
using namespace sim::cmds;
using os::Proc; using os::ProcResult;

static const char *G04_CMDS[] = {"f2_random", "f2_mat_random", "f2_p_random", "f2_p_find", "f2_pm_random", "f2_pm_mat_random", "f2_pr_random", "f2_pr_mat_random",
  "f2n_p_random", "f2n_p_find", "f2n_pm_random", "f2n_pm_mat_random", "fp_random", "fp_mat_random", "fp_p_random", "fp_p_find", "fp_pm_random", "fp_pm_mat_random"};
static const int NCMD = sizeof G04_CMDS / sizeof *G04_CMDS;

static std::string hx(uint64_t v) { return sprintf_s("%llx", (unsigned long long)v); }
static std::string nm(long long v) { return sprintf_s("%lld", v); }
static std::vector<std::string> cut(const std::string &s, char c) { std::vector<std::string> v(1); for (char x : s) if (x == c) v.emplace_back(); else v.back() += x; return v; }
static bool hex(const std::string &s, uint64_t &v) { if (s.empty() || s.size() > 16) return false; v = 0; for (char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; if (d < 0) return false; v = v * 16 + d; } return true; }
static bool dec_(const std::string &s, uint64_t &v) { if (s.empty() || s.size() > 12) return false; v = 0; for (char c : s) { if (c < '0' || c > '9') return false; v = v * 10 + (c - '0'); } return true; }
static int deg2(uint64_t v) { return v ? 63 - __builtin_clzll(v) : 0; }
// Coefficients of a printed polynomial, highest first.
static std::string fp_coeffs(const std::string &t, int p, std::vector<int> &c) {
  std::vector<std::string> parts; if (p < 10) { for (char x : t) parts.push_back(std::string(1, x)); } else parts = cut(t, ',');
  for (auto &q : parts) { uint64_t v; if (!dec_(q, v) || v >= (uint64_t)p) return "coefficient \"" + q + sprintf_s("\" is not in 0..%d", p - 1); c.push_back((int)v); }
  return c.empty() ? "no coefficients" : "";
}
static std::string f2n_coeffs(const std::string &t, uint64_t m, std::vector<int> &c) {
  for (auto &q : cut(t, ':')) { uint64_t v; if (!hex(q, v) || v >> deg2(m)) return "coefficient \"" + q + "\" is not reduced modulo " + hx(m); c.push_back((int)v); }
  return c.empty() ? "no coefficients" : "";
}
struct Req {
  Args args; std::vector<Args> back;            // command; commands that must accept an element again ("@" stands for it)
  int rows = 1, cols = 1; bool mat = false;     // shape
  std::function<std::string(const std::string &, int)> elem; // what is wrong with the i-th element
  Args matback;                                 // for a whole matrix, "@" is a file
};
typedef std::string S;
static Req make_req(const std::string &cmd, Rng &r) {
  Req q; q.args.push_back(cmd); auto has = [&](const char *x) { return cmd.find(x) != S::npos; };
  bool mat = has("_mat_"), find = has("_find"); q.mat = mat;
  int n = r.chance(1, 3) ? 1 : r.chance(1, 8) ? r.range(8, 150) : r.range(1, 7), rows = r.chance(1, 8) ? r.range(6, 24) : r.range(1, 5), cols = r.chance(1, 8) ? r.range(6, 70) : r.range(1, 5); if (rows * cols > 400) rows = 1; bool given = n != 1 || r.chance(1, 2);
  auto shape = [&] { if (mat) { q.rows = rows; q.cols = cols; q.args.push_back(nm(rows)); q.args.push_back(nm(cols)); } else if (!find) { q.rows = n; if (given) q.args.push_back(nm(n)); } };
  auto range = [&](int lo, int hi) { q.rows = hi - lo + 1; q.args.push_back(lo == hi && r.chance(1, 2) ? nm(lo) : nm(lo) + "-" + nm(hi)); };
  static const int P[] = {2, 3, 5, 7, 11, 13, 101}; static const uint64_t M2[] = {0x7, 0xb, 0x13, 0x25, 0x11b, 0x43, 0x6, 0x5, 0x3, 0x2}; static const uint64_t FM[] = {0x7, 0xb, 0x13};
  if (cmd == "f2_random" || cmd == "f2_mat_random") {
    shape(); q.elem = [](const S &t, int) { return t == "0" || t == "1" ? S() : S("not a bit"); }; q.matback = {"f2_mat_op", "@"};
  } else if (cmd == "f2_p_random") {
    int d = r.chance(1, 5) ? r.range(0, 2) : r.range(0, 59); q.args.push_back(nm(d)); shape();
    q.elem = [d](const S &t, int) -> S { uint64_t v; if (!hex(t, v) || !v) return "not a polynomial"; return deg2(v) == d ? "" : sprintf_s("degree %d, not %d", deg2(v), d); };
    q.back = {{"f2_p_op", "@"}};
  } else if (cmd == "f2_p_find") {
    static const char *O[] = {"-i", "-p", "-ip"}; int o = (int)r.below(3); q.args.push_back("-r"); q.args.push_back(O[o]); int top = o == 0 ? 16 : o == 1 ? 7 : 11; int lo = r.range(1, top), hi = r.chance(1, 2) ? lo : std::min(top, lo + (int)r.below(4)); range(lo, hi);
    q.elem = [o, lo](const S &t, int i) -> S { uint64_t v; if (!hex(t, v) || v < 2) return "not a polynomial of positive degree"; if (deg2(v) != lo + i) return sprintf_s("degree %d, not %d", deg2(v), lo + i); if (o != 1 && !f2irr(v)) return "not irreducible"; if (o != 0 && !f2prim(v)) return "not primitive"; return ""; };
    q.back = {{"f2_p_op", "@"}};
  } else if (cmd == "f2_pm_random" || cmd == "f2_pm_mat_random") {
    uint64_t m = r.chance(1, 2) ? M2[r.below(10)] : 2 + r.next() % (r.chance(1, 2) ? 62 : 0xffffffffffull); q.args.push_back(hx(m)); shape();
    q.elem = [m](const S &t, int) -> S { uint64_t v; if (!hex(t, v)) return "not a polynomial"; return v >> deg2(m) ? "not reduced modulo " + hx(m) : ""; };
    q.back = {{"f2_pm_op", hx(m), "@"}}; q.matback = {"f2_pm_mat_op", hx(m), "@"};
  } else if (cmd == "f2_pr_random" || cmd == "f2_pr_mat_random") {
    int d = r.range(0, r.chance(1, 3) ? 30 : 8); q.args.push_back(nm(d)); shape();
    q.elem = [d](const S &t, int) -> S { auto v = cut(t, '/'); uint64_t a, b = 1; if (v.size() > 2 || !hex(v[0], a) || (v.size() == 2 && !hex(v[1], b))) return "not a quotient"; if (!b || !a) return "zero"; if (f2gcd(a, b) != 1) return "not in lowest terms"; if (deg2(a) != deg2(b) || deg2(a) > d) return sprintf_s("degrees %d and %d for requested degree %d", deg2(a), deg2(b), d); return ""; };
    q.back = {{"f2_pr_op", "@"}}; q.matback = {"f2_pr_mat_op", "@"};
  } else if (cmd == "f2n_p_random") {
    uint64_t m = M2[r.below(10)]; int d = r.range(0, 8); q.args.push_back(hx(m)); q.args.push_back(nm(d)); shape();
    q.elem = [m, d](const S &t, int) -> S { std::vector<int> c; S e = f2n_coeffs(t, m, c); if (e != "") return e; if ((int)c.size() != d + 1 || !c[0]) return sprintf_s("not of degree %d", d); return ""; };
    q.back = {{"f2n_p_op", hx(m), "@"}};
  } else if (cmd == "f2n_p_find") {
    uint64_t m = FM[r.below(3)]; int top = m == 0x7 ? 4 : m == 0xb ? 3 : 2; int lo = r.range(1, top), hi = std::min(top, lo + (int)r.below(3)); q.args.push_back("-r"); q.args.push_back(hx(m)); range(lo, hi); auto F = std::make_shared<Fq>(Fq::two(m));
    q.elem = [m, lo, F](const S &t, int i) -> S { std::vector<int> c; S e = f2n_coeffs(t, m, c); if (e != "") return e; if ((int)c.size() != lo + i + 1 || !c[0]) return sprintf_s("not of degree %d", lo + i); std::vector<int> f(c.rbegin(), c.rend()); return F->irr(f) ? "" : "not irreducible"; };
    q.back = {{"f2n_p_op", hx(m), "@"}};
  } else if (cmd == "f2n_pm_random" || cmd == "f2n_pm_mat_random") {
    uint64_t m = FM[r.below(3)]; int d = r.range(1, 5); S om = "1"; for (int i = 0; i < d; i++) om += ":" + hx(r.below(1ull << deg2(m))); q.args.push_back(hx(m)); q.args.push_back(om); shape();
    q.elem = [m, d](const S &t, int) -> S { std::vector<int> c; S e = f2n_coeffs(t, m, c); if (e != "") return e; return (int)c.size() > d ? sprintf_s("not reduced: %zu coefficients modulo degree %d", c.size(), d) : ""; };
    q.back = {{"f2n_pm_op", hx(m), om, "@"}}; q.matback = {"f2n_pm_mat_op", hx(m), om, "@"};
  } else if (cmd == "fp_random" || cmd == "fp_mat_random") {
    int m = mat ? P[r.below(7)] : r.chance(1, 2) ? P[r.below(7)] : r.chance(1, 3) ? 2147483647 - (int)r.below(100) : r.range(2, 100000); q.args.push_back(nm(m)); shape();
    q.elem = [m](const S &t, int) -> S { uint64_t v; if (!dec_(t, v) || v >= (uint64_t)m) return sprintf_s("not a residue modulo %d", m); return ""; };
    q.back = {{"fp_op", nm(m), "@"}}; q.matback = {"fp_mat_op", nm(m), "@"};
  } else if (cmd == "fp_p_random") {
    int p = P[r.below(7)], d = r.range(0, r.chance(1, 4) ? 40 : 8); q.args.push_back(nm(p)); q.args.push_back(nm(d)); shape();
    q.elem = [p, d](const S &t, int) -> S { std::vector<int> c; S e = fp_coeffs(t, p, c); if (e != "") return e; if ((int)c.size() != d + 1 || !c[0]) return sprintf_s("not of degree %d", d); return ""; };
    q.back = {{"fp_p_op", nm(p), "@"}};
  } else if (cmd == "fp_p_find") {
    int p = P[r.below(6)], top = p == 2 ? 12 : p == 3 ? 7 : p == 5 ? 5 : p == 7 ? 4 : 3; int lo = r.range(1, top), hi = std::min(top, lo + (int)r.below(3)); q.args.push_back("-r"); q.args.push_back(nm(p)); range(lo, hi); auto F = std::make_shared<Fq>(Fq::prime(p));
    q.elem = [p, lo, F](const S &t, int i) -> S { std::vector<int> c; S e = fp_coeffs(t, p, c); if (e != "") return e; if ((int)c.size() != lo + i + 1 || !c[0]) return sprintf_s("not of degree %d", lo + i); std::vector<int> f(c.rbegin(), c.rend()); return F->irr(f) ? "" : "not irreducible"; };
    q.back = {{"fp_p_op", nm(p), "@"}};
  } else if (cmd == "fp_pm_random" || cmd == "fp_pm_mat_random") {
    int p = P[r.below(7)], d = r.range(1, 6); S m = "1"; for (int i = 0; i < d; i++) m += (p < 10 ? "" : ",") + nm(r.below(p)); q.args.push_back(nm(p)); q.args.push_back(m); shape();
    q.elem = [p, d](const S &t, int) -> S { std::vector<int> c; S e = fp_coeffs(t, p, c); if (e != "") return e; return (int)c.size() > d ? sprintf_s("not reduced: %zu coefficients modulo degree %d", c.size(), d) : ""; };
    q.back = {{"fp_pm_op", nm(p), m, "@"}}; q.matback = {"fp_pm_mat_op", nm(p), m, "@"};
  } else harness_error("no such random command: " + cmd);
  return q;
}
static os::Clock clk(const Line &l) { os::Clock c; c.us = l.num("us"); c.step_us = (int)l.num("step"); c.pid = (int)l.num("pid", 4242); return c; }
static void g04_gen(Rng &r, Plan &p) {
  int n = r.range(1, 3);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("cmd"); l.set("op", G04_CMDS[r.below(NCMD)]); l.setu("seed", r.next() >> 24);
    int k = r.range(1, 3);
    for (int j = 0; j < k; j++) {
      Line &c = p.add("at"); long long us;
      switch (r.below(7)) { case 0: us = 0; break; case 1: us = (long long)r.below(70000); break; case 2: us = 1700000000ll * 1000000 + (long long)r.below(1000000); break; case 3: us = (long long)r.below(1ull << 33) * 1000000 + 999999; break;
        case 4: us = 2147483647999999ll + (long long)r.below(3); break; case 5: us = 4294967295999999ll + (long long)r.below(3); break; default: us = (long long)(r.next() % 4000000000000000ull); }
      c.set("us", us); c.set("step", (long long)(r.chance(1, 2) ? 0 : r.chance(1, 3) ? -(long long)r.below(2000000) : (long long)r.below(2000000)));
      c.set("pid", (long long)(r.chance(1, 6) ? 0 : r.chance(1, 6) ? 1 : r.chance(1, 6) ? 4194304 : r.range(2, 4000000)));
    }
  }
}
static S clip(const S &s, size_t n = 300) { S r; for (char c : s.substr(0, n)) { if (c == '\n') r += "\\n"; else r += c; } return s.size() > n ? r + "..." : r; }
static void g04_exec(const Plan &p) {
  const Line *cur = nullptr; int ncase = 0;
  for (auto &l : p.lines) {
    if (l.kind == "cmd") { cur = &l; continue; }
    if (l.kind != "at" || !cur) continue;
    Rng r(cur->u64("seed")); S op = cur->str("op"); Req q = make_req(op, r); S what = cmds::show(q.args) + " at clock " + l.str("us") + " pid " + l.str("pid");
    snprintf(R->msg, sizeof R->msg, "%s: %s", op.c_str(), what.c_str());
    auto run = [&](const Args &a) { Cmd c; c.args = a; Proc pr = proc(c); pr.clock = clk(l); ProcResult x = os::run_spiff(pr); count(C_procs); return x; };
    ProcResult x = run(q.args); count(C_cases); count(C_oracle); ncase++; ev("%s -> %d %s", what.c_str(), x.code, clip(x.out).c_str());
    if (!x.crash.empty()) violate("crash:" + op, what + ": " + x.crash);
    if (!x.ok()) violate("failed:" + op, what + ": " + (x.exited ? sprintf_s("exit %d", x.code) : sprintf_s("signal %d", x.sig)) + ", said \"" + clip(x.err) + "\"");
    if (!x.err.empty()) violate("complains:" + op, what + ": exit 0, said \"" + clip(x.err) + "\"");
    count(C_p_exit0);
    // Shape.
    S o = x.out; if (o.empty() || o.back() != '\n') violate("shape:" + op, what + ": the last line is not complete: \"" + clip(o) + "\"");
    auto lines = cut(o, '\n'); while (!lines.empty() && lines.back().empty()) lines.pop_back();
    if ((int)lines.size() != q.rows) violate("shape:" + op, what + sprintf_s(": %zu lines, not %d: \"", lines.size(), q.rows) + clip(o) + "\"");
    std::vector<S> elems;
    for (auto &ln : lines) {
      auto w = cut(ln, ' '); std::vector<S> v; for (auto &e : w) if (!e.empty()) v.push_back(e);
      if ((int)v.size() != q.cols) violate("shape:" + op, what + sprintf_s(": a line with %zu elements, not %d: \"", v.size(), q.cols) + clip(ln) + "\"");
      for (auto &e : v) elems.push_back(e);
    }
    for (size_t i = 0; i < elems.size(); i++) { S e = q.elem(elems[i], (int)i); count(C_oracle); if (e != "") violate("element:" + op, what + ": element \"" + elems[i] + "\": " + e); }
    // Again at the same clock and process id.
    ProcResult y = run(q.args); count(C_oracle);
    if (y.out != x.out || !y.ok()) violate("not-repeatable:" + op, what + ": \"" + clip(x.out) + "\", and run again \"" + clip(y.out) + "\"");
    // The tool reads its own answers: element by element, or the matrix from a file.
    if (q.mat && !q.matback.empty()) {
      Args a = q.matback; for (auto &w : a) if (w == "@") w = "/sim/back"; Cmd c; c.args = a; c.files.push_back({"/sim/back", x.out}); ProcResult z = os::run_spiff(proc(c)); count(C_procs); count(C_oracle);
      if (!z.ok()) violate("not-readable:" + op, what + ": the tool does not read its own matrix \"" + clip(x.out) + "\": " + clip(z.err));
      auto norm = [](const S &s) { S t; for (auto &ln : cut(s, '\n')) { S u; for (auto &w : cut(ln, ' ')) if (!w.empty()) u += (u.empty() ? "" : " ") + w; if (!u.empty()) t += u + "\n"; } return t; };
      if (norm(z.out) != norm(x.out)) violate("not-readable:" + op, what + ": \"" + clip(x.out) + "\" is read by the tool as \"" + clip(z.out) + "\"");
      count(C_p_accept);
    } else for (auto b : q.back) {
      size_t i = elems.size() > 1 ? r.below(elems.size()) : 0; for (auto &w : b) if (w == "@") w = elems[i];
      ProcResult z = run(b); count(C_oracle);
      if (!z.ok()) violate("not-readable:" + op, what + ": the tool does not read its own element \"" + elems[i] + "\" (" + cmds::show(b) + "): " + clip(z.err));
      if (z.out != elems[i] + "\n") violate("not-readable:" + op, what + ": element \"" + elems[i] + "\" is read by the tool as \"" + clip(z.out) + "\" (" + cmds::show(b) + ")");
      count(C_p_accept);
    }
    distinct(hash_str(what));
  }
  R->nontrivial = ncase > 0;
}
static PropReg g04_reg({"G04", g04_gen, g04_exec, 2000, 60000,
  "a run of the tool counts once per distinct command line, clock and process id",
  "the whole tool (cli/spiff and the library), compiled with the address sanitizer, one simulated process per command",
  "clock (frozen, advancing, running backwards, at the ends of its range), process id, standard streams, files"});
} // namespace sim
