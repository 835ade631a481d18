// R01, R02, R03, W01: reading and writing vectors and matrices through a
// simulated operating system.
#include "io_types.h"
#include <fstream>
#include <iostream>
#include <string.h>
namespace sim {
using namespace sim::io;
using os::Delivery; using os::Acceptance; using os::PieceBuf; using os::Proc; using os::ProcResult;
static const char *REAL = "vector and matrix readers and writers, element readers and writers, the tool's matrix commands; the C++ standard library's streams; address sanitizer";
static const char *STUB = "kernel and C library entry points for files and standard streams (open, read, write, close, stdin, stdout)";
static const std::string F = "/sim/w/data.txt";

static std::string clip(const std::string &s, size_t n = 200) { std::string r; for (unsigned char c : s.substr(0, n)) { if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c < 32 || c > 126) r += sprintf_s("\\x%02x", c); else r += c; } return s.size() > n ? r + sprintf_s("...(%zu bytes)", s.size()) : r; }

// ---------------------------------------------------------------- plans
static Line &delivery(Rng &r, Line &l, bool eintr) {
  l.setu("seed", r.below(1000000));
  switch (r.below(6)) { case 0: l.set("chunk", 1); break; case 1: l.set("chunk", (long long)-r.range(2, 64)); break; case 2: l.set("chunk", (long long)r.range(2, 4100)); break; case 3: l.set("chunk", (long long)-9000); break; default: break; }
  if (eintr && r.chance(1, 3)) l.set("eintr", (long long)r.range(50, 400));
  return l;
}
static const char *MODES[] = {"file", "stdin", "file0", "stream", "ifs", "cin", "iss"};
static std::string pick_mode(Rng &r, const Kind &k) {
  for (;;) { std::string m = MODES[r.below(7)]; auto o = k.mk(); if (m == "iss" && !k.list) continue; if (m == "file0" && !o->has_zero()) continue; if ((m == "file" || m == "stdin") && !o->has_load()) continue; return m; }
}
static std::string ragged(Rng &r, const Kind &k, int cols, bool plain) {
  std::string s; bool tabs = r.chance(1, 5);
  if (!plain && r.chance(1, 6)) s += r.chance(1, 2) ? " " : "\t ";
  for (int j = 0; j < cols; j++) { if (j) s += plain ? " " : tabs ? "\t" : r.chance(1, 8) ? "   " : r.chance(1, 20) ? " \t " : " "; s += k.gen(r); }
  if (!plain && r.chance(1, 6)) s += r.chance(1, 2) ? " " : " \t";
  return s;
}
struct Shape { bool multi = true, malformed = false, comments = true, plain = false; int tool = 0; };
static void gen_text(Rng &r, Plan &p, const Kind &k, const Shape &sh) {
  bool slow = strstr(k.name, "poly") || strstr(k.name, "rat");
  int nobj = sh.multi && r.chance(1, 3) ? r.range(2, 3) : 1, style = (int)r.below(4);
  auto add = [&](const std::string &t, int e = -1) { Line &l = p.add("row"); l.set("x_t", t); l.set("x_e", (long long)(e >= 0 ? e : style == 0 ? 1 : style == 1 ? r.below(2) : 0)); };
  for (int o = 0; o < nobj; o++) {
    int rows = r.chance(1, 24) ? r.range(36, 130) : r.chance(1, 4) ? r.range(7, 14) : r.range(1, 6), cols = r.range(1, r.chance(1, 3) ? 24 : 6);
    if (r.chance(1, 30)) { rows = r.range(1, 3); cols = slow ? r.range(200, 700) : r.range(900, 2600); }
    if (k.bits && r.chance(1, 6)) { cols = r.range(60, 700); rows = std::min(rows, 8); }
    if (sh.tool) rows = r.range(1, 5), cols = sh.tool == 2 ? rows : r.range(1, 7);
    if (k.vec && !k.list) rows = 1;
    else if (!sh.plain) {
      if (o == 0 && r.chance(1, 5)) add(r.chance(1, 2) ? "" : "  \t");
      if (sh.comments && r.chance(1, 6)) add(r.pick(std::vector<std::string>{"# a comment 1 2 3", "#", "##", " \t# 1 # 2", "#1 2#"}));
    }
    bool mal = sh.malformed && r.chance(1, 2); int at = (int)r.below(rows), how = (int)r.below(4);
    for (int i = 0; i < rows; i++) {
      int c = cols; if (mal && i == at && how == 0) c += r.chance(1, 2) ? 1 : cols > 1 ? -1 : 1;
      std::string t = ragged(r, k, c, sh.plain);
      if (mal && i == at && how) { size_t q = r.below(t.size() + 1); t.insert(q, r.pick(std::vector<std::string>{"x", "-", "+", "/", ",", ".", "1.5", "%", "0x1", "99999999999", "]", "z "})); }
      if (!k.vec && !sh.plain && sh.comments && r.chance(1, 16)) t += r.pick(std::vector<std::string>{" # trailing 9", "#9", " # a # 3", " ##", "#", " #1#"});
      add(t);
    }
    if (!k.vec && o + 1 < nobj) add(r.chance(1, 3) ? " \t" : "");
  }
  if (!k.vec && !sh.plain && r.chance(1, 6)) add("");
  if (r.chance(1, 3)) p.lines.back().set("x_e", 2);
}
static std::string text_of(const Plan &p) {
  std::string t; for (auto *l : p.all("row")) { t += l->str("x_t"); int e = (int)l->num("x_e"); t += e == 0 ? "\n" : e == 1 ? "\r\n" : ""; }
  return t;
}
static const Kind *kind_of(const Plan &p) { const Line *l = p.first("kind"); return l ? kind(l->str("x_k")) : nullptr; }
static void preset(const Plan &p, Obj &o) { const Line *l = p.first("kind"); if (l->num("r") > 0 && l->num("c") > 0) o.preset((int)l->num("r"), (int)l->num("c")); }
static void gen_kind(Rng &r, Plan &p, const Kind *&k, bool lists = false) {
  do k = &r.pick(kinds()); while (k->list && !lists); if (r.chance(1, 6)) k = kind(r.chance(1, 2) ? "bitmatrix" : "bitvector");
  Line &l = p.add("kind"); l.set("x_k", k->name);
  if (r.chance(1, 2)) { l.set("r", r.range(1, 12)); l.set("c", r.range(1, 12)); }
}

// ---------------------------------------------------------------- reading
struct Got { bool ok = false; Rows rows; bool threw = false; };
// Reads up to n objects the given way; element i is the i-th object.
static std::vector<Got> read_objs(const Kind &k, const Plan &p, Obj &dst, const std::string &mode, const std::string &text, const Delivery &d, int open_errno, int n) {
  std::vector<Got> g;
  auto one = [&](auto f) { Got x; try { x.ok = f(); } catch (std::exception &e) { x.threw = true; count(C_f_malformed); } if (x.ok) x.rows = dst.rows(); ev("%s %d %zu", mode.c_str(), x.ok, x.rows.size()); g.push_back(x); return x.ok; };
  if (mode == "file" || mode == "file0" || mode == "ifs") { os::file_put(F, text); os::file_read_cfg(F, d, open_errno); }
  Delivery ds = d; ds.eintr = 0;
  if (mode == "file") one([&] { return dst.load(F); });
  else if (mode == "file0") one([&] { return dst.load_zero(F); });
  else if (mode == "stdin") { os::stdin_set(text, ds); one([&] { return dst.load(d.seed & 1 ? "-" : "@"); }); }
  else if (mode == "cin") { os::stdin_set(text, ds); for (int i = 0; i < (k.list ? 1 : n) && one([&] { return dst.read(std::cin) && !ferror(stdin); }); i++) {} }
  else if (mode == "ifs") { std::ifstream f(F.c_str()); if (!f) { g.push_back(Got()); return g; } for (int i = 0; i < (k.list ? 1 : n) && one([&] { return dst.read(f); }); i++) {} }
  else if (mode == "iss") { std::istringstream s(text); one([&] { return dst.read_iss(s); }); }
  else { PieceBuf b(text, d); std::istream s(&b); for (int i = 0; i < (k.list ? 1 : n) && one([&] { return dst.read(s); }); i++) {} }
  return g;
}
// Compares what was read with what the text says; err_at: where delivery failed (-1: nowhere).
static void judge(const Kind &k, const std::vector<Got> &g, const std::string &text, long long err_at, const std::string &w, bool strict) {
  size_t from = 0; count(C_oracle);
  for (size_t i = 0; i < g.size(); i++) {
    auto m = model(k, text, from); const Val *hit = nullptr; bool must = true;
    for (auto &v : m) { if (!v.accept || v.odd) must = false; if (g[i].ok && v.accept && v.rows == g[i].rows && !hit) hit = &v; if (v.need == SIZE_MAX ? err_at >= 0 : err_at >= 0 && (long long)v.need > err_at) must = false; }
    std::string ww = w + (i ? sprintf_s(", object %zu", i + 1) : std::string());
    if (err_at >= 0) for (auto &v : m) if (v.need != SIZE_MAX && (long long)v.need <= err_at) must = false; // failing early is allowed
    if (!g[i].ok) { count(C_p_reject); if (must && strict) violate("rejected", ww + sprintf_s("%s although the text says ", g[i].threw ? " threw an exception" : " reports failure") + show(m[0].rows)); return; }
    count(C_p_accept);
    if (!hit) violate(m[0].accept ? "wrong-value" : "accepted-malformed", ww + " succeeded with " + show(g[i].rows) + (m[0].accept ? "; the text says " + show(m[0].rows) : std::string("; the text is not well-formed")));
    if (err_at >= 0 && (hit->need == SIZE_MAX || (long long)hit->need > err_at)) violate("error-taken-for-end", ww + " succeeded with " + show(g[i].rows) + " although reading failed before the end of the object");
    from = hit->next;
  }
}
static std::string how(const Kind &k, const std::string &mode, const Line &l) {
  std::string s = std::string(k.name) + " read by " + (mode == "file" ? "load_from_file from a file" : mode == "file0" ? "load_from_file onto an empty object" : mode == "stdin" ? "load_from_file from standard input" : mode == "cin" ? ">> from std::cin" : mode == "ifs" ? ">> from a file stream" : mode == "iss" ? ">> from a string stream" : ">> from a stream");
  if (l.num("chunk")) s += sprintf_s(", delivered in pieces (%lld)", l.num("chunk"));
  if (l.num("eintr")) s += ", with interrupted reads";
  return s;
}

// ---------------------------------------------------------------- the tool
struct ToolCmd { const char *args; const char *kind; int square; };
static const ToolCmd TOOLS[] = {
  {"f2_mat_op rr %", "matrix-bit", 0}, {"f2_mat_op det %", "matrix-bit", 1}, {"f2_mat_op % . %", "matrix-bit", 1}, {"f2_mat_ch_pol %", "matrix-bit", 1},
  {"fp_mat_op 7 rr %", "matrix-mod7", 0}, {"fp_mat_op 7 det %", "matrix-mod7", 1}, {"fp_mat_op 7 % + %", "matrix-mod7", 0}, {"fp_mat_ch_pol 7 %", "matrix-mod7", 1},
  {"q_mat_op rr %", "matrix-rat", 0}, {"q_mat_op % + %", "matrix-rat", 0}, {"q_mat_op det %", "matrix-rat", 1},
  {"f2_mat_ord", "matrix-bit", 1}, {"fp_mat_ord 7", "matrix-mod7", 1}};
static Proc tool_proc(const ToolCmd &t, const std::string &text, const Delivery &d, int open_errno = 0) {
  Proc p; p.argv = {"spiff"}; std::istringstream is(t.args); std::string w; bool file = false;
  while (is >> w) { if (w == "%") { w = F; file = true; } p.argv.push_back(w); }
  if (file) { os::file_put(F, text); os::file_read_cfg(F, d, open_errno); } else { p.in = text; p.in_d = d; p.in_d.eintr = 0; }
  return p;
}
static std::string canon(const Rows &r) { std::string s; for (auto &x : r) { for (size_t i = 0; i < x.size(); i++) s += (i ? " " : "") + x[i]; s += "\n"; } return s; }
static std::string showp(const ProcResult &r) { return (r.exited ? sprintf_s("exit %d", r.code) : sprintf_s("signal %d", r.sig)) + ", printed \"" + clip(r.out) + "\", said \"" + clip(r.err) + "\""; }
// What the tool answers for the matrix itself, in its plainest form.
static ProcResult tool_ref(const ToolCmd &t, const Val &v) { return os::run_spiff(tool_proc(t, canon(v.rows), Delivery())); }
static void tool_judge(const ToolCmd &t, const ProcResult &r, const std::vector<Val> &m, long long err_at, bool open_err, const std::string &w, bool strict) {
  count(C_oracle);
  if (!r.crash.empty()) violate("crash:tool", w + ": " + r.crash);
  if (!r.exited) violate("tool-killed", w + ": " + showp(r));
  bool ok = false; std::string refs; bool must = true, any = false;
  for (auto &v : m) {
    if (open_err || (err_at >= 0 && (v.need == SIZE_MAX || (long long)v.need > err_at))) { must = false; continue; }
    if (!v.accept) { must = false; if (!r.ok()) ok = true; continue; }
    any = true; if (v.odd || err_at >= 0) must = false;
    ProcResult f = tool_ref(t, v); refs += "\n  in plain form: " + showp(f);
    if (!f.ok()) must = false;
    if (f.ok() == r.ok() && f.out == r.out) ok = true;
  }
  if (!r.ok()) { if (must && strict && !ok) violate("tool-rejects", w + ": " + showp(r) + refs); count(C_p_reject); return; }
  count(C_p_accept);
  if (!ok) violate(any ? "tool-wrong-answer" : err_at >= 0 || open_err ? "tool-ignores-error" : "tool-accepts-malformed", w + ": " + showp(r) + refs);
}

// ---------------------------------------------------------------- R01
static bool gen_tool(Rng &r, Plan &p, Shape sh) {
  if (!r.chance(1, 5)) return false;
  size_t i = r.below(sizeof TOOLS / sizeof *TOOLS); const Kind *k = kind(TOOLS[i].kind);
  p.add("kind").set("x_k", k->name); p.add("tool").set("x_i", (long long)i);
  sh.multi = sh.multi && r.chance(1, 4); sh.tool = TOOLS[i].square ? 2 : 1; gen_text(r, p, *k, sh); return true;
}
static const ToolCmd *tool_of(const Plan &p) { const Line *l = p.first("tool"); return l ? &TOOLS[l->u64("x_i") % (sizeof TOOLS / sizeof *TOOLS)] : nullptr; }
static void r01_gen(Rng &r, Plan &p) {
  const Kind *k; Shape sh; sh.malformed = r.chance(1, 4);
  if (gen_tool(r, p, sh)) k = kind_of(p); else { gen_kind(r, p, k, true); gen_text(r, p, *k, sh); }
  int n = r.range(3, 7);
  for (int i = 0; i < n; i++) { Line &l = p.add("load"); l.set("x_m", pick_mode(r, *k)); delivery(r, l, true); }
}
static void r01_exec(const Plan &p) {
  const Kind *k = kind_of(p); if (!k) return; std::string text = text_of(p); os::stdio_install();
  snprintf(R->msg, sizeof R->msg, "%s", k->name); const ToolCmd *t = tool_of(p); auto m = model(*k, text);
  int first = -1; std::string fw;
  for (auto *l : p.all("load")) {
    std::string mode = l->str("x_m"); Delivery d = Delivery::from(*l); count(C_cases); R->nontrivial = 1;
    distinct(mix(hash_str(text), mix(hash_str(mode + k->name), mix(d.chunk, d.seed ^ d.eintr)))); R->shape = mix(R->shape, hash_str(l->text()));
    if (t) {
      std::string w = std::string("spiff ") + t->args + " given \"" + clip(text, 400) + "\"" + (l->num("chunk") ? sprintf_s(" in pieces (%lld)", l->num("chunk")) : "");
      ProcResult r = os::run_spiff(tool_proc(*t, text, d)); tool_judge(*t, r, m, -1, false, w, true);
      if (first < 0) first = r.ok(), fw = w; else if (first != (int)r.ok()) violate("depends-on-delivery", w + ": " + showp(r) + "; delivered as first (" + fw + ") it " + (first ? "succeeds" : "fails"));
      continue;
    }
    auto o = k->mk(); preset(p, *o); std::string w = how(*k, mode, *l) + ", text \"" + clip(text, 400) + "\"";
    auto g = read_objs(*k, p, *o, mode, text, d, 0, 5); judge(*k, g, text, -1, w, true);
    if (first < 0) first = g[0].ok, fw = w; else if (first != (int)g[0].ok) violate("depends-on-delivery", w + (g[0].ok ? " succeeds" : " fails") + "; " + fw + (first ? " succeeds" : " fails"));
  }
}
static PropReg r01({"R01", r01_gen, r01_exec, 9000, 200000,
  "a case is one text read once, one way, with one division into deliveries, and compared with an independent reading of the text; distinct means distinct text, way and division", REAL, STUB, nullptr});

// ---------------------------------------------------------------- R02
static void r02_gen(Rng &r, Plan &p) {
  const Kind *k; Shape sh;
  if (gen_tool(r, p, sh)) k = kind_of(p); else { gen_kind(r, p, k); gen_text(r, p, *k, sh); }
  int n = r.range(3, 7);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("load"); l.set("x_m", pick_mode(r, *k)); delivery(r, l, true);
    if (r.chance(1, 12) && l.str("x_m") != "stream") l.set("open", r.pick(std::vector<int>{2, 13, 24, 5}));
    else { l.set("at", r.chance(1, 6) ? 1000000ll : (long long)r.below(1000001)); if (r.chance(1, 4)) l.set("eol", 1); if (r.chance(1, 4)) l.set("errno", r.pick(std::vector<int>{5, 116, 110, 21})); }
  }
}
static long long err_pos(const Line &l, const std::string &text) {
  long long n = text.size(), e = l.num("at") * (n + 1) / 1000001; // the end itself included
  if (l.num("at") >= 1000000) e = n;
  if (l.num("eol") && e < n) { size_t q = text.find('\n', e); if (q != std::string::npos) e = q + 1; } // just after a line
  return e;
}
static void r02_exec(const Plan &p) {
  const Kind *k = kind_of(p); if (!k) return; std::string text = text_of(p); os::stdio_install();
  snprintf(R->msg, sizeof R->msg, "%s", k->name); const ToolCmd *t = tool_of(p); auto m = model(*k, text);
  for (auto *l : p.all("load")) {
    std::string mode = l->str("x_m"); Delivery d = Delivery::from(*l); int oe = (int)l->num("open"); count(C_cases); R->nontrivial = 1;
    if (!oe) { d.err_at = err_pos(*l, text); d.err_no = (int)l->num("errno", 5); }
    distinct(mix(hash_str(text), mix(hash_str(mode + k->name), mix(d.err_at + 1, oe)))); R->shape = mix(R->shape, hash_str(l->text()));
    std::string fault = oe ? sprintf_s(", open failing (errno %d)", oe) : sprintf_s(", reading failing (errno %d) after %lld of %zu bytes", d.err_no, d.err_at, text.size());
    if (t) {
      if (!strchr(t->args, '%')) oe = 0; if (l->num("open") && !oe) continue;
      std::string w = std::string("spiff ") + t->args + " given \"" + clip(text, 400) + "\"" + fault;
      ProcResult r = os::run_spiff(tool_proc(*t, text, d, oe)); tool_judge(*t, r, m, oe ? 0 : d.err_at, oe, w, false);
      if (!r.ok() && r.err.empty()) violate("tool-says-nothing", w + ": " + showp(r));
      continue;
    }
    if (mode == "iss" || oe && (mode == "stream" || mode == "cin" || mode == "stdin")) continue;
    auto o = k->mk(); preset(p, *o); std::string w = how(*k, mode, *l) + ", text \"" + clip(text, 400) + "\"" + fault;
    auto g = read_objs(*k, p, *o, mode, text, d, oe, 5);
    if (oe) { if (g[0].ok) violate("error-taken-for-end", w + " succeeded with " + show(g[0].rows)); }
    else judge(*k, g, text, d.err_at, w, false);
    // Afterwards the same object still works.
    (void)o->rows();
    std::string again = l->num("seed") % 2 ? mode : k->list || k->bits && k->vec ? "stream" : "file";
    Delivery h; h.seed = d.seed; h.chunk = d.chunk; auto g2 = read_objs(*k, p, *o, again, text, h, 0, 1);
    if (m[0].accept && !m[0].odd) { if (!g2[0].ok) violate("unusable-after-error", w + ": afterwards a healthy source cannot be read into the same object"); count(C_p_retry_ok); }
    judge(*k, g2, text, -1, w + "; then again from a healthy source", true);
  }
}
static PropReg r02({"R02", r02_gen, r02_exec, 8000, 180000,
  "a case is one read that fails at a chosen byte (or cannot open), followed by a healthy read into the same object; distinct means distinct text, way of reading and place of the failure", REAL, STUB, nullptr});

// ---------------------------------------------------------------- R03
static void r03_gen(Rng &r, Plan &p) {
  const Kind *k; Shape sh; sh.plain = r.chance(1, 2);
  if (gen_tool(r, p, sh)) k = kind_of(p); else { gen_kind(r, p, k); gen_text(r, p, *k, sh); }
  static const std::string hard = std::string("\0 \n#/,-+x]\r\v\f\t.:", 17) + "\x01\x7f\xff\x80\xc3" + "0129aF";
  int n = r.range(4, 9);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("load"); l.set("x_m", pick_mode(r, *k)); delivery(r, l, false); l.set("at", (long long)r.below(1000001));
    if (r.chance(2, 5)) l.set("x_cut", 1);
    else if (r.chance(1, 4)) l.set("x_bit", (long long)r.below(8));
    else { l.set("x_b", (long long)(unsigned char)hard[r.below(hard.size())]); if (r.chance(1, 3)) l.set("x_sol", 1); }
    if (!p.first("tool") && r.chance(1, 10)) l.set("x_m", "bracket");
  }
}
static void r03_exec(const Plan &p) {
  const Kind *k = kind_of(p); if (!k) return; std::string text0 = text_of(p); os::stdio_install(); if (text0.empty()) return;
  snprintf(R->msg, sizeof R->msg, "%s", k->name); const ToolCmd *t = tool_of(p); auto m0 = model(*k, text0);
  for (auto *l : p.all("load")) {
    std::string mode = l->str("x_m"), text = text0, what; Delivery d = Delivery::from(*l); count(C_cases); R->nontrivial = 1;
    size_t at = l->num("at") * text.size() / 1000001;
    if (mode == "bracket") {
      if (!m0[0].accept) continue;
      std::string s = k->vec ? "" : "["; for (auto &r : m0[0].rows) { s += "["; for (size_t i = 0; i < r.size(); i++) s += (i ? " " : "") + r[i]; s += "]"; } if (!k->vec) s += "]";
      at = l->num("at") * (s.size() + 1) / 1000001; std::string c = s.substr(0, at); bool sup; auto o = k->mk(); preset(p, *o); bool ok = false;
      try { ok = o->bracket(c, sup); } catch (std::exception &) { }
      count(C_f_trunc); std::string w = std::string(k->name) + " from \"" + clip(c, 300) + "\" (" + sprintf_s("%zu of %zu bytes", at, s.size()) + ")";
      if (!sup) continue;
      if (at == s.size() && (!ok || o->rows() != m0[0].rows)) violate("bracket-rejected", w + (ok ? " gives " + show(o->rows()) : " is rejected"));
      if (ok) { Rows g = o->rows(), x = m0[0].rows; if (g.size() > x.size() || !std::equal(g.begin(), g.end(), x.begin())) violate("bracket-invented", w + " gives " + show(g)); if (g.size() < x.size()) count(C_p_prefix); }
      continue;
    }
    if (l->num("x_cut")) { text.resize(at); count(C_f_trunc); what = sprintf_s("cut off after %zu of %zu bytes", at, text0.size()); }
    else {
      if (l->num("x_sol")) { size_t q = text.rfind('\n', at); at = q == std::string::npos ? 0 : q + 1; if (at >= text.size()) at = text.size() - 1; }
      text[at] = l->has("x_bit") ? text[at] ^ (1 << l->num("x_bit")) : (char)l->num("x_b"); count(C_f_damage); what = sprintf_s("byte %zu of %zu changed to 0x%02x", at, text0.size(), (unsigned char)text[at]); }
    auto m = model(*k, text); distinct(mix(hash_str(text), hash_str(mode + k->name))); R->shape = mix(R->shape, hash_str(l->text()));
    if (t) {
      std::string w = std::string("spiff ") + t->args + " given \"" + clip(text, 400) + "\" (" + what + ")";
      ProcResult r = os::run_spiff(tool_proc(*t, text, d)); tool_judge(*t, r, m, -1, false, w, false);
      continue;
    }
    auto o = k->mk(); preset(p, *o); std::string w = how(*k, mode, *l) + ", text \"" + clip(text, 400) + "\" (" + what + ")";
    auto g = read_objs(*k, p, *o, mode, text, d, 0, 5); judge(*k, g, text, -1, w, false);
    for (auto &x : g) if (x.ok && m0[0].accept && x.rows.size() < m0[0].rows.size()) count(C_p_prefix);
    (void)o->rows(); o->preset(2, 3); Rows z = o->rows(); if (z.empty() || z.size() * z[0].size() != 6) violate("unusable-after-damage", w + ": afterwards the object cannot be assigned to");
  }
}
static PropReg r03({"R03", r03_gen, r03_exec, 9000, 200000,
  "a case is one text cut off or damaged at a chosen byte and read one way into a fresh or used object, compared with an independent reading of what is left; distinct means distinct resulting text and way of reading", REAL, STUB, nullptr});

// ---------------------------------------------------------------- W01
static void w01_gen(Rng &r, Plan &p) {
  const Kind *k; gen_kind(r, p, k); Shape sh; sh.multi = false; sh.plain = true; sh.comments = false; gen_text(r, p, *k, sh);
  int n = r.range(3, 8);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("store"); l.set("x_m", r.pick(std::vector<std::string>{"file", "file", "file", "stdout", "ofs", "cout"}));
    l.setu("seed", r.below(1000000));
    switch (r.below(5)) { case 0: l.set("chunk", 1); break; case 1: l.set("chunk", (long long)-r.range(2, 64)); break; case 2: l.set("chunk", (long long)r.range(2, 4100)); break; default: break; }
    if (r.chance(1, 4)) l.set("eintr", (long long)r.range(50, 400));
    switch (r.below(7)) {
    case 0: case 1: case 2: l.set("at", r.chance(1, 6) ? 1000000ll : (long long)r.below(1000001)); l.set("err", r.pick(std::vector<int>{28, 5, 122, 27})); if (r.chance(1, 4)) l.set("once", 1); break;
    case 3: l.set("close", r.pick(std::vector<int>{5, 28, 122})); break;
    case 4: l.set("open", r.pick(std::vector<int>{13, 28, 30, 24, 21})); break;
    default: break;
    }
  }
}
static void w01_exec(const Plan &p) {
  const Kind *k = kind_of(p); if (!k) return; std::string text = text_of(p); os::stdio_install();
  snprintf(R->msg, sizeof R->msg, "%s", k->name);
  auto o = k->mk(); preset(p, *o); { std::istringstream is(text); if (!o->read(is)) return; }
  Rows want = o->rows(); std::string plain; { std::ostringstream s; o->write(s); plain = s.str(); }
  for (auto *l : p.all("store")) {
    std::string mode = l->str("x_m"); count(C_cases); R->nontrivial = 1;
    if ((mode == "file" || mode == "stdout") && o->store("/sim/w/probe.txt") < 0) mode = mode == "file" ? "ofs" : "cout";
    Acceptance a; a.seed = l->u64("seed"); a.chunk = (int)l->num("chunk"); a.eintr = (int)l->num("eintr"); a.close_err = (int)l->num("close"); int oe = (int)l->num("open"); bool out = mode == "stdout" || mode == "cout";
    if (l->has("at")) { a.cap = l->num("at") >= 1000000 ? (long long)plain.size() - 1 : l->num("at") * (long long)plain.size() / 1000001; a.err_no = (int)l->num("err", 28); a.once = (int)l->num("once"); if (a.cap < 0) a.cap = 0; }
    if (out) { oe = 0; a.close_err = 0; a.eintr = 0; }
    bool harmless = a.cap < 0 && !a.close_err && !oe;
    distinct(mix(hash_str(plain + k->name), mix(hash_str(mode), mix(a.cap + 1, mix(a.chunk, a.err_no * 4096 + oe * 64 + a.close_err + a.once * 7)))));
    R->shape = mix(R->shape, hash_str(l->text()));
    std::string w = std::string(k->name) + " " + show(want) + " stored to " + (mode == "file" ? "a file" : mode == "stdout" ? "standard output" : mode == "ofs" ? "a file stream" : "std::cout");
    if (a.cap >= 0) w += sprintf_s(", writing failing (errno %d%s) after %lld of %zu bytes", a.err_no, a.once ? ", once" : "", a.cap, plain.size());
    if (oe) w += sprintf_s(", open failing (errno %d)", oe); if (a.close_err) w += ", close failing"; if (a.chunk) w += sprintf_s(", written in pieces (%d)", a.chunk);
    os::file_write_cfg(F, Acceptance()); os::file_read_cfg(F, Delivery()); os::file_put(F, std::string(plain.size() + 100, '7')); os::file_write_cfg(F, a, oe);
    if (out) { os::stdout_set(a); }
    bool ok = false;
    try {
      if (mode == "file") ok = o->store(F) == 1;
      else if (mode == "stdout") ok = o->store(a.seed & 1 ? "-" : "@") == 1;
      else if (mode == "cout") { ok = o->write(std::cout); std::cout.flush(); ok = ok && !std::cout.fail(); }
      else { std::ofstream f(F.c_str()); if (f) ok = o->write(f); f.close(); ok = ok && !f.fail(); }
    } catch (std::exception &) { ok = false; }
    ev("%s %d", mode.c_str(), ok);
    os::file_write_cfg(F, Acceptance());
    count(ok ? C_p_stored : C_p_store_failed); count(C_oracle);
    if (harmless && !ok && !a.chunk && !a.eintr) violate("store-fails", w + " reports failure on a healthy disk");
    if (o->rows() != want) violate("store-changes-object", w);
    std::string got; if (out) got = os::stdout_text(); else os::file_get(F, got);
    if (ok) {
      auto b = k->mk(); b->preset(1, 1); bool lk;
      if (mode == "file") lk = b->load(F); else if (mode == "stdout") { os::stdin_set(got, Delivery()); lk = b->load("-"); } else { std::istringstream is(got); lk = b->read(is); }
      if (!lk) violate("stored-but-not-loadable", w + " reports success, but the " + sprintf_s("%zu bytes there cannot be loaded: \"", got.size()) + clip(got) + "\"");
      if (b->rows() != want || !b->equal(*o)) violate("stored-but-different", w + " reports success, but what is there loads as " + show(b->rows()));
    }
    if (out) { os::stdout_set(Acceptance()); }
  }
}
static PropReg w01({"W01", w01_gen, w01_exec, 12000, 180000,
  "a case is one object stored once with one pattern of short, interrupted and failing writes, opens and closes, then loaded back if the store claimed success; distinct means distinct object, destination and pattern", REAL, STUB, nullptr});
} // namespace sim
