// Reading and printing vectors and matrices; text utilities.
#include "ops.h"
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include <string.h>
namespace sim::ops {
static std::string rows(Rng &r, int lo, int hi, bool ragged, bool bad) {
  std::string s; int m = r.range(1, 6), n = r.range(1, 7), k = r.range(0, m - 1);
  for (int i = 0; i < m; i++) {
    int w = n + (ragged && i == k && m > 1 ? 1 : 0);
    for (int j = 0; j < w; j++) s += (j ? (r.chance(1, 6) ? "  " : " ") : "") + std::to_string(r.range(lo, hi));
    if (bad && i == k) s += " x7";
    s += "\n";
  }
  return s;
}
static std::string line(Rng &r, int lo, int hi, bool bad) { std::string s; int n = r.range(1, 12); for (int j = 0; j < n; j++) s += (j ? " " : "") + std::to_string(r.range(lo, hi)); if (bad) s += " x"; return s + "\n"; }
template <class M> static std::pair<StreamFail, M> rd(const std::string &s, const M &m0) { std::istringstream is(s); M m = m0; is >> m; bool f = is.fail(); return {StreamFail{f, ""}, f ? m0 : m}; }
template <class M> static StreamFail wr(const M &m) { std::ostringstream os; os << m; return StreamFail{os.fail(), os.str()}; }
static tmatrix<intmod_t> proto_m(int p) { return tmatrix<intmod_t>(intmod_t(0, p), 1, 1); }
static tvector<intmod_t> proto_v(int p) { return tvector<intmod_t>(intmod_t(0, p), 1); }
static std::pair<bool, tmatrix<intmod_t>> br(const std::string &s, int p) { std::vector<char> b(s.begin(), s.end()); b.push_back(0); tmatrix<intmod_t> m = proto_m(p); bool ok = m.bracket_in(b.data()); return {ok, ok ? m : proto_m(p)}; }
static std::string brackets(Rng &r) {
  int m = r.range(1, 4), n = r.range(1, 4); std::string s = "[";
  for (int i = 0; i < m; i++) { s += "["; int w = n + (r.chance(1, 12) ? 1 : 0); for (int j = 0; j < w; j++) s += (j ? " " : "") + std::to_string(r.range(0, 9)); s += "]"; }
  s += "]"; if (r.chance(1, 8)) s.pop_back(); return s;
}
void reg_io() {
  OP("read_matrix_int", F_STREAM, GENB({ return std::tuple{rows(r, -99, 99, false, false)}; }), rd<tmatrix<int>>($0, tmatrix<int>(0, 1, 1)));
  OP("read_matrix_mod", F_STREAM, GENB({ return std::tuple{rows(r, 0, 99, false, false), g_prime(r)}; }), rd<tmatrix<intmod_t>>($0, proto_m($1)));
  OP("read_matrix_ragged", F_STREAM | F_THROWS, GENB({ return std::tuple{rows(r, 0, 99, true, false), g_prime(r)}; }), rd<tmatrix<intmod_t>>($0, proto_m($1)));
  OP("read_matrix_bad", F_STREAM | F_THROWS, GENB({ return std::tuple{rows(r, 0, 99, false, true), g_prime(r)}; }), rd<tmatrix<intmod_t>>($0, proto_m($1)));
  OP("read_matrix_bits", F_STREAM, GENB({ return std::tuple{rows(r, 0, 1, false, false)}; }), rd<tmatrix<bit_t>>($0, tmatrix<bit_t>(bit_t(0), 1, 1)));
  OP("read_bit_matrix", F_STREAM, GENB({ return std::tuple{rows(r, 0, 1, false, false)}; }), rd<bit_matrix_t>($0, bit_matrix_t(0, 1, 1)));
  OP("read_bit_matrix_bad", F_STREAM | F_THROWS, GENB({ return std::tuple{rows(r, 0, 1, r.chance(1, 2), true)}; }), rd<bit_matrix_t>($0, bit_matrix_t(0, 1, 1)));
  OP("read_bit_vector", F_STREAM, GENB({ return std::tuple{line(r, 0, 1, r.chance(1, 5))}; }), rd<bit_vector_t>($0, bit_vector_t(0, 1)));
  OP("read_vector_int", F_STREAM, GENB({ return std::tuple{line(r, -99, 99, false)}; }), rd<tvector<int>>($0, tvector<int>(0, 1)));
  OP("read_vector_mod", F_STREAM, GENB({ return std::tuple{line(r, 0, 99, r.chance(1, 5)), g_prime(r)}; }), rd<tvector<intmod_t>>($0, proto_v($1)));
  OPB("read_matrix_f2pm", F_STREAM, GENB({ f2_poly_t m = g_f2irr(r, 6); return std::tuple{rows(r, 0, 9, false, false), m}; }), { return rd<tmatrix<f2_polymod_t>>($0, tmatrix<f2_polymod_t>(f2_polymod_t(f2_poly_t(0), $1), 1, 1)); });
  OPB("read_matrix_rat", F_STREAM, GENB({ return std::tuple{rows(r, -9, 9, false, false)}; }), { return rd<tmatrix<intrat_t>>($0, tmatrix<intrat_t>(intrat_t(0), 1, 1)); });
  OP("bracket_in", F_STREAM, GENB({ return std::tuple{brackets(r), g_prime(r)}; }), ([&] { auto x = br($0, $1); return std::pair{StreamFail{!x.first, ""}, x.second}; })());
  OP("print_matrix", F_STREAM, GENB({ int p = g_prime(r); return std::tuple{g_mm(r, r.range(1, 5), r.range(1, 5), p)}; }), wr($0));
  OP("print_matrix_rat", F_STREAM, GENB({ return std::tuple{g_mq(r, r.range(1, 4), r.range(1, 4))}; }), wr($0));
  OP("print_bit_matrix", F_STREAM, GENB({ return std::tuple{g_bm(r, r.range(1, 5), r.range(1, 90))}; }), wr($0));
  OP("print_vector_f2pm", F_STREAM, GENB({ f2_poly_t m = g_f2irr(r); return std::tuple{g_vt(r, r.range(1, 8), m)}; }), wr($0));
  OP("parse_intmod", F_STREAM, GEN(std::to_string(r.range(-500, 500)) + (r.chance(1, 5) ? "y" : ""), g_prime(r)), ([&] { intmod_t x(0, $1); bool b = x.from_string($0, $1); return std::pair{StreamFail{!b, ""}, b ? x : intmod_t(0, 2)}; })());
  OP("parse_rat", F_STREAM, GEN(std::to_string(r.range(-50, 50)) + "/" + std::to_string(r.range(1, 20)) + (r.chance(1, 6) ? "/" : "")), ([&] { intrat_t x; bool b = x.from_string($0); return std::pair{StreamFail{!b, ""}, b ? x : intrat_t(0)}; })());
  OP("print_rat", F_STREAM, GEN(g_rat(r)), ([&] { std::ostringstream s; s << $0; return StreamFail{s.fail(), s.str()}; })());
  OPB("tokenize", 0, GENB({ std::string s; int n = r.range(0, 8); for (int i = 0; i < n; i++) s += std::string(r.range(0, 3), ' ') + g_hex(r, 4); return std::tuple{s}; }), {
    std::vector<char> b($0.begin(), $0.end()); b.push_back(0); int k = spffl::base::count_tokens(b.data(), " \t"); char *v[16]; int n = spffl::base::tokenize(b.data(), " \t", v, 16);
    std::vector<std::string> o; for (int i = 0; i < n; i++) o.push_back(v[i]); return std::tuple{k, o}; });
  OPB("chomp", 0, GENB({ return std::tuple{std::string(r.range(0, 3), ' ') + (r.chance(1, 2) ? "a" : "") + (r.chance(1, 2) ? "\r\n" : "\n")}; }), { std::vector<char> b($0.begin(), $0.end()); b.push_back(0); bool w = spffl::base::is_whitespace_line(b.data()); spffl::base::chomp(b.data()); return std::pair{w, std::string(b.data())}; });
}
} // namespace sim::ops
