// Quotients, lists, units and comparisons that the other files leave out.
#include "ops.h"
#include "spffl/base/line_scan.h"
#include "spffl/base/tokenize.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/log2.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/min_char_polys.h"
#include "spffl/list/list_elements.h"
#include "spffl/q_cyclotomic/qff.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
#include "spffl/units/f2n_polymod_units.h"
namespace sim::ops {
using namespace spffl::rationals;
using namespace spffl::list;
inline void put(std::ostream &o, const fpn_poly_t &v) { o << v << "@" << v.find_degree(); }
struct QF2 { typedef f2_polyrat_t T; typedef f2_poly_t P; typedef int X; static X ctx(Rng &r) { return r.chance(1, 4) ? 70 : 6; } static P p(Rng &r, const X &d) { return g_f2(r, d); } static P z(const X &) { return f2_poly_t(0); } static P nz(Rng &r, const X &d) { return g_f2nz(r, d); } static bool parse(T &t, const std::string &s, const X &) { return t.from_string(s); } };
struct QFp { typedef fp_polyrat_t T; typedef fp_poly_t P; typedef int X; static X ctx(Rng &r) { return g_small_prime(r); } static P p(Rng &r, const X &q) { return g_fp(r, q, 3); } static P z(const X &q) { return fp_poly_t(0, q); } static P nz(Rng &r, const X &q) { return g_fpnz(r, q, 3); } static bool parse(T &t, const std::string &s, const X &q) { return t.from_string(s, q); } };
struct QF2n { typedef f2n_polyrat_t T; typedef f2n_poly_t P; typedef f2_poly_t X; static X ctx(Rng &r) { return g_f2irr(r, 3); } static P p(Rng &r, const X &m) { return g_f2n(r, m, 3); } static P z(const X &m) { return f2n_poly_t(f2_polymod_t(f2_poly_t(0), m)); } static P nz(Rng &r, const X &m) { return g_f2nnz(r, m, 3); } static bool parse(T &t, const std::string &s, const X &m) { return t.from_string(s, m); } };
template <class K> void reg_quo(const std::string &k) {
  typedef typename K::T T; typedef typename K::P P; unsigned g = F_GLOBAL;
  OPB(k + "_all", g, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x), u = K::nz(r, x), v = K::nz(r, x); return std::tuple{T(n, d), T(u, v)}; }), {
    T p = $0, q = $1; return std::tuple{p + q, p - q, -p, p * q, p / q, p % q, p.get_numerator(), p.get_denominator(), T(p)}; });
  OPB(k + "_compare", g, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x), u = K::p(r, x), v = K::nz(r, x); T a(n, d), b(u, v); if (r.chance(1, 4)) b = a; return std::tuple{a, b}; }), {
    const T &p = $0, &q = $1; return std::tuple{p == q, p != q, p < q, p > q, p <= q, p >= q, p == q.get_numerator(), p != q.get_numerator()}; });
  OPB(k + "_power", g, GENB({ auto x = K::ctx(r); P n = K::nz(r, x), d = K::nz(r, x); return std::tuple{T(n, d), r.range(-3, 3)}; }), { return std::pair{$0.exp($1), $0.prime_subfield_element($1 & 1)}; });
  OPB(k + "_refused", F_THROWS, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x); return std::tuple{T(n, d), K::z(x), r.range(0, 4)}; }), {
    T p = $0, z($1); switch ($2) { case 0: return p / z; case 1: return p % z; case 2: return T($0.get_numerator(), $1); case 3: return z.exp(0); default: return z.exp(-2); } });
  MUT(k + "_into", g, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x), u = K::nz(r, x), v = K::nz(r, x); return std::tuple{T(n, d), T(u, v), u}; }), { o += $1; o *= $1; o -= $1; o /= $1; T t = o; o = $2; o = t; return 0; });
  MUT(k + "_assign", g, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x), u = K::nz(r, x), v = K::nz(r, x); return std::tuple{T(n, d), T(u, v), u, r.chance(1, 2)}; }), { if ($3) o = $2; else o = $1; return 0; });
  OP(k + "_print", F_STREAM, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x); return std::tuple{T(n, d)}; }), ([&] { std::ostringstream s; s << $0; return StreamFail{s.fail(), s.str()}; })());
  OPB(k + "_parse", F_STREAM | F_GLOBAL, GENB({ auto x = K::ctx(r); P n = K::p(r, x), d = K::nz(r, x); T t(n, d); std::ostringstream s; s << t; std::string w = s.str(); if (r.chance(1, 5)) w += "/"; if (r.chance(1, 9)) w = "#" + w; return std::tuple{w, x, t}; }), { T t = $2; bool b = K::parse(t, $0, $1); return std::pair{StreamFail{!b, ""}, b ? t : $2}; });
}
static f2n_polymod_t g_f2npm(Rng &r, const f2n_poly_t &m, const f2_poly_t &b) { return f2n_polymod_t(g_f2nnz(r, b, 3), m); }
static f2n_poly_t g_f2nmod(Rng &r, const f2_poly_t &b) { f2n_poly_t m = g_f2nnz(r, b, 2); f2_polymod_t one(f2_poly_t(1), b); m.set_coeff(r.range(1, 2) + (m.find_degree() > 1), one); return m; }
static fpn_poly_t g_fpnmod(Rng &r, const fp_poly_t &b) { fpn_poly_t m = g_fpnnz(r, b, 1); m.set_coeff(2, fp_polymod_t::prime_subfield_element(1, b)); return m; }
static sp_list_type_t ltype(int i) { static const sp_list_type_t t[] = {SP_LIST_ALL, SP_LIST_UNITS, SP_LIST_UNITS, SP_LIST_NON_UNITS, SP_LIST_MULTIPLES, SP_LIST_REL_PRIME}; return t[i]; }
void reg_more() {
  reg_quo<QF2>("f2quo"); reg_quo<QFp>("fpquo"); reg_quo<QF2n>("f2nquo");
  // numbers
  OPB("log2_all", 0, GENB({ int k = r.range(0, 62); return std::tuple{(long long)((1ull << k) + r.below(1ull << k))}; }), { uint64_t n = $0; unsigned u = n < 0x7fffffff ? (unsigned)n : 77; using namespace spffl::intmath; return std::tuple{find_msb_64(n), find_lsb_64(n), find_msb_32(u), find_lsb_32(u), find_msb_16((unsigned short)(u | 1)), calc_log2_unsigned_floor(u), calc_log2_unsigned_ceil(u), calc_log2_unsigned_ll_floor(n), calc_log2_unsigned_ll_ceil(n)}; });
  OPB("intmod_rest", F_GLOBAL, GENB({ int p = g_prime(r); return std::tuple{g_intmod(r, p), g_unit(r, p), r.range(0, 9)}; }), { intmod_t x = $0; x %= $1; return std::tuple{$0 % $1, x, $0 == $2, $0 != $2, $0 <= $1, $0 >= $1, $0.prime_subfield_element($2)}; });
  OPB("rat_rest", 0, GENB({ return std::tuple{g_rat(r), g_rat(r), r.range(-5, 5)}; }), { intrat_t x = $0, y = $1; std::optional<intrat_t> q; if (y != 0) { x %= y; q = x; } x = $2; return std::tuple{x, $0 == $2, $0 != $2, $0 <= $1, $0 >= $1, q}; });
  OPB("rat_mod_zero", F_THROWS, GENB({ return std::tuple{g_rat(r), r.chance(1, 2)}; }), { intrat_t x = $0, z(0); if ($1) return x % z; x /= z; return x; });
  OPB("bit_rest", F_THROWS, GENB({ return std::tuple{(int)r.below(2), (int)r.below(2), r.chance(1, 2)}; }), { bit_t x($0), y($1); if ($2) { x /= y; return std::pair{x, bit_t(0)}; } return std::pair{x / y, x % y}; });
  OPB("text_tokens", 0, GENB({ std::string s; int n = r.range(0, 20); for (int i = 0; i < n; i++) s += "ab ,:\t"[r.below(6)]; return std::tuple{s, r.range(1, 6)}; }), {
    std::string s = $0, t = $0; char *v[8]; int n = spffl::base::count_tokens(s.data(), " ,"); int k = spffl::base::tokenize(t.data(), " ,", v, $1); std::string o; for (int i = 0; i < k && i < $1; i++) o += std::string(v[i]) + "|"; return std::tuple{n, k, o, spffl::base::is_whitespace_line($0)}; });
  // polynomials
  OPB("poly_constructors", 0, GENB({ int p = g_prime(r); f2_poly_t m = g_f2irr(r, 4); fp_poly_t n = g_fpirr(r, g_small_prime(r)); int a = r.range(0, 1), b = r.range(0, 1), c = r.range(0, 1); return std::tuple{p, m, n, std::tuple{a, b, c}, r.range(0, 60)}; }), {
    auto [x, y, z] = $3; int p = $0; intmod_t i(x, p), j(y, p), k(z, p); f2_polymod_t s = g_f2pm(*std::make_unique<Rng>($4 + 1), $1), t = g_f2pm(*std::make_unique<Rng>($4 + 2), $1); fp_polymod_t u = g_fppm(*std::make_unique<Rng>($4 + 3), $2), v = g_fppm(*std::make_unique<Rng>($4 + 4), $2);
    return std::tuple{f2_poly_t(x, y), f2_poly_t(x, y, z), fp_poly_t(x, y, p), fp_poly_t(x, y, z, p), fp_poly_t(i, j), fp_poly_t(i, j, k), std::tuple{f2n_poly_t(s, t), f2n_poly_t(s, t, s), f2n_poly_t(x, y, $1), f2n_poly_t(x, y, z, $1)}, std::tuple{fpn_poly_t(u, v), fpn_poly_t(u, v, u)}, fp_poly_t::from_base_rep($4, p), q_poly_t(intrat_t(x, 2), intrat_t(y), intrat_t(z, 3))}; });
  OPB("fpn_more", F_GLOBAL, GENB({ fp_poly_t m = g_fpirr(r, g_small_prime(r)); fpn_poly_t f = g_fpnnz(r, m, 3), g = g_fpnnz(r, m, 3); return std::tuple{f, g, g_intmod(r, m.get_characteristic()), r.chance(1, 2)}; }), {
    fpn_poly_t m, n, d = $0.ext_gcd($1, m, n); fpn_poly_t q = $3 ? $0.exp(2) : $0; return std::tuple{gcd($0, $1), d, m, n, q < $1, q > $1, q <= $1, q >= $1, $0 * $2}; });
  OPB("fpn_pth_root", F_GLOBAL, GENB({ fp_poly_t m = g_fpirr(r, 3); fpn_poly_t f = g_fpn(r, m, 2); return std::tuple{r.chance(1, 2) ? f * f * f : f}; }), { fpn_poly_t q; bool b = $0.pth_root(q); return std::pair{b, b ? q : $0}; });
  OP("q_compare", 0, GENB({ q_poly_t f = g_q(r, 3), g = g_q(r, 3); if (r.chance(1, 4)) g = f; return std::tuple{f, g}; }), std::tuple{$0 == $1, $0 != $1});
  // residue classes
  OPB("f2pm_rest", F_GLOBAL, GENB({ f2_poly_t m = g_f2irr(r); f2_polymod_t a = g_f2pm(r, m), b = g_f2pmu(r, m); return std::tuple{a, b, (int)r.below(2)}; }), { f2_polymod_t x = $0; x %= $1; return std::tuple{$0 % $1, x, $0 == $2, $0 != $2, $0 < $1, $0 > $1, $0 <= $1, $0 >= $1, $0.get_characteristic()}; });
  OPB("fppm_rest", F_GLOBAL, GENB({ fp_poly_t m = g_fpirr(r, g_small_prime(r)); fp_polymod_t a = g_fppm(r, m), b = g_fppm(r, m); if (b == 0) b = fp_polymod_t::prime_subfield_element(1, m); return std::tuple{a, b, (int)r.below(2), g_intmod(r, m.get_characteristic())}; }), { fp_polymod_t x = $0, y = $0; x %= $1; y *= $3; return std::tuple{$0 % $1, x, y, $0 == $2, $0 != $2, $0 < $1, $0 > $1, $0 <= $1, $0 >= $1}; });
  OPB("f2npm_rest", F_GLOBAL, GENB({ f2_poly_t b = g_f2irr(r, 3); f2n_poly_t m = g_f2nmod(r, b); f2n_polymod_t x = g_f2npm(r, m, b), y = g_f2npm(r, m, b); return std::tuple{x, y, (int)r.below(2)}; }), { f2n_polymod_t z = $0, i = $0; bool u = $1.recip(i); return std::tuple{$0 == $2, $0 != $2, $0 < $1, $0 > $1, $0 <= $1, $0 >= $1, $0.get_characteristic(), u, u ? $0 % $1 : z, u ? i : z}; });
  OPB("fpnpm_rest", F_GLOBAL, GENB({ fp_poly_t b = g_fpirr(r, 3); fpn_poly_t m = g_fpnmod(r, b); fpn_polymod_t x(g_fpn(r, b, 2), m), y(g_fpnnz(r, b, 2), m); return std::tuple{x, y, (int)r.below(2)}; }), { fpn_polymod_t z = $0, i = $0; bool u = $1.recip(i); return std::tuple{$0 == $2, $0 != $2, $0 < $1, $0 > $1, $0 <= $1, $0 >= $1, $0.get_characteristic(), u, u ? $0 % $1 : z, u ? i : z, $0.prime_subfield_element($2)}; });
  OPB("fpnpm_parse", F_STREAM | F_GLOBAL, GENB({ fp_poly_t b = g_fpirr(r, 3); fpn_poly_t m = g_fpnmod(r, b); fpn_polymod_t x(g_fpn(r, b, 2), m); std::ostringstream s; s << x; return std::tuple{s.str() + (r.chance(1, 6) ? "#" : ""), m, x}; }), { fpn_polymod_t x = $2; fpn_poly_t m = $1; bool b = x.from_string($0, m); return std::pair{StreamFail{!b, ""}, b ? x : $2}; });
  // lists and units
  OPB("list_f2pm_tuples", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 2); return std::tuple{m, r.range(1, 2), r.chance(1, 2)}; }), { return $2 ? f2_polymod_An_list($0, $1) : f2_polymod_Pn_list($0, $1); });
  OPB("list_fppm_tuples", F_SLOW | F_GLOBAL, GENB({ fp_poly_t m = fp_poly_t::from_base_rep(10, 3); return std::tuple{m, r.range(1, 2), r.chance(1, 2)}; }), { return $2 ? fp_polymod_An_list($0, 1) : fp_polymod_Pn_list($0, $1); });
  OPB("list_multiples", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 4); return std::tuple{g_f2pmu(r, m), r.range(0, 5)}; }), {
    std::optional<tvector<f2_polymod_t>> x; std::string w; try { x = f2_polymod_glist($0, ltype($1)); } catch (const spffl::exception_t &) { w += "refused"; } return std::pair{x, w}; });
  OPB("list_residues", F_SLOW | F_GLOBAL, GENB({ f2_poly_t m = g_f2nz(r, 4); fp_poly_t n = g_fpnz(r, 3, 3); f2_poly_t b = g_f2irr(r, 2); m.set_bit(1); n.set_coeff(1, intmod_t(1, 3)); return std::tuple{m, n, g_f2nmod(r, b), r.range(0, 3)}; }), { return std::tuple{f2_polymod_list($0, ltype($3)), fp_polymod_list($1, ltype($3)), f2n_polymod_list($2, ltype($3))}; });
  OPB("f2npm_units", F_SLOW | F_GLOBAL, GENB({ f2_poly_t b = g_f2irr(r, 2); f2n_poly_t m = spffl::factorization::f2n_poly_find_irr(b, 2); f2n_polymod_t x = g_f2npm(r, m, b); return std::tuple{m, x}; }), {
    f2n_polymod_t g($1); bool b = spffl::units::f2n_polymod_find_generator($0, g); return std::tuple{b, b ? g : $1, $1 == 0 ? 0 : spffl::units::f2n_polymod_order($1)}; });
  OPB("f2npm_froblen", F_SLOW | F_GLOBAL, GENB({ f2_poly_t b = g_f2irr(r, 2); f2n_poly_t m = spffl::factorization::f2n_poly_find_irr(b, 2); return std::tuple{g_f2npm(r, m, b)}; }), { return std::tuple{spffl::linalg::f2npm_froblen($0), spffl::linalg::f2npm_min_poly($0), spffl::linalg::f2npm_char_poly($0)}; });
  // linear algebra and conversions
  OPB("f2pm_char_poly_of", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 4); return std::tuple{g_f2pm(r, m)}; }), { return std::pair{spffl::linalg::f2_polymod_char_poly($0), spffl::linalg::f2_polymod_min_poly($0)}; });
  OPB("f2np_companion", 0, GENB({ f2_poly_t b = g_f2irr(r, 3); f2n_poly_t f = g_f2nmod(r, b); return std::tuple{f}; }), { return spffl::linalg::f2np_companion_matrix($0); });
  OPB("f2pm_convert_all", F_SLOW, GENB({ f2_poly_t m = f2_poly_t::from_base_rep(0xb), n = f2_poly_t::from_base_rep(0xd); return std::tuple{f2_polymod_t(f2_poly_t::from_base_rep(2), m), n, g_f2n(r, m, 3), g_mt(r, 2, 2, m)}; }), {
    f2_polymod_t g2; bool b = spffl::linalg::f2_polymod_convert_prep($0, $1, g2); return std::tuple{b, b ? spffl::linalg::f2_polymod_convert_poly($0, g2, $2) : $2, b ? spffl::linalg::f2_polymod_convert_matrix($0, g2, $3) : $3}; });
  OPB("vector_from_number", 0, GENB({ f2_poly_t m = g_f2irr(r, 3); return std::tuple{r.range(0, 400), m, r.range(1, 5)}; }), { return std::pair{spffl::linalg::ft_vector_from_base_rep($0, $1, $2), spffl::linalg::fp_vector_from_base_rep($0, 7, $2)}; });
  OPB("q_reduce", F_GLOBAL, GENB({ q_poly_t f = g_q(r, 3); f2_poly_t m = g_f2irr(r, 3); fp_poly_t n = g_fpirr(r, 5); return std::tuple{f, m, n}; }), { using namespace spffl::q_cyclotomic; std::string w; std::optional<f2_poly_t> a2; std::optional<fp_poly_t> a5; std::optional<f2n_poly_t> a4; std::optional<fpn_poly_t> a25;
    try { a2 = f2_poly_from_q_poly($0); } catch (const spffl::exception_t &) { w += "a"; } try { a5 = fp_poly_from_qpoly($0, 5); } catch (const spffl::exception_t &) { w += "b"; } try { a4 = f2n_poly_from_qpoly($0, $1); } catch (const spffl::exception_t &) { w += "c"; } try { a25 = fpn_poly_from_qpoly($0, $2); } catch (const spffl::exception_t &) { w += "d"; }
    return std::tuple{w, a2, a5, a4, a25}; });
}
} // namespace sim::ops
