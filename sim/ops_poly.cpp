// Polynomials over F2 and residue classes of them.
#include "ops.h"
#include "spffl/rationals/f2_polyrat_t.h"
namespace sim::ops {
using namespace spffl::rationals;
typedef std::tuple<f2_poly_t, f2_poly_t> PP;
static PP two(Rng &r) { int d = r.chance(1, 3) ? 150 : 30; f2_poly_t a = g_f2(r, d), b = g_f2(r, d); return {a, b}; }
static PP div2(Rng &r) { int d = r.chance(1, 3) ? 150 : 30; f2_poly_t a = g_f2(r, d), b = g_f2nz(r, d); return {a, b}; }
typedef std::tuple<f2_polymod_t, f2_polymod_t> MM;
static MM mods(Rng &r) { f2_poly_t m = g_f2irr(r); f2_polymod_t a = g_f2pm(r, m), b = g_f2pmu(r, m); return {a, b}; }
static MM mods_differ(Rng &r) { f2_poly_t m = g_f2irr(r, 3), n = f2_poly_t::from_base_rep(0x11b); f2_polymod_t a = g_f2pm(r, m), b = g_f2pmu(r, n); return {a, b}; }
void reg_poly() {
  OP("f2_add", 0, GENB({ return two(r); }), $0 + $1);
  OP("f2_mul", 0, GENB({ return two(r); }), $0 * $1);
  OP("f2_div", 0, GENB({ return div2(r); }), $0 / $1);
  OP("f2_mod", 0, GENB({ return div2(r); }), $0 % $1);
  OPB("f2_quot_and_rem", 0, GENB({ return div2(r); }), { f2_poly_t q, m; $0.quot_and_rem($1, q, m); return std::pair{q, m}; });
  OP("f2_div_zero", F_THROWS, GENB({ return std::tuple{g_f2(r, 80), f2_poly_t(0)}; }), $0 / $1);
  OP("f2_gcd", 0, GENB({ return two(r); }), $0.gcd($1));
  OPB("f2_ext_gcd", 0, GENB({ return div2(r); }), { f2_poly_t m, n; f2_poly_t d = $0.ext_gcd($1, m, n); return std::tuple{d, m, n}; });
  OP("f2_exp", 0, GEN(g_f2(r, 12), r.range(0, 9)), $0.exp($1));
  OP("f2_exp_negative", F_THROWS, GEN(g_f2(r, 12), -r.range(1, 9)), $0.exp($1));
  OP("f2_deriv", 0, GEN(g_f2(r, 150)), $0.deriv());
  OPB("f2_square_root", 0, GENB({ f2_poly_t f = g_f2(r, 70); return std::tuple{r.chance(1, 2) ? f * f : f}; }), { f2_poly_t q; bool b = $0.square_root(q); return std::pair{b, b ? q : f2_poly_t(0)}; });
  OP("f2_eval", 0, GEN(g_f2(r, 100), (int)r.below(2)), std::pair{$0.eval($1), $0.eval(bit_t($1))});
  OP("f2_cmp", 0, GENB({ return two(r); }), std::tuple{$0 == $1, $0 != $1, $0 < $1, $0 >= $1, $0 == 0});
  OP("f2_copy", 0, GEN(g_f2(r, 150)), f2_poly_t($0));
  OP("f2_print", F_STREAM, GEN(g_f2(r, 300)), ([&] { std::ostringstream s; s << $0; return StreamFail{s.fail(), s.str()}; })());
  OP("f2_parse", F_STREAM, GEN(g_hex(r, 40)), ([&] { f2_poly_t f; bool b = f.from_string($0); return std::pair{StreamFail{!b, ""}, f}; })());
  OP("f2_parse_bad", F_STREAM, GEN(g_hex(r, 20) + (r.chance(1, 2) ? "z" : "/")), ([&] { f2_poly_t f; bool b = f.from_string($0); return StreamFail{!b, ""}; })());
  OP("f2_construct_text", F_THROWS | F_STREAM, GEN(g_hex(r, 30) + (r.chance(1, 3) ? "q" : "")), f2_poly_t($0));
  MUT("f2_assign", 0, GENB({ return two(r); }), { o = $1; return 0; });
  MUT("f2_addeq", 0, GENB({ return two(r); }), { o += $1; return 0; });
  MUT("f2_muleq", 0, GENB({ return two(r); }), { o *= $1; return 0; });
  MUT("f2_diveq", 0, GENB({ return div2(r); }), { o /= $1; return 0; });
  MUT("f2_modeq", 0, GENB({ return div2(r); }), { o %= $1; return 0; });
  MUT("f2_set_bit", 0, GEN(g_f2(r, 150), r.range(0, 400)), { o.set_bit($1); return 0; });
  MUT("f2_set_coeff", 0, GEN(g_f2(r, 150), r.range(0, 400), (int)r.below(2)), { o.set_coeff($1, bit_t($2)); return 0; });
  MUT("f2_increment", 0, GEN(g_f2(r, 150)), { o.increment(); return 0; });
  MUT("f2_promote", 0, GEN(g_f2(r, 150), r.range(0, 130)), { o._promote_n($1); o._promote_1(); return 0; });
  // residue classes
  OP("f2pm_add", 0, GENB({ return mods(r); }), $0 + $1);
  OP("f2pm_mul", 0, GENB({ return mods(r); }), $0 * $1);
  OP("f2pm_div", 0, GENB({ return mods(r); }), $0 / $1);
  OP("f2pm_differ", F_THROWS, GENB({ return mods_differ(r); }), $0 + $1);
  OP("f2pm_differ_mul", F_THROWS, GENB({ return mods_differ(r); }), $0 * $1);
  OPB("f2pm_recip", 0, GENB({ return mods(r); }), { f2_polymod_t x; bool b = $0.recip(x); return std::pair{b, b ? x : $0}; });
  OP("f2pm_exp", 0, GENB({ auto t = mods(r); return std::tuple{std::get<1>(t), r.range(-5, 40)}; }), $0.exp($1));
  OP("f2pm_parse", F_STREAM, GENB({ f2_poly_t m = g_f2irr(r); return std::tuple{g_hex(r, 5) + (r.chance(1, 4) ? "#" : ""), m}; }), ([&] { f2_polymod_t x(f2_poly_t(0), $1); bool b = x.from_string($0, $1); return std::pair{StreamFail{!b, ""}, x}; })());
  MUT("f2pm_assign", 0, GENB({ return mods_differ(r); }), { o = $1; return 0; });
  MUT("f2pm_muleq", 0, GENB({ return mods(r); }), { o *= $1; o += $1; return 0; });
  // quotients
  OPB("f2rat_add", 0, GENB({ f2_poly_t a = g_f2(r, 20), b = g_f2nz(r, 20), c = g_f2(r, 20), d = g_f2nz(r, 20); return std::tuple{f2_polyrat_t(a, b), f2_polyrat_t(c, d)}; }), { return $0 + $1; });
  OPB("f2rat_mul", 0, GENB({ f2_poly_t a = g_f2(r, 20), b = g_f2nz(r, 20), c = g_f2nz(r, 20), d = g_f2nz(r, 20); return std::tuple{f2_polyrat_t(a, b), f2_polyrat_t(c, d)}; }), { f2_polyrat_t x = $0; return std::pair{x * $1, x / $1}; });
  OP("f2rat_zero_denominator", F_THROWS, GEN(g_f2(r, 20)), f2_polyrat_t($0, f2_poly_t(0)));
  OP("f2rat_exp", 0, GENB({ f2_poly_t a = g_f2nz(r, 8), b = g_f2nz(r, 8); return std::tuple{f2_polyrat_t(a, b), r.range(-3, 4)}; }), $0.exp($1));
}
// Polynomials over Fp and the rationals.
typedef std::tuple<fp_poly_t, fp_poly_t> FF;
static FF fp2(Rng &r) { int p = g_prime(r); fp_poly_t a = g_fp(r, p, 7), b = g_fp(r, p, 7); return {a, b}; }
static FF fpd(Rng &r) { int p = g_prime(r); fp_poly_t a = g_fp(r, p, 7), b = g_fpnz(r, p, 5); return {a, b}; }
static FF fpmix(Rng &r) { fp_poly_t a = g_fp(r, 5, 4), b = g_fpnz(r, 7, 4); return {a, b}; }
void reg_poly2() {
  OP("fp_add", 0, GENB({ return fp2(r); }), $0 + $1);
  OP("fp_sub", 0, GENB({ return fp2(r); }), $0 - $1);
  OP("fp_neg", 0, GENB({ return fp2(r); }), -$0);
  OP("fp_mul", 0, GENB({ return fp2(r); }), $0 * $1);
  OP("fp_div", F_GLOBAL, GENB({ return fpd(r); }), $0 / $1);
  OP("fp_mod", F_GLOBAL, GENB({ return fpd(r); }), $0 % $1);
  OPB("fp_quot_and_rem", F_GLOBAL, GENB({ return fpd(r); }), { fp_poly_t q, m; $0.quot_and_rem($1, q, m); return std::pair{q, m}; });
  OP("fp_mixed", F_THROWS, GENB({ return fpmix(r); }), $0 * $1);
  OP("fp_div_zero", F_THROWS, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 5), fp_poly_t(0, p)}; }), $0 / $1);
  OP("fp_gcd", F_GLOBAL, GENB({ return fpd(r); }), $0.gcd($1));
  OPB("fp_ext_gcd", F_GLOBAL, GENB({ return fpd(r); }), { fp_poly_t m, n; fp_poly_t d = $0.ext_gcd($1, m, n); return std::tuple{d, m, n}; });
  OP("fp_exp", 0, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 3), r.range(0, 6)}; }), $0.exp($1));
  OP("fp_deriv", 0, GENB({ return fp2(r); }), $0.deriv());
  OPB("fp_pth_root", 0, GENB({ int p = g_small_prime(r); fp_poly_t f = g_fp(r, p, 3); return std::tuple{r.chance(1, 2) ? f.exp(p) : f}; }), { fp_poly_t q; bool b = $0.pth_root(q); return std::pair{b, b ? q : $0}; });
  OP("fp_eval", 0, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 7), g_intmod(r, p)}; }), $0.eval($1));
  OP("fp_scalar", F_GLOBAL, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 7), g_unit(r, p)}; }), std::tuple{$0 + $1, $0 - $1, $0 * $1, $0 / $1});
  OP("fp_cmp", 0, GENB({ return fp2(r); }), std::tuple{$0 == $1, $0 < $1, $0 >= $1});
  MUT("fp_assign", 0, GENB({ return fp2(r); }), { o = $1; return 0; });
  MUT("fp_addeq", 0, GENB({ return fp2(r); }), { o += $1; return 0; });
  MUT("fp_muleq", 0, GENB({ return fp2(r); }), { o *= $1; o -= $1; return 0; });
  MUT("fp_modeq", F_GLOBAL, GENB({ return fpd(r); }), { o %= $1; return 0; });
  MUT("fp_set_coeff", 0, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 6), r.range(0, 15), g_intmod(r, p)}; }), { o.set_coeff($1, $2); return 0; });
  MUT("fp_promote", 0, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 6), g_intmod(r, p)}; }), { o.promote(); o.promote_and_add($1); return 0; });
  MUT("fp_increment", 0, GENB({ int p = g_prime(r); return std::tuple{g_fp(r, p, 6)}; }), { o.increment(); return 0; });
  OP("fp_parse", F_STREAM, GENB({ std::string s; int n = r.range(1, 5); for (int i = 0; i < n; i++) s += (i ? "," : "") + std::to_string(r.range(0, 20)); if (r.chance(1, 5)) s += ",x"; return std::tuple{s, g_prime(r)}; }), ([&] { fp_poly_t f; bool b = f.from_string($0, $1); return std::pair{StreamFail{!b, ""}, b ? f : fp_poly_t(0, 2)}; })());
  OP("fp_print", F_STREAM, GENB({ return fp2(r); }), ([&] { std::ostringstream s; s << $0 << " " << $1; return StreamFail{s.fail(), s.str()}; })());
  // rationals
  OP("q_add", 0, GEN(g_q(r, 5), g_q(r, 5)), $0 + $1);
  OP("q_sub", 0, GEN(g_q(r, 5), g_q(r, 5)), $0 - $1);
  OP("q_mul", 0, GEN(g_q(r, 4), g_q(r, 4)), $0 * $1);
  OPB("q_div", 0, GEN(g_q(r, 4), g_qnz(r, 2)), { q_poly_t x = $0; return x / $1; });
  OPB("q_quot_and_rem", 0, GEN(g_q(r, 4), g_qnz(r, 2)), { q_poly_t q, m; $0.quot_and_rem($1, q, m); return std::pair{q, m}; });
  OPB("q_div_zero", F_THROWS, GEN(g_q(r, 4), q_poly_t(intrat_t(0))), { q_poly_t x = $0; return x / $1; });
  OP("q_gcd", 0, GEN(g_qnz(r, 2), g_qnz(r, 2)), $0.gcd($1));
  OP("q_exp", 0, GEN(g_q(r, 2), r.range(0, 3)), $0.exp($1));
  OP("q_deriv", 0, GEN(g_q(r, 6)), $0.deriv());
  OP("q_eval", 0, GEN(g_q(r, 4), intrat_t(r.range(-3, 3), r.range(1, 2))), $0.eval($1));
  OP("q_binomial", 0, GEN(g_rat(r), r.range(0, 6), g_rat(r), r.range(0, 6)), q_poly_t::binomial($0, $1, $2, $3));
  MUT("q_assign", 0, GEN(g_q(r, 6), g_q(r, 6)), { o = $1; return 0; });
  MUT("q_muleq", 0, GEN(g_q(r, 3), g_q(r, 3)), { o *= $1; o += $1; return 0; });
  MUT("q_set_coeff", 0, GEN(g_q(r, 5), r.range(0, 12), g_rat(r)), { o.set_coeff($1, $2); return 0; });
  MUT("q_promote", 0, GEN(g_q(r, 5), g_rat(r)), { o.promote(); o.promote_and_add($1); return 0; });
}
} // namespace sim::ops
