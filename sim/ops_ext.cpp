// Polynomials over extension fields, residue classes of them, quotients.
#include "ops.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
namespace sim::ops {
using namespace spffl::rationals;
typedef std::tuple<f2n_poly_t, f2n_poly_t> NN;
static NN f2n2(Rng &r) { f2_poly_t m = g_f2irr(r, 5); f2n_poly_t a = g_f2n(r, m, 5), b = g_f2n(r, m, 5); return {a, b}; }
static NN f2nd(Rng &r) { f2_poly_t m = g_f2irr(r, 5); f2n_poly_t a = g_f2n(r, m, 5), b = g_f2nnz(r, m, 3); return {a, b}; }
static NN f2nmix(Rng &r) { f2_poly_t m = f2_poly_t::from_base_rep(7), n = f2_poly_t::from_base_rep(0xb); f2n_poly_t a = g_f2n(r, m, 3), b = g_f2nnz(r, n, 3); return {a, b}; }
typedef std::tuple<fp_polymod_t, fp_polymod_t> MM;
static MM fpm2(Rng &r) { int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); fp_polymod_t a = g_fppm(r, m), b = g_fppm(r, m); return {a, b}; }
typedef std::tuple<fpn_poly_t, fpn_poly_t> QQ;
static QQ fpn2(Rng &r) { int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); fpn_poly_t a = g_fpn(r, m, 4), b = g_fpn(r, m, 4); return {a, b}; }
static QQ fpnd(Rng &r) { int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); fpn_poly_t a = g_fpn(r, m, 4), b = g_fpnnz(r, m, 2); return {a, b}; }
static f2n_polymod_t f2npm(Rng &r, const f2n_poly_t &M, const f2_poly_t &m) { return f2n_polymod_t(g_f2n(r, m, 3), M); }
static f2n_poly_t f2nM(Rng &r, f2_poly_t &m) { m = f2_poly_t::from_base_rep(7); f2n_poly_t M(f2_polymod_t(f2_poly_t(0), m)); // x^2 + x + a, irreducible over F4
  M.set_coeff(2, f2_polymod_t(f2_poly_t(1), m)); M.set_coeff(1, f2_polymod_t(f2_poly_t(1), m)); M.set_coeff(0, f2_polymod_t(f2_poly_t::from_base_rep(2), m)); (void)r; return M; }
typedef std::tuple<f2n_polymod_t, f2n_polymod_t> PM;
static PM f2npm2(Rng &r) { f2_poly_t m; f2n_poly_t M = f2nM(r, m); f2n_polymod_t a = f2npm(r, M, m), b = f2npm(r, M, m); return {a, b}; }
typedef std::tuple<fpn_polymod_t, fpn_polymod_t> PN;
static PN fpnpm2(Rng &r) { int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); fpn_poly_t M = g_fpnnz(r, m, 0); M.promote(); M.promote_and_add(g_fppm(r, m)); fpn_polymod_t a(g_fpn(r, m, 3), M), b(g_fpn(r, m, 3), M); return {a, b}; }
void reg_ext() {
  OP("f2n_add", 0, GENB({ return f2n2(r); }), $0 + $1);
  OP("f2n_mul", 0, GENB({ return f2n2(r); }), $0 * $1);
  OP("f2n_div", 0, GENB({ return f2nd(r); }), $0 / $1);
  OP("f2n_mod", 0, GENB({ return f2nd(r); }), $0 % $1);
  OPB("f2n_quot_and_rem", 0, GENB({ return f2nd(r); }), { f2n_poly_t q, m; $0.quot_and_rem($1, q, m); return std::pair{q, m}; });
  OP("f2n_mixed", F_THROWS, GENB({ return f2nmix(r); }), $0 * $1);
  OP("f2n_gcd", 0, GENB({ return f2nd(r); }), $0.gcd($1));
  OPB("f2n_ext_gcd", 0, GENB({ return f2nd(r); }), { f2n_poly_t m, n; f2n_poly_t d = $0.ext_gcd($1, m, n); return std::tuple{d, m, n}; });
  OP("f2n_exp", 0, GENB({ f2_poly_t m = g_f2irr(r, 4); return std::tuple{g_f2n(r, m, 2), r.range(0, 4)}; }), $0.exp($1));
  OP("f2n_deriv", 0, GENB({ return f2n2(r); }), $0.deriv());
  OPB("f2n_square_root", 0, GENB({ f2_poly_t m = g_f2irr(r, 4); f2n_poly_t f = g_f2n(r, m, 2); return std::tuple{r.chance(1, 2) ? f * f : f}; }), { f2n_poly_t q; bool b = $0.square_root(q); return std::pair{b, b ? q : $0}; });
  OP("f2n_eval", 0, GENB({ f2_poly_t m = g_f2irr(r, 5); return std::tuple{g_f2n(r, m, 5), g_f2pm(r, m)}; }), $0.eval($1));
  OP("f2n_scalar", 0, GENB({ f2_poly_t m = g_f2irr(r, 5); return std::tuple{g_f2n(r, m, 5), g_f2pmu(r, m)}; }), std::tuple{$0 + $1, $0 * $1, $0 / $1});
  MUT("f2n_assign", 0, GENB({ return f2nmix(r); }), { o = $1; return 0; });
  MUT("f2n_muleq", 0, GENB({ return f2n2(r); }), { o *= $1; o += $1; return 0; });
  MUT("f2n_set_coeff", 0, GENB({ f2_poly_t m = g_f2irr(r, 5); return std::tuple{g_f2n(r, m, 4), r.range(0, 9), g_f2pm(r, m)}; }), { o.set_coeff($1, $2); return 0; });
  MUT("f2n_promote", 0, GENB({ f2_poly_t m = g_f2irr(r, 5); return std::tuple{g_f2n(r, m, 4), g_f2pm(r, m)}; }), { o.promote(); o.promote_and_add($1); return 0; });
  OP("f2n_parse", F_STREAM, GENB({ std::string s; int n = r.range(1, 5); for (int i = 0; i < n; i++) s += (i ? "," : "") + std::string(1, "0123"[r.below(4)]); if (r.chance(1, 5)) s += ",x"; return std::tuple{s, g_f2irr(r, 4)}; }), ([&] { f2n_poly_t f(f2_polymod_t(f2_poly_t(0), $1)); bool b = f.from_string($0, $1); return std::pair{StreamFail{!b, ""}, f}; })());
  OP("f2n_print", F_STREAM, GENB({ return f2n2(r); }), ([&] { std::ostringstream s; s << $0 << " " << $1; return StreamFail{s.fail(), s.str()}; })());
  OP("f2npm_mul", 0, GENB({ return f2npm2(r); }), $0 * $1);
  OP("f2npm_add", 0, GENB({ return f2npm2(r); }), $0 + $1);
  OP("f2npm_div", 0, GENB({ return f2npm2(r); }), $0 / $1);
  OP("f2npm_exp", 0, GENB({ auto t = f2npm2(r); return std::tuple{std::get<0>(t), r.range(0, 20)}; }), $0.exp($1));
  MUT("f2npm_muleq", 0, GENB({ return f2npm2(r); }), { o *= $1; o += $1; return 0; });
  // residue classes over Fp
  OP("fppm_add", 0, GENB({ return fpm2(r); }), $0 + $1);
  OP("fppm_mul", 0, GENB({ return fpm2(r); }), $0 * $1);
  OP("fppm_div", F_GLOBAL, GENB({ return fpm2(r); }), $0 / $1);
  OP("fppm_exp", F_GLOBAL, GENB({ auto t = fpm2(r); return std::tuple{std::get<0>(t), r.range(-4, 30)}; }), $0.exp($1));
  MUT("fppm_muleq", 0, GENB({ return fpm2(r); }), { o *= $1; o -= $1; return 0; });
  OP("fpn_add", 0, GENB({ return fpn2(r); }), $0 + $1);
  OP("fpn_mul", 0, GENB({ return fpn2(r); }), $0 * $1);
  OP("fpn_div", F_GLOBAL, GENB({ return fpnd(r); }), $0 / $1);
  OP("fpn_mod", F_GLOBAL, GENB({ return fpnd(r); }), $0 % $1);
  OPB("fpn_quot_and_rem", F_GLOBAL, GENB({ return fpnd(r); }), { fpn_poly_t q, m; $0.quot_and_rem($1, q, m); return std::pair{q, m}; });
  OP("fpn_gcd", F_GLOBAL, GENB({ return fpnd(r); }), $0.gcd($1));
  OP("fpn_exp", 0, GENB({ int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); return std::tuple{g_fpn(r, m, 2), r.range(0, 4)}; }), $0.exp($1));
  OP("fpn_deriv", 0, GENB({ return fpn2(r); }), $0.deriv());
  OP("fpn_eval", 0, GENB({ int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); return std::tuple{g_fpn(r, m, 4), g_fppm(r, m)}; }), $0.eval($1));
  MUT("fpn_assign", 0, GENB({ return fpn2(r); }), { o = $1; return 0; });
  MUT("fpn_muleq", 0, GENB({ return fpn2(r); }), { o *= $1; o -= $1; return 0; });
  MUT("fpn_set_coeff", 0, GENB({ int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); return std::tuple{g_fpn(r, m, 3), r.range(0, 8), g_fppm(r, m)}; }), { o.set_coeff($1, $2); return 0; });
  OP("fpnpm_mul", F_GLOBAL, GENB({ return fpnpm2(r); }), $0 * $1);
  OP("fpnpm_add", F_GLOBAL, GENB({ return fpnpm2(r); }), $0 + $1);
  // quotients
  OP("fprat_add", F_GLOBAL, GENB({ int p = g_small_prime(r); fp_poly_t a = g_fp(r, p, 4), b = g_fpnz(r, p, 4), c = g_fp(r, p, 4), d = g_fpnz(r, p, 4); return std::tuple{fp_polyrat_t(a, b), fp_polyrat_t(c, d)}; }), $0 + $1);
  OPB("fprat_mul", F_GLOBAL, GENB({ int p = g_small_prime(r); fp_poly_t a = g_fp(r, p, 4), b = g_fpnz(r, p, 4), c = g_fpnz(r, p, 4), d = g_fpnz(r, p, 4); return std::tuple{fp_polyrat_t(a, b), fp_polyrat_t(c, d)}; }), { fp_polyrat_t x = $0; return std::pair{x * $1, x / $1}; });
  OP("f2nrat_add", 0, GENB({ f2_poly_t m = g_f2irr(r, 3); f2n_poly_t a = g_f2n(r, m, 3), b = g_f2nnz(r, m, 3), c = g_f2n(r, m, 3), d = g_f2nnz(r, m, 3); return std::tuple{f2n_polyrat_t(a, b), f2n_polyrat_t(c, d)}; }), $0 + $1);
  OPB("f2nrat_mul", 0, GENB({ f2_poly_t m = g_f2irr(r, 3); f2n_poly_t a = g_f2n(r, m, 3), b = g_f2nnz(r, m, 3), c = g_f2nnz(r, m, 3), d = g_f2nnz(r, m, 3); return std::tuple{f2n_polyrat_t(a, b), f2n_polyrat_t(c, d)}; }), { f2n_polyrat_t x = $0; return std::pair{x * $1, x / $1}; });
}
} // namespace sim::ops
