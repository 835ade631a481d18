// Numbers, polynomials, bit matrices and searches handed what they refuse.
#include <limits>
#include "ops_bad.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/list/list_elements.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
#include "spffl/units/fp_units.h"
namespace sim::ops {
using namespace spffl::factorization;
using namespace spffl::units;
using namespace spffl::list;
using namespace spffl::linalg;
using spffl::bits::bit_matrix_t;
using spffl::bits::bit_vector_t;
static const int LEAST = std::numeric_limits<int>::min();
// Two elements that do not belong together, and a zero.
template <class R> static int refuse_mod(int c, const R &a, const R &b, const R &z) {
  R x = a; bool t;
  switch (c) {
  case 0: x = a + b; break;
  case 1: x = a - b; break;
  case 2: x = a * b; break;
  case 3: x = a / b; break;
  case 4: x = a % b; break;
  case 5: x += b; break;
  case 6: x *= b; break;
  case 7: x -= b; break;
  case 8: t = a < b; (void)t; break;
  case 9: x = a / z; break;
  case 10: x = z.exp(-2); break;
  case 11: x = a.exp(LEAST); break;
  case 12: x = z.exp(0); break;
  case 13: x = a % z; break;
  default: x /= z; break;
  }
  return 0;
}
// A polynomial over one field, one over another, its zero and a coefficient.
template <class P> static int refuse_poly(int c, P a, const P &b, P z) {
  P q = a, s = a; bool t;
  switch (c) {
  case 0: q = a / z; break;
  case 1: q = a % z; break;
  case 2: a.quot_and_rem(z, q, s); break;
  case 3: a.quot_and_rem(b, q, s); break;
  case 4: q = z.exp(-1); break;
  case 5: q = a.exp(-2); break;
  case 6: (void)a.get_coeff(-1); break;
  case 7: (void)a.get_coeff(a.find_degree() + 1); break;
  case 8: q.set_coeff(-1, a.get_coeff(0)); break;
  case 9: q /= z; break;
  case 10: q %= z; break;
  case 11: t = a < b; (void)t; break;
  case 12: q = a + b; break;
  case 13: q = a * b; break;
  default: q = a.gcd(b); break;
  }
  return 0;
}
void reg_bad() {
  OPB("intmod_refuse", F_GLOBAL, GENB({ int m = r.range(2, 40); return std::tuple{g_intmod(r, m), g_intmod(r, r.range(41, 90)), intmod_t(0, m), r.range(0, 15)}; }), { if ($3 == 15) { intmod_t x($0.get_residue(), 0); return 1; } return refuse_mod($3, $0, $1, $2); });
  OPB("f2pm_refuse", F_GLOBAL, GENB({ f2_poly_t m = g_f2irr(r, 4), n = g_f2irr(r, 7); while (n == m) n = g_f2irr(r, 7); return std::tuple{g_f2pm(r, m), g_f2pm(r, n), f2_polymod_t(f2_poly_t(0), m), r.range(0, 14)}; }), { return refuse_mod($3, $0, $1, $2); });
  OPB("fppm_refuse", F_GLOBAL, GENB({ fp_poly_t m = g_fpirr(r, 5), n(1, 1, 3, 7); return std::tuple{g_fppm(r, m), g_fppm(r, n), fp_polymod_t(fp_poly_t(0, 5), m), r.range(0, 14)}; }), { return refuse_mod($3, $0, $1, $2); });
  OPB("f2npm_refuse", F_GLOBAL, GENB({ f2_poly_t b = g_f2irr(r, 3); f2n_poly_t l = g_f2n(r, b, 1); f2n_poly_t m = KF2nm::ctx(r); b = m.get_coeff(0).get_modulus(); f2n_poly_t n = m * m; return std::tuple{KF2nm::el(r, m), KF2nm::el(r, n), f2n_polymod_t(f2n_poly_t(f2_polymod_t(f2_poly_t(0), b)), m), r.range(0, 14)}; }), { return refuse_mod($3, $0, $1, $2); });
  OPB("rat_refuse", 0, GENB({ return std::tuple{g_rat(r), r.range(0, 4)}; }), { intrat_t z(0, 1), x = $0, y = x; switch ($1) { case 0: x = x / z; break; case 1: x = z.exp(-1); break; case 2: x = intrat_t(1, 0); break; case 3: x = y.exp(LEAST); break; default: x /= z; } return 0; });
  OPB("f2n_poly_refuse", 0, GENB({ f2_poly_t m = g_f2irr(r, 3), n = g_f2irr(r, 6); while (n == m) n = g_f2irr(r, 6); return std::tuple{g_f2n(r, m, 3), g_f2nnz(r, n, 2), f2n_poly_t(f2_polymod_t(f2_poly_t(0), m)), r.range(0, 14)}; }), { return refuse_poly($3, $0, $1, $2); });
  OPB("fp_poly_refuse", 0, GENB({ return std::tuple{g_fp(r, 5, 4), g_fpnz(r, 7, 3), fp_poly_t(0, 5), r.range(0, 14)}; }), { return refuse_poly($3, $0, $1, $2); });
  OPB("fpn_poly_refuse", 0, GENB({ fp_poly_t m = g_fpirr(r, 5), n(1, 1, 3, 7); return std::tuple{g_fpn(r, m, 3), g_fpn(r, n, 2), fpn_poly_t(fp_polymod_t(fp_poly_t(0, 5), m)), r.range(0, 14)}; }), { return refuse_poly($3, $0, $1, $2); });
  OPB("q_poly_refuse", 0, GENB({ return std::tuple{g_q(r, 3), g_q(r, 3), r.range(0, 10)}; }), { return refuse_poly($2, $0, $1, q_poly_t(intrat_t(0, 1))); });
  OPB("f2_poly_refuse", 0, GENB({ return std::tuple{g_f2(r, 90), r.range(0, 7)}; }), { f2_poly_t z(0), f = $0, q, s; switch ($1) { case 0: f = f / z; break; case 1: f = f % z; break; case 2: f.quot_and_rem(z, q, s); break; case 3: f.set_bit(-1); break; case 4: (void)f.bit_at(-1); break; case 5: f = f2_poly_t(std::string("zz")); break; case 6: f /= z; break; default: f = z.exp(-1); } return 0; });
  OPB("bit_matrix_refuse", 0, GENB({ int m = r.chance(1, 5) ? 70 : r.range(1, 4), n = r.range(1, 4); return std::tuple{m, n, r.range(0, 20), (unsigned)r.below(1000000)}; }), {
    int m = $0, n = $1; bit_matrix_t A(m, n), B(m, n + 1), C(n + 1, m), S(m, m + 1), t; for (int i = 0; i < m; i++) A[i].set(i % n, bit_t((int)($3 >> (i % 20) & 1))); bit_vector_t v(n + 1);
    switch ($2) {
    case 0: t = A + B; break; case 1: t = A - B; break; case 2: t = A * C; break; case 3: v = A * v; break; case 4: A += B; break; case 5: A -= B; break; case 6: A *= C; break;
    case 7: t = S + bit_t(1); break; case 8: t = S - bit_t(1); break; case 9: S.exp(2, t); break; case 10: t = S.make_I(); break;
    case 11: { bit_matrix_t D(m + 1, n); t = A.paste(D); break; } case 12: { bit_matrix_t l, rt; A.split(l, rt, n + 1); break; } case 13: S.inverse(t); break; case 14: { bit_t d = S.det(); (void)d; break; }
    case 15: v = A[m]; break; case 16: t = bit_matrix_t(0, 3); break; case 17: t = bit_matrix_t(bit_t(1), 2, -1); break; case 18: t = bit_matrix_t(1, 0, 0); break; case 19: v = bit_vector_t(0); break;
    default: v = bit_vector_t(1, -2); break; }
    return 0; });
  OPB("search_refuse", 0, GENB({ return std::tuple{r.range(0, 19), -r.range(0, 3), r.range(2, 4)}; }), {
    int d = $1; f2_poly_t m = f2_poly_t::from_base_rep(0xd);
    switch ($0) {
    case 0: (void)f2_poly_find_irreducible(d); break; case 1: (void)f2_poly_random_irreducible(d); break; case 2: (void)fp_poly_find_irr(5, d); break; case 3: (void)fp_poly_random_irr(5, d); break;
    case 4: (void)f2n_poly_find_irr(m, d); break; case 5: (void)f2n_poly_random_irr(m, d); break; case 6: (void)f2_poly_find_prim(d, 1); break; case 7: (void)f2_poly_random_prim(d, 1); break;
    case 8: (void)f2_poly_list(d - 1); break; case 9: (void)fp_poly_list(5, d - 1); break; case 10: (void)int_sqrt_floor(d - 1); break; case 11: (void)nth_prime(1000000); break;
    case 12: (void)f2_polymod_order(f2_polymod_t(f2_poly_t(0), m)); break; case 13: { f2_polymod_t g; (void)f2_polymod_find_generator(f2_poly_t(1), g); break; } case 14: (void)f2_polymod_log(f2_polymod_t(f2_poly_t(0), m), f2_polymod_t(f2_poly_t(1), m)); break;
    case 15: (void)fp_log(intmod_t(0, 7), intmod_t(1, 7)); break; case 16: { tmatrix<bit_t> A(bit_t(1), $2, $2 + 1); (void)f2_char_poly(A); break; }
    case 17: { tmatrix<intmod_t> A(intmod_t(1, 5), $2, $2 + 1); (void)fp_char_poly(A); break; } case 18: (void)fp_order(intmod_t(0, 7)); break;
    default: { tmatrix<f2_polymod_t> A(f2_polymod_t(f2_poly_t(1), m), $2, $2 + 1); (void)f2_polymod_characteristic_polynomial(A); break; } }
    return 0; });
  OPB("facinfo_refuse", 0, GENB({ return std::tuple{r.range(1, 5000), r.range(0, 4), r.range(1, 9)}; }), {
    tfacinfo<int> e; tfacinfo<int> f = int_factor($0); int n = f.get_num_distinct();
    switch ($1) { case 0: (void)f.get_ith_factor(n + $2 - 1); break; case 1: (void)f.get_ith_count(-1); break; case 2: (void)f.get_kth_divisor(f.get_num_divisors() + $2, 1); break; case 3: (void)f.get_kth_divisor(-1, 1); break; default: (void)e.get_ith_factor(0); }
    return 0; });
}
} // namespace sim::ops
