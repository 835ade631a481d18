// Composite calculations: several library calls on values of one's own.
#include "ops.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/units/fp_units.h"
namespace sim::ops {
void reg_misc() {
  OPB("mix_recip_two_moduli", F_GLOBAL, GENB({ int p = g_prime(r), q = g_prime(r); intmod_t a = g_unit(r, p), b = g_unit(r, q); return std::tuple{a, b, r.range(1, 4)}; }), {
    intmod_t x = $0, y = $1; for (int i = 0; i < $2; i++) { intmod_t u = x, v = y; x.recip(u); y.recip(v); x = u; y = v * $1; } return std::pair{x, y}; });
  OPB("mix_matrix_twice", F_GLOBAL, GENB({ int n = r.range(1, 3), p = g_small_prime(r); tmatrix<intmod_t> a = g_mm(r, n, n, p), b = g_mm(r, n, n, 7); return std::tuple{a, b}; }), {
    tmatrix<intmod_t> x; tmatrix<intmod_t> y; bool f = $0.inverse(x); bool g = $1.inverse(y); return std::tuple{f, g, f ? x : $0, g ? y : $1, $0.det(), $1.get_rank()}; });
  OPB("mix_factor_multiply", F_SLOW, GENB({ f2_poly_t f = g_f2nz(r, 8), g = g_f2nz(r, 6); return std::tuple{f, g}; }), { return spffl::factorization::f2_poly_factor($0 * $1).unfactor(f2_poly_t(1)); });
  OPB("mix_cyclo", F_GLOBAL | F_SLOW, GEN(r.range(1, 20), r.range(1, 20)), { q_poly_t f = spffl::q_cyclotomic::get_cyclo_qpoly($0); q_poly_t g = spffl::q_cyclotomic::get_cyclo_qpoly($1); return std::pair{f, g}; });
  OPB("mix_totients", F_GLOBAL, GEN(r.range(1, 60), r.range(1, 60)), { return std::tuple{spffl::intmath::int_totient($0), spffl::intmath::int_totient($1), spffl::factorization::int_factor($0 * $1)}; });
  OPB("mix_orders", F_GLOBAL, GENB({ intmod_t a = g_unit(r, 29), b = g_unit(r, 101); return std::tuple{a, b}; }), { return std::pair{spffl::units::fp_order($0), spffl::units::fp_order($1)}; });
  OPB("mix_print_parse", F_STREAM, GENB({ int p = g_prime(r); return std::tuple{g_mm(r, r.range(1, 4), r.range(1, 4), p), p}; }), {
    std::ostringstream o; o << $0; std::istringstream i(o.str()); tmatrix<intmod_t> m(intmod_t(0, $1), 1, 1); i >> m; return std::pair{StreamFail{o.fail() || i.fail(), ""}, i.fail() ? $0 : m}; });
}
} // namespace sim::ops
