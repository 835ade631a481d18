// Factorization, irreducibility, totients, orders, generators, logarithms,
// cyclotomic polynomials, lists, random elements.
#include "ops.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/f2_poly_totient.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/factorization/f2n_poly_totient.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/fp_poly_totient.h"
#include "spffl/list/list_elements.h"
#include "spffl/q_cyclotomic/cyclo_poly.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/intmod_random.h"
#include "spffl/units/f2_polymod_units.h"
#include "spffl/units/f2n_polymod_units.h"
namespace sim::ops {
using namespace spffl::factorization;
using namespace spffl::units;
using namespace spffl::list;
using namespace spffl::q_cyclotomic;
using namespace spffl::random;
static sp_list_type_t lt(int i) { static const sp_list_type_t t[] = {SP_LIST_ALL, SP_LIST_UNITS, SP_LIST_NON_UNITS, SP_LIST_REL_PRIME}; return t[i & 3]; }
void reg_alg() {
  OP("f2_factor", F_SLOW, GEN(g_f2nz(r, 14)), f2_poly_factor($0));
  OP("f2_factor_zero", F_THROWS, GEN(f2_poly_t(0)), f2_poly_factor($0));
  OP("f2_is_irreducible", F_SLOW, GEN(g_f2nz(r, 14)), f2_poly_is_irreducible($0));
  OP("f2_find_irreducible", F_SLOW, GEN(r.range(1, 8)), f2_poly_find_irreducible($0));
  OP("f2_totient", F_SLOW, GEN(g_f2nz(r, 10)), f2_poly_totient($0));
  OPB("f2_divisors", F_SLOW, GEN(g_f2nz(r, 10)), { return f2_poly_factor($0).get_all_divisors(f2_poly_t(1)); });
  OP("fp_factor", F_SLOW | F_GLOBAL, GENB({ int p = g_small_prime(r); return std::tuple{g_fpnz(r, p, 5)}; }), fp_poly_factor($0));
  OP("fp_is_irreducible", F_SLOW | F_GLOBAL, GENB({ int p = g_small_prime(r); return std::tuple{g_fpnz(r, p, 5)}; }), fp_poly_is_irreducible($0));
  OP("fp_find_irr", F_SLOW | F_GLOBAL, GEN(g_small_prime(r), r.range(1, 3)), fp_poly_find_irr($0, $1));
  OP("fp_totient", F_SLOW | F_GLOBAL, GENB({ int p = g_small_prime(r); return std::tuple{g_fpnz(r, p, 4)}; }), fp_poly_totient($0));
  OP("f2n_factor", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 3); return std::tuple{g_f2nnz(r, m, 4)}; }), f2n_poly_factor($0));
  OPB("f2n_roots", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 3); return std::tuple{g_f2nnz(r, m, 4)}; }), { tvector<f2_polymod_t> v; bool b = f2n_poly_roots($0, v); return std::pair{b, b ? v : tvector<f2_polymod_t>()}; });
  OP("f2n_is_irreducible", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 3); return std::tuple{g_f2nnz(r, m, 4)}; }), f2n_poly_is_irreducible($0));
  OP("f2n_find_irr", F_SLOW, GEN(g_f2irr(r, 3), r.range(1, 2)), f2n_poly_find_irr($0, $1));
  OP("f2n_totient", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 3); return std::tuple{g_f2nnz(r, m, 3)}; }), f2n_poly_totient($0));
  // orders, generators, logs
  OP("f2pm_order", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 6); return std::tuple{g_f2pmu(r, m)}; }), f2_polymod_order($0));
  OPB("f2pm_find_generator", F_SLOW, GENB({ return std::tuple{r.chance(3, 4) ? g_f2irr(r, r.chance(1, 2) ? 8 : 6) : g_f2nz(r, 6)}; }), { f2_polymod_t g; bool b = f2_polymod_find_generator($0, g); return std::pair{b, b ? g : f2_polymod_t(f2_poly_t(0), f2_poly_t(7))}; });
  OP("f2_is_primitive", F_SLOW, GENB({ return std::tuple{g_f2irr(r, 6)}; }), f2_poly_is_primitive($0));
  OP("f2_period", F_SLOW, GENB({ f2_poly_t m = g_f2nz(r, 7); m.set_bit(0); m.set_bit(3); return std::tuple{m}; }), f2_poly_period($0));
  OP("f2_find_prim", F_SLOW, GEN(r.range(2, 6), (int)r.below(2)), f2_poly_find_prim($0, $1));
  OPB("f2pm_log", F_SLOW, GENB({ static const unsigned mg[][2] = {{0x7, 2}, {0xb, 2}, {0x13, 2}, {0x25, 2}, {0x43, 2}}; int i = r.below(5); f2_poly_t m = f2_poly_t::from_base_rep(mg[i][0]); return std::tuple{f2_polymod_t(f2_poly_t::from_base_rep(2), m), g_f2pmu(r, m)}; }), { return f2_polymod_log($0, $1); });
  OP("f2pm_log_none", F_SLOW | F_THROWS, GENB({ f2_poly_t m = f2_poly_t::from_base_rep(0x13); return std::tuple{f2_polymod_t(f2_poly_t::from_base_rep(6), m), f2_polymod_t(f2_poly_t::from_base_rep(2), m)}; }), f2_polymod_log($0, $1));
  // cyclotomic
  OP("cyclo_q", F_GLOBAL | F_SLOW, GEN(r.range(1, 30)), get_cyclo_qpoly($0));
  OP("cyclo_q_large", F_GLOBAL | F_SLOW, GEN(r.range(95, 130)), get_cyclo_qpoly($0));
  OP("cyclo_f2", F_GLOBAL | F_SLOW, GEN(r.range(1, 30)), get_cyclo_f2_poly($0));
  OP("cyclo_fp", F_GLOBAL | F_SLOW, GEN(r.range(1, 24), g_small_prime(r)), get_cyclo_fp_poly($0, $1));
  OP("cyclo_f2n", F_GLOBAL | F_SLOW, GEN(r.range(1, 15), g_f2irr(r, 3)), get_cyclo_f2n_poly($0, $1));
  OPB("cyclo_fpn", F_GLOBAL | F_SLOW, GENB({ int p = g_small_prime(r); return std::tuple{r.range(1, 15), g_fpirr(r, p)}; }), { return get_cyclo_fpn_poly($0, $1); });
  OP("cyclo_bad", F_THROWS | F_GLOBAL, GEN(-r.range(0, 5)), get_cyclo_qpoly($0));
  // lists
  OP("list_f2", F_SLOW, GEN(r.range(0, 5)), f2_poly_list($0));
  OP("list_fp", F_SLOW, GEN(g_small_prime(r), r.range(0, 2)), fp_poly_list($0, $1));
  OP("list_f2n", F_SLOW, GEN(f2_poly_t(1, 1, 1), r.range(0, 2)), f2n_poly_list($0, $1));
  OP("list_intmod", F_SLOW, GEN(r.range(2, 40), r.range(0, 3)), intmod_list($0, lt($1)));
  OP("list_f2pm", F_SLOW, GEN(g_f2nz(r, 5), r.range(0, 3)), f2_polymod_list($0, lt($1)));
  OPB("list_fppm", F_SLOW, GENB({ int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); return std::tuple{m, r.range(0, 3)}; }), { return fp_polymod_list($0, lt($1)); });
  OP("list_intmod_multiples", F_SLOW, GENB({ int m = r.range(2, 40); return std::tuple{g_intmod(r, m)}; }), intmod_glist($0, SP_LIST_MULTIPLES));
  // random elements after seeding
  OPB("random_elements", F_RANDOM, GEN((unsigned)r.next(), r.range(2, 300), g_f2irr(r, 6), r.range(1, 6)), {
    spffl::bitrand::sran32($0); intmod_t x = intmod_random($1); f2_poly_t f = f2_poly_random($3 * 9); f2_polymod_t g = f2_polymod_random($2); fp_poly_t h = fp_poly_random(7, $3);
    return std::tuple{x, f, g, h}; });
  OPB("random_irreducible", F_RANDOM | F_SLOW, GEN((unsigned)r.next(), r.range(1, 8)), { spffl::bitrand::sran32($0); f2_poly_t f = f2_poly_random_irreducible($1); fp_poly_t g = fp_poly_random_irr(3, 1 + $1 % 3); return std::pair{f, g}; });
}
} // namespace sim::ops
