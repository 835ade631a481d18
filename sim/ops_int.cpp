// Integers, residues, rationals, bits.
#include "ops.h"
#include "spffl/bits/count_bits.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/factorization/int_factor.h"
#include "spffl/intmath/int_gcd.h"
#include "spffl/intmath/int_power.h"
#include "spffl/intmath/int_sqrt.h"
#include "spffl/intmath/int_totient.h"
#include "spffl/intmath/is_prime.h"
#include "spffl/intmath/log10.h"
#include "spffl/intmath/log2.h"
#include "spffl/units/fp_units.h"
namespace sim::ops {
using namespace spffl::factorization;
using namespace spffl::units;
static int any_mod(Rng &r) { if (r.chance(1, 10)) { int m = g_alias(r, 400); if (m >= 2 && m < 40000) return m; } return r.chance(1, 2) ? g_prime(r) : r.range(2, 400); }
static std::tuple<intmod_t, intmod_t> two(Rng &r) { int m = any_mod(r); intmod_t a = g_intmod(r, m), b = g_intmod(r, m); return {a, b}; }
static std::tuple<intmod_t, intmod_t> mixed(Rng &r) { intmod_t a = g_intmod(r, r.range(2, 40)), b = g_intmod(r, r.range(41, 90)); return {a, b}; }
void reg_int() {
  OP("int_gcd", 0, GEN(r.range(-5000, 5000), r.range(-5000, 5000)), int_gcd($0, $1));
  OPB("int_ext_gcd", 0, GEN(r.range(-500, 5000), r.range(1, 5000)), { int m, n; int d = int_ext_gcd($0, $1, m, n); return std::tuple{d, m, n}; });
  OP("int_lcm", 0, GEN(r.range(1, 500), r.range(1, 500)), int_lcm($0, $1));
  OP("int_power", 0, GEN(r.range(-9, 9), r.range(0, 8)), int_power($0, $1));
  OP("int_sqrt", 0, GEN(r.range(-3, 100000)), std::pair{int_sqrt_floor($0), int_sqrt_ceil($0)});
  OP("int_totient", F_GLOBAL, GEN(g_alias(r, 300)), int_totient($0));
  OP("is_prime", 0, GEN(r.chance(1, 2) ? g_alias(r, 300) : r.range(0, 70000)), is_prime($0));
  OP("nth_prime", 0, GEN(r.range(0, 300)), nth_prime($0));
  OP("log2", 0, GEN(r.range(1, 1 << 30)), std::tuple{calc_log2_unsigned_floor($0), calc_log2_unsigned_ceil($0), find_msb_32($0), find_lsb_32($0), find_msb_64((uint64_t)$0 << 20), find_lsb_64((uint64_t)$0 << 20), calc_log10_unsigned_floor($0)});
  OPB("count_bits", 0, GEN((int)r.below(1u << 31)), { unsigned char b[4]; for (int i = 0; i < 4; i++) b[i] = $0 >> (8 * i); return count_one_bits(b, 4); });
  OP("int_factor", 0, GEN(r.chance(1, 2) ? g_alias(r, 300) : r.range(1, 100000)), int_factor($0));
  OPB("int_divisors", 0, GEN(r.range(1, 3000)), { return int_factor($0).get_all_divisors(1); });
  OP("int_unfactor", 0, GEN(r.range(1, 30000)), int_factor($0).unfactor(1));
  // residues
  OP("intmod_add", 0, GENB({ return two(r); }), $0 + $1);
  OP("intmod_sub", 0, GENB({ return two(r); }), $0 - $1);
  OP("intmod_mul", 0, GENB({ return two(r); }), $0 * $1);
  OP("intmod_div", F_GLOBAL, GENB({ int p = g_prime(r); intmod_t a = g_intmod(r, p), b = g_unit(r, p); return std::tuple{a, b}; }), $0 / $1);
  OP("intmod_div_composite", F_GLOBAL, GENB({ return two(r); }), $0 / $1);
  OPB("intmod_recip", F_GLOBAL, GENB({ int m = any_mod(r); return std::tuple{g_intmod(r, m)}; }), { intmod_t x(0, 2); bool b = $0.recip(x); return std::pair{b, b ? x : $0}; });
  OPB("intmod_recip_many", F_GLOBAL, GENB({ int m = any_mod(r); intmod_t x = g_intmod(r, m), y = g_intmod(r, any_mod(r)), z = g_intmod(r, m); return std::tuple{x, y, z}; }), {
    intmod_t x(0, 2), y(0, 2), z(0, 2); bool b = $0.recip(x), c = $1.recip(y), d = $2.recip(z);
    return std::tuple{b, c, d, b ? x : $0, c ? y : $1, d ? z : $2}; });
  OP("intmod_exp", F_GLOBAL, GENB({ int p = g_prime(r); return std::tuple{g_unit(r, p), r.range(-9, 60)}; }), $0.exp($1));
  OP("intmod_neg", 0, GENB({ return two(r); }), -$0);
  OP("intmod_int", 0, GENB({ auto t = two(r); return std::tuple{std::get<0>(t), r.range(-50, 50)}; }), std::tuple{$0 + $1, $0 - $1, $0 * $1});
  OP("intmod_cmp", 0, GENB({ return two(r); }), std::tuple{$0 == $1, $0 < $1, $0 >= $1, $0 != 0});
  OP("intmod_mixed_moduli", F_THROWS, GENB({ return mixed(r); }), $0 + $1);
  OP("intmod_mixed_mul", F_THROWS, GENB({ return mixed(r); }), $0 * $1);
  OP("intmod_div_zero", F_THROWS | F_GLOBAL, GENB({ int m = any_mod(r); return std::tuple{g_intmod(r, m), intmod_t(0, m)}; }), $0 / $1);
  OP("fp_order", F_GLOBAL, GENB({ int p = g_prime(r); return std::tuple{g_unit(r, p)}; }), fp_order($0));
  OP("fp_order_zero", F_THROWS, GENB({ int p = g_prime(r); return std::tuple{intmod_t(0, p)}; }), fp_order($0));
  OPB("fp_find_generator", F_GLOBAL, GENB({ int p = r.chance(3, 4) ? g_prime(r) : r.range(4, 60); return std::tuple{p}; }), { intmod_t g(0, 2); bool b = fp_find_generator($0, g); return std::pair{b, b ? g : intmod_t(0, 2)}; });
  OP("fp_log", F_GLOBAL, GENB({ static const int pg[][2] = {{5, 2}, {7, 3}, {11, 2}, {13, 2}, {17, 3}, {29, 2}, {101, 2}}; int i = r.below(7); return std::tuple{intmod_t(pg[i][1], pg[i][0]), g_unit(r, pg[i][0])}; }), fp_log($0, $1));
  OP("fp_log_none", F_THROWS | F_GLOBAL, GENB({ int p = r.chance(1, 2) ? 11 : 13; return std::tuple{intmod_t(p - 1, p), intmod_t(2, p)}; }), fp_log($0, $1));
  // rationals
  OP("rat_add", 0, GEN(g_rat(r), g_rat(r)), $0 + $1);
  OPB("rat_mul", 0, GEN(g_rat(r), g_rat(r)), { intrat_t x = $0; return x * $1; });
  OPB("rat_div", 0, GEN(g_rat(r), g_rat(r)), { intrat_t x = $0; return x / $1; });
  OPB("rat_exp", 0, GEN(g_rat(r), r.range(-4, 5)), { intrat_t x = $0; return x.exp($1); });
  OP("rat_cmp", 0, GEN(g_rat(r), g_rat(r)), std::tuple{$0 == $1, $0 < $1, $0 >= $1});
  OP("rat_zero_denominator", F_THROWS, GEN(r.range(1, 9)), intrat_t($0, 0));
  OP("bit_ops", 0, GEN((int)r.below(2), (int)r.chance(3, 4)), std::tuple{bit_t($0) + bit_t($1), bit_t($0) * bit_t($1), bit_t($0) / bit_t($1)});
  // the reentrant generators
  OPB("psdes_r", F_GLOBAL, GEN((unsigned)r.next(), (unsigned)r.next(), r.range(1, 6)), { uint32_t s0 = $0, s1 = $1; std::vector<uint32_t> v; for (int i = 0; i < $2; i++) v.push_back(spffl::bitrand::iran32_r(s0, s1)); uint32_t x, y; spffl::bitrand::iran64_r(x, y, s0, s1); v.push_back(x); v.push_back(y); v.push_back(s0); v.push_back(s1); return v; });
  OPB("psdes_fran_r", F_GLOBAL, GEN((unsigned)r.next(), (unsigned)r.next()), { uint32_t s0 = $0, s1 = $1; float f = spffl::bitrand::fran32_r(s0, s1); float g = spffl::bitrand::fran32_r(s0, s1); return std::tuple{f, g, s0, s1}; });
  OPB("psdes_hash", 0, GEN((unsigned)r.next(), (unsigned)r.next()), { uint32_t s0 = $0, s1 = $1; spffl::bitrand::psdes_hash_64(s0, s1); return std::tuple{s0, s1}; });
}
} // namespace sim::ops
