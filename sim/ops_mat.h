// Vector and matrix operations for any element type; instantiated in ops_mat*.cpp.
#pragma once
#include "ops.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
namespace sim::ops {
using spffl::rationals::f2_polyrat_t;
using spffl::rationals::f2n_polyrat_t;
using spffl::rationals::fp_polyrat_t;
// A kind of element: X is what elements share, such as a modulus.
struct KInt { typedef int E; typedef int X; static constexpr bool field = false, eucl = true, ordered = true; static X ctx(Rng &) { return 0; } static E el(Rng &r, const X &) { return r.range(-5, 5); } static E of(int v, const X &) { return v; } };
struct KBit { typedef bit_t E; typedef int X; static constexpr bool field = true, eucl = false, ordered = false; static X ctx(Rng &) { return 0; } static E el(Rng &r, const X &) { return bit_t((int)r.below(2)); } static E of(int v, const X &) { return bit_t(v & 1); } };
struct KMod { typedef intmod_t E; typedef int X; static constexpr bool field = true, eucl = false, ordered = true; static X ctx(Rng &r) { static const int p[] = {2, 3, 5, 7, 101}; return p[r.below(5)]; } static E el(Rng &r, const X &p) { return g_intmod(r, p); } static E of(int v, const X &p) { return intmod_t(v, p); } };
struct KRat { typedef intrat_t E; typedef int X; static constexpr bool field = true, eucl = false, ordered = true; static X ctx(Rng &) { return 0; } static E el(Rng &r, const X &) { return intrat_t(r.range(-2, 2), r.range(1, 2)); } static E of(int v, const X &) { return intrat_t(v); } };
struct KF2 { typedef f2_poly_t E; typedef int X; static constexpr bool field = false, eucl = true, ordered = true; static X ctx(Rng &r) { return r.chance(1, 5) ? 90 : 6; } static E el(Rng &r, const X &d) { return g_f2(r, d); } static E of(int v, const X &) { return f2_poly_t(v & 1); } };
struct KFp { typedef fp_poly_t E; typedef int X; static constexpr bool field = false, eucl = true, ordered = true; static X ctx(Rng &r) { return g_small_prime(r); } static E el(Rng &r, const X &p) { return g_fp(r, p, 2); } static E of(int v, const X &p) { return fp_poly_t(intmod_t(v, p)); } };
struct KF2m { typedef f2_polymod_t E; typedef f2_poly_t X; static constexpr bool field = true, eucl = false, ordered = true; static X ctx(Rng &r) { return g_f2irr(r, 5); } static E el(Rng &r, const X &m) { return g_f2pm(r, m); } static E of(int v, const X &m) { return f2_polymod_t(f2_poly_t(v & 1), m); } };
struct KFpm { typedef fp_polymod_t E; typedef fp_poly_t X; static constexpr bool field = true, eucl = false, ordered = true; static X ctx(Rng &r) { return g_fpirr(r, g_small_prime(r)); } static E el(Rng &r, const X &m) { return g_fppm(r, m); } static E of(int v, const X &m) { return fp_polymod_t::prime_subfield_element(v, m); } };
struct KF2r { typedef f2_polyrat_t E; typedef int X; static constexpr bool field = true, eucl = false, ordered = false; static X ctx(Rng &) { return 0; } static E el(Rng &r, const X &) { f2_poly_t n = g_f2(r, 3), d = g_f2nz(r, 2); return f2_polyrat_t(n, d); } static E of(int v, const X &) { return f2_polyrat_t(v & 1); } };

struct KQ { typedef q_poly_t E; typedef int X; static constexpr bool field = false, eucl = false, ordered = false; static X ctx(Rng &) { return 0; } static E el(Rng &r, const X &) { return g_q(r, 2); } static E of(int v, const X &) { return q_poly_t(intrat_t(v)); } };
struct KF2n { typedef f2n_poly_t E; typedef f2_poly_t X; static constexpr bool field = false, eucl = true, ordered = true; static X ctx(Rng &r) { return g_f2irr(r, 4); } static E el(Rng &r, const X &m) { return g_f2n(r, m, 2); } static E of(int v, const X &m) { return f2n_poly_t(f2_polymod_t(f2_poly_t(v & 1), m)); } };
struct KFpn { typedef fpn_poly_t E; typedef fp_poly_t X; static constexpr bool field = false, eucl = true, ordered = true; static X ctx(Rng &r) { return g_fpirr(r, g_small_prime(r)); } static E el(Rng &r, const X &m) { return g_fpn(r, m, 2); } static E of(int v, const X &m) { return fpn_poly_t(fp_polymod_t::prime_subfield_element(v, m)); } };
struct KF2nm { typedef f2n_polymod_t E; typedef f2n_poly_t X; static constexpr bool field = true, eucl = false, ordered = false; static X ctx(Rng &r) { f2_poly_t m = g_f2irr(r, 3); f2_polymod_t o(f2_poly_t(1), m); f2n_poly_t l(o, g_f2pm(r, m)); for (int t = 0; t < (int)r.below(3); t++) { f2n_poly_t q(o, o, g_f2pm(r, m)); bool root = false; for (int b = 0; b < 1 << m.find_degree(); b++) root |= q.eval(f2_polymod_t(f2_poly_t::from_base_rep(b), m)) == 0; if (!root) return q; } return l; } static E el(Rng &r, const X &m) { return f2n_polymod_t(g_f2n(r, m.get_coeff(0).get_modulus(), 2), m); } static E of(int v, const X &m) { return f2n_polymod_t(f2n_poly_t(f2_polymod_t(f2_poly_t(v & 1), m.get_coeff(0).get_modulus())), m); } };
struct KFpr { typedef fp_polyrat_t E; typedef int X; static constexpr bool field = true, eucl = false, ordered = false; static X ctx(Rng &r) { return g_small_prime(r); } static E el(Rng &r, const X &p) { fp_poly_t n = g_fp(r, p, 1), d = r.chance(1, 2) ? g_fpnz(r, p, 1) : fp_poly_t(intmod_t(1, p)); return fp_polyrat_t(n, d); } static E of(int v, const X &p) { return fp_polyrat_t(fp_poly_t(intmod_t(v, p))); } };


template <class K> static tvector<typename K::E> vec(Rng &r, int n, const typename K::X &x) { tvector<typename K::E> v(n); for (int i = 0; i < n; i++) v[i] = K::el(r, x); return v; }
template <class K> static tmatrix<typename K::E> mat(Rng &r, int m, int n, const typename K::X &x) {
  tmatrix<typename K::E> A(m, n); int low = r.chance(1, 3) ? r.range(1, m) : m; // sometimes of low rank
  for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i][j] = i < low ? K::el(r, x) : A[i - low][j]; return A;
}
template <class E> static std::string printed(const E &e) { std::ostringstream o; o << e; return o.str(); }
template <class K> constexpr bool heavy = std::is_same_v<K, KF2nm> || std::is_same_v<K, KFpr> || std::is_same_v<K, KFpn> || std::is_same_v<K, KF2n>;
template <class K> static int dim(Rng &r, int n) { return r.range(1, heavy<K> && n > 2 && !r.chance(1, 8) ? 2 : n); }
template <class K> void reg_kind(const std::string &k) {
  typedef typename K::E E; typedef tmatrix<E> M; typedef tvector<E> V;
  unsigned g = F_GLOBAL;
  OPB(k + "_m_shape", 0, GENB({ auto x = K::ctx(r); int m = dim<K>(r, 4), n = dim<K>(r, 4); M A = mat<K>(r, m, n, x), B = mat<K>(r, m, dim<K>(r, 3), x); V v = vec<K>(r, m, x); return std::tuple{A, B, v, r.range(1, n)}; }), {
    M l, rt; M P = $0.paste($1); P.split(l, rt, $3); return std::tuple{$0.transpose(), $0.flip_horiz(), $0.flip_vert(), $0.flip_horiz_vert(), P, l, rt, $0.paste_vector($2), $0.get_column($3 - 1)}; });
  OPB(k + "_m_arith", 0, GENB({ auto x = K::ctx(r); int m = dim<K>(r, 4), n = dim<K>(r, 4); M A = mat<K>(r, m, n, x), B = mat<K>(r, m, n, x), C = mat<K>(r, n, dim<K>(r, 3), x); V v = vec<K>(r, n, x); return std::tuple{A, B, C, v, K::el(r, x)}; }), {
    return std::tuple{$0 + $1, $0 - $1, -$0, $0 * $2, $0 * $3, $0 * $4, $0 == $1, $0 != $1, $0 == $4}; });
  OPB(k + "_m_plus_scalar", 0, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 4); return std::tuple{mat<K>(r, n, n, x), K::el(r, x)}; }), { return std::tuple{$0 + $1, $0 - $1}; });
  MUT(k + "_m_into", 0, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 4); M A = mat<K>(r, n, n, x), B = mat<K>(r, n, n, x); return std::tuple{A, B, vec<K>(r, n, x), K::el(r, x), r.range(0, n - 1)}; }), {
    if (o.get_num_rows() != $1.get_num_rows()) { o = $1; return 0; }
    o += $1; o -= $0; o *= $1; o += $3; o -= $3; o *= $3; V c = $2; o.put_column($4, c); o.swap($4, 0); return 1; });
  MUT(k + "_m_assign", 0, GENB({ auto x = K::ctx(r); M A = mat<K>(r, dim<K>(r, 5), dim<K>(r, 5), x), B = mat<K>(r, dim<K>(r, 5), dim<K>(r, 5), x); return std::tuple{A, B, K::el(r, x), r.chance(1, 3)}; }), { if ($3) o = $2; else o = $1; return o.get_num_rows(); });
  MUT(k + "_m_trim", 0, GENB({ auto x = K::ctx(r); int m = dim<K>(r, 5); M A = mat<K>(r, m, dim<K>(r, 4), x); return std::tuple{A, r.range(1, m)}; }), { if ($1 <= o.get_num_rows()) o.trim_num_rows($1); M t = o; o = t; return 0; });
  OPB(k + "_m_ask", 0, GENB({ auto x = K::ctx(r); int m = dim<K>(r, 3), n = dim<K>(r, 3); M A = mat<K>(r, m, n, x); int w = r.range(0, m - 1); V v = A[w]; if (r.chance(1, 3)) v[0] = K::el(r, x); return std::tuple{A, v, K::of(0, x), K::of(1, x)}; }), {
    V v = $1; int at = -1; bool f = $0.find_row(v, at); return std::tuple{f, f ? at : -1, $0.is_zero(), $0.is_square(), $0.get_num_rows(), $0.get_num_cols()}; });
  OPB(k + "_m_identity", 0, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 4); return std::tuple{mat<K>(r, n, n, x), K::of(0, x), K::of(1, x), r.range(0, 5)}; }), { M I = $0.make_I($1, $2); return std::tuple{I, I.is_I(), [&] { M B; return $0.exp($3, B) ? B : I; }()}; });
  OPB(k + "_m_bracket", F_STREAM, GENB({ auto x = K::ctx(r); M A = mat<K>(r, dim<K>(r, 4), dim<K>(r, 4), x); std::string s = "["; for (int i = 0; i < A.get_num_rows(); i++) { s += i ? " [" : "["; for (int j = 0; j < A.get_num_cols(); j++) s += (j ? " " : "") + printed(A[i][j]); s += "]"; } s += "]"; if (r.chance(1, 5)) s.erase(r.below(s.size()), 1); return std::tuple{s, K::of(0, x)}; }), {
    std::string s = $0; M A($1, 1, 1); bool b = A.bracket_in(s.data()); return std::pair{StreamFail{!b, ""}, A}; });
  OPB(k + "_v_bracket", F_STREAM, GENB({ auto x = K::ctx(r); V v = vec<K>(r, dim<K>(r, 6), x); std::string s = "["; for (int j = 0; j < v.get_num_elements(); j++) s += (j ? " " : "") + printed(v[j]); s += "]"; if (r.chance(1, 5)) s.erase(r.below(s.size()), 1); return std::tuple{s, K::of(0, x)}; }), {
    std::string s = $0; V v($1, 1); bool b = v.bracket_in(s.data()); return std::pair{StreamFail{!b, ""}, v}; });
  OPB(k + "_v_arith", 0, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 7); V a = vec<K>(r, n, x), b = vec<K>(r, n, x); M A = mat<K>(r, n, dim<K>(r, 3), x); return std::tuple{a, b, K::el(r, x), A, K::of(0, x)}; }), {
    V d = $0; int at = -1; bool f = $0.find_leader_pos($4, at); return std::tuple{$0 + $1, $0 - $1, -$0, $0 * $2, $0 * $1, d.dot($1), $0 * $3, $0 == $1, $0 != $1, f, f ? at : -1}; });
  MUT(k + "_v_into", 0, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 7); V a = vec<K>(r, n, x), b = vec<K>(r, n, x); return std::tuple{a, b, K::el(r, x), r.range(1, n)}; }), {
    if (o.get_num_elements() != $1.get_num_elements()) { o = $1; return 0; }
    o += $1; o -= $0; o *= $2; o.mult_by($2); V t = $1; E c = $2; o.accum_row_mul(c, $2, t); o.trim_num_elements($3); V u = o; o.ptrswap(u); return u.get_num_elements(); });
  OPB(k + "_v_print", F_STREAM, GENB({ auto x = K::ctx(r); return std::tuple{vec<K>(r, dim<K>(r, 6), x), mat<K>(r, dim<K>(r, 3), dim<K>(r, 4), x)}; }), { V v = $0; std::ostringstream s; s << v << $1; v.sqzout(s); v.crout(s); return StreamFail{s.fail(), s.str()}; });
  OPB(k + "_outside", F_THROWS, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 4); M A = mat<K>(r, n, n, x); return std::tuple{A, vec<K>(r, n + 1, x), r.range(0, 5), n}; }), {
    M A = $0; V v = $1; switch ($2) { case 0: A[$3][0] = v[0]; break; case 1: v = A * v; break; case 2: v = v + A[0]; break; case 3: A.put_column(0, v); break; case 4: v = A.get_column($3); break; default: A.trim_num_rows($3 + 1); } return A; });
  if constexpr (K::ordered) MUT(k + "_v_sort", 0, GENB({ auto x = K::ctx(r); return std::tuple{vec<K>(r, dim<K>(r, 9), x)}; }), { o.sort(); return 0; });
  if constexpr (K::field) {
    OPB(k + "_m_eliminate", g, GENB({ auto x = K::ctx(r); return std::tuple{mat<K>(r, dim<K>(r, 3), dim<K>(r, 3), x)}; }), { M e = $0, q, w; e.row_echelon_form(); M A = $0; bool b = A.get_rr_non_zero_rows(q), c = A.get_rech_non_zero_rows(w); return std::tuple{e, b, b ? q : A, c, c ? w : A, A.get_rank(), e.get_rank_rr()}; });
    OPB(k + "_m_kernel", g, GENB({ auto x = K::ctx(r); return std::tuple{mat<K>(r, dim<K>(r, 3), dim<K>(r, 4), x), K::of(0, x), K::of(1, x)}; }), { M B; bool b = $0.get_kernel_basis(B, $1, $2); if (b) $0.check_kernel_basis(B); return std::pair{b, b ? B : $0}; });
    OPB(k + "_m_inverse", g, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 3); return std::tuple{mat<K>(r, n, n, x)}; }), { M B, C; bool b = $0.inverse(B); if (b) $0.check_inverse(B); bool c = $0.exp(-2, C) != 0; return std::tuple{b, b ? B : $0, $0.det(), c, b && c ? C : $0}; });
    OPB(k + "_m_solve", g, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 3); M A = mat<K>(r, n, n, x); V b = vec<K>(r, n, x); return std::tuple{A, b, K::of(0, x), K::of(1, x)}; }), { V x; bool b = $0.solve_unique(x, $1, $2, $3); return std::pair{b, b ? x : $1}; });
  }
}
} // namespace sim::ops
