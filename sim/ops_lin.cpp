// Containers and linear algebra over the bits, residues, rationals, integers.
#include "ops.h"
#include "spffl/linalg/f2_linear_algebra.h"
#include "spffl/linalg/fp_linear_algebra.h"
#include "spffl/linalg/f2_polymod_linear_algebra.h"
#include "spffl/linalg/f2_polymod_convert.h"
#include "spffl/linalg/min_char_polys.h"
namespace sim::ops {
static int pr(Rng &r) { static const int p[] = {2, 3, 5, 7, 101}; return p[r.below(5)]; }
template <class T> static tmatrix<T> rr(const tmatrix<T> &A) { tmatrix<T> B = A; B.row_echelon_form(); return B; }
template <class T> static std::pair<bool, tmatrix<T>> inv(const tmatrix<T> &A) { tmatrix<T> B; bool b = A.inverse(B); return {b, b ? B : A}; }
template <class T> static std::pair<bool, tmatrix<T>> ker(const tmatrix<T> &A, const T &z, const T &o) { tmatrix<T> B; bool b = A.get_kernel_basis(B, z, o); return {b, b ? B : tmatrix<T>()}; }
void reg_lin() {
  // bit vectors and matrices
  OP("bv_copy", 0, GEN(g_bv(r, r.range(1, 140))), bit_vector_t($0));
  OPB("bv_add", 0, GENB({ int n = r.range(1, 140); bit_vector_t a = g_bv(r, n), b = g_bv(r, n); return std::tuple{a, b}; }), { bit_vector_t x = $0; return std::pair{x + $1, x * $1}; });
  OPB("bv_differ", F_THROWS, GENB({ int n = r.range(1, 140); bit_vector_t a = g_bv(r, n), b = g_bv(r, n + 1); return std::tuple{a, b}; }), { bit_vector_t x = $0; return x + $1; });
  MUT("bv_assign", 0, GENB({ bit_vector_t a = g_bv(r, r.range(1, 140)), b = g_bv(r, r.range(1, 140)); return std::tuple{a, b}; }), { o = $1; return 0; });
  MUT("bv_set", 0, GENB({ int n = r.range(1, 140); return std::tuple{g_bv(r, n), r.range(0, n), (int)r.below(2)}; }), { o.set($1, $2); return o.is_zero(); });
  OPB("bm_mul", 0, GENB({ int k = r.range(1, 9), m = r.range(1, 9), n = r.range(1, 70); bit_matrix_t a = g_bm(r, k, m), b = g_bm(r, m, n); return std::tuple{a, b}; }), { return $0 * $1; });
  OPB("bm_mul_differ", F_THROWS, GENB({ bit_matrix_t a = g_bm(r, 3, 4), b = g_bm(r, 3, 4); return std::tuple{a, b}; }), { return $0 * $1; });
  OP("bm_transpose", 0, GEN(g_bm(r, r.range(1, 9), r.range(1, 70))), $0.transpose());
  OP("bm_rank", 0, GEN(g_bm(r, r.range(1, 9), r.range(1, 70))), $0.get_rank());
  OPB("bm_det", 0, GENB({ int n = r.range(1, 8); return std::tuple{g_bm(r, n, n)}; }), { return $0.det(); });
  OPB("bm_inverse", 0, GENB({ int n = r.range(1, 8); return std::tuple{g_bm(r, n, n)}; }), { bit_matrix_t B; bool b = $0.inverse(B); return std::pair{b, b ? B : $0}; });
  OP("bm_outer", 0, GEN(g_bv(r, r.range(1, 70)), g_bv(r, r.range(1, 70))), bit_matrix_t::outer($0, $1));
  OPB("bm_kernel", 0, GEN(g_bm(r, r.range(1, 9), r.range(1, 9))), { bit_matrix_t B; bool b = $0.get_kernel_basis(B); return std::pair{b, b ? B : bit_matrix_t()}; });
  OPB("bm_exp", 0, GENB({ int n = r.range(1, 6); return std::tuple{g_bm(r, n, n), r.range(0, 9)}; }), { bit_matrix_t B; int b = $0.exp($1, B); return std::pair{b, b ? B : $0}; });
  OPB("bm_paste", 0, GENB({ int n = r.range(1, 6); bit_matrix_t a = g_bm(r, n, r.range(1, 70)), b = g_bm(r, n, r.range(1, 9)); return std::tuple{a, b}; }), { bit_matrix_t y = $1; bit_matrix_t C = $0.paste(y); bit_matrix_t l, q; C.split(l, q, $0.get_num_cols()); return std::tuple{C, l, q}; });
  MUT("bm_assign", 0, GENB({ bit_matrix_t a = g_bm(r, r.range(1, 9), r.range(1, 70)), b = g_bm(r, r.range(1, 9), r.range(1, 70)); return std::tuple{a, b}; }), { o = $1; return 0; });
  MUT("bm_row_echelon", 0, GENB({ return std::tuple{g_bm(r, r.range(1, 9), r.range(1, 12))}; }), { o.row_echelon_form(); return 0; });
  // vectors and matrices of residues
  OP("vm_copy", 0, GEN(g_vm(r, r.range(1, 12), pr(r))), tvector<intmod_t>($0));
  OP("vm_add", 0, GENB({ int n = r.range(1, 12), p = pr(r); tvector<intmod_t> a = g_vm(r, n, p), b = g_vm(r, n, p); return std::tuple{a, b}; }), std::tuple{$0 + $1, $0 - $1, $0 * $1});
  OPB("vm_dot", 0, GENB({ int n = r.range(1, 12), p = pr(r); tvector<intmod_t> a = g_vm(r, n, p), b = g_vm(r, n, p); return std::tuple{a, b}; }), { tvector<intmod_t> x = $0; return x.dot($1); });
  OP("vm_differ", F_THROWS, GENB({ int n = r.range(1, 12), p = pr(r); tvector<intmod_t> a = g_vm(r, n, p), b = g_vm(r, n + 1, p); return std::tuple{a, b}; }), $0 + $1);
  MUT("vm_assign", 0, GENB({ int p = pr(r); tvector<intmod_t> a = g_vm(r, r.range(1, 12), p), b = g_vm(r, r.range(1, 12), p); return std::tuple{a, b}; }), { o = $1; return 0; });
  MUT("vm_addeq", 0, GENB({ int n = r.range(1, 12), p = pr(r); tvector<intmod_t> a = g_vm(r, n, p), b = g_vm(r, n, p); return std::tuple{a, b}; }), { o += $1; o -= $0; return 0; });
  MUT("vm_sort", 0, GEN(g_vm(r, r.range(1, 12), pr(r))), { o.sort(); return 0; });
  OP("vm_index", F_THROWS, GEN(g_vm(r, r.range(1, 6), pr(r)), r.range(0, 7)), $0[$1]);
  OP("mm_mul", 0, GENB({ int k = r.range(1, 5), m = r.range(1, 5), n = r.range(1, 5), p = pr(r); tmatrix<intmod_t> a = g_mm(r, k, m, p), b = g_mm(r, m, n, p); return std::tuple{a, b}; }), $0 * $1);
  OP("mm_add", 0, GENB({ int k = r.range(1, 5), m = r.range(1, 5), p = pr(r); tmatrix<intmod_t> a = g_mm(r, k, m, p), b = g_mm(r, k, m, p); return std::tuple{a, b}; }), std::tuple{$0 + $1, $0 - $1, -$0, $0 == $1});
  OP("mm_mul_vector", 0, GENB({ int k = r.range(1, 5), m = r.range(1, 5), p = pr(r); tmatrix<intmod_t> a = g_mm(r, k, m, p); tvector<intmod_t> b = g_vm(r, m, p); return std::tuple{a, b}; }), $0 * $1);
  OP("mm_row_echelon", F_GLOBAL, GEN(g_mm(r, r.range(1, 5), r.range(1, 5), pr(r))), rr($0));
  OP("mm_rank", F_GLOBAL, GEN(g_mm(r, r.range(1, 5), r.range(1, 5), pr(r))), $0.get_rank());
  OP("mm_inverse", F_GLOBAL, GENB({ int n = r.range(1, 5); return std::tuple{g_mm(r, n, n, pr(r))}; }), inv($0));
  OP("mm_inverse_nonsquare", F_THROWS, GENB({ int n = r.range(1, 5); return std::tuple{g_mm(r, n, n + 1, pr(r))}; }), inv($0));
  OP("mm_det", F_GLOBAL, GENB({ int n = r.range(1, 5); return std::tuple{g_mm(r, n, n, pr(r))}; }), $0.det());
  OPB("mm_kernel", F_GLOBAL, GENB({ int p = pr(r); return std::tuple{g_mm(r, r.range(1, 5), r.range(1, 6), p), intmod_t(0, p), intmod_t(1, p)}; }), { return ker($0, $1, $2); });
  OPB("mm_exp", F_GLOBAL, GENB({ int n = r.range(1, 4); return std::tuple{g_mm(r, n, n, pr(r)), r.range(-3, 9)}; }), { tmatrix<intmod_t> B; int b = $0.exp($1, B); return std::pair{b, b ? B : $0}; });
  OPB("mm_solve", F_GLOBAL, GENB({ int n = r.range(1, 4), p = pr(r); tmatrix<intmod_t> a = g_mm(r, n, n, p); tvector<intmod_t> b = g_vm(r, n, p); return std::tuple{a, b, intmod_t(0, p), intmod_t(1, p)}; }), { tmatrix<intmod_t> M = $0; tvector<intmod_t> x; tvector<intmod_t> b = $1; bool ok = M.solve_unique(x, b, $2, $3); return std::pair{ok, ok ? x : $1}; });
  OP("mm_shape", 0, GEN(g_mm(r, r.range(1, 5), r.range(1, 5), pr(r))), std::tuple{$0.transpose(), $0.flip_horiz(), $0.flip_vert(), $0.flip_horiz_vert()});
  OPB("mm_paste", 0, GENB({ int n = r.range(1, 4), p = pr(r); tmatrix<intmod_t> a = g_mm(r, n, r.range(1, 4), p), b = g_mm(r, n, r.range(1, 4), p); return std::tuple{a, b}; }), { tmatrix<intmod_t> C = $0.paste($1), l, q; C.split(l, q, $0.get_num_cols()); return std::tuple{C, l, q}; });
  OPB("mm_column", 0, GENB({ int m = r.range(1, 5), n = r.range(1, 5), p = pr(r); return std::tuple{g_mm(r, m, n, p), r.range(0, n - 1), r.range(0, m - 1), g_vm(r, m, p)}; }), { tmatrix<intmod_t> C = $0; tvector<intmod_t> v = $3; C.put_column($1, v); C.swap(0, $2); return std::tuple{C, $0.get_column($1)}; });
  MUT("mm_assign", 0, GENB({ int p = pr(r); tmatrix<intmod_t> a = g_mm(r, r.range(1, 5), r.range(1, 5), p), b = g_mm(r, r.range(1, 5), r.range(1, 5), p); return std::tuple{a, b}; }), { o = $1; return 0; });
  MUT("mm_muleq", 0, GENB({ int n = r.range(1, 4), p = pr(r); tmatrix<intmod_t> a = g_mm(r, n, n, p), b = g_mm(r, n, n, p); return std::tuple{a, b}; }), { o *= $1; o += $1; return 0; });
  // rationals, integers, bits
  OP("mq_inverse", 0, GENB({ int n = r.range(1, 3); return std::tuple{g_mq(r, n, n)}; }), inv($0));
  OP("mq_det", 0, GENB({ int n = r.range(1, 3); return std::tuple{g_mq(r, n, n)}; }), $0.det());
  OP("mq_kernel", 0, GEN(g_mq(r, r.range(1, 3), r.range(1, 4))), ker($0, intrat_t(0), intrat_t(1)));
  OP("mi_mul", 0, GENB({ int k = r.range(1, 5), m = r.range(1, 5), n = r.range(1, 5); tmatrix<int> a = g_mi(r, k, m), b = g_mi(r, m, n); return std::tuple{a, b}; }), $0 * $1);
  OP("mb_inverse", 0, GENB({ int n = r.range(1, 6); return std::tuple{g_mb(r, n, n)}; }), inv($0));
}
void reg_lin2() {
  OP("mb_kernel", 0, GEN(g_mb(r, r.range(1, 6), r.range(1, 6))), ker($0, bit_t(0), bit_t(1)));
  OP("mt_inverse", 0, GENB({ int n = r.range(1, 4); return std::tuple{g_mt(r, n, n, g_f2irr(r, 5))}; }), inv($0));
  OP("mt_mul", 0, GENB({ int n = r.range(1, 4); f2_poly_t m = g_f2irr(r, 5); tmatrix<f2_polymod_t> a = g_mt(r, n, n, m), b = g_mt(r, n, n, m); return std::tuple{a, b}; }), $0 * $1);
  OP("mt_det", 0, GENB({ int n = r.range(1, 4); return std::tuple{g_mt(r, n, n, g_f2irr(r, 5))}; }), $0.det());
  OPB("mt_kernel", 0, GENB({ f2_poly_t m = g_f2irr(r, 4); return std::tuple{g_mt(r, r.range(1, 4), r.range(1, 4), m), f2_polymod_t(f2_poly_t(0), m), f2_polymod_t(f2_poly_t(1), m)}; }), { return ker($0, $1, $2); });
  // characteristic and minimal polynomials, companions, conversions
  OPB("f2_char_poly", F_SLOW, GENB({ int n = r.range(1, 5); return std::tuple{g_mb(r, n, n)}; }), { tmatrix<bit_t> M = $0; return spffl::linalg::f2_char_poly(M); });
  OPB("fp_char_poly", F_SLOW | F_GLOBAL, GENB({ int n = r.range(1, 3); return std::tuple{g_mm(r, n, n, pr(r))}; }), { tmatrix<intmod_t> M = $0; return spffl::linalg::fp_char_poly(M); });
  OPB("f2pm_char_poly_matrix", F_SLOW, GENB({ int n = r.range(1, 3); return std::tuple{g_mt(r, n, n, g_f2irr(r, 3))}; }), { tmatrix<f2_polymod_t> M = $0; return spffl::linalg::f2_polymod_characteristic_polynomial(M); });
  OP("f2_companion", 0, GENB({ f2_poly_t f = g_f2nz(r, 7); f.set_bit(2); return std::tuple{f}; }), spffl::linalg::f2_companion_matrix($0));
  OP("fp_companion", 0, GENB({ int p = g_small_prime(r); fp_poly_t f = g_fpnz(r, p, 2); f.promote(); return std::tuple{f}; }), spffl::linalg::fp_companion_matrix($0));
  OPB("f2pm_min_poly", F_SLOW, GENB({ f2_poly_t m = g_f2irr(r, 5); return std::tuple{g_f2pm(r, m)}; }), { return std::tuple{spffl::linalg::f2_polymod_frobenius_length($0), spffl::linalg::f2_polymod_minimal_polynomial($0), spffl::linalg::f2_polymod_characteristic_polynomial($0)}; });
  OPB("fppm_min_poly", F_SLOW | F_GLOBAL, GENB({ int p = g_small_prime(r); fp_poly_t m = g_fpirr(r, p); return std::tuple{g_fppm(r, m)}; }), { return std::tuple{spffl::linalg::fp_polymod_frobenius_length($0), spffl::linalg::fp_polymod_minimal_polynomial($0), spffl::linalg::fp_polymod_characteristic_polynomial($0)}; });
  OPB("f2pm_convert", F_SLOW, GENB({ f2_poly_t m = f2_poly_t::from_base_rep(0xb), n = f2_poly_t::from_base_rep(0xd); return std::tuple{f2_polymod_t(f2_poly_t::from_base_rep(2), m), n, g_f2pmu(r, m)}; }), {
    f2_polymod_t g2; bool b = spffl::linalg::f2_polymod_convert_prep($0, $1, g2); return std::pair{b, b ? spffl::linalg::f2_polymod_convert_scalar($0, g2, $2) : $2}; });
  OP("base_rep_vectors", 0, GEN(r.range(0, 4000)), std::tuple{spffl::linalg::f2_vector_from_base_rep($0, 12), spffl::linalg::f2_matrix_from_base_rep($0, 3, 4), spffl::linalg::fp_vector_from_base_rep($0, 5, 8)});
  // factor lists and stacks
  MUT("facinfo_insert", 0, GENB({ tfacinfo<int> f; int n = r.range(0, 6); for (int i = 0; i < n; i++) f.insert_factor(r.range(2, 9), r.range(1, 3)); return std::tuple{f, r.range(2, 30), r.range(1, 4)}; }), { o.insert_factor($1, $2); o.insert_unit($1); return o.get_num_factors(); });
  MUT("facinfo_merge", 0, GENB({ tfacinfo<f2_poly_t> f, g; int n = r.range(0, 5); for (int i = 0; i < n; i++) { f.insert_factor(g_f2nz(r, 4), r.range(1, 3)); g.insert_factor(g_f2nz(r, 4), 1); } return std::tuple{f, g}; }), { o.merge($1); o.exp_all(2); return 0; });
  MUT("facinfo_assign", 0, GENB({ tfacinfo<f2_poly_t> f, g; int n = r.range(0, 5); for (int i = 0; i < n; i++) f.insert_factor(g_f2nz(r, 4), r.range(1, 3)); n = r.range(0, 9); for (int i = 0; i < n; i++) g.insert_factor(g_f2nz(r, 4), 1); return std::tuple{f, g}; }), { o = $1; return 0; });
  OPB("facinfo_divisors", 0, GENB({ tfacinfo<int> f; int n = r.range(1, 3); for (int i = 0; i < n; i++) f.insert_factor(2 * i + 3, r.range(1, 2)); return std::tuple{f}; }), { tvector<int> d; tfacinfo<int> f = $0; bool b = f.get_maximal_proper_divisors(d, 1); return std::tuple{f.get_all_divisors(1), b, b ? d : tvector<int>()}; });
  OPB("stack", 0, GEN(g_vi(r, r.range(1, 12)), r.range(0, 14)), { tstack<int> s; for (int i = 0; i < $0.get_num_elements(); i++) s.push($0[i]); tstack<int> t = s; std::vector<int> v; int x = 0; for (int i = 0; i < $1; i++) v.push_back(t.pop(x) ? x : -1000); t = s; while (t.pop(x)) v.push_back(x); return v; });
  OPB("stack_poly", 0, GENB({ std::vector<f2_poly_t> v; int n = r.range(1, 9); for (int i = 0; i < n; i++) v.push_back(g_f2(r, 90)); return std::tuple{v}; }), { tstack<f2_poly_t> s; for (auto &f : $0) s.push(f); tstack<f2_poly_t> t = s; std::vector<f2_poly_t> v; f2_poly_t f; while (t.pop(f)) v.push_back(f); return v; });
}
} // namespace sim::ops
