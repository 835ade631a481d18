#include "ops.h"
namespace sim::ops {
std::vector<Op> &all() { static std::vector<Op> v; return v; }
const Op *find(const std::string &name) {
  static std::map<std::string, const Op *> m;
  if (m.empty()) for (auto &o : all()) m[o.name] = &o;
  auto it = m.find(name); return it == m.end() ? nullptr : it->second;
}
std::unique_ptr<Case> make(const std::string &name, const Args &a, const Op **out) {
  const Op *o = find(name); if (!o) harness_error("no such operation: " + name);
  if (out) *out = o;
  Rng r = a.rng(); return o->make(*o, r);
}
// Numbers of which many agree modulo a power of two, or in size.
int g_alias(Rng &r, int small) {
  static const int off[] = {256, 1024, 1280, 5120, 65536, 66560, 66816}; static const int base[] = {1, 3, 7, 15, 30, 31};
  if (!r.chance(1, 2)) return r.range(1, small);
  int o = off[r.below(7)]; return base[r.below(6)] + o;
}
int g_prime(Rng &r) { static const int p[] = {2, 3, 5, 7, 11, 13, 17, 29, 101, 127, 251}; return p[r.below(11)]; }
int g_small_prime(Rng &r) { static const int p[] = {2, 3, 5, 7}; return p[r.below(4)]; }
intmod_t g_intmod(Rng &r, int m) { return intmod_t(r.range(0, m - 1), m); }
intmod_t g_unit(Rng &r, int p) { return intmod_t(r.range(1, p - 1), p); }
intrat_t g_rat(Rng &r) { return intrat_t(r.range(-9, 9), r.range(1, 6)); }
std::string g_hex(Rng &r, int n) { int k = r.range(1, n); std::string s; for (int i = 0; i < k; i++) s += "0123456789abcdef"[r.below(16)]; return s; }
f2_poly_t g_f2(Rng &r, int maxdeg) {
  f2_poly_t f(0); if (r.chance(1, 24)) return f;
  int d = r.chance(1, 2) ? r.range(0, maxdeg) : r.range(0, std::min(maxdeg, 12));
  for (int i = 0; i < d; i++) if (r.chance(1, 2)) f.set_bit(i);
  f.set_bit(d); return f;
}
f2_poly_t g_f2nz(Rng &r, int maxdeg) { for (;;) { f2_poly_t f = g_f2(r, maxdeg); if (f.find_degree() > 0 || f.bit_at(0)) return f; } }
// Irreducible polynomials over F_2, by degree: all of degree 2 to 7, some of 8 and 9.
static const std::vector<unsigned> irr2[] = {
  {0x7},
  {0xb, 0xd},
  {0x13, 0x19, 0x1f},
  {0x25, 0x29, 0x2f, 0x37, 0x3b, 0x3d},
  {0x43, 0x49, 0x57, 0x5b, 0x61, 0x67, 0x6d, 0x73, 0x75},
  {0x83, 0x89, 0x8f, 0x91, 0x9d, 0xa7, 0xab, 0xb9, 0xbf, 0xc1, 0xcb, 0xd3, 0xd5, 0xe5, 0xef, 0xf1, 0xf7, 0xfd},
  {0x11b, 0x11d, 0x12d, 0x14d, 0x165, 0x177, 0x18b, 0x1a3, 0x1bd, 0x1d7, 0x1f3},
  {0x203, 0x21b, 0x233, 0x25f, 0x26f, 0x287, 0x2a3, 0x2b7, 0x2d1, 0x2f9, 0x315, 0x331, 0x34f, 0x36b, 0x37f, 0x3a1, 0x3c7, 0x3d5, 0x3e9},
};
f2_poly_t g_f2irr(Rng &r, int maxdeg) { int d = std::min(9, maxdeg); return f2_poly_t::from_base_rep(r.pick(irr2[r.range(2, std::max(2, d)) - 2])); }
f2_polymod_t g_f2pm(Rng &r, const f2_poly_t &m) { int d = m.find_degree(); f2_poly_t f(0); for (int i = 0; i < d; i++) if (r.chance(1, 2)) f.set_bit(i); return f2_polymod_t(f, m); }
f2_polymod_t g_f2pmu(Rng &r, const f2_poly_t &m) { for (;;) { f2_polymod_t a = g_f2pm(r, m); if (!(a.get_residue() == f2_poly_t(0))) return a; } }
fp_poly_t g_fp(Rng &r, int p, int maxdeg) {
  fp_poly_t f(0, p); int d = r.range(0, maxdeg); if (r.chance(1, 24)) return f;
  for (int i = 0; i < d; i++) f.set_coeff(i, intmod_t(r.range(0, p - 1), p));
  f.set_coeff(d, intmod_t(r.range(1, p - 1), p)); return f;
}
fp_poly_t g_fpnz(Rng &r, int p, int maxdeg) { for (;;) { fp_poly_t f = g_fp(r, p, maxdeg); if (f != 0) return f; } }
static fp_poly_t cubic(int b, int c, int d, int p) { fp_poly_t f(b, c, d, p); f.set_coeff(3, intmod_t(1, p)); return f; }
fp_poly_t g_fpirr(Rng &r, int p) {
  switch (p) {
  case 2: switch (r.below(3)) { case 0: return fp_poly_t(1, 1, 1, 2); case 1: return cubic(0, 1, 1, 2); default: return cubic(1, 0, 1, 2); }
  case 3: switch (r.below(5)) { case 0: case 1: return fp_poly_t(1, 0, 1, 3); case 2: return fp_poly_t(1, 1, 2, 3); case 3: return fp_poly_t(1, 2, 2, 3); default: return cubic(0, 2, 1, 3); }
  case 5: switch (r.below(3)) { case 0: return fp_poly_t(1, 1, 1, 5); case 1: return fp_poly_t(1, 0, 2, 5); default: return fp_poly_t(1, 0, 3, 5); }
  default: switch (r.below(3)) { case 0: return fp_poly_t(1, 0, 1, 7); case 1: return fp_poly_t(1, 1, 3, 7); default: return fp_poly_t(1, 0, 2, 7); }
  }
}
fp_polymod_t g_fppm(Rng &r, const fp_poly_t &m) { int p = m.get_characteristic(), d = m.find_degree(); fp_poly_t f(0, p); for (int i = 0; i < d; i++) f.set_coeff(i, intmod_t(r.range(0, p - 1), p)); return fp_polymod_t(f, m); }
f2n_poly_t g_f2n(Rng &r, const f2_poly_t &m, int maxdeg) {
  f2n_poly_t f(f2_polymod_t(f2_poly_t(0), m)); if (r.chance(1, 24)) return f;
  int d = r.range(0, maxdeg); for (int i = 0; i < d; i++) f.set_coeff(i, g_f2pm(r, m));
  f.set_coeff(d, g_f2pmu(r, m)); return f;
}
f2n_poly_t g_f2nnz(Rng &r, const f2_poly_t &m, int maxdeg) { for (;;) { f2n_poly_t f = g_f2n(r, m, maxdeg); if (f != 0) return f; } }
fpn_poly_t g_fpn(Rng &r, const fp_poly_t &m, int maxdeg) {
  fpn_poly_t f(fp_polymod_t(fp_poly_t(0, m.get_characteristic()), m)); if (r.chance(1, 24)) return f;
  int d = r.range(0, maxdeg); for (int i = 0; i <= d; i++) f.set_coeff(i, g_fppm(r, m));
  return f;
}
fpn_poly_t g_fpnnz(Rng &r, const fp_poly_t &m, int maxdeg) { for (;;) { fpn_poly_t f = g_fpn(r, m, maxdeg); if (f != 0) return f; } }
q_poly_t g_q(Rng &r, int maxdeg) { q_poly_t f(intrat_t(0)); int d = r.range(0, maxdeg); for (int i = 0; i <= d; i++) f.set_coeff(i, intrat_t(r.range(-4, 4), r.chance(1, 4) ? 2 : 1)); return f; }
q_poly_t g_qnz(Rng &r, int maxdeg) { for (;;) { q_poly_t f = g_q(r, maxdeg); if (f != 0) return f; } }
bit_vector_t g_bv(Rng &r, int n) { bit_vector_t v(0, n); for (int i = 0; i < n; i++) v.set(i, (int)r.below(2)); return v; }
bit_matrix_t g_bm(Rng &r, int m, int n) { bit_matrix_t A(0, m, n); for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) A[i].set(j, (int)r.below(2)); return A; }
tvector<bit_t> g_vb(Rng &r, int n) { tvector<bit_t> v(bit_t(0), n); for (int i = 0; i < n; i++) v[i] = bit_t(r.below(2)); return v; }
tmatrix<bit_t> g_mb(Rng &r, int m, int n) { tmatrix<bit_t> A(bit_t(0), m, n); for (int i = 0; i < m; i++) A[i] = g_vb(r, n); return A; }
tvector<intmod_t> g_vm(Rng &r, int n, int p) { tvector<intmod_t> v(intmod_t(0, p), n); for (int i = 0; i < n; i++) v[i] = g_intmod(r, p); return v; }
tmatrix<intmod_t> g_mm(Rng &r, int m, int n, int p) { tmatrix<intmod_t> A(intmod_t(0, p), m, n); for (int i = 0; i < m; i++) A[i] = g_vm(r, n, p); return A; }
tvector<intrat_t> g_vq(Rng &r, int n) { tvector<intrat_t> v(intrat_t(0), n); for (int i = 0; i < n; i++) v[i] = intrat_t(r.range(-5, 5), r.chance(1, 4) ? 2 : 1); return v; }
tmatrix<intrat_t> g_mq(Rng &r, int m, int n) { tmatrix<intrat_t> A(intrat_t(0), m, n); for (int i = 0; i < m; i++) A[i] = g_vq(r, n); return A; }
tvector<int> g_vi(Rng &r, int n) { tvector<int> v(0, n); for (int i = 0; i < n; i++) v[i] = r.range(-20, 20); return v; }
tmatrix<int> g_mi(Rng &r, int m, int n) { tmatrix<int> A(0, m, n); for (int i = 0; i < m; i++) A[i] = g_vi(r, n); return A; }
tvector<f2_polymod_t> g_vt(Rng &r, int n, const f2_poly_t &m) { tvector<f2_polymod_t> v(f2_polymod_t(f2_poly_t(0), m), n); for (int i = 0; i < n; i++) v[i] = g_f2pm(r, m); return v; }
tmatrix<f2_polymod_t> g_mt(Rng &r, int k, int n, const f2_poly_t &m) { tmatrix<f2_polymod_t> A(f2_polymod_t(f2_poly_t(0), m), k, n); for (int i = 0; i < k; i++) A[i] = g_vt(r, n, m); return A; }

void reg_int(); void reg_poly(); void reg_poly2(); void reg_ext(); void reg_alg(); void reg_lin(); void reg_lin2(); void reg_io(); void reg_misc(); void reg_mat(); void reg_mat2(); void reg_mat3(); void reg_mat4(); void reg_more(); void reg_bad(); void reg_badm(); void reg_badm2(); void reg_badm3(); void reg_badm4();
void init_all() {
  static bool done = false; if (done) return; done = true;
  reg_int(); reg_poly(); reg_poly2(); reg_ext(); reg_alg(); reg_lin(); reg_lin2(); reg_io(); reg_misc(); reg_mat(); reg_mat2(); reg_mat3(); reg_mat4(); reg_more(); reg_bad(); reg_badm(); reg_badm2(); reg_badm3(); reg_badm4();
}
} // namespace sim::ops
