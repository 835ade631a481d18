// H02: model fields and polynomials, and how they are read off the real objects.
#ifndef SIM_VAL_FIELDS_H
#define SIM_VAL_FIELDS_H
#include "val_world.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/fp_poly_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"
#include "spffl/polynomials/q_poly_t.h"
#include <numeric>
namespace sim::val {
using namespace spffl::polynomials;
using spffl::intmath::intmod_t; using spffl::intmath::intrat_t;

// ---------------------------------------------------------------- fields
struct FieldP { typedef int E; int p; int zero() const { return 0; } int one() const { return 1; } int add(int a, int b) const { return (a + b) % p; } int neg(int a) const { return (p - a) % p; } int mul(int a, int b) const { return (int)((long long)a * b % p); }
  int inv(int a) const { int r = 1, e = p - 2; while (e) { if (e & 1) r = mul(r, a); a = mul(a, a); e >>= 1; } return r; } bool big(int) const { return false; } std::string s(int a) const { return sprintf_s("%d", a); } int rnd(Rng &r) const { return r.chance(1, 4) ? 0 : (int)r.below(p); } int from_int(int v) const { return ((v % p) + p) % p; } int ch() const { return p; } };
// Extension of a prime field by a monic polynomial; elements are digit strings in base p.
struct FieldX { typedef int E; int p; std::vector<int> mod; int q = 1; // mod little-endian, monic
  FieldX(int p_, std::vector<int> m) : p(p_), mod(m) { for (size_t i = 1; i < m.size(); i++) q *= p; }
  std::vector<int> un(int a) const { std::vector<int> v; for (size_t i = 1; i < mod.size(); i++) { v.push_back(a % p); a /= p; } return v; }
  int pack(const std::vector<int> &v) const { int a = 0; for (int i = (int)mod.size() - 2; i >= 0; i--) a = a * p + (i < (int)v.size() ? v[i] : 0); return a; }
  int zero() const { return 0; } int one() const { return 1; }
  int add(int a, int b) const { auto x = un(a), y = un(b); for (size_t i = 0; i < x.size(); i++) x[i] = (x[i] + y[i]) % p; return pack(x); }
  int neg(int a) const { auto x = un(a); for (auto &c : x) c = (p - c) % p; return pack(x); }
  int mul(int a, int b) const { auto x = un(a), y = un(b); int n = (int)mod.size() - 1; std::vector<int> z(2 * n, 0); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) z[i + j] = (z[i + j] + x[i] * y[j]) % p; for (int i = 2 * n - 1; i >= n; i--) if (z[i]) { int c = z[i]; for (int j = 0; j <= n; j++) z[i - n + j] = ((z[i - n + j] - c * mod[j]) % p + p) % p; } z.resize(n); return pack(z); }
  int inv(int a) const { for (int b = 1; b < q; b++) if (mul(a, b) == 1) return b; return 0; }
  bool big(int) const { return false; } std::string s(int a) const { std::string t; auto v = un(a); for (size_t i = v.size(); i-- > 0;) t += sprintf_s("%d", v[i]); return t; } int rnd(Rng &r) const { return r.chance(1, 4) ? 0 : (int)r.below(q); } int from_int(int v) const { return ((v % p) + p) % p; } int ch() const { return p; } };
struct Rat { long long n = 0, d = 1; bool operator==(const Rat &o) const { return n == o.n && d == o.d; } bool operator!=(const Rat &o) const { return !(*this == o); } };
inline bool q_over = false; // numbers too large for the library's machine integers
struct FieldQ { typedef Rat E; static Rat mk(__int128 n, __int128 d) { if (d < 0) n = -n, d = -d; __int128 a = n < 0 ? -n : n, b = d; while (b) { auto t = a % b; a = b; b = t; } if (a > 1) n /= a, d /= a; if (n > 100 || n < -100 || d > 100) q_over = true; Rat r; if (n > (1ll << 60) || n < -(1ll << 60) || d > (1ll << 60)) { r.n = 1ll << 60; r.d = 1; return r; } r.n = (long long)n; r.d = (long long)d; return r; }
  Rat zero() const { return {}; } Rat one() const { return {1, 1}; } Rat add(Rat a, Rat b) const { return mk((__int128)a.n * b.d + (__int128)b.n * a.d, (__int128)a.d * b.d); } Rat neg(Rat a) const { return {-a.n, a.d}; } Rat mul(Rat a, Rat b) const { return mk((__int128)a.n * b.n, (__int128)a.d * b.d); } Rat inv(Rat a) const { return mk(a.d, a.n); }
  bool big(Rat a) const { return a.n > 60 || a.n < -60 || a.d > 60; } std::string s(Rat a) const { return a.d == 1 ? sprintf_s("%lld", a.n) : sprintf_s("%lld/%lld", a.n, a.d); } Rat rnd(Rng &r) const { return r.chance(1, 4) ? Rat{} : mk(r.range(-4, 4), r.chance(2, 3) ? 1 : r.range(1, 4)); } Rat from_int(int v) const { return {v, 1}; } int ch() const { return 0; } };

// ---------------------------------------------------------------- model polynomials: coefficients from the constant up, no leading zeros, zero = {0}
template <class F> struct PM { typedef std::vector<typename F::E> V; F f;
  void trim(V &a) const { while (a.size() > 1 && a.back() == f.zero()) a.pop_back(); if (a.empty()) a.push_back(f.zero()); }
  bool isz(const V &a) const { return a.size() == 1 && a[0] == f.zero(); }
  V add(const V &a, const V &b) const { V r(std::max(a.size(), b.size()), f.zero()); for (size_t i = 0; i < r.size(); i++) r[i] = f.add(i < a.size() ? a[i] : f.zero(), i < b.size() ? b[i] : f.zero()); trim(r); return r; }
  V neg(V a) const { for (auto &c : a) c = f.neg(c); return a; }
  V sub(const V &a, const V &b) const { return add(a, neg(b)); }
  V mul(const V &a, const V &b) const { V r(a.size() + b.size(), f.zero()); for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) r[i + j] = f.add(r[i + j], f.mul(a[i], b[j])); trim(r); return r; }
  V smul(const V &a, typename F::E s) const { V r = a; for (auto &c : r) c = f.mul(c, s); trim(r); return r; }
  void divmod(const V &a, const V &b, V &q, V &r) const { r = a; q.assign(1, f.zero()); if (a.size() < b.size()) return; q.assign(a.size() - b.size() + 1, f.zero()); auto il = f.inv(b.back()); for (int i = (int)a.size() - (int)b.size(); i >= 0; i--) { auto c = f.mul(r[i + b.size() - 1], il); q[i] = c; if (c == f.zero()) continue; for (size_t j = 0; j < b.size(); j++) r[i + j] = f.add(r[i + j], f.neg(f.mul(c, b[j]))); } r.resize(std::min(r.size(), b.size() > 1 ? b.size() - 1 : 1)); if (b.size() == 1) r.assign(1, f.zero()); trim(r); trim(q); }
  V div(const V &a, const V &b) const { V q, r; divmod(a, b, q, r); return q; }
  V mod(const V &a, const V &b) const { V q, r; divmod(a, b, q, r); return r; }
  V monic(const V &a) const { return isz(a) ? a : smul(a, f.inv(a.back())); }
  V gcd(V a, V b) const { while (!isz(b)) { V t = mod(a, b); a = b; b = t; } return monic(a); }
  bool inverse(const V &a, const V &m, V &inv) const { V r0 = m, r1 = mod(a, m), t0{f.zero()}, t1{f.one()}; while (!isz(r1)) { V q, r; divmod(r0, r1, q, r); V t = sub(t0, mul(q, t1)); r0 = r1; r1 = r; t0 = t1; t1 = t; } if (r0.size() != 1) return false; inv = mod(smul(t0, f.inv(r0[0])), m); return true; }
  V pw(const V &a, int e) const { V r{f.one()}; for (int i = 0; i < e; i++) r = mul(r, a); return r; }
  V deriv(const V &a) const { V r; for (size_t i = 1; i < a.size(); i++) r.push_back(f.mul(f.from_int((int)i), a[i])); trim(r); return r; }
  typename F::E eval(const V &a, typename F::E x) const { auto r = f.zero(); for (size_t i = a.size(); i-- > 0;) r = f.add(f.mul(r, x), a[i]); return r; }
  std::string text(const V &a) const { std::string s = "["; for (size_t i = a.size(); i-- > 0;) s += f.s(a[i]) + (i ? "," : ""); return s + "]"; }
  V rnd(Rng &r, int maxdeg) const { V a; int d = r.chance(1, 6) ? 0 : r.range(0, maxdeg); for (int i = 0; i <= d; i++) a.push_back(f.rnd(r)); trim(a); return a; }
};

// ---------------------------------------------------------------- real sides
struct RF2 { typedef f2_poly_t T; typedef FieldP F; typedef spffl::bits::bit_t C; F f{2}; RF2(uint64_t) {} int maxdeg = 140;
  C coef(int v) const { return C(v); } T zero() const { return T(0); } int get(const T &x, int i) const { return x.bit_at(i); } void set(T &x, int i, int v) const { x.set_coeff(i, C(v)); } bool gives(const C &c, int v) const { return c == v; } };
struct RFp { typedef fp_poly_t T; typedef FieldP F; typedef intmod_t C; F f; RFp(uint64_t s) : f{(const int[]){2, 3, 5, 7, 11, 101}[s % 6]} {} int maxdeg = 12;
  C coef(int v) const { return C(v, f.p); } T zero() const { return T(0, f.p); } int get(const T &x, int i) const { C c = x.get_coeff(i); return c.get_modulus() == f.p ? c.get_residue() : -1; } void set(T &x, int i, int v) const { x.set_coeff(i, coef(v)); } bool gives(const C &c, int v) const { return c.get_residue() == v && c.get_modulus() == f.p; } };
inline std::vector<int> xmod(uint64_t s, int p) { static const std::vector<std::vector<int>> M2 = {{1, 1, 1}, {1, 1, 0, 1}, {1, 1, 0, 0, 1}}, M3 = {{1, 0, 1}, {2, 1, 1}}, M5 = {{2, 0, 1}}; return p == 2 ? M2[s % 3] : p == 3 ? M3[s % 2] : M5[0]; }
inline f2_poly_t mkf2(const std::vector<int> &v) { f2_poly_t a(0); for (size_t i = 0; i < v.size(); i++) if (v[i]) a.set_bit((int)i); return a; }
inline fp_poly_t mkfp(const std::vector<int> &v, int p) { fp_poly_t a(0, p); for (size_t i = v.size(); i-- > 0;) a.set_coeff((int)i, intmod_t(v[i], p)); return a; }
struct RF2n { typedef f2n_poly_t T; typedef FieldX F; typedef f2_polymod_t C; F f; f2_poly_t m; RF2n(uint64_t s) : f(2, xmod(s, 2)), m(mkf2(f.mod)) {} int maxdeg = 8;
  C coef(int v) const { return C(mkf2(f.un(v)), m); } T zero() const { return T(coef(0)); } int un(const C &c) const { f2_poly_t r = c.get_residue(); if (c.get_modulus() != m || r.find_degree() >= m.find_degree()) return -1; std::vector<int> v; for (int i = 0; i <= r.find_degree(); i++) v.push_back(r.bit_at(i)); return f.pack(v); } int get(const T &x, int i) const { return un(x.get_coeff(i)); } void set(T &x, int i, int v) const { x.set_coeff(i, coef(v)); } bool gives(const C &c, int v) const { return un(c) == v; } };
struct RFpn { typedef fpn_poly_t T; typedef FieldX F; typedef fp_polymod_t C; F f; fp_poly_t m; RFpn(uint64_t s) : f(s % 3 ? 3 : 5, xmod(s, s % 3 ? 3 : 5)), m(mkfp(f.mod, f.p)) {} int maxdeg = 6;
  C coef(int v) const { return C(mkfp(f.un(v), f.p), m); } T zero() const { return T(coef(0)); } int un(const C &c) const { fp_poly_t r = c.get_residue(); if (c.get_modulus() != m || r.find_degree() >= m.find_degree()) return -1; std::vector<int> v; for (int i = 0; i <= r.find_degree(); i++) v.push_back(r.get_coeff(i).get_residue()); return f.pack(v); } int get(const T &x, int i) const { return un(x.get_coeff(i)); } void set(T &x, int i, int v) const { x.set_coeff(i, coef(v)); } bool gives(const C &c, int v) const { return un(c) == v; } };
struct RQ { typedef q_poly_t T; typedef FieldQ F; typedef intrat_t C; F f; RQ(uint64_t) {} int maxdeg = 4;
  C coef(Rat v) const { return C((int)v.n, (int)v.d); } T zero() const { return T(coef({})); } static Rat un(const C &c) { std::istringstream is(show(c)); Rat r; char ch; is >> r.n; if (is >> ch) is >> r.d; return r; } Rat get(const T &x, int i) const { return un(x.get_coeff(i)); } void set(T &x, int i, Rat v) const { x.set_coeff(i, coef(v)); } bool gives(const C &c, Rat v) const { return un(c) == v; } };
} // namespace sim::val
#endif
