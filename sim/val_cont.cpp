// H02: bits, bit vectors and matrices, vectors, matrices, stacks, factor lists.
#include "val_world.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/bits/bit_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tstack.h"
#include "spffl/containers/tvector.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include <algorithm>
#include <map>
namespace sim::val {
using spffl::bits::bit_t; using spffl::bits::bit_vector_t; using spffl::bits::bit_matrix_t;
using spffl::intmath::intmod_t; using spffl::polynomials::f2_poly_t;

// ---------------------------------------------------------------- element types; the model of an element is a number
struct EInt { typedef int T; typedef long long M; static const bool field = false, ring1 = false;
  static T real(M v) { return (int)v; } static bool is(const T &x, M v) { return x == v; } static M add(M a, M b) { return a + b; } static M neg(M a) { return -a; } static M mul(M a, M b) { return a * b; }
  static M rnd(Rng &r) { return r.chance(1, 4) ? 0 : r.range(-9, 9); } static bool big(M a) { return a > 3000 || a < -3000; } static M one() { return 1; } static M inv(M) { return 0; } };
struct EMod { typedef intmod_t T; typedef long long M; static const bool field = true, ring1 = true;
  static T real(M v) { return T((int)v, 7); } static bool is(const T &x, M v) { return x.get_residue() == v && x.get_modulus() == 7; } static M add(M a, M b) { return (a + b) % 7; } static M neg(M a) { return (7 - a) % 7; } static M mul(M a, M b) { return a * b % 7; }
  static M rnd(Rng &r) { return r.chance(1, 4) ? 0 : r.range(0, 6); } static bool big(M) { return false; } static M one() { return 1; } static M inv(M a) { for (int i = 1; i < 7; i++) if (a * i % 7 == 1) return i; return 0; } };
struct EPol { typedef f2_poly_t T; typedef long long M; static const bool field = false, ring1 = true;
  static T real(M v) { T t(0); for (int i = 0; i < 60; i++) if (v >> i & 1) t.set_bit(i); return t; } static bool is(const T &x, M v) { for (int i = 0; i < 70; i++) if (x.bit_at(i) != (i < 60 ? (v >> i & 1) : 0)) return false; return true; }
  static M add(M a, M b) { return a ^ b; } static M neg(M a) { return a; } static M mul(M a, M b) { M r = 0; for (int i = 0; i < 60; i++) if (b >> i & 1) r ^= a << i; return r; }
  static M rnd(Rng &r) { return r.chance(1, 4) ? 0 : r.range(0, 31); } static bool big(M a) { return a >= 1 << 13; } static M one() { return 1; } static M inv(M) { return 0; } };

// ---------------------------------------------------------------- tvector
template <class E> struct VecWorld : World<tvector<typename E::T>, std::vector<long long>> {
  typedef typename E::T X; typedef long long N; typedef std::vector<N> V; typedef tvector<X> T; typedef World<T, V> W;
  static std::string txt(const V &v) { std::string s = "("; for (size_t i = 0; i < v.size(); i++) s += sprintf_s(i ? " %lld" : "%lld", v[i]); return s + ")"; }
  static T *mk(const V &v) { if (v.empty()) return new T(); T *t = new T((int)v.size()); for (size_t i = 0; i < v.size(); i++) (*t)[(int)i] = E::real(v[i]); return t; }
  static V rndv(Rng &r, int n) { V v(n); for (auto &e : v) e = E::rnd(r); return v; }
  VecWorld(const char *name, uint64_t seed) {
    this->kind = name;
    this->fresh = [](Rng &r) { return rndv(r, r.chance(1, 12) ? 0 : r.chance(1, 2) ? 4 : r.range(1, 14)); };
    this->make = mk;
    this->check = [](T &x, const V &v) -> std::string {
      if (x.get_num_elements() != (int)v.size()) return sprintf_s("has %d elements, the model has %zu", x.get_num_elements(), v.size());
      for (size_t i = 0; i < v.size(); i++) if (!E::is(x[(int)i], v[i])) return sprintf_s("has element %zu = ", i) + show(x[(int)i]) + sprintf_s(", the model has %lld", v[i]); return ""; };
    this->compare = [](T &x, T &y, const V &a, const V &b) -> std::string { bool e = a == b; if ((x == y) != e) return e ? "equal, but == says no" : "different, but == says yes"; if ((x != y) == e) return "!= disagrees"; return ""; };
    this->text = txt;
    this->toobig = [](const V &v) { for (auto e : v) if (E::big(e)) return true; return false; };
    this->common();
    auto full = [=](const char *n, std::function<void(W &, Rng &, int, int, int)> f) { this->add(n, [=](W &w, Rng &r, int a, int b, int c) { if (w.m[a].empty() || w.m[b].empty() || w.m[c].empty()) return; f(w, r, a, b, c); }); };
    full("filled", [](W &w, Rng &r, int a, int, int) { int n = r.range(1, 9); N e = E::rnd(r); X x = E::real(e); w.build(a, V(n, e), [&] { return new T(x, n); }); });
    full("bad_size", [](W &w, Rng &r, int, int, int) { int n = -r.range(0, 3); X x = E::real(0); bool k = r.chance(1, 2); w.refuse([&] { if (k) T t(n); else T t(x, n); }); });
    full("fill", [](W &w, Rng &r, int a, int b, int) { int j = (int)r.below(w.m[b].size()); V v(w.m[a].size(), w.m[b][j]); w.mutate(a, v, [&](T &x) { x = (*w.o[b])[j]; }); });
    full("set", [](W &w, Rng &r, int a, int, int) { V v = w.m[a]; int i = (int)r.below(v.size()); v[i] = E::rnd(r); X e = E::real(v[i]); w.mutate(a, v, [&](T &x) { x[i] = e; }); });
    full("set_from", [](W &w, Rng &r, int a, int b, int) { V v = w.m[a]; int i = (int)r.below(v.size()), j = (int)r.below(w.m[b].size()); v[i] = w.m[b][j]; w.mutate(a, v, [&](T &x) { x[i] = (*w.o[b])[j]; }); });
    full("outside", [](W &w, Rng &r, int a, int, int) { int i = r.chance(1, 2) ? -r.range(1, 3) : (int)w.m[a].size() + r.range(0, 3); w.refuse([&] { X e = (*w.o[a])[i]; (void)e; }); });
    auto bin = [=](const char *n, const char *nas, N (*f)(N, N), std::function<T(T &, T &)> op, std::function<void(T &, T &)> as) {
      full(n, [=](W &w, Rng &, int a, int b, int c) { if (w.m[b].size() != w.m[c].size()) { w.refuse([&] { *w.o[a] = op(*w.o[b], *w.o[c]); }); return; } V v = w.m[b]; for (size_t i = 0; i < v.size(); i++) v[i] = f(v[i], w.m[c][i]); w.mutate(a, v, [&](T &x) { x = op(*w.o[b], *w.o[c]); }); });
      full(nas, [=](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { as(*w.o[a], *w.o[b]); }); return; } V v = w.m[a]; for (size_t i = 0; i < v.size(); i++) v[i] = f(v[i], w.m[b][i]); w.mutate(a, v, [&](T &x) { as(x, *w.o[b]); }); });
    };
    bin("add", "add_to", E::add, [](T &a, T &b) { return a + b; }, [](T &a, T &b) { a += b; });
    bin("sub", "sub_from", [](N a, N b) { return E::add(a, E::neg(b)); }, [](T &a, T &b) { return a - b; }, [](T &a, T &b) { a -= b; });
    bin("mul", "mul_by", E::mul, [](T &a, T &b) { return a * b; }, [](T &a, T &b) { a *= b; });
    full("neg", [](W &w, Rng &, int a, int b, int) { V v = w.m[b]; for (auto &e : v) e = E::neg(e); w.mutate(a, v, [&](T &x) { x = -*w.o[b]; }); });
    full("times", [](W &w, Rng &r, int a, int b, int c) { int j = (int)r.below(w.m[c].size()); N s = w.m[c][j]; V v = w.m[b]; for (auto &e : v) e = E::mul(e, s); w.mutate(a, v, [&](T &x) { x = *w.o[b] * (*w.o[c])[j]; }); });
    full("scale", [](W &w, Rng &r, int a, int b, int) { // the scalar may be one of the vector's own elements
      int j = (int)r.below(w.m[b].size()); N s = w.m[b][j]; V v = w.m[a]; for (auto &e : v) e = E::mul(e, s); bool k = r.chance(1, 2); w.mutate(a, v, [&](T &x) { if (k) x *= (*w.o[b])[j]; else x.mult_by((*w.o[b])[j]); }); });
    full("accum", [](W &w, Rng &r, int a, int b, int c) { N p = w.m[c][r.below(w.m[c].size())]; int j = (int)r.below(w.m[b].size()); N q = w.m[b][j]; X rp = E::real(p);
      if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { w.o[a]->accum_row_mul(rp, (*w.o[b])[j], *w.o[b]); }); return; }
      V v = w.m[a]; for (size_t i = 0; i < v.size(); i++) v[i] = E::add(E::mul(v[i], p), E::neg(E::mul(w.m[b][i], q))); w.mutate(a, v, [&](T &x) { x.accum_row_mul(rp, (*w.o[b])[j], *w.o[b]); }); });
    full("dot", [](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { (void)w.o[a]->dot(*w.o[b]); }); return; } N s = 0; for (size_t i = 0; i < w.m[a].size(); i++) s = E::add(s, E::mul(w.m[a][i], w.m[b][i])); w.ask("right", [&] { return E::is(w.o[a]->dot(*w.o[b]), s) ? "right" : "wrong"; }); });
    full("is_constant", [](W &w, Rng &r, int a, int b, int) { N s = w.m[b][r.below(w.m[b].size())]; X x = E::real(s); bool e = true; for (auto q : w.m[a]) e = e && q == s; w.ask(e ? "10" : "01", [&] { return std::string(*w.o[a] == x ? "1" : "0") + (*w.o[a] != x ? "1" : "0"); }); });
    full("leader", [](W &w, Rng &, int a, int, int) { int p = -1; for (size_t i = 0; i < w.m[a].size(); i++) if (w.m[a][i]) { p = (int)i; break; } X z = E::real(0); w.ask(sprintf_s("%d", p), [&] { int q = -5; bool f = w.o[a]->find_leader_pos(z, q); return sprintf_s("%d", f ? q : -1); }); });
    full("sort", [](W &w, Rng &, int a, int, int) { V v = w.m[a]; std::sort(v.begin(), v.end()); w.mutate(a, v, [&](T &x) { x.sort(); }); });
    full("ptrswap", [](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { w.o[a]->ptrswap(*w.o[b]); }); return; } V p = w.m[a], q = w.m[b]; w.mutate2(a, b, q, p, [](T &x, T &y) { x.ptrswap(y); }); });
    full("trim", [](W &w, Rng &r, int a, int, int) { int n = r.range(-1, (int)w.m[a].size() + 2); if (n < 1 || n > (int)w.m[a].size()) { w.refuse([&] { w.o[a]->trim_num_elements(n); }); return; } V v(w.m[a].begin(), w.m[a].begin() + n); w.mutate(a, v, [&](T &x) { x.trim_num_elements(n); }); });
    full("print", [](W &w, Rng &, int a, int, int) { w.oom = 0; std::string s, z; for (size_t i = 0; i < w.m[a].size(); i++) { std::string e = show(E::real(w.m[a][i])); s += (i ? " " : "") + e; z += e; } w.ask(s + "|" + z, [&] { std::ostringstream o; o << *w.o[a] << "|"; w.o[a]->sqzout(o); return o.str(); }); });
    full("reread", [](W &w, Rng &, int a, int b, int) { w.oom = 0; V v = w.m[b]; w.mutate(a, v, [&](T &x) { std::istringstream i(show(*w.o[b])); i >> x; if (i.fail()) throw std::runtime_error("not read back"); }); });
    full("times_matrix", [](W &w, Rng &r, int a, int b, int) { int n = (int)w.m[b].size(), c = r.range(1, 5), nr = r.chance(1, 6) ? n + 1 : n; std::vector<V> q(nr); for (auto &row : q) row = rndv(r, c);
      auto op = [&](T &x) { tmatrix<X> A(nr, c); for (int i = 0; i < nr; i++) for (int j = 0; j < c; j++) A[i][j] = E::real(q[i][j]); x = *w.o[b] * A; };
      if (nr != n) { w.refuse([&] { op(*w.o[a]); }); return; } V v(c, 0); for (int i = 0; i < n; i++) for (int j = 0; j < c; j++) v[j] = E::add(v[j], E::mul(w.m[b][i], q[i][j])); w.mutate(a, v, op); });
    if constexpr (E::ring1) full("exp", [](W &w, Rng &r, int a, int b, int) { int p = r.range(1, 3); V v = w.m[b]; for (auto &e : v) { N s = e; for (int i = 1; i < p; i++) s = E::mul(s, e); e = s; } for (auto e : w.m[b]) if (e >= 32 && !E::field) return; w.mutate(a, v, [&](T &x) { x = w.o[b]->exp(p); }); });
    if constexpr (E::field) full("divide", [](W &w, Rng &r, int a, int b, int c) { bool zero = false; if (w.m[b].size() != w.m[c].size()) { w.refuse([&] { *w.o[a] = *w.o[b] / *w.o[c]; }); return; } for (auto e : w.m[c]) zero = zero || !e; if (zero) { w.refuse([&] { *w.o[a] = *w.o[b] / *w.o[c]; }); return; } V v = w.m[b]; for (size_t i = 0; i < v.size(); i++) v[i] = E::mul(v[i], E::inv(w.m[c][i])); (void)r; w.mutate(a, v, [&](T &x) { x = *w.o[b] / *w.o[c]; }); });
    if constexpr (E::field) full("scale_down", [](W &w, Rng &r, int a, int b, int) { int j = (int)r.below(w.m[b].size()); N s = w.m[b][j]; if (!s) return; V v = w.m[a]; for (auto &e : v) e = E::mul(e, E::inv(s)); w.mutate(a, v, [&](T &x) { x /= (*w.o[b])[j]; }); });
    this->init(seed);
  }
};
#define VECW(n, id, E) static WorldBase *mkv_##id(uint64_t s) { return new VecWorld<E>(n, s); } static KindReg regv_##id(n, mkv_##id)
VECW("vector-int", i, EInt); VECW("vector-mod7", m, EMod); VECW("vector-f2poly", p, EPol);

// ---------------------------------------------------------------- matrices: a model is a number of columns and rows of numbers
struct MM { int c = 0; std::vector<std::vector<long long>> v; int r() const { return (int)v.size(); } bool operator==(const MM &o) const { return c == o.c && v == o.v; } };
struct BitE { typedef bit_t T; typedef long long M; static M add(M a, M b) { return a ^ b; } static M neg(M a) { return a; } static M mul(M a, M b) { return a & b; } static M rnd(Rng &r) { return r.range(0, 1); } static bool big(M) { return false; } static M inv(M a) { return a; } static const bool field = true;
  static T real(M v) { return T((int)v); } };
template <class E> struct MatTraits { typedef tmatrix<typename E::T> T; typedef tvector<typename E::T> V; static void set(T &t, int i, int j, long long v) { t[i][j] = E::real(v); } static bool is(T &t, int i, int j, long long v) { return E::is(t[i][j], v); } static void vset(V &x, int i, long long v) { x[i] = E::real(v); } static bool vis(V &x, int i, long long v) { return E::is(x[i], v); } static int rowlen(T &t, int i) { return t[i].get_num_elements(); } static const bool bits = false; static const int maxd = 6; };
template <> struct MatTraits<BitE> { typedef bit_matrix_t T; typedef bit_vector_t V; static void set(T &t, int i, int j, long long v) { t[i].set(j, (int)v); } static bool is(T &t, int i, int j, long long v) { return t[i].get_int(j) == v; } static void vset(V &x, int i, long long v) { x.set(i, bit_t((int)v)); } static bool vis(V &x, int i, long long v) { return x.get(i) == bit_t((int)v); } static int rowlen(T &t, int i) { return t[i].get_num_elements(); } static const bool bits = true; static const int maxd = 70; };
template <class E> static MM mmul(const MM &a, const MM &b) { MM r; r.c = b.c; r.v.assign(a.r(), std::vector<long long>(b.c, 0)); for (int i = 0; i < a.r(); i++) for (int k = 0; k < a.c; k++) if (a.v[i][k]) for (int j = 0; j < b.c; j++) r.v[i][j] = E::add(r.v[i][j], E::mul(a.v[i][k], b.v[k][j])); return r; }
// Gauss-Jordan over a field; returns the rank.
template <class E> static int reduce(MM &m) { int t = 0; for (int j = 0; j < m.c && t < m.r(); j++) { int p = t; while (p < m.r() && !m.v[p][j]) p++; if (p == m.r()) continue; std::swap(m.v[p], m.v[t]); long long s = E::inv(m.v[t][j]); for (auto &e : m.v[t]) e = E::mul(e, s); for (int i = 0; i < m.r(); i++) if (i != t && m.v[i][j]) { long long f = m.v[i][j]; for (int k = 0; k < m.c; k++) m.v[i][k] = E::add(m.v[i][k], E::neg(E::mul(f, m.v[t][k]))); } t++; } return t; }
template <class E> static long long mdet(MM m) { long long d = 1; int n = m.r(); for (int j = 0; j < n; j++) { int p = j; while (p < n && !m.v[p][j]) p++; if (p == n) return 0; if (p != j) { std::swap(m.v[p], m.v[j]); d = E::neg(d); } d = E::mul(d, m.v[j][j]); long long s = E::inv(m.v[j][j]); for (int i = j + 1; i < n; i++) { long long f = E::mul(m.v[i][j], s); for (int k = j; k < n; k++) m.v[i][k] = E::add(m.v[i][k], E::neg(E::mul(f, m.v[j][k]))); } } return d; }
static MM mid(int n) { MM r; r.c = n; r.v.assign(n, std::vector<long long>(n, 0)); for (int i = 0; i < n; i++) r.v[i][i] = 1; return r; }

template <class E> struct MatWorld : World<typename MatTraits<E>::T, MM> {
  typedef MatTraits<E> X; typedef typename X::T T; typedef typename X::V RV; typedef World<T, MM> W; typedef long long N;
  static std::string txt(const MM &m) { std::string s = sprintf_s("%dx%d[", m.r(), m.c); for (auto &row : m.v) { for (size_t j = 0; j < row.size(); j++) s += sprintf_s(j && !X::bits ? " %lld" : "%lld", row[j]); s += ";"; } return s + "]"; }
  static MM rndm(Rng &r, int nr, int nc) { MM m; m.c = nc; m.v.assign(nr, std::vector<N>(nc)); bool sparse = r.chance(1, 4), id = r.chance(1, 6); for (int i = 0; i < nr; i++) for (int j = 0; j < nc; j++) m.v[i][j] = id ? i == j : sparse && r.chance(3, 4) ? 0 : E::rnd(r); if (nr > 1 && r.chance(1, 5)) m.v[r.below(nr)] = m.v[r.below(nr)]; return m; }
  static T *mk(const MM &m) { if (m.v.empty()) return new T(); T *t = new T(m.r(), m.c); try { for (int i = 0; i < m.r(); i++) for (int j = 0; j < m.c; j++) X::set(*t, i, j, m.v[i][j]); } catch (...) { delete t; throw; } return t; }
  static std::string differs(T &x, const MM &m) {
    if (x.get_num_rows() != m.r() || x.get_num_cols() != m.c) return sprintf_s("is %d x %d, the model is ", x.get_num_rows(), x.get_num_cols()) + txt(m);
    for (int i = 0; i < m.r(); i++) { if (X::rowlen(x, i) != m.c) return sprintf_s("has a row %d of %d elements, the model is ", i, X::rowlen(x, i)) + txt(m); for (int j = 0; j < m.c; j++) if (!X::is(x, i, j, m.v[i][j])) return sprintf_s("differs at (%d,%d); is\n", i, j) + show(x) + "the model is " + txt(m); }
    return ""; }
  static RV vec(const std::vector<N> &v) { RV x((int)v.size()); for (size_t i = 0; i < v.size(); i++) X::vset(x, (int)i, v[i]); return x; }
  static std::string vdiff(RV &x, const std::vector<N> &v) { if (x.get_num_elements() != (int)v.size()) return sprintf_s("%d elements", x.get_num_elements()); for (size_t i = 0; i < v.size(); i++) if (!X::vis(x, (int)i, v[i])) return show(x); return "right"; }
  MatWorld(const char *name, uint64_t seed) {
    this->kind = name;
    this->fresh = [](Rng &r) { if (r.chance(1, 14)) return MM(); int k = X::bits && r.chance(1, 4) ? X::maxd : 5; if (r.chance(1, 2)) return rndm(r, 3, 3); int n = r.range(1, k > 5 ? 8 : 5); return rndm(r, n, r.chance(1, 3) ? n : r.range(1, k)); };
    this->make = mk; this->check = differs; this->text = txt;
    this->compare = [](T &x, T &y, const MM &a, const MM &b) -> std::string {
      if (a.r() != b.r() || a.c != b.c) { int n = 0; try { (void)(x == y); } catch (const spffl::exception_t &) { n++; } try { (void)(x != y); } catch (const spffl::exception_t &) { n++; } return n == 2 ? "" : "comparison of different sizes not refused"; }
      bool e = a == b; if ((x == y) != e) return e ? "equal, but == says no" : "different, but == says yes"; if ((x != y) == e) return "!= disagrees"; return ""; };
    this->toobig = [](const MM &m) { if (m.r() > 9 || m.c > (X::bits ? 140 : 9)) return true; for (auto &row : m.v) for (auto e : row) if (E::big(e)) return true; return false; };
    this->common();
    auto full = [=](const char *n, std::function<void(W &, Rng &, int, int, int)> f) { this->add(n, [=](W &w, Rng &r, int a, int b, int c) { if (w.m[a].v.empty() || w.m[b].v.empty() || w.m[c].v.empty()) return; f(w, r, a, b, c); }); };
    full("filled", [](W &w, Rng &r, int a, int, int) { int n = r.range(1, 5), c = r.range(1, X::maxd); N e = E::rnd(r); auto x = E::real(e); MM m; m.c = c; m.v.assign(n, std::vector<N>(c, e)); w.build(a, m, [&] { return new T(x, n, c); }); });
    full("bad_size", [](W &w, Rng &r, int, int, int) { int n = r.range(-1, 1), c = n > 0 ? r.range(-1, 0) : r.range(-1, 2); w.refuse([&] { T t(n, c); }); });
    full("fill", [](W &w, Rng &r, int a, int b, int) { int i = (int)r.below(w.m[b].r()), j = (int)r.below(w.m[b].c); N e = w.m[b].v[i][j]; MM m = w.m[a]; for (auto &row : m.v) for (auto &q : row) q = e; w.mutate(a, m, [&](T &x) { if constexpr (X::bits) x = (*w.o[b])[i].get(j); else x = (*w.o[b])[i][j]; }); });
    full("set", [](W &w, Rng &r, int a, int, int) { MM m = w.m[a]; int i = (int)r.below(m.r()), j = (int)r.below(m.c); m.v[i][j] = E::rnd(r); w.mutate(a, m, [&](T &x) { X::set(x, i, j, m.v[i][j]); }); });
    full("row_from", [](W &w, Rng &r, int a, int b, int) { if (w.m[a].c != w.m[b].c) return; MM m = w.m[a]; int i = (int)r.below(m.r()), j = (int)r.below(w.m[b].r()); m.v[i] = w.m[b].v[j]; w.mutate(a, m, [&](T &x) { x[i] = (*w.o[b])[j]; }); });
    full("outside", [](W &w, Rng &r, int a, int, int) { bool row = r.chance(1, 2), neg = r.chance(1, 2); int i = row ? (neg ? -r.range(1, 3) : w.m[a].r() + r.range(0, 3)) : 0, j = row ? 0 : neg ? -r.range(1, 3) : w.m[a].c + r.range(0, 3); N e = E::rnd(r); w.refuse([&] { X::set(*w.o[a], i, j, e); }); });
    auto bin = [=](const char *n, const char *nas, N (*f)(N, N), std::function<T(T &, T &)> op, std::function<void(T &, T &)> as) {
      auto comb = [=](const MM &a, const MM &b) { MM m = a; for (int i = 0; i < m.r(); i++) for (int j = 0; j < m.c; j++) m.v[i][j] = f(m.v[i][j], b.v[i][j]); return m; };
      full(n, [=](W &w, Rng &, int a, int b, int c) { if (w.m[b].r() != w.m[c].r() || w.m[b].c != w.m[c].c) { w.refuse([&] { *w.o[a] = op(*w.o[b], *w.o[c]); }); return; } MM m = comb(w.m[b], w.m[c]); w.mutate(a, m, [&](T &x) { x = op(*w.o[b], *w.o[c]); }); });
      full(nas, [=](W &w, Rng &, int a, int b, int) { if (w.m[b].r() != w.m[a].r() || w.m[b].c != w.m[a].c) { w.refuse([&] { as(*w.o[a], *w.o[b]); }); return; } MM m = comb(w.m[a], w.m[b]); w.mutate(a, m, [&](T &x) { as(x, *w.o[b]); }); });
    };
    bin("add", "add_to", E::add, [](T &a, T &b) { return a + b; }, [](T &a, T &b) { a += b; });
    bin("sub", "sub_from", [](N a, N b) { return E::add(a, E::neg(b)); }, [](T &a, T &b) { return a - b; }, [](T &a, T &b) { a -= b; });
    full("neg", [](W &w, Rng &, int a, int b, int) { MM m = w.m[b]; for (auto &row : m.v) for (auto &q : row) q = E::neg(q); w.mutate(a, m, [&](T &x) { x = -*w.o[b]; }); });
    full("mul", [](W &w, Rng &r, int a, int b, int c) { bool as = r.chance(1, 2); int l = as ? a : b; auto op = [&](T &x) { if (as) x *= *w.o[c]; else x = *w.o[b] * *w.o[c]; }; if (w.m[l].c != w.m[c].r()) { w.refuse([&] { op(*w.o[a]); }); return; } MM m = mmul<E>(w.m[l], w.m[c]); w.mutate(a, m, op); });
    full("diagonal", [](W &w, Rng &r, int a, int b, int c) { int i = (int)r.below(w.m[c].r()), j = (int)r.below(w.m[c].c), k = r.range(0, 3), l = k < 2 ? b : a; N e = w.m[c].v[i][j]; auto x0 = E::real(e); auto op = [&](T &x) { if (k == 0) x = *w.o[b] + x0; else if (k == 1) x = *w.o[b] - x0; else if (k == 2) x += x0; else x -= x0; };
      if (w.m[l].r() != w.m[l].c) { w.refuse([&] { op(*w.o[a]); }); return; } MM m = w.m[l]; for (int q = 0; q < m.c; q++) m.v[q][q] = E::add(m.v[q][q], k & 1 ? E::neg(e) : e); w.mutate(a, m, op); });
    if constexpr (!X::bits) {
      full("times", [](W &w, Rng &r, int a, int b, int c) { bool as = r.chance(1, 2); int l = as ? a : b, i = (int)r.below(w.m[c].r()), j = (int)r.below(w.m[c].c); N e = w.m[c].v[i][j]; MM m = w.m[l]; for (auto &row : m.v) for (auto &q : row) q = E::mul(q, e); w.mutate(a, m, [&](T &x) { if (as) x *= (*w.o[c])[i][j]; else x = *w.o[b] * (*w.o[c])[i][j]; }); });
      full("flip", [](W &w, Rng &r, int a, int b, int) { int k = r.range(1, 3); MM m = w.m[b]; if (k & 1) for (auto &row : m.v) std::reverse(row.begin(), row.end()); if (k & 2) std::reverse(m.v.begin(), m.v.end()); w.mutate(a, m, [&](T &x) { x = k == 1 ? w.o[b]->flip_horiz() : k == 2 ? w.o[b]->flip_vert() : w.o[b]->flip_horiz_vert(); }); });
      full("get_column", [](W &w, Rng &r, int a, int, int) { int j = r.range(-1, w.m[a].c); if (j < 0 || j >= w.m[a].c) { w.refuse([&] { (void)w.o[a]->get_column(j); }); return; } std::vector<N> v; for (auto &row : w.m[a].v) v.push_back(row[j]); w.ask("right", [&] { RV x = w.o[a]->get_column(j); return vdiff(x, v); }); });
      full("put_column", [](W &w, Rng &r, int a, int b, int) { int j = r.chance(1, 6) ? (r.chance(1, 2) ? -1 : w.m[a].c) : (int)r.below(w.m[a].c), k = (int)r.below(w.m[b].c); std::vector<N> v; for (auto &row : w.m[b].v) v.push_back(row[k]); RV col = vec(v); if (j < 0 || j >= w.m[a].c || w.m[a].r() != w.m[b].r()) { w.refuse([&] { w.o[a]->put_column(j, col); }); return; } MM m = w.m[a]; for (int i = 0; i < m.r(); i++) m.v[i][j] = v[i]; w.mutate(a, m, [&](T &x) { x.put_column(j, col); }); });
      full("paste_vector", [](W &w, Rng &r, int a, int b, int) { int n = r.chance(1, 6) ? w.m[b].r() + 1 : w.m[b].r(); std::vector<N> v(n); for (auto &e : v) e = E::rnd(r); RV x0 = vec(v); if (n != w.m[b].r()) { w.refuse([&] { *w.o[a] = w.o[b]->paste_vector(x0); }); return; } MM m = w.m[b]; m.c++; for (int i = 0; i < n; i++) m.v[i].push_back(v[i]); w.mutate(a, m, [&](T &x) { x = w.o[b]->paste_vector(x0); }); });
      full("trim_rows", [](W &w, Rng &r, int a, int, int) { int n = r.range(-1, w.m[a].r() + 1); if (n < 1 || n > w.m[a].r()) { w.refuse([&] { w.o[a]->trim_num_rows(n); }); return; } MM m = w.m[a]; m.v.resize(n); w.mutate(a, m, [&](T &x) { x.trim_num_rows(n); }); });
      full("find_row", [](W &w, Rng &r, int a, int b, int) { int k = (int)r.below(w.m[b].r()), p = -1; for (int i = w.m[a].r() - 1; i >= 0; i--) if (w.m[a].v[i] == w.m[b].v[k]) p = i; w.ask(sprintf_s("%d", p), [&] { int q = -1; bool f = w.o[a]->find_row((*w.o[b])[k], q); return sprintf_s("%d", f ? q : -1); }); });
      full("reread", [](W &w, Rng &, int a, int b, int) { w.oom = 0; MM m = w.m[b]; w.mutate(a, m, [&](T &x) { std::istringstream i(show(*w.o[b])); (std::istream &)i >> x; if (i.fail()) throw std::runtime_error("not read back"); }); });
    }
    full("outer", [](W &w, Rng &, int a, int b, int c) { MM m; m.c = w.m[c].c; for (auto e : w.m[b].v[0]) { m.v.push_back(w.m[c].v[0]); for (auto &q : m.v.back()) q = E::mul(e, q); } w.mutate(a, m, [&](T &x) { x = T::outer((*w.o[b])[0], (*w.o[c])[0]); }); });
    full("times_vector", [](W &w, Rng &r, int a, int, int) { int n = r.chance(1, 6) ? w.m[a].c + 1 : w.m[a].c; std::vector<N> v(n); for (auto &e : v) e = E::rnd(r); RV x0 = vec(v); if (n != w.m[a].c) { w.refuse([&] { (void)(*w.o[a] * x0); }); return; } std::vector<N> y(w.m[a].r(), 0); for (int i = 0; i < w.m[a].r(); i++) for (int j = 0; j < n; j++) y[i] = E::add(y[i], E::mul(w.m[a].v[i][j], v[j])); w.ask("right", [&] { RV z = *w.o[a] * x0; return vdiff(z, y); }); });
    full("transpose", [](W &w, Rng &, int a, int b, int) { MM m; m.c = w.m[b].r(); m.v.assign(w.m[b].c, std::vector<N>(m.c)); for (int i = 0; i < m.r(); i++) for (int j = 0; j < m.c; j++) m.v[i][j] = w.m[b].v[j][i]; w.mutate(a, m, [&](T &x) { x = w.o[b]->transpose(); }); });
    full("swap_rows", [](W &w, Rng &r, int a, int, int) { int i = (int)r.below(w.m[a].r()), j = (int)r.below(w.m[a].r()); MM m = w.m[a]; std::swap(m.v[i], m.v[j]); w.mutate(a, m, [&](T &x) { x.swap(i, j); }); });
    full("paste", [](W &w, Rng &, int a, int b, int c) { if (w.m[b].r() != w.m[c].r()) { w.refuse([&] { *w.o[a] = w.o[b]->paste(*w.o[c]); }); return; } MM m = w.m[b]; m.c += w.m[c].c; for (int i = 0; i < m.r(); i++) m.v[i].insert(m.v[i].end(), w.m[c].v[i].begin(), w.m[c].v[i].end()); w.mutate(a, m, [&](T &x) { x = w.o[b]->paste(*w.o[c]); }); });
    full("split", [](W &w, Rng &r, int a, int, int) { int p = (a + 1) % SLOTS, q = (a + 2) % SLOTS, s = r.chance(1, 5) ? (r.chance(1, 2) ? -1 : w.m[a].c) : r.range(1, w.m[a].c); if (s < 1 || s >= w.m[a].c) { w.refuse([&] { w.o[a]->split(*w.o[p], *w.o[q], s); }); return; } MM x, y; x.c = s; y.c = w.m[a].c - s; for (auto &row : w.m[a].v) { x.v.emplace_back(row.begin(), row.begin() + s); y.v.emplace_back(row.begin() + s, row.end()); } w.mutate2(p, q, x, y, [&](T &u, T &v) { w.o[a]->split(u, v, s); }); });
    full("is_constant", [](W &w, Rng &r, int a, int, int) { N s = r.chance(1, 2) ? 0 : w.m[a].v[0][0]; auto x = E::real(s); bool e = true; for (auto &row : w.m[a].v) for (auto q : row) e = e && q == s; w.ask(e ? "10" : "01", [&] { return std::string(*w.o[a] == x ? "1" : "0") + (*w.o[a] != x ? "1" : "0"); }); });
    full("square", [](W &w, Rng &, int a, int, int) { w.ask(w.m[a].r() == w.m[a].c ? "yes" : "no", [&] { return w.o[a]->is_square() ? "yes" : "no"; }); });
    full("print", [](W &w, Rng &, int a, int, int) { w.oom = 0; std::string s; for (auto &row : w.m[a].v) { for (size_t j = 0; j < row.size(); j++) s += (j ? " " : "") + show(E::real(row[j])); s += "\n"; } w.ask(s, [&] { return show(*w.o[a]); }); });
    if constexpr (E::field) {
      full("identity", [](W &w, Rng &, int a, int b, int) { auto op = [&](T &x) { if constexpr (X::bits) x = w.o[b]->make_I(); else x = w.o[b]->make_I(E::real(0), E::real(1)); }; if (w.m[b].r() != w.m[b].c) { w.refuse([&] { op(*w.o[a]); }); return; } w.mutate(a, mid(w.m[b].c), op); });
      full("tests", [](W &w, Rng &, int a, int, int) { bool z = true; for (auto &row : w.m[a].v) for (auto q : row) z = z && !q; bool i = w.m[a].r() == w.m[a].c && w.m[a] == mid(w.m[a].c); w.ask(sprintf_s("%d%d", z, i), [&] { return sprintf_s("%d%d", w.o[a]->is_zero(), w.o[a]->is_I()); }); });
      full("rank", [](W &w, Rng &, int a, int, int) { MM m = w.m[a]; int k = reduce<E>(m); w.ask(sprintf_s("%d", k), [&] { return sprintf_s("%d", w.o[a]->get_rank()); }); });
      full("echelon", [](W &w, Rng &, int a, int, int) { MM m = w.m[a]; reduce<E>(m); w.mutate(a, m, [&](T &x) { x.row_echelon_form(); }); });
      full("det", [](W &w, Rng &, int a, int, int) { if (w.m[a].r() != w.m[a].c) { w.refuse([&] { (void)w.o[a]->det(); }); return; } N d = mdet<E>(w.m[a]); w.ask("right", [&] { return w.o[a]->det() == E::real(d) ? "right" : "wrong"; }); });
      full("inverse", [](W &w, Rng &, int a, int b, int) { int n = w.m[b].c; if (w.m[b].r() != n) { w.refuse([&] { w.o[b]->inverse(*w.o[a]); }); return; } MM p = w.m[b], I = mid(n); p.c = 2 * n; for (int i = 0; i < n; i++) p.v[i].insert(p.v[i].end(), I.v[i].begin(), I.v[i].end()); MM q = w.m[b]; if (reduce<E>(q) < n) { w.ask("no", [&] { T t; return w.o[b]->inverse(t) ? "yes" : "no"; }); return; } reduce<E>(p); MM m; m.c = n; for (auto &row : p.v) m.v.emplace_back(row.begin() + n, row.end()); w.mutate(a, m, [&](T &x) { if (!w.o[b]->inverse(x)) throw std::runtime_error("no inverse found"); }); });
      full("kernel", [](W &w, Rng &, int b, int, int) { MM m = w.m[b]; int k = w.m[b].c - reduce<E>(m); w.ask(sprintf_s("%d", k), [&] { T t; bool y; if constexpr (X::bits) y = w.o[b]->get_kernel_basis(t); else y = w.o[b]->get_kernel_basis(t, E::real(0), E::real(1)); if (!y) return std::string("0"); MM q; q.c = t.get_num_cols(); for (int i = 0; i < t.get_num_rows(); i++) { std::vector<N> v(q.c); for (int j = 0; j < q.c; j++) for (int e = 0; e < 7; e++) if (X::is(t, i, j, e)) v[j] = e; for (auto &row : w.m[b].v) { N s = 0; for (int j = 0; j < q.c; j++) s = E::add(s, E::mul(row[j], v[j])); if (s) return std::string("a vector not in the kernel"); } q.v.push_back(v); } int d = q.r(), e = reduce<E>(q); return e == d ? sprintf_s("%d", d) : std::string("dependent vectors"); }); });
      full("exp", [](W &w, Rng &r, int a, int b, int) { int e = r.range(1, 5); if (w.m[b].r() != w.m[b].c) { w.refuse([&] { w.o[b]->exp(e, *w.o[a]); }); return; } MM m = w.m[b]; for (int i = 1; i < e; i++) m = mmul<E>(m, w.m[b]); w.mutate(a, m, [&](T &x) { w.o[b]->exp(e, x); }); });
    }
    this->init(seed);
  }
};
#define MATW(n, id, E) static WorldBase *mkx_##id(uint64_t s) { return new MatWorld<E>(n, s); } static KindReg regx_##id(n, mkx_##id)
MATW("matrix-int", i, EInt); MATW("matrix-mod7", m, EMod); MATW("matrix-f2poly", p, EPol); MATW("matrix-bit", b, BitE);

// ---------------------------------------------------------------- bit vectors
struct BvWorld : World<bit_vector_t, std::vector<int>> {
  typedef std::vector<int> V; typedef bit_vector_t T; typedef World<T, V> W;
  static std::string txt(const V &v) { std::string s = sprintf_s("%zu:", v.size()); for (int b : v) s += (char)('0' + b); return s; }
  static T *mk(const V &v) { if (v.empty()) return new T(); T *t = new T((int)v.size()); for (size_t i = 0; i < v.size(); i++) t->set((int)i, v[i]); return t; }
  BvWorld(uint64_t seed) {
    kind = "bitvector";
    fresh = [](Rng &r) { static const int N[] = {1, 2, 7, 63, 64, 64, 65, 100, 127, 128, 129, 200}; int n = r.chance(1, 12) ? 0 : N[r.below(12)]; V v(n); int k = r.range(0, 3); for (auto &b : v) b = k == 0 ? 0 : k == 1 ? 1 : r.range(0, 1); if (n && k < 2 && r.chance(1, 2)) v[r.below(n)] ^= 1; return v; };
    make = mk;
    check = [](T &x, const V &v) -> std::string { if (x.get_num_elements() != (int)v.size()) return sprintf_s("has %d elements, the model has %zu", x.get_num_elements(), v.size()); for (size_t i = 0; i < v.size(); i++) if (x.get_int((int)i) != v[i] || x.get((int)i).get_residue() != v[i]) return sprintf_s("differs at %zu; the model is ", i) + txt(v); return ""; };
    compare = [](T &x, T &y, const V &a, const V &b) -> std::string { bool e = a == b; if ((x == y) != e) return e ? "equal, but == says no" : "different, but == says yes"; if ((x != y) == e) return "!= disagrees"; return ""; };
    text = txt; common();
    auto full = [this](const char *n, std::function<void(W &, Rng &, int, int, int)> f) { this->add(n, [=](W &w, Rng &r, int a, int b, int c) { if (w.m[a].empty() || w.m[b].empty() || w.m[c].empty()) return; f(w, r, a, b, c); }); };
    full("filled", [](W &w, Rng &r, int a, int, int) { int n = r.range(1, 130), e = r.range(0, 1); bool k = r.chance(1, 2); w.build(a, V(n, e), [&] { return k ? new T(e, n) : new T(bit_t(e), n); }); });
    full("blank", [](W &w, Rng &r, int a, int, int) { int n = r.range(1, 130); w.build(a, V(n, 0), [&] { return new T(n); }); });
    full("bad_size", [](W &w, Rng &r, int, int, int) { int n = -r.range(0, 3); w.refuse([&] { T t(n); }); });
    full("fill", [](W &w, Rng &r, int a, int, int) { int e = r.range(0, 1); bit_t b(e); w.mutate(a, V(w.m[a].size(), e), [&](T &x) { x = b; }); });
    full("set", [](W &w, Rng &r, int a, int, int) { V v = w.m[a]; int i = r.chance(1, 3) ? (int)v.size() - 1 : (int)r.below(v.size()), e = r.range(0, 1), k = r.range(0, 2); v[i] = k == 2 ? !v[i] : e; w.mutate(a, v, [&](T &x) { if (k == 0) x.set(i, e); else if (k == 1) x.set(i, bit_t(e)); else x.toggle_element(i); }); });
    full("outside", [](W &w, Rng &r, int a, int, int) { int i = r.chance(1, 2) ? -r.range(1, 3) : (int)w.m[a].size() + r.range(0, 70), k = r.range(0, 4); w.refuse([&] { if (k == 0) (void)w.o[a]->get(i); else if (k == 1) (void)w.o[a]->get_int(i); else if (k == 2) w.o[a]->set(i, 1); else if (k == 3) w.o[a]->set(i, bit_t(1)); else w.o[a]->toggle_element(i); }); });
    auto bin = [=](const char *n, const char *nas, std::function<int(int, int)> f, std::function<T(T &, T &)> op, std::function<void(T &, T &)> as) {
      full(n, [=](W &w, Rng &, int a, int b, int c) { if (w.m[b].size() != w.m[c].size()) { w.refuse([&] { *w.o[a] = op(*w.o[b], *w.o[c]); }); return; } V v = w.m[b]; for (size_t i = 0; i < v.size(); i++) v[i] = f(v[i], w.m[c][i]); w.mutate(a, v, [&](T &x) { x = op(*w.o[b], *w.o[c]); }); });
      full(nas, [=](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { as(*w.o[a], *w.o[b]); }); return; } V v = w.m[a]; for (size_t i = 0; i < v.size(); i++) v[i] = f(v[i], w.m[b][i]); w.mutate(a, v, [&](T &x) { as(x, *w.o[b]); }); });
    };
    bin("add", "add_to", [](int a, int b) { return a ^ b; }, [](T &a, T &b) { return a + b; }, [](T &a, T &b) { a += b; });
    bin("sub", "sub_from", [](int a, int b) { return a ^ b; }, [](T &a, T &b) { return a - b; }, [](T &a, T &b) { a -= b; });
    bin("mul", "mul_by", [](int a, int b) { return a & b; }, [](T &a, T &b) { return a * b; }, [](T &a, T &b) { a *= b; });
    full("accum", [](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { w.o[a]->accum_row(*w.o[b]); }); return; } V v = w.m[a]; for (size_t i = 0; i < v.size(); i++) v[i] ^= w.m[b][i]; w.mutate(a, v, [&](T &x) { x.accum_row(*w.o[b]); }); });
    full("times", [](W &w, Rng &r, int a, int b, int) { int e = r.range(0, 1); bool as = r.chance(1, 2); V v = w.m[as ? a : b]; for (auto &q : v) q &= e; w.mutate(a, v, [&](T &x) { if (as) x *= bit_t(e); else x = *w.o[b] * bit_t(e); }); });
    full("dot", [](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { (void)w.o[a]->dot(*w.o[b]); }); return; } int s = 0; for (size_t i = 0; i < w.m[a].size(); i++) s ^= w.m[a][i] & w.m[b][i]; w.ask(sprintf_s("%d", s), [&] { return sprintf_s("%d", w.o[a]->dot(*w.o[b]).get_residue()); }); });
    full("constant", [](W &w, Rng &, int a, int, int) { bool z = true, o = true; for (int b : w.m[a]) { z = z && !b; o = o && b; } w.ask(sprintf_s("%d%d%d%d%d", z, z, o, !z, !o), [&] { return sprintf_s("%d%d%d%d%d", w.o[a]->is_zero(), *w.o[a] == bit_t(0), *w.o[a] == bit_t(1), *w.o[a] != bit_t(0), *w.o[a] != bit_t(1)); }); });
    full("leader", [](W &w, Rng &, int a, int, int) { int p = -1; for (size_t i = 0; i < w.m[a].size(); i++) if (w.m[a][i]) { p = (int)i; break; } w.ask(sprintf_s("%d", p), [&] { int q = -5; bool f = w.o[a]->find_leader_pos(q); return sprintf_s("%d", f ? q : -1); }); });
    full("ptrswap", [](W &w, Rng &, int a, int b, int) { if (w.m[a].size() != w.m[b].size()) { w.refuse([&] { w.o[a]->ptrswap(*w.o[b]); }); return; } V p = w.m[a], q = w.m[b]; w.mutate2(a, b, q, p, [](T &x, T &y) { x.ptrswap(y); }); });
    full("print", [](W &w, Rng &, int a, int, int) { w.oom = 0; std::string s, z, c; for (size_t i = 0; i < w.m[a].size(); i++) { std::string e = sprintf_s("%d", w.m[a][i]); s += (i ? " " : "") + e; z += e; c += e + "\n"; } w.ask(s + "|" + z + "|" + c, [&] { std::ostringstream o; o << *w.o[a] << "|"; w.o[a]->sqzout(o); o << "|"; w.o[a]->crout(o); return o.str(); }); });
    full("reread", [](W &w, Rng &, int a, int b, int) { w.oom = 0; V v = w.m[b]; w.mutate(a, v, [&](T &x) { std::istringstream i(show(*w.o[b])); i >> x; if (i.fail()) throw std::runtime_error("not read back"); }); });
    init(seed);
  }
};
static WorldBase *mkbv(uint64_t s) { return new BvWorld(s); } static KindReg regbv("bitvector", mkbv);

// ---------------------------------------------------------------- bits
struct BitWorld : World<bit_t, int> {
  typedef bit_t T; typedef World<T, int> W;
  BitWorld(uint64_t seed) {
    kind = "bit"; fresh = [](Rng &r) { return r.range(0, 1); }; make = [](const int &v) { return new bit_t(v); };
    check = [](T &x, const int &v) -> std::string { return x.get_residue() == v ? "" : sprintf_s("is %d, the model is %d", x.get_residue(), v); };
    compare = [](T &x, T &y, const int &a, const int &b) -> std::string { if ((x == y) != (a == b) || (x != y) != (a != b) || (x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b)) return "a comparison is wrong"; if ((x == b) != (a == b) || (x != b) != (a != b)) return "comparison with a number is wrong"; return ""; };
    text = [](const int &v) { return sprintf_s("%d", v); }; common();
    add("from_int", [](W &w, Rng &r, int a, int, int) { int n = r.range(-5, 6); bool k = r.chance(1, 2); w.mutate(a, n & 1, [&](T &x) { if (k) x = n; else x = bit_t(n); }); });
    add("add", [](W &w, Rng &, int a, int b, int c) { w.mutate(a, w.m[b] ^ w.m[c], [&](T &x) { x = *w.o[b] + *w.o[c]; }); });
    add("add_to", [](W &w, Rng &, int a, int b, int) { w.mutate(a, w.m[a] ^ w.m[b], [&](T &x) { x += *w.o[b]; }); });
    add("sub", [](W &w, Rng &, int a, int b, int c) { w.mutate(a, w.m[b] ^ w.m[c], [&](T &x) { x = *w.o[b] - *w.o[c]; }); });
    add("sub_from", [](W &w, Rng &, int a, int b, int) { w.mutate(a, w.m[a] ^ w.m[b], [&](T &x) { x -= *w.o[b]; }); });
    add("neg", [](W &w, Rng &, int a, int b, int) { w.mutate(a, w.m[b], [&](T &x) { x = -*w.o[b]; }); });
    add("mul", [](W &w, Rng &, int a, int b, int c) { w.mutate(a, w.m[b] & w.m[c], [&](T &x) { x = *w.o[b] * *w.o[c]; }); });
    add("mul_by", [](W &w, Rng &, int a, int b, int) { w.mutate(a, w.m[a] & w.m[b], [&](T &x) { x *= *w.o[b]; }); });
    add("div", [](W &w, Rng &r, int a, int b, int c) { int k = r.range(0, 3); auto op = [&](T &x) { if (k == 0) x = *w.o[b] / *w.o[c]; else if (k == 1) x /= *w.o[c]; else if (k == 2) x = *w.o[b] % *w.o[c]; else x %= *w.o[c]; }; if (!w.m[c]) { w.refuse([&] { op(*w.o[a]); }); return; } w.mutate(a, k == 0 ? w.m[b] : k == 1 ? w.m[a] : 0, op); });
    add("reread", [](W &w, Rng &, int a, int b, int) { w.oom = 0; int v = w.m[b]; w.mutate(a, v, [&](T &x) { std::istringstream i(show(*w.o[b])); (std::istream &)i >> x; if (i.fail()) throw std::runtime_error("not read back"); }); });
    init(seed);
  }
};
static WorldBase *mkbit(uint64_t s) { return new BitWorld(s); } static KindReg regbit("bit", mkbit);

// ---------------------------------------------------------------- stacks
template <class E> struct StackWorld : World<tstack<typename E::T>, std::vector<long long>> {
  typedef typename E::T X; typedef std::vector<long long> V; typedef tstack<X> T; typedef World<T, V> W;
  StackWorld(const char *name, uint64_t seed) {
    this->kind = name;
    this->fresh = [](Rng &r) { V v(r.chance(1, 3) ? r.range(0, 3) : r.chance(1, 3) ? r.range(9, 11) : r.range(0, 40)); for (auto &e : v) e = E::rnd(r); return v; };
    this->make = [](const V &v) { T *t = new T(); try { for (auto e : v) t->push(E::real(e)); } catch (...) { delete t; throw; } return t; };
    this->check = [](T &x, const V &v) -> std::string { T t(x); X e; for (size_t i = v.size(); i-- > 0;) { if (!t.pop(e)) return sprintf_s("holds %zu elements, the model %zu", v.size() - 1 - i, v.size()); if (!E::is(e, v[i])) return sprintf_s("differs at depth %zu: ", i) + show(e); } if (t.pop(e)) return "holds more than the model"; return ""; };
    this->compare = [](T &, T &, const V &, const V &) -> std::string { return ""; };
    this->text = VecWorld<E>::txt; this->toobig = [](const V &v) { return v.size() > 60; };
    this->common();
    this->add("push", [](W &w, Rng &r, int a, int, int) { V v = w.m[a]; int n = r.chance(1, 2) ? 1 : r.range(1, 12); std::vector<X> xs; for (int i = 0; i < n; i++) { v.push_back(E::rnd(r)); xs.push_back(E::real(v.back())); } w.mutate(a, v, [&](T &x) { for (auto &e : xs) x.push(e); }); });
    this->add("pop", [](W &w, Rng &, int a, int, int) { if (w.m[a].empty()) { w.ask("empty", [&] { X e; return w.o[a]->pop(e) ? "popped" : "empty"; }); return; } V v = w.m[a]; auto t = v.back(); v.pop_back(); w.mutate(a, v, [&](T &x) { X e; if (!x.pop(e)) throw std::runtime_error("said to be empty"); if (!E::is(e, t)) throw std::runtime_error("popped another element"); }); });
    this->add("drain", [](W &w, Rng &r, int a, int b, int) { if (a == b) return; V p = w.m[a], q = w.m[b]; int n = r.range(1, 20); for (int i = 0; i < n && !q.empty(); i++) { p.push_back(q.back()); q.pop_back(); } w.mutate2(a, b, p, q, [&](T &x, T &y) { X e; for (int i = 0; i < n && y.pop(e); i++) x.push(e); }); });
    this->init(seed);
  }
};
#define STKW(n, id, E) static WorldBase *mks_##id(uint64_t s) { return new StackWorld<E>(n, s); } static KindReg regs_##id(n, mks_##id)
STKW("stack-int", i, EInt); STKW("stack-f2poly", p, EPol);

// ---------------------------------------------------------------- factor lists
struct FM { std::map<long long, int> f; bool unit = false; long long u = 1; };
template <class E> struct FacWorld : World<tfacinfo<typename E::T>, FM> {
  typedef typename E::T X; typedef tfacinfo<X> T; typedef World<T, FM> W; typedef long long N; static const bool I = std::is_same_v<X, int>;
  static N prime(Rng &r) { static const N P[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 101, 103, 107, 109, 113}, Q[] = {2, 3, 7, 11, 13, 19, 25, 31, 37, 41, 47, 55, 59, 61, 67, 73, 87, 91, 97, 103, 109, 115, 117, 131, 137, 143, 145, 157, 167, 171}; return (I ? P : Q)[r.below(r.chance(2, 3) ? 6 : 30)]; }
  static std::string txt(const FM &m) { std::string s = m.unit ? sprintf_s("{%lld", m.u) : "{"; for (auto &p : m.f) s += sprintf_s(" %lld^%d", p.first, p.second); return s + "}"; }
  static N value(const FM &m) { N v = m.unit ? m.u : 1; for (auto &p : m.f) for (int i = 0; i < p.second; i++) { v = E::mul(v, p.first); if (v > 1 << 24 || v < -(1 << 24)) return 0; } return v; }
  static N divisors(const FM &m) { N n = 1; for (auto &p : m.f) n *= p.second + 1; return n; }
  static void fill(T &t, const FM &m) { if (m.unit) t.insert_unit(E::real(m.u)); for (auto i = m.f.rbegin(); i != m.f.rend(); ++i) t.insert_factor(E::real(i->first), i->second); }
  FacWorld(const char *name, uint64_t seed) {
    this->kind = name;
    this->fresh = [](Rng &r) { FM m; int n = r.chance(1, 6) ? r.range(12, 45) : r.range(0, 4); for (int i = 0; i < n; i++) m.f[prime(r)] += n > 6 ? 1 : r.range(1, 3); if (r.chance(1, 3)) { m.unit = true; m.u = I && r.chance(1, 2) ? -1 : 1; } return m; };
    this->make = [](const FM &m) { T *t = new T(); try { fill(*t, m); } catch (...) { delete t; throw; } return t; };
    this->check = [](T &x, const FM &m) -> std::string {
      if (x.get_num_distinct() != (int)m.f.size()) return sprintf_s("has %d distinct factors, the model %zu", x.get_num_distinct(), m.f.size());
      int i = 0, n = 0; for (auto &p : m.f) { if (!E::is(x.get_ith_factor(i), p.first) || x.get_ith_count(i) != p.second) return sprintf_s("has factor %d = ", i) + show(x.get_ith_factor(i)) + sprintf_s("^%d; the model is ", x.get_ith_count(i)) + txt(m); i++; n += p.second; }
      if (x.get_num_factors() != n) return sprintf_s("counts %d factors, the model %d", x.get_num_factors(), n);
      X u; bool h = x.get_unit(u); if (h != m.unit || (h && !E::is(u, m.u))) return "has another unit than " + txt(m); return ""; };
    this->compare = [](T &, T &, const FM &, const FM &) -> std::string { return ""; };
    this->text = txt; this->toobig = [](const FM &m) { int n = 0; for (auto &p : m.f) { n += p.second; } return n > 60; };
    this->common();
    this->add("insert", [](W &w, Rng &r, int a, int, int) { FM m = w.m[a]; N p = prime(r); X x0 = E::real(p); int k = r.chance(1, 2) ? 1 : r.range(1, 4); bool one = k == 1 && r.chance(1, 2); m.f[p] += k; w.mutate(a, m, [&](T &x) { if (one) x.insert_factor(x0); else x.insert_factor(x0, k); }); });
    this->add("insert_own", [](W &w, Rng &r, int a, int b, int) { if (w.m[b].f.empty()) return; int i = (int)r.below(w.m[b].f.size()); auto it = w.m[b].f.begin(); std::advance(it, i); FM m = w.m[a]; m.f[it->first] += it->second; w.mutate(a, m, [&](T &x) { x.insert_factor(w.o[b]->get_ith_factor(i), w.o[b]->get_ith_count(i)); }); });
    this->add("unit", [](W &w, Rng &r, int a, int, int) { FM m = w.m[a]; N u = I && r.chance(1, 2) ? -1 : 1; m.u = m.unit ? E::mul(m.u, u) : u; m.unit = true; w.mutate(a, m, [&](T &x) { x.insert_unit(E::real(u)); }); });
    this->add("merge", [](W &w, Rng &, int a, int b, int) { FM m = w.m[a]; for (auto &p : w.m[b].f) m.f[p.first] += p.second; if (w.m[b].unit) { m.u = m.unit ? E::mul(m.u, w.m[b].u) : w.m[b].u; m.unit = true; } w.mutate(a, m, [&](T &x) { x.merge(*w.o[b]); }); });
    this->add("exp_all", [](W &w, Rng &r, int a, int, int) { int k = r.range(1, 3); FM m = w.m[a]; for (auto &p : m.f) p.second *= k; if (m.unit && k % 2 == 0) m.u = 1; w.mutate(a, m, [&](T &x) { x.exp_all(k); }); });
    this->add("outside", [](W &w, Rng &r, int a, int, int) { int i = r.chance(1, 2) ? -r.range(1, 3) : (int)w.m[a].f.size() + r.range(0, 12); bool k = r.chance(1, 2); w.refuse([&] { if (k) (void)w.o[a]->get_ith_factor(i); else (void)w.o[a]->get_ith_count(i); }); });
    this->add("unfactor", [](W &w, Rng &, int a, int, int) { N v = value(w.m[a]); if (!v) return; X one = E::real(1); w.ask("right", [&] { return E::is(w.o[a]->unfactor(one), v) ? "right" : "wrong"; }); });
    this->add("divisors", [](W &w, Rng &r, int a, int, int) {
      const FM &m = w.m[a]; X one = E::real(1); N n = divisors(m); if (!value(m) || n > 200) return;
      if (m.f.empty() && !m.unit) { int k = r.range(0, 3); w.refuse([&] { tvector<X> v; if (k == 0) (void)w.o[a]->get_num_divisors(); else if (k == 1) (void)w.o[a]->get_kth_divisor(0, one); else if (k == 2) (void)w.o[a]->get_all_divisors(one); else (void)w.o[a]->get_maximal_proper_divisors(v, one); }); return; }
      std::vector<N> ds{1}; for (auto &p : m.f) { size_t k = ds.size(); N q = 1; for (int i = 0; i < p.second; i++) { q = E::mul(q, p.first); for (size_t j = 0; j < k; j++) ds.push_back(E::mul(ds[j], q)); } } std::sort(ds.begin(), ds.end());
      w.ask(sprintf_s("%lld", n), [&] { return sprintf_s("%d", w.o[a]->get_num_divisors()); });
      w.ask("right", [&] { tvector<X> v = w.o[a]->get_all_divisors(one); if (v.get_num_elements() != (int)ds.size()) return "wrong number"; for (size_t i = 0; i < ds.size(); i++) if (!E::is(v[(int)i], ds[i])) return "wrong"; return "right"; });
      w.ask("right", [&] { std::vector<N> seen = ds; for (int k = 0; k < n; k++) { X d = w.o[a]->get_kth_divisor(k, one); size_t j = 0; while (j < seen.size() && !E::is(d, seen[j])) j++; if (j == seen.size()) return "wrong"; seen.erase(seen.begin() + j); } return "right"; });
      if (!m.unit || m.u == 1) w.ask("right", [&] { std::vector<N> mp; for (auto &p : m.f) { FM q = m; q.f[p.first]--; mp.push_back(value(q)); } std::sort(mp.begin(), mp.end()); tvector<X> v; bool h = w.o[a]->get_maximal_proper_divisors(v, one); if (h != !mp.empty()) return "wrong answer"; for (size_t i = 0; i < mp.size(); i++) if (!E::is(v[(int)i], mp[i])) return "wrong"; return "right"; });
    });
    this->add("print", [](W &w, Rng &, int a, int, int) { w.oom = 0; std::string s; if (w.m[a].unit) s = show(E::real(w.m[a].u)); for (auto &p : w.m[a].f) { if (!s.empty()) s += " "; s += show(E::real(p.first)); if (p.second != 1) s += sprintf_s("^%d", p.second); } w.ask(s, [&] { return show(*w.o[a]); }); });
    this->init(seed);
  }
};
#define FACW(n, id, E) static WorldBase *mkf_##id(uint64_t s) { return new FacWorld<E>(n, s); } static KindReg regf_##id(n, mkf_##id)
FACW("factors-int", i, EInt); FACW("factors-f2poly", p, EPol);
} // namespace sim::val
