// The shared catalogue of library operations.  An operation is: a generator of
// argument tuples from a seed, the library call, and the printing of what it
// returned.  The thread simulator and the fault simulator both draw from it.
#ifndef SIM_OPS_H
#define SIM_OPS_H
#include "core.h"
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <tuple>
#include <typeinfo>
#include <vector>
#include "spffl/base/spffl_exception.h"
#include "spffl/bits/bit_t.h"
#include "spffl/bits/bit_vector_t.h"
#include "spffl/bits/bit_matrix_t.h"
#include "spffl/containers/tvector.h"
#include "spffl/containers/tmatrix.h"
#include "spffl/containers/tfacinfo.h"
#include "spffl/containers/tstack.h"
#include "spffl/intmath/intmod_t.h"
#include "spffl/intmath/intrat_t.h"
#include "spffl/polynomials/f2_poly_t.h"
#include "spffl/polynomials/f2_polymod_t.h"
#include "spffl/polynomials/f2n_poly_t.h"
#include "spffl/polynomials/f2n_polymod_t.h"
#include "spffl/polynomials/fp_poly_t.h"
#include "spffl/polynomials/fp_polymod_t.h"
#include "spffl/polynomials/fpn_poly_t.h"
#include "spffl/polynomials/fpn_polymod_t.h"
#include "spffl/polynomials/q_poly_t.h"

namespace sim::ops {
using namespace spffl;
using namespace spffl::bits;
using namespace spffl::intmath;
using namespace spffl::polynomials;

enum { F_STREAM = 1,  // may report out-of-memory as a failed read or write
       F_GLOBAL = 2,  // touches state shared between callers (favoured in thread runs)
       F_SLOW = 4,    // many steps
       F_RANDOM = 8,  // uses the built-in generator (excluded from thread runs)
       F_THROWS = 16, // usually rejects
       F_CLI = 32 };

struct Case {
  virtual ~Case() {}
  virtual std::string args() const = 0;
  virtual void prepare() = 0;        // copy of the object to be modified
  virtual void call() = 0;           // the library call; may throw
  virtual bool done() const = 0;
  virtual std::string result() const = 0; // printed result (and modified object)
  virtual bool stream_failed() const = 0;
  virtual void reassign_check(bool abandoned) = 0; // modified object can be used and assigned to
  virtual void drop() = 0;           // destroy the result and the modified object
  virtual std::unique_ptr<Case> copy() const = 0; // the same call on copies of the arguments
};
struct Op {
  std::string name; unsigned flags;
  std::unique_ptr<Case> (*make)(const Op &, Rng &);
  std::shared_ptr<void> impl;
};
std::vector<Op> &all();
const Op *find(const std::string &name);
// Which arguments: a seed, perhaps with one of the generator's draws altered,
// so that two calls can have nearly the same arguments.
struct Args {
  uint64_t seed = 0, by = 0; int alter = -1;
  void put(Line &l) const { l.setu("seed", seed); if (alter >= 0) { l.set("alter", alter); l.setu("by", by); } }
  static Args of(const Line &l) { Args a; a.seed = l.u64("seed"); if (l.has("alter")) { a.alter = (int)l.num("alter"); a.by = l.u64("by"); } return a; }
  static Args fresh(Rng &r) { Args a; a.seed = r.next() >> 16; return a; }
  Args near(Rng &r) const { Args a = *this; a.alter = (int)r.below(r.chance(1, 2) ? 3 : 12); a.by = 1 + r.below(1000); return a; }
  Rng rng() const { Rng r(seed); r.alter = alter; r.by = by; return r; }
  std::string key() const { return alter < 0 ? std::to_string(seed) : std::to_string(seed) + "/" + std::to_string(alter) + "/" + std::to_string(by); }
  bool operator<(const Args &o) const { return key() < o.key(); }
};
std::unique_ptr<Case> make(const std::string &name, const Args &a, const Op **out = nullptr);

// ------------------------------------------------------------- printing
struct StreamFail { bool failed; std::string text; };
template <class T> void put(std::ostream &o, const T &v) { o << v; }
inline void put(std::ostream &o, const std::string &v) { o << v; }
inline void put(std::ostream &o, const bool &v) { o << (v ? "true" : "false"); }
inline void put(std::ostream &o, const StreamFail &v) { o << (v.failed ? "FAILED" : "ok") << ":" << v.text; }
template <class T> void put(std::ostream &o, const std::optional<T> &v);
template <class T> void put(std::ostream &o, const std::vector<T> &v);
template <class... A> void put(std::ostream &o, const std::tuple<A...> &t);
template <class T> void put(std::ostream &o, const tvector<T> &v) {
  o << "[" << v.get_num_elements() << ":";
  for (int i = 0; i < v.get_num_elements(); i++) { o << (i ? " " : ""); put(o, v[i]); }
  o << "]";
}
template <class T> void put(std::ostream &o, const tmatrix<T> &v) {
  o << "{" << v.get_num_rows() << "x" << v.get_num_cols() << ":";
  for (int i = 0; i < v.get_num_rows(); i++) { o << (i ? "; " : ""); for (int j = 0; j < v.get_num_cols(); j++) { o << (j ? " " : ""); put(o, v[i][j]); } }
  o << "}";
}
template <class T> void put(std::ostream &o, const tfacinfo<T> &v) {
  T u; bool hu = v.get_unit(u); o << "<"; if (hu) { o << "unit "; put(o, u); }
  for (int i = 0; i < v.get_num_distinct(); i++) { o << " ("; put(o, v.get_ith_factor(i)); o << ")^" << v.get_ith_count(i); }
  o << ">";
}
inline void put(std::ostream &o, const bit_vector_t &v) {
  bit_vector_t &w = const_cast<bit_vector_t &>(v); o << "[" << w.get_num_elements() << ":"; for (int i = 0; i < w.get_num_elements(); i++) o << (int)w.get_int(i); o << "]";
}
inline void put(std::ostream &o, const bit_matrix_t &v) {
  bit_matrix_t &w = const_cast<bit_matrix_t &>(v); o << "{" << w.get_num_rows() << "x" << w.get_num_cols() << ":"; for (int i = 0; i < w.get_num_rows(); i++) put(o, w[i]); o << "}";
}
inline void put(std::ostream &o, const intmod_t &v) { o << v.get_residue() << "mod" << v.get_modulus(); }
inline void put(std::ostream &o, const fp_poly_t &v) { o << v << "@" << v.find_degree() << "mod" << v.get_coeff(0).get_modulus(); }
inline void put(std::ostream &o, const f2_polymod_t &v) { o << v.get_residue() << "mod" << v.get_modulus(); }
inline void put(std::ostream &o, const fp_polymod_t &v) { put(o, v.get_residue()); o << "mod" << v.get_modulus(); }
template <class A, class B> void put(std::ostream &o, const std::pair<A, B> &v) { o << "("; put(o, v.first); o << ", "; put(o, v.second); o << ")"; }
template <class T> void put(std::ostream &o, const std::optional<T> &v) { if (v) put(o, *v); else o << "none"; }
template <class T> void put(std::ostream &o, const std::vector<T> &v) { o << "<"; for (auto &x : v) { put(o, x); o << ","; } o << ">"; }
template <class... A> void put(std::ostream &o, const std::tuple<A...> &t) {
  o << "("; std::apply([&](const A &...a) { int i = 0; ((o << (i++ ? " | " : ""), put(o, a)), ...); }, t); o << ")";
}
template <class T> std::string text(const T &v) { std::ostringstream s; put(s, v); return s.str(); }

template <class T> struct is_streamfail { static bool get(const T &) { return false; } };
template <> struct is_streamfail<StreamFail> { static bool get(const StreamFail &s) { return s.failed; } };
template <class T> struct is_streamfail<std::pair<StreamFail, T>> { static bool get(const std::pair<StreamFail, T> &s) { return s.first.failed; } };

// ------------------------------------------------------------- registration
// fn(const args &...) -> value
template <class Tup, class Res> struct PureImpl { Tup (*gen)(Rng &); Res (*fn)(const Tup &); };
template <class Tup, class Res> struct PureCase : Case {
  Tup a; std::optional<Res> r; const PureImpl<Tup, Res> *im;
  PureCase(const PureImpl<Tup, Res> *i, Rng &g) : a(i->gen(g)), im(i) {}
  PureCase(const PureImpl<Tup, Res> *i, const Tup &t) : a(t), im(i) {}
  std::unique_ptr<Case> copy() const override { return std::make_unique<PureCase>(im, a); }
  std::string args() const override { return text(a); }
  void prepare() override {}
  void call() override { r.emplace(im->fn(a)); }
  bool done() const override { return (bool)r; }
  std::string result() const override { return text(*r); }
  bool stream_failed() const override { return r && is_streamfail<Res>::get(*r); }
  void reassign_check(bool abandoned) override {}
  void drop() override { r.reset(); }
};
// fn(object &, const args &) -> value; the object is the first of the tuple
template <class Tup, class Res> struct MutImpl { Tup (*gen)(Rng &); Res (*fn)(std::tuple_element_t<0, Tup> &, const Tup &); };
template <class Tup, class Res> struct MutCase : Case {
  typedef std::tuple_element_t<0, Tup> Obj;
  Tup a; std::optional<Obj> w; std::optional<Res> r; const MutImpl<Tup, Res> *im;
  MutCase(const MutImpl<Tup, Res> *i, Rng &g) : a(i->gen(g)), im(i) {}
  MutCase(const MutImpl<Tup, Res> *i, const Tup &t) : a(t), im(i) {}
  std::unique_ptr<Case> copy() const override { return std::make_unique<MutCase>(im, a); }
  std::string args() const override { return text(a); }
  void prepare() override { r.reset(); w.emplace(std::get<0>(a)); }
  void call() override { r.emplace(im->fn(*w, a)); }
  bool done() const override { return (bool)r; }
  std::string result() const override { return text(*r) + " -> " + text(*w); }
  bool stream_failed() const override { return r && is_streamfail<Res>::get(*r); }
  void reassign_check(bool abandoned) override {
    if (!w) return;
    if (abandoned) { // of whatever value, but a whole object
      try { Obj x(*w); Tup b = a; std::get<0>(b) = x; (void)text(x); (void)im->fn(x, b); } catch (const std::exception &) {}
    }
    *w = std::get<0>(a);
    std::string x = text(*w), y = text(std::get<0>(a));
    if (x != y) violate("reassign", "object abandoned by a failed call does not take a new value: " + x + " instead of " + y);
  }
  void drop() override { r.reset(); w.reset(); }
};
template <class F, class G> void reg(const std::string &name, unsigned flags, G gen, F fn) {
  typedef decltype(gen(std::declval<Rng &>())) Tup;
  typedef std::decay_t<decltype(fn(std::declval<const Tup &>()))> Res;
  auto im = std::make_shared<PureImpl<Tup, Res>>(); im->gen = static_cast<Tup (*)(Rng &)>(gen); im->fn = static_cast<Res (*)(const Tup &)>(fn);
  all().push_back({name, flags, [](const Op &o, Rng &g) -> std::unique_ptr<Case> { return std::make_unique<PureCase<Tup, Res>>((PureImpl<Tup, Res> *)o.impl.get(), g); }, im});
}
template <class F, class G> void regm(const std::string &name, unsigned flags, G gen, F fn) {
  typedef decltype(gen(std::declval<Rng &>())) Tup;
  typedef std::tuple_element_t<0, Tup> Obj;
  typedef std::decay_t<decltype(fn(std::declval<Obj &>(), std::declval<const Tup &>()))> Res;
  auto im = std::make_shared<MutImpl<Tup, Res>>(); im->gen = static_cast<Tup (*)(Rng &)>(gen); im->fn = static_cast<Res (*)(Obj &, const Tup &)>(fn);
  all().push_back({name, flags, [](const Op &o, Rng &g) -> std::unique_ptr<Case> { return std::make_unique<MutCase<Tup, Res>>((MutImpl<Tup, Res> *)o.impl.get(), g); }, im});
}
#define GEN(...) [](Rng &r) { return std::tuple{__VA_ARGS__}; }
#define GENB(...) [](Rng &r) __VA_ARGS__
#define $0 std::get<0>(a)
#define $1 std::get<1>(a)
#define $2 std::get<2>(a)
#define $3 std::get<3>(a)
#define $4 std::get<4>(a)
#define $5 std::get<5>(a)
#define $6 std::get<6>(a)
#define $7 std::get<7>(a)
#define $8 std::get<8>(a)
// OP: an expression over the arguments $0, $1 ...; OPB: a body.
#define OP(name, flags, gen, ...) reg(name, flags, gen, [](const auto &a) { return (__VA_ARGS__); })
#define OPB(name, flags, gen, ...) reg(name, flags, gen, [](const auto &a) __VA_ARGS__)
// MUT: body modifying object o; a is the original tuple, $0 the original object
#define MUT(name, flags, gen, ...) regm(name, flags, gen, [](auto &o, const auto &a) __VA_ARGS__)

// ------------------------------------------------------------- generators
int g_prime(Rng &r);
int g_alias(Rng &r, int small);
int g_small_prime(Rng &r);
intmod_t g_intmod(Rng &r, int m);
intmod_t g_unit(Rng &r, int p);
intrat_t g_rat(Rng &r);
std::string g_hex(Rng &r, int maxdigits);
f2_poly_t g_f2(Rng &r, int maxdeg);          // any
f2_poly_t g_f2nz(Rng &r, int maxdeg);        // non-zero
f2_poly_t g_f2irr(Rng &r, int maxdeg = 8);   // irreducible modulus
f2_polymod_t g_f2pm(Rng &r, const f2_poly_t &m);
f2_polymod_t g_f2pmu(Rng &r, const f2_poly_t &m); // non-zero
fp_poly_t g_fp(Rng &r, int p, int maxdeg);
fp_poly_t g_fpnz(Rng &r, int p, int maxdeg);
fp_poly_t g_fpirr(Rng &r, int p);            // irreducible quadratic or cubic
fp_polymod_t g_fppm(Rng &r, const fp_poly_t &m);
f2n_poly_t g_f2n(Rng &r, const f2_poly_t &m, int maxdeg);
f2n_poly_t g_f2nnz(Rng &r, const f2_poly_t &m, int maxdeg);
fpn_poly_t g_fpn(Rng &r, const fp_poly_t &m, int maxdeg);
fpn_poly_t g_fpnnz(Rng &r, const fp_poly_t &m, int maxdeg);
q_poly_t g_q(Rng &r, int maxdeg);
q_poly_t g_qnz(Rng &r, int maxdeg);
bit_vector_t g_bv(Rng &r, int n);
bit_matrix_t g_bm(Rng &r, int rows, int cols);
tvector<bit_t> g_vb(Rng &r, int n);
tmatrix<bit_t> g_mb(Rng &r, int rows, int cols);
tvector<intmod_t> g_vm(Rng &r, int n, int p);
tmatrix<intmod_t> g_mm(Rng &r, int rows, int cols, int p);
tvector<intrat_t> g_vq(Rng &r, int n);
tmatrix<intrat_t> g_mq(Rng &r, int rows, int cols);
tvector<int> g_vi(Rng &r, int n);
tmatrix<int> g_mi(Rng &r, int rows, int cols);
tmatrix<f2_polymod_t> g_mt(Rng &r, int rows, int cols, const f2_poly_t &m);
tvector<f2_polymod_t> g_vt(Rng &r, int n, const f2_poly_t &m);

// Called once; registers everything.
void init_all();
} // namespace sim::ops
#endif
