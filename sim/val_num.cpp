// H02 kinds: integers modulo m, rational numbers, and quotients of polynomials.
#include "val_fields.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/rationals/f2n_polyrat_t.h"
#include "spffl/rationals/fp_polyrat_t.h"
namespace sim::val {
using namespace spffl::rationals;
static std::string yn(bool b) { return b ? "yes" : "no"; }
// What <, ==, > and the rest say about a pair, given the model's equality.
template <class T> static std::string ordered(T &x, T &y, bool e) {
  if ((x == y) != e) return e ? "equal, but == says no" : "different, but == says yes";
  if ((x != y) == e) return e ? "equal, but != says yes" : "different, but != says no";
  if (e && (x < y || x > y || !(x <= y) || !(x >= y))) return "equal, but one of the order comparisons disagrees";
  if (e && show(x) != show(y)) return "equal but printed differently";
  if (!e && show(x) == show(y)) return "different but printed alike";
  return "";
}
template <class W> static void arith(W &me, std::function<typename std::decay_t<decltype(me.m[0])>(const std::decay_t<decltype(me.m[0])> &, const std::decay_t<decltype(me.m[0])> &, char)> f, std::function<bool(const std::decay_t<decltype(me.m[0])> &)> nodivisor) {
  typedef std::decay_t<decltype(me.m[0])> M; typedef std::decay_t<decltype(*me.o[0])> T;
  static const char *const N[] = {"add", "sub", "mul", "div"}, *const A[] = {"add_to", "sub_from", "mul_by", "div_by"};
  for (int k = 0; k < 4; k++) {
    char c = "+-*/"[k];
    auto to = [c](T &x, T &y) { if (c == '+') x += y; else if (c == '-') x -= y; else if (c == '*') x *= y; else x /= y; };
    me.add(N[k], [=](W &w, Rng &, int a, int b, int d) {
      auto go = [&, c] { T &x = *w.o[b], &y = *w.o[d]; return c == '+' ? x + y : c == '-' ? x - y : c == '*' ? x * y : x / y; };
      if (c == '/' && nodivisor(w.m[d])) { w.refuse([&] { T t = go(); }); return; }
      M r = f(w.m[b], w.m[d], c); w.mutate(a, r, [&](T &x) { x = go(); }); });
    me.add(A[k], [=](W &w, Rng &, int a, int b, int) {
      if (c == '/' && nodivisor(w.m[b])) { w.refuse([&] { to(*w.o[a], *w.o[b]); }); return; }
      M r = f(w.m[a], w.m[b], c); w.mutate(a, r, [&](T &x) { to(x, *w.o[b]); }); });
  }
}

// ---------------------------------------------------------------- integers modulo m
struct IntmodWorld : World<intmod_t, int> {
  int q; typedef IntmodWorld Me;
  int red(long long v) const { v %= q; return (int)(v < 0 ? v + q : v); }
  bool unit(int v) const { return std::gcd(v, q) == 1; }
  int inv(int v) const { long long a = v, b = q, s = 1, t = 0; while (b) { long long k = a / b, x = a - k * b; a = b; b = x; x = s - k * t; s = t; t = x; } return red(s); }
  IntmodWorld(uint64_t seed) {
    kind = "intmod"; auto *P = this; q = (const int[]){2, 3, 5, 7, 8, 12, 15, 97, 101, 360, 65537, 1009}[seed % 12];
    fresh = [=](Rng &r) { return r.chance(1, 4) ? r.range(0, 1) : (int)r.below(P->q); };
    make = [=](const int &v) { Rng r(v * 31 + P->q); return new intmod_t(v + (int)(r.range(-3, 3)) * P->q, P->q); };
    check = [=](intmod_t &x, const int &v) -> std::string { if (x.get_modulus() != P->q) return sprintf_s("has modulus %d", x.get_modulus()); if (x.get_residue() != v) return sprintf_s("has residue %d", x.get_residue()); if (!(x == v) || x != v) return "compares wrongly with an integer"; return ""; };
    compare = [](intmod_t &x, intmod_t &y, const int &a, const int &b) -> std::string { if ((x < y) != (a < b) || (x > y) != (a > b) || (x <= y) != (a <= b) || (x >= y) != (a >= b)) return "ordered wrongly"; return ordered(x, y, a == b); };
    text = [=](const int &v) { return sprintf_s("%d mod %d", v, P->q); };
    common();
    arith<World<intmod_t, int>>(*this, [=](const int &a, const int &b, char c) { return c == '+' ? P->red((long long)a + b) : c == '-' ? P->red((long long)a - b) : P->red((long long)a * (c == '*' ? b : P->inv(b))); }, [=](const int &b) { return !P->unit(b); });
    add("neg", [=](W &w, Rng &, int a, int b, int) { w.mutate(a, P->red(-w.m[b]), [&](intmod_t &x) { x = -*w.o[b]; }); });
    add("with_int", [=](W &w, Rng &r, int a, int b, int) { int k = r.range(-20, 20), c = r.range(0, 2); long long u = w.m[b]; int v = c == 0 ? P->red(u + k) : c == 1 ? P->red(u - k) : P->red(u * k); w.mutate(a, v, [&](intmod_t &x) { x = c == 0 ? *w.o[b] + k : c == 1 ? *w.o[b] - k : *w.o[b] * k; }); });
    add("recip", [=](W &w, Rng &, int a, int b, int) { if (!P->unit(w.m[b])) { w.ask("no", [&] { intmod_t t(0, P->q); return yn(w.o[b]->recip(t)); }); return; } w.mutate(a, P->inv(w.m[b]), [&](intmod_t &x) { if (!w.o[b]->recip(x)) throw spffl::exception_t("no reciprocal"); }); });
    add("exp", [=](W &w, Rng &r, int a, int b, int) { int e = r.range(-4, 12); if (!P->unit(w.m[b]) && e <= 0) return; int s = e < 0 ? P->inv(w.m[b]) : w.m[b], v = P->red(1); for (int i = 0; i < (e < 0 ? -e : e); i++) v = P->red((long long)v * s); w.mutate(a, v, [&](intmod_t &x) { x = w.o[b]->exp(e); }); });
    add("other_modulus", [=](W &w, Rng &r, int a, int, int) { intmod_t y(1, P->q + 1); int k = r.range(0, 3); w.refuse([&] { intmod_t &x = *w.o[a]; if (k == 0) x += y; else if (k == 1) x *= y; else if (k == 2) x -= y; else (void)(x / y); }); });
    init(seed);
  }
};
static WorldBase *mkim(uint64_t s) { return new IntmodWorld(s); } static KindReg regim("intmod", mkim);

// ---------------------------------------------------------------- rational numbers
struct RatioWorld : World<intrat_t, Rat> {
  RatioWorld(uint64_t seed) {
    kind = "rational"; auto mk = FieldQ::mk;
    fresh = [](Rng &r) { return FieldQ().rnd(r); };
    make = [](const Rat &v) { int k = 1 + (int)(hash_str(sprintf_s("%lld/%lld", v.n, v.d)) % 3); return new intrat_t((int)v.n * k, (int)v.d * k); };
    check = [](intrat_t &x, const Rat &v) -> std::string { if (x.get_numerator() != v.n || x.get_denominator() != v.d) return sprintf_s("is %d/%d", x.get_numerator(), x.get_denominator()); if ((x == (int)v.n) != (v.d == 1)) return "compares wrongly with an integer"; return ""; };
    compare = [](intrat_t &x, intrat_t &y, const Rat &a, const Rat &b) -> std::string { long long l = a.n * b.d, r = b.n * a.d; if ((x < y) != (l < r) || (x > y) != (l > r) || (x <= y) != (l <= r) || (x >= y) != (l >= r)) return "ordered wrongly"; return ordered(x, y, a == b); };
    text = [](const Rat &v) { return FieldQ().s(v); };
    start = [] { q_over = false; }; unsafe = [] { return q_over; };
    toobig = [](const Rat &v) { return FieldQ().big(v); };
    common();
    arith<W>(*this, [=](const Rat &a, const Rat &b, char c) { return c == '+' ? mk((__int128)a.n * b.d + (__int128)b.n * a.d, (__int128)a.d * b.d) : c == '-' ? mk((__int128)a.n * b.d - (__int128)b.n * a.d, (__int128)a.d * b.d) : c == '*' ? mk((__int128)a.n * b.n, (__int128)a.d * b.d) : mk((__int128)a.n * b.d, (__int128)a.d * b.n); }, [](const Rat &b) { return b.n == 0; });
    add("neg", [=](W &w, Rng &, int a, int b, int) { w.mutate(a, mk(-w.m[b].n, w.m[b].d), [&](intrat_t &x) { x = -*w.o[b]; }); });
    add("assign_int", [=](W &w, Rng &r, int a, int, int) { int k = r.range(-9, 9); w.mutate(a, mk(k, 1), [&](intrat_t &x) { x = k; }); });
    add("mod", [=](W &w, Rng &, int a, int b, int c) { if (w.m[c].n == 0) { w.refuse([&] { intrat_t t = *w.o[b] % *w.o[c]; }); return; } w.mutate(a, Rat{}, [&](intrat_t &x) { x = *w.o[b] % *w.o[c]; }); });
    add("exp", [=](W &w, Rng &r, int a, int b, int) { int e = r.range(-3, 3); Rat v = w.m[b]; if (v.n == 0 && e <= 0) return; Rat p{1, 1}; for (int i = 0; i < (e < 0 ? -e : e); i++) p = e > 0 ? mk((__int128)p.n * v.n, (__int128)p.d * v.d) : mk((__int128)p.n * v.d, (__int128)p.d * v.n); w.mutate(a, p, [&](intrat_t &x) { x = w.o[b]->exp(e); }); });
    add("zero_denominator", [=](W &w, Rng &r, int, int, int) { int n = r.range(-5, 5); w.refuse([&] { intrat_t t(n, 0); }); });
    init(seed);
  }
};
static WorldBase *mkra(uint64_t s) { return new RatioWorld(s); } static KindReg regra("rational", mkra);

// ---------------------------------------------------------------- quotients of polynomials
template <class E> struct Quo { std::vector<E> n, d; bool operator==(const Quo &o) const { return n == o.n && d == o.d; } };
template <class RR, class T> struct QuoWorld : World<T, Quo<typename RR::F::E>> {
  typedef typename RR::T P_t; typedef typename RR::F F; typedef typename F::E E; typedef std::vector<E> V; typedef Quo<E> Q; typedef World<T, Q> W;
  RR rr; PM<F> pm; int maxdeg;
  P_t poly(const V &v) const { P_t t = rr.zero(); for (size_t i = v.size(); i-- > 0;) if (!(v[i] == rr.f.zero())) rr.set(t, (int)i, v[i]); return t; }
  Q mk(const V &n, const V &d) const { V g = pm.gcd(n, d); Q r{pm.div(n, g), pm.div(d, g)}; E l = rr.f.inv(r.d.back()); r.n = pm.smul(r.n, l); r.d = pm.smul(r.d, l); return r; }
  V vec(const P_t &p) const { V v; int d = p.find_degree(); for (int i = 0; i <= d; i++) v.push_back(rr.get(p, i)); return v; }
  QuoWorld(const char *name, uint64_t seed) : rr(seed), pm{rr.f} {
    this->kind = name; auto *P = this; maxdeg = std::is_same_v<RR, RF2> ? 40 : 4;
    this->fresh = [=](Rng &r) { V n = P->pm.rnd(r, P->maxdeg), d = r.chance(1, 3) ? V{P->pm.f.one()} : P->pm.rnd(r, P->maxdeg); if (P->pm.isz(d)) d = V{P->pm.f.one()}; return P->mk(n, d); };
    // built from a fraction that is not in lowest terms
    this->make = [=](const Q &v) { Rng r(hash_str(P->pm.text(v.n) + P->pm.text(v.d))); V k = r.chance(1, 2) ? P->pm.rnd(r, 2) : V{P->pm.f.one()}; if (P->pm.isz(k)) k = V{P->pm.f.one()}; return new T(P->poly(P->pm.mul(v.n, k)), P->poly(P->pm.mul(v.d, k))); };
    this->check = [=](T &x, const Q &v) -> std::string {
      V n = P->vec(x.get_numerator()), d = P->vec(x.get_denominator()); if (P->pm.isz(d)) return "has denominator zero";
      if (P->pm.mul(n, v.d) != P->pm.mul(v.n, d)) return "is " + P->pm.text(n) + "/" + P->pm.text(d); if (P->pm.gcd(n, d).size() > 1) return "is not in lowest terms: " + P->pm.text(n) + "/" + P->pm.text(d);
      bool whole = v.d.size() == 1; P_t y = P->poly(v.n); if ((x == y) != whole || (x != y) == whole) return "compares wrongly with its numerator"; return "";
    };
    this->compare = [](T &x, T &y, const Q &a, const Q &b) -> std::string { bool e = a == b; int k = (x < y) + (x > y) + e; if (k != 1) return sprintf_s("%d of <, ==, > hold", k); return ordered(x, y, e); };
    this->text = [=](const Q &v) { return P->pm.text(v.n) + "/" + P->pm.text(v.d); };
    this->toobig = [=](const Q &v) { return (int)(v.n.size() + v.d.size()) > P->maxdeg * 5; };
    this->common();
    arith<W>(*this, [=](const Q &a, const Q &b, char c) { auto &m = P->pm; return c == '+' ? P->mk(m.add(m.mul(a.n, b.d), m.mul(b.n, a.d)), m.mul(a.d, b.d)) : c == '-' ? P->mk(m.sub(m.mul(a.n, b.d), m.mul(b.n, a.d)), m.mul(a.d, b.d)) : c == '*' ? P->mk(m.mul(a.n, b.n), m.mul(a.d, b.d)) : P->mk(m.mul(a.n, b.d), m.mul(a.d, b.n)); }, [=](const Q &b) { return P->pm.isz(b.n); });
    this->add("neg", [=](W &w, Rng &, int a, int b, int) { Q v = w.m[b]; v.n = P->pm.neg(v.n); w.mutate(a, v, [&](T &x) { x = -*w.o[b]; }); });
    this->add("assign_poly", [=](W &w, Rng &r, int a, int, int) { V n = P->pm.rnd(r, P->maxdeg); bool c = r.chance(1, 2); w.mutate(a, Q{n, V{P->pm.f.one()}}, [&](T &x) { P_t p = P->poly(n); if (c) x = T(p); else x = p; }); });
    this->add("assign_int", [=](W &w, Rng &r, int a, int, int) { int k = r.range(0, 9); w.mutate(a, Q{V{P->pm.f.from_int(k)}, V{P->pm.f.one()}}, [&](T &x) { x = x.prime_subfield_element(k); }); });
    this->add("mod", [=](W &w, Rng &r, int a, int b, int c) { bool as = r.chance(1, 2); if (P->pm.isz(w.m[c].n)) { w.refuse([&] { if (as) *w.o[a] %= *w.o[c]; else T t = *w.o[b] % *w.o[c]; }); return; } w.mutate(a, Q{V{P->pm.f.zero()}, V{P->pm.f.one()}}, [&](T &x) { if (as) x %= *w.o[c]; else x = *w.o[b] % *w.o[c]; }); });
    this->add("exp", [=](W &w, Rng &r, int a, int b, int) {
      int e = r.range(-2, 3); bool z = P->pm.isz(w.m[b].n); if (z && e <= 0) { w.refuse([&] { T t = w.o[b]->exp(e); }); return; }
      Q v = w.m[b]; v = e > 0 ? Q{P->pm.pw(v.n, e), P->pm.pw(v.d, e)} : P->mk(P->pm.pw(v.d, -e), P->pm.pw(v.n, -e)); w.mutate(a, v, [&](T &x) { x = w.o[b]->exp(e); }); });
    this->add("zero_denominator", [=](W &w, Rng &r, int, int, int) { V n = P->pm.rnd(r, P->maxdeg); w.refuse([&] { T t(P->poly(n), P->rr.zero()); }); });
    this->init(seed);
  }
};
#define QUOW(n, id, T) static WorldBase *mkq_##id(uint64_t s) { return new QuoWorld<id, T>(n, s); } static KindReg regq_##id(n, mkq_##id)
QUOW("quotient-f2", RF2, f2_polyrat_t); QUOW("quotient-fp", RFp, fp_polyrat_t); QUOW("quotient-f2n", RF2n, f2n_polyrat_t);
} // namespace sim::val
