// H02 kinds: polynomials over each field, and residue classes.
#include "val_fields.h"
namespace sim::val {
template <class RR> struct PolyWorld : World<typename RR::T, std::vector<typename RR::F::E>> {
  typedef typename RR::T T; typedef typename RR::F F; typedef typename F::E E; typedef std::vector<E> V; typedef World<T, V> W; typedef typename RR::C C;
  RR rr; PM<F> pm;
  template <class Q> static constexpr bool scal = !std::is_same_v<Q, f2_poly_t>;
  static std::string S(bool b) { return b ? "yes" : "no"; }
  PolyWorld(const char *name, uint64_t seed) : rr(seed), pm{rr.f} {
    this->kind = name; auto *P = this;
    this->fresh = [=](Rng &r) { return P->pm.rnd(r, P->rr.maxdeg); };
    this->make = [=](const V &v) { auto t = std::make_unique<T>(P->rr.zero()); for (size_t i = v.size(); i-- > 0;) if (v[i] != P->pm.f.zero()) P->rr.set(*t, (int)i, v[i]); return t.release(); };
    this->check = [=](T &x, const V &v) -> std::string {
      int d = x.find_degree(); if (d != (int)v.size() - 1) return sprintf_s("has degree %d, the model has %zu", d, v.size() - 1);
      for (int i = 0; i <= d; i++) if (P->rr.get(x, i) != v[i]) return sprintf_s("has a wrong coefficient of x^%d, printed as ", i) + show(x) + ", the model is " + P->pm.text(v);
      if ((x == 0) != P->pm.isz(v)) return "compares wrongly with 0"; if ((x != 0) == P->pm.isz(v)) return "compares wrongly with 0"; return "";
    };
    this->compare = [=](T &x, T &y, const V &a, const V &b) -> std::string {
      bool e = a == b; if ((x == y) != e) return e ? "equal, but == says no" : "different, but == says yes"; if ((x != y) == e) return e ? "equal, but != says yes" : "different, but != says no";
      if constexpr (!std::is_same_v<T, q_poly_t>) { int k = (x < y) + (x > y) + (x == y); if (k != 1) return sprintf_s("%d of <, ==, > hold", k); if ((x <= y) != (x < y || e) || (x >= y) != (x > y || e)) return "<= or >= disagrees with <, > and =="; if ((x < y) != (y > x)) return "< one way but not > the other way"; if (a.size() != b.size() && (x < y) != (a.size() < b.size())) return "order does not follow the degree"; }
      if (e && show(x) != show(y)) return "equal but printed differently"; if (!e && show(x) == show(y)) return "different but printed alike"; return "";
    };
    this->text = [=](const V &v) { return P->pm.text(v); };
    if constexpr (std::is_same_v<T, q_poly_t>) { this->start = [] { q_over = false; }; this->unsafe = [] { return q_over; }; }
    this->toobig = [=](const V &v) { if ((int)v.size() > P->rr.maxdeg * 3) return true; for (auto &c : v) if (P->pm.f.big(c)) return true; return false; };
    this->common();
    auto bin = [=](const char *n, const char *nas, std::function<V(const V &, const V &)> mf, std::function<T(T &, T &)> op, std::function<void(T &, T &)> as, bool dz) {
      this->add(n, [=](W &w, Rng &, int a, int b, int c) { if (dz && P->pm.isz(w.m[c])) { w.refuse([&] { T t = op(*w.o[b], *w.o[c]); }); return; } V r = mf(w.m[b], w.m[c]); w.mutate(a, r, [&](T &x) { x = op(*w.o[b], *w.o[c]); }); });
      this->add(nas, [=](W &w, Rng &, int a, int b, int) { if (dz && P->pm.isz(w.m[b])) { w.refuse([&] { as(*w.o[a], *w.o[b]); }); return; } V r = mf(w.m[a], w.m[b]); w.mutate(a, r, [&](T &x) { as(x, *w.o[b]); }); });
    };
    bin("add", "add_to", [=](const V &a, const V &b) { return P->pm.add(a, b); }, [](T &a, T &b) { return a + b; }, [](T &a, T &b) { a += b; }, false);
    bin("sub", "sub_from", [=](const V &a, const V &b) { return P->pm.sub(a, b); }, [](T &a, T &b) { return a - b; }, [](T &a, T &b) { a -= b; }, false);
    bin("mul", "mul_by", [=](const V &a, const V &b) { return P->pm.mul(a, b); }, [](T &a, T &b) { return a * b; }, [](T &a, T &b) { a *= b; }, false);
    bin("div", "div_by", [=](const V &a, const V &b) { return P->pm.div(a, b); }, [](T &a, T &b) { return a / b; }, [](T &a, T &b) { a /= b; }, true);
    bin("mod", "mod_by", [=](const V &a, const V &b) { return P->pm.mod(a, b); }, [](T &a, T &b) { return a % b; }, [](T &a, T &b) { a %= b; }, true);
    this->add("neg", [=](W &w, Rng &, int a, int b, int) { V r = P->pm.neg(w.m[b]); w.mutate(a, r, [&](T &x) { x = -*w.o[b]; }); });
    this->add("set_coeff", [=](W &w, Rng &r, int a, int, int) { V v = w.m[a]; int d = r.chance(1, 2) ? r.range(0, (int)v.size()) : r.range(0, P->rr.maxdeg); E e = P->pm.f.rnd(r); if ((int)v.size() <= d) v.resize(d + 1, P->pm.f.zero()); v[d] = e; P->pm.trim(v); C c = P->rr.coef(e); w.mutate(a, v, [&](T &x) { x.set_coeff(d, c); }); });
    this->add("clear_lead", [=](W &w, Rng &, int a, int, int) { V v = w.m[a]; v.back() = P->pm.f.zero(); int d = (int)v.size() - 1; P->pm.trim(v); C c = P->rr.coef(P->pm.f.zero()); w.mutate(a, v, [&](T &x) { x.set_coeff(d, c); }); });
    this->add("set_negative", [=](W &w, Rng &r, int a, int, int) { C c = P->rr.coef(P->pm.f.one()); int d = -r.range(1, 70); w.refuse([&] { w.o[a]->set_coeff(d, c); }); });
    this->add("quot_and_rem", [=](W &w, Rng &r, int a, int b, int c) {
      int d = (a + 1 + (int)r.below(SLOTS - 1)) % SLOTS; if (P->pm.isz(w.m[c])) return; V q, m; P->pm.divmod(w.m[b], w.m[c], q, m);
      // also onto the operands themselves
      w.mutate2(a, d, q, m, [&](T &x, T &y) { T p(*w.o[b]), s(*w.o[c]); p.quot_and_rem(s, x, y); }); });
    this->add("gcd", [=](W &w, Rng &, int a, int b, int c) { if (P->pm.isz(w.m[b]) && P->pm.isz(w.m[c])) return; if (std::is_same_v<T, q_poly_t> && w.m[b].size() + w.m[c].size() > 4) return; V g = P->pm.gcd(w.m[b], w.m[c]); C one = P->rr.coef(P->pm.f.one()); w.ask(P->pm.text(g), [&] { T t = w.o[b]->gcd(*w.o[c]); V v; for (int i = 0; i <= t.find_degree(); i++) v.push_back(P->rr.get(t, i)); v = P->pm.monic(v); return P->pm.text(v); }); (void)a; });
    this->add("ext_gcd", [=](W &w, Rng &, int a, int b, int c) { if (P->pm.isz(w.m[b]) && P->pm.isz(w.m[c])) return; if (std::is_same_v<T, q_poly_t> && w.m[b].size() + w.m[c].size() > 4) return; if (!std::is_same_v<T, f2_poly_t> && (P->pm.isz(w.m[b]) || P->pm.isz(w.m[c]))) return; V g = P->pm.gcd(w.m[b], w.m[c]); w.ask(P->pm.text(g), [&] { T m = P->rr.zero(), n = P->rr.zero(); T t = w.o[b]->ext_gcd(*w.o[c], m, n); T z = *w.o[b] * m + *w.o[c] * n; if (z != t) return std::string("a combination that is not the gcd"); V v; for (int i = 0; i <= t.find_degree(); i++) v.push_back(P->rr.get(t, i)); return P->pm.text(P->pm.monic(v)); }); (void)a; });
    this->add("exp", [=](W &w, Rng &r, int a, int b, int) { if (std::is_same_v<T, q_poly_t> && w.m[b].size() > 2) return; int e = r.range(0, w.m[b].size() > 6 ? 2 : 4); if (e == 0 && P->pm.isz(w.m[b])) return; V v = P->pm.pw(w.m[b], e); w.mutate(a, v, [&](T &x) { x = w.o[b]->exp(e); }); });
    this->add("deriv", [=](W &w, Rng &, int a, int b, int) { V v = P->pm.deriv(w.m[b]); w.mutate(a, v, [&](T &x) { x = w.o[b]->deriv(); }); });
    this->add("eval", [=](W &w, Rng &r, int, int b, int) { E x = P->pm.f.rnd(r); E y = P->pm.eval(w.m[b], x); C c = P->rr.coef(x); w.ask("yes", [&] { return S(P->rr.gives(w.o[b]->eval(c), y)); }); });
    this->add("get_outside", [=](W &w, Rng &r, int, int b, int) { if constexpr (scal<T>) { if (r.chance(1, 2)) { int d = -r.range(1, 70); w.refuse([&] { C c = w.o[b]->get_coeff(d); (void)c; }); } else { int d = (int)w.m[b].size() + r.range(0, 3); w.ask("zero", [&] { return P->rr.get(*w.o[b], d) == P->pm.f.zero() ? "zero" : "something else"; }); } } });
    if constexpr (scal<T>) {
      this->add("add_scalar", [=](W &w, Rng &r, int a, int b, int) { E e = P->pm.f.rnd(r); C c = P->rr.coef(e); V v = P->pm.add(w.m[b], V{e}); w.mutate(a, v, [&](T &x) { x = *w.o[b] + c; }); });
      this->add("sub_scalar", [=](W &w, Rng &r, int a, int b, int) { E e = P->pm.f.rnd(r); C c = P->rr.coef(e); V v = P->pm.sub(w.m[b], V{e}); w.mutate(a, v, [&](T &x) { x = *w.o[b] - c; }); });
      this->add("mul_scalar", [=](W &w, Rng &r, int a, int b, int) { E e = P->pm.f.rnd(r); C c = P->rr.coef(e); V v = P->pm.smul(w.m[b], e); w.mutate(a, v, [&](T &x) { x = *w.o[b] * c; }); });
      this->add("scalar_to", [=](W &w, Rng &r, int a, int, int) {
        E e = P->pm.f.rnd(r); C c = P->rr.coef(e); int k = r.range(0, 3); if (k == 3 && e == P->pm.f.zero()) { w.refuse([&] { *w.o[a] /= c; }); return; }
        V v = k == 0 ? P->pm.add(w.m[a], V{e}) : k == 1 ? P->pm.sub(w.m[a], V{e}) : P->pm.smul(w.m[a], k == 2 ? e : P->pm.f.inv(e));
        w.mutate(a, v, [&](T &x) { if (k == 0) x += c; else if (k == 1) x -= c; else if (k == 2) x *= c; else x /= c; }); });
      this->add("make_monic", [=](W &w, Rng &, int a, int, int) { if (P->pm.isz(w.m[a])) return; V v = P->pm.monic(w.m[a]); w.mutate(a, v, [&](T &x) { x /= x.get_coeff(x.find_degree()); }); });
    } else {
      this->add("set_bit", [=](W &w, Rng &r, int a, int, int) { int d = r.chance(1, 2) ? r.range(0, 200) : 64 * r.range(0, 3) + r.range(-2, 2); if (d < 0) d = 63; V v = w.m[a]; if ((int)v.size() <= d) v.resize(d + 1, 0); v[d] = 1; w.mutate(a, v, [&](T &x) { if constexpr (!scal<T>) x.set_bit(d); }); });
      this->add("mul_bit", [=](W &w, Rng &r, int a, int b, int) { int e = r.range(0, 3); V v = e & 1 ? w.m[b] : V{0}; bool as = r.chance(1, 2); if (as) v = e & 1 ? w.m[a] : V{0}; w.mutate(a, v, [&](T &x) { if constexpr (!scal<T>) { if (as) x *= e; else x = *w.o[b] * e; } }); });
      this->add("assign_bit", [=](W &w, Rng &r, int a, int, int) { int e = r.range(0, 3); w.mutate(a, V{e & 1}, [&](T &x) { if constexpr (!scal<T>) x = e; }); });
      this->add("shift", [=](W &w, Rng &r, int a, int, int) { int k = r.chance(1, 3) ? 1 : r.chance(1, 3) ? 4 : 0; uint64_t n = r.chance(1, 3) ? 64 : r.below(130); V v = w.m[a]; if (!k && P->pm.isz(v)) return; int s = k ? k : (int)n; if (!P->pm.isz(v)) v.insert(v.begin(), s, 0); w.mutate(a, v, [&](T &x) { if constexpr (!scal<T>) { if (k == 1) x._promote_1(); else if (k == 4) x._promote_4(); else x._promote_n(n); } }); });
      this->add("demote", [=](W &w, Rng &, int a, int, int) { V v = w.m[a]; v.erase(v.begin()); P->pm.trim(v); w.mutate(a, v, [&](T &x) { if constexpr (!scal<T>) x._demote_1(); }); });
      this->add("bits", [=](W &w, Rng &, int, int b, int) { int n = 0; for (int c : w.m[b]) n += c; w.ask(sprintf_s("%d", n & 1), [&] { int k = 0; if constexpr (!scal<T>) k = w.o[b]->zcount_one_bits(); return sprintf_s("%d", k); }); });
      this->add("beyond", [=](W &w, Rng &r, int, int b, int) { int d = (int)w.m[b].size() + r.range(0, 200); w.ask("0", [&] { return sprintf_s("%d", P->rr.get(*w.o[b], d) == 0 ? 0 : 1); }); });
      this->add("square_root", [=](W &w, Rng &, int a, int b, int) { bool sq = true; for (size_t i = 1; i < w.m[b].size(); i += 2) sq &= w.m[b][i] == 0; if (!sq) { w.ask("no", [&] { bool k = false; if constexpr (!scal<T>) { T t(0); k = w.o[b]->square_root(t); } return S(k); }); return; } V v; for (size_t i = 0; i < w.m[b].size(); i += 2) v.push_back(w.m[b][i]); w.mutate(a, v, [&](T &x) { if constexpr (!scal<T>) { T t(0); if (!w.o[b]->square_root(t)) throw spffl::exception_t("a square has no root"); x = t; } }); });
    }
    if constexpr (std::is_same_v<T, fp_poly_t> || std::is_same_v<T, f2n_poly_t> || std::is_same_v<T, fpn_poly_t>)
      this->add("pth_root", [=](W &w, Rng &r, int a, int b, int) {
        auto &F = P->pm.f; int p = F.ch(); auto frob = [&](E e) { E t = e; for (int i = 1; i < p; i++) t = F.mul(t, e); return t; };
        auto root = [&](T &x) { bool k; T t(x); if constexpr (std::is_same_v<T, f2n_poly_t>) k = w.o[b]->square_root(t); else k = w.o[b]->pth_root(t); if (k) x = t; return k; };
        if (r.chance(1, 2) && w.m[b].size() * p < 40) { // make it a p-th power first
          V v(w.m[b].size() * p - p + 1, F.zero()); for (size_t i = 0; i < w.m[b].size(); i++) v[i * p] = frob(w.m[b][i]); w.mutate(b, v, [&](T &x) { T y = x; for (int i = 1; i < p; i++) x *= y; }); }
        bool is = true; for (size_t i = 0; i < w.m[b].size(); i++) if (i % p) is &= w.m[b][i] == F.zero();
        if (!is) { w.ask("no", [&] { T t = *w.o[b]; return S(root(t)); }); return; }
        V v; for (size_t i = 0; i < w.m[b].size(); i += p) { E e = w.m[b][i]; while (!(frob(e) == w.m[b][i])) e = frob(e); v.push_back(e); }
        w.mutate(a, v, [&](T &x) { if (!root(x)) throw spffl::exception_t("a p-th power has no root"); }); });
    if constexpr (!std::is_same_v<T, q_poly_t> && !std::is_same_v<T, fpn_poly_t>)
      this->add("increment", [=](W &w, Rng &, int a, int, int) { // counts in base q, constant coefficient first
        if constexpr (!std::is_same_v<T, f2n_poly_t>) { V v = w.m[a]; size_t i = 0; for (;; i++) { if (i == v.size()) { v.push_back(1); break; } v[i] = (v[i] + 1) % P->pm.f.ch(); if (v[i]) break; } w.mutate(a, v, [&](T &x) { x.increment(); }); } });
    this->init(seed);
  }
};
#define POLY(n, id) static WorldBase *mk_##id(uint64_t s) { return new PolyWorld<id>(n, s); } static KindReg reg_##id(n, mk_##id)
POLY("poly-f2", RF2); POLY("poly-fp", RFp); POLY("poly-f2n", RF2n); POLY("poly-fpn", RFpn); POLY("poly-q", RQ);

// ---------------------------------------------------------------- residue classes
template <class RR, class T> struct ModWorld : World<T, std::vector<typename RR::F::E>> {
  typedef typename RR::T P_t; typedef typename RR::F F; typedef typename F::E E; typedef std::vector<E> V; typedef World<T, V> W;
  RR rr; PM<F> pm; V mv; P_t mod;
  static P_t poly(const RR &rr, const V &v) { P_t t = rr.zero(); for (size_t i = v.size(); i-- > 0;) if (!(v[i] == rr.f.zero())) rr.set(t, (int)i, v[i]); return t; }
  ModWorld(const char *name, uint64_t seed) : rr(seed), pm{rr.f}, mod(rr.zero()) {
    this->kind = name; auto *P = this; Rng mr(seed); int d = mr.range(1, std::min(rr.maxdeg, 9)); for (int i = 0; i < d; i++) mv.push_back(pm.f.rnd(mr)); mv.push_back(pm.f.one()); mod = poly(rr, mv);
    this->fresh = [=](Rng &r) { return P->pm.mod(P->pm.rnd(r, P->rr.maxdeg), P->mv); };
    this->make = [=](const V &v) { return new T(poly(P->rr, v), P->mod); };
    this->check = [=](T &x, const V &v) -> std::string {
      P_t a = x.get_residue(), m = x.get_modulus(); if (!(m == P->mod)) return "has modulus " + show(m) + ", not " + show(P->mod);
      int d = a.find_degree(); if (d != (int)v.size() - 1) return sprintf_s("has degree %d, the model has %zu", d, v.size() - 1);
      for (int i = 0; i <= d; i++) if (P->rr.get(a, i) != v[i]) return "is " + show(x) + ", the model is " + P->pm.text(v); return "";
    };
    this->compare = [=](T &x, T &y, const V &a, const V &b) -> std::string { bool e = a == b; if ((x == y) != e) return e ? "equal, but == says no" : "different, but == says yes"; if ((x != y) == e) return e ? "equal, but != says yes" : "different, but != says no"; int k = (x < y) + (x > y) + (x == y); if (k != 1) return sprintf_s("%d of <, ==, > hold", k); if (e != (show(x) == show(y))) return "printing disagrees with equality"; return ""; };
    this->text = [=](const V &v) { return P->pm.text(v); };
    this->common();
    auto bin = [=](const char *n, const char *nas, std::function<V(const V &, const V &)> mf, std::function<T(T &, T &)> op, std::function<void(T &, T &)> as) {
      this->add(n, [=](W &w, Rng &, int a, int b, int c) { V r = P->pm.mod(mf(w.m[b], w.m[c]), P->mv); w.mutate(a, r, [&](T &x) { x = op(*w.o[b], *w.o[c]); }); });
      this->add(nas, [=](W &w, Rng &, int a, int b, int) { V r = P->pm.mod(mf(w.m[a], w.m[b]), P->mv); w.mutate(a, r, [&](T &x) { as(x, *w.o[b]); }); });
    };
    bin("add", "add_to", [=](const V &a, const V &b) { return P->pm.add(a, b); }, [](T &a, T &b) { return a + b; }, [](T &a, T &b) { a += b; });
    bin("sub", "sub_from", [=](const V &a, const V &b) { return P->pm.sub(a, b); }, [](T &a, T &b) { return a - b; }, [](T &a, T &b) { a -= b; });
    bin("mul", "mul_by", [=](const V &a, const V &b) { return P->pm.mul(a, b); }, [](T &a, T &b) { return a * b; }, [](T &a, T &b) { a *= b; });
    this->add("neg", [=](W &w, Rng &, int a, int b, int) { V r = P->pm.neg(w.m[b]); w.mutate(a, r, [&](T &x) { x = -*w.o[b]; }); });
    this->add("div", [=](W &w, Rng &r, int a, int b, int c) { V i; bool as = r.chance(1, 2); int num = as ? a : b; if (!P->pm.inverse(w.m[c], P->mv, i)) { w.refuse([&] { if (as) *w.o[a] /= *w.o[c]; else { T t = *w.o[b] / *w.o[c]; } }); return; } V v = P->pm.mod(P->pm.mul(w.m[num], i), P->mv); w.mutate(a, v, [&](T &x) { if (as) x /= *w.o[c]; else x = *w.o[b] / *w.o[c]; }); });
    this->add("recip", [=](W &w, Rng &, int a, int b, int) { V i; if (!P->pm.inverse(w.m[b], P->mv, i)) { w.ask("no", [&] { T t(*w.o[b]); return t.recip(t) ? "yes" : "no"; }); return; } w.mutate(a, i, [&](T &x) { if (!w.o[b]->recip(x)) throw spffl::exception_t("a unit has no inverse"); }); });
    this->add("exp", [=](W &w, Rng &r, int a, int b, int) { int e = r.range(0, 9); if (e == 0 && P->pm.isz(w.m[b])) return; V v{P->pm.f.one()}; for (int i = 0; i < e; i++) v = P->pm.mod(P->pm.mul(v, w.m[b]), P->mv); if (e == 0) v = P->pm.mod(v, P->mv); w.mutate(a, v, [&](T &x) { x = w.o[b]->exp(e); }); });
    this->add("times_int", [=](W &w, Rng &r, int a, int b, int) { int k = r.range(0, 12); bool as = r.chance(1, 2); V v = P->pm.smul(w.m[as ? a : b], P->pm.f.from_int(k)); w.mutate(a, v, [&](T &x) { if (as) x *= k; else x = *w.o[b] * k; }); });
    this->add("residue_copy", [=](W &w, Rng &, int a, int b, int) { V v = w.m[b]; w.mutate(a, v, [&](T &x) { P_t p = w.o[b]->get_residue(); x = T(p, P->mod); P_t z = P->rr.zero(); p = z; }); });
    this->add("other_modulus", [=](W &w, Rng &r, int a, int b, int) { V o = P->mv; o.push_back(P->pm.f.one()); T y(poly(P->rr, w.m[b]), poly(P->rr, o)); w.refuse([&] { if (r.chance(1, 2)) *w.o[a] += y; else *w.o[a] *= y; }); });
    this->init(seed);
  }
};
#define MODW(n, id, T) static WorldBase *mkm_##id(uint64_t s) { return new ModWorld<id, T>(n, s); } static KindReg regm_##id(n, mkm_##id)
MODW("class-f2", RF2, f2_polymod_t); MODW("class-fp", RFp, fp_polymod_t); MODW("class-f2n", RF2n, f2n_polymod_t); MODW("class-fpn", RFpn, fpn_polymod_t);
} // namespace sim::val
