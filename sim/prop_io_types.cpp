#include "io_types.h"
#include "ops.h"
#include "spffl/rationals/f2_polyrat_t.h"
#include "spffl/bits/bit_matrix_t.h"
#include <string.h>
namespace sim::io {
using namespace spffl::bits; using namespace spffl::intmath; using namespace spffl::polynomials;
using namespace spffl::rationals;
template <class E> static std::string pr(const E &e) { std::ostringstream o; o << e; return o.str(); }
static char *nm(const std::string &s) { static std::string k; k = s; return k.data(); }

template <class E> struct Zero;
template <> struct Zero<int> { static int z() { return 0; } };
template <> struct Zero<bit_t> { static bit_t z() { return bit_t(0); } };
template <> struct Zero<intrat_t> { static intrat_t z() { return intrat_t(0); } };
template <> struct Zero<f2_poly_t> { static f2_poly_t z() { return f2_poly_t(0); } };
template <> struct Zero<f2_polyrat_t> { static f2_polyrat_t z() { return f2_polyrat_t(0); } };
template <class E> struct MObj : Obj {
  tmatrix<E> m; E zero;
  explicit MObj(const E &z) : m(z, 1, 1), zero(z) {}
  void preset(int r, int c) override { m = tmatrix<E>(zero, r, c); }
  bool load(const std::string &n) override { return m.load_from_file(nm(n)); }
  bool load_zero(const std::string &n) override { tmatrix<E> f; m = tmatrix<E>(zero, 1, 1); bool ok = f.load_from_file(nm(n), zero); if (ok) m = f; return ok; }
  bool read(std::istream &is) override { is >> m; return !is.fail(); }
  bool write(std::ostream &os) override { os << m; return !os.fail(); }
  int store(const std::string &n) override { return m.store_to_file(nm(n)); }
  bool bracket(const std::string &s, bool &sup) override { sup = true; std::string c = s; return m.bracket_in(c.data()); }
  Rows rows() override { Rows r(m.get_num_rows()); for (size_t i = 0; i < r.size(); i++) for (int j = 0; j < m.get_num_cols(); j++) r[i].push_back(pr(m[i][j])); return r; }
  bool equal(Obj &o) override { return m == static_cast<MObj &>(o).m; }
  bool has_load() override { return true; }
  bool has_zero() override { return true; }
};
template <class E> struct VObj : Obj {
  tvector<E> v; E zero;
  explicit VObj(const E &z) : v(z, 1), zero(z) {}
  void preset(int r, int c) override { v = tvector<E>(zero, r * c); }
  bool load(const std::string &n) override { return v.load_from_file(nm(n)); }
  bool load_zero(const std::string &n) override { tvector<E> f; v = tvector<E>(zero, 1); bool ok = f.load_from_file(nm(n), zero); if (ok) v = f; return ok; }
  bool read(std::istream &is) override { is >> v; return !is.fail(); }
  bool write(std::ostream &os) override { os << v; return !os.fail(); }
  int store(const std::string &) override { return -1; }
  bool bracket(const std::string &s, bool &sup) override { sup = true; std::string c = s; return v.bracket_in(c.data()); }
  Rows rows() override { Rows r(1); for (int j = 0; j < v.get_num_elements(); j++) r[0].push_back(pr(v[j])); return r; }
  bool equal(Obj &o) override { return v == static_cast<VObj &>(o).v; }
  bool has_load() override { return true; }
  bool has_zero() override { return true; }
};
// Elements one after another, each read by its own >>.
template <class E> struct LObj : Obj {
  std::vector<std::string> v; E zero;
  explicit LObj(const E &z) : zero(z) {}
  template <class S> bool get(S &is) { v.clear(); for (;;) { E e = zero; is >> e; if (is.fail()) break; v.push_back(pr(e)); } return !is.bad(); }
  void preset(int r, int c) override { v.assign(r * c, "0"); }
  bool load(const std::string &) override { return false; }
  bool load_zero(const std::string &) override { return false; }
  bool read(std::istream &is) override { return get(is); }
  bool read_iss(std::istringstream &is) override { return get(is); }
  bool write(std::ostream &os) override { for (auto &s : v) os << s << " "; return !os.fail(); }
  int store(const std::string &) override { return -1; }
  bool bracket(const std::string &, bool &sup) override { sup = false; return false; }
  Rows rows() override { return Rows{v}; }
  bool equal(Obj &o) override { return v == static_cast<LObj &>(o).v; }
  bool has_load() override { return false; }
  bool has_zero() override { return false; }
};
struct BMObj : Obj {
  bit_matrix_t m;
  void preset(int r, int c) override { m = bit_matrix_t(bit_t(1), r, c); }
  bool load(const std::string &n) override { return m.load_from_file(nm(n)); }
  bool load_zero(const std::string &) override { return false; }
  bool read(std::istream &is) override { is >> m; return !is.fail(); }
  bool write(std::ostream &os) override { os << m; return !os.fail(); }
  int store(const std::string &) override { return -1; }
  bool bracket(const std::string &, bool &sup) override { sup = false; return false; }
  Rows rows() override { Rows r(m.get_num_rows()); for (size_t i = 0; i < r.size(); i++) for (int j = 0; j < m.get_num_cols(); j++) r[i].push_back(pr(m[i].get(j))); return r; }
  bool equal(Obj &o) override { return m == static_cast<BMObj &>(o).m; }
  bool has_load() override { return true; }
  bool has_zero() override { return false; }
};
struct BVObj : Obj {
  bit_vector_t v;
  void preset(int r, int c) override { v = bit_vector_t(r * c); for (int i = 0; i < r * c; i++) v.set(i, bit_t(1)); }
  bool load(const std::string &) override { return false; }
  bool load_zero(const std::string &) override { return false; }
  bool read(std::istream &is) override { is >> v; return !is.fail(); }
  bool write(std::ostream &os) override { os << v; return !os.fail(); }
  int store(const std::string &) override { return -1; }
  bool bracket(const std::string &, bool &sup) override { sup = false; return false; }
  Rows rows() override { Rows r(1); for (int j = 0; j < v.get_num_elements(); j++) r[0].push_back(pr(v.get(j))); return r; }
  bool equal(Obj &o) override { return v == static_cast<BVObj &>(o).v; }
  bool has_load() override { return false; }
  bool has_zero() override { return false; }
};

// ---------------------------------------------------------------- model
static bool digits(const std::string &t, size_t &p, __int128 &v, bool sign) {
  size_t i = p; bool neg = false;
  if (sign && i < t.size() && (t[i] == '+' || t[i] == '-')) neg = t[i++] == '-';
  size_t s = i; v = 0;
  while (i < t.size() && t[i] >= '0' && t[i] <= '9') { if (v < ((__int128)1 << 100)) v = v * 10 + (t[i] - '0'); i++; }
  if (i == s) return false;
  if (neg) v = -v;
  p = i; return true;
}
static bool fits(__int128 v) { return v >= -2147483648ll && v <= 2147483647ll; }
static std::string num(long long v) { return sprintf_s("%lld", v); }
static std::string lex_hex(const std::string &t, size_t &p) {
  size_t s = p; while (p < t.size() && isxdigit((unsigned char)t[p])) p++;
  std::string h = t.substr(s, p - s); if (h.empty()) return h;
  size_t z = h.find_first_not_of('0'); h = z == std::string::npos ? "0" : h.substr(z);
  for (char &c : h) c = tolower(c);
  return h;
}
static std::string hexmod(const std::string &h, unsigned m) { // reduction modulo a polynomial of degree < 31
  int dm = 31; while (!(m >> dm & 1)) dm--;
  uint64_t r = 0;
  for (char c : h) { int d = c <= '9' ? c - '0' : c - 'a' + 10; for (int b = 3; b >= 0; b--) { r = r << 1 | (d >> b & 1); if (r >> dm & 1) r ^= m; } }
  return sprintf_s("%llx", (unsigned long long)r);
}
// Digits and commas, as the readers of polynomials over F_p take them.
static int lex_fp(const std::string &t, size_t &p, int mod, std::vector<int> &c) {
  size_t s = p; int odd = 1; while (p < t.size() && (isdigit((unsigned char)t[p]) || t[p] == ',')) p++;
  std::string x = t.substr(s, p - s); c.clear(); if (x.empty()) return false;
  if (x.find(',') == std::string::npos && mod < 10) { for (char ch : x) c.insert(c.begin(), (ch - '0') % mod); }
  else {
    size_t a = 0; for (;;) { // missing coefficients are passed over
      size_t e = x.find(',', a); std::string y = x.substr(a, e == std::string::npos ? e : e - a), z = y; size_t q = 0; __int128 v;
      if (y.empty()) odd = 2; else { if (!digits(z, q, v, false) || !fits(v)) return 0; c.insert(c.begin(), (int)(v % mod)); }
      if (e == std::string::npos) break; a = e + 1;
    }
    if (c.empty()) return 0;
  }
  while (c.size() > 1 && !c.back()) c.pop_back();
  return odd;
}
static std::string show_fp(const std::vector<int> &c, int mod) { std::string s; for (size_t i = c.size(); i-- > 0;) { if (mod >= 10 && i + 1 < c.size()) s += ","; s += num(c[i]); } return s; }

static std::string itok(Rng &r, long long lo, long long hi) {
  std::string s;
  switch (r.below(12)) { case 0: s = num(lo); break; case 1: s = num(hi); break; case 2: s = "0"; break; case 3: s = "+" + num(r.below(hi + 1)); break; case 4: s = "00" + num(r.below(hi + 1)); break; default: s = num(r.range((int)std::max<long long>(lo, -50), (int)std::min<long long>(hi, 50))); }
  return s;
}
static std::string htok(Rng &r) { int n = r.chance(1, 12) ? r.range(9, 40) : r.range(1, 4); std::string s; for (int i = 0; i < n; i++) s += "0123456789abcdefABCDEF"[r.below(22)]; return s; }
static std::vector<Kind> build() {
  std::vector<Kind> k;
  auto list = [&](auto zero, const char *n, auto lex, auto gen) {
    typedef decltype(zero) E;
    if constexpr (!std::is_same<E, fp_polymod_t>::value) k.push_back({n, true, false, true, [zero] { return std::unique_ptr<Obj>(new LObj<E>(zero)); }, lex, gen});
  };
  auto both = [&](auto zero, const char *vn, const char *mn, auto lex, auto gen) {
    typedef decltype(zero) E;
    static std::vector<std::string> names; names.reserve(100); names.push_back("list" + std::string(vn).substr(6));
    if (!std::is_same<E, fp_polymod_t>::value && !std::is_same<E, int>::value) list(zero, names.back().c_str(), lex, gen);
    k.push_back({vn, true, false, false, [zero] { return std::unique_ptr<Obj>(new VObj<E>(zero)); }, lex, gen});
    k.push_back({mn, false, false, false, [zero] { return std::unique_ptr<Obj>(new MObj<E>(zero)); }, lex, gen});
  };
  auto lint = [](const std::string &t, size_t &p, std::string &o) { __int128 v; if (!digits(t, p, v, true) || !fits(v)) return false; o = num((long long)v); return true; };
  both(0, "vector-int", "matrix-int", lint, [](Rng &r) { return itok(r, -2147483647, 2147483647); });
  auto lbit = [](const std::string &t, size_t &p, std::string &o) { __int128 v; if (!digits(t, p, v, true) || v > 4294967295ll || v < -4294967295ll) return false; o = num((long long)(v & 1)); return true; };
  both(bit_t(0), "vector-bit", "matrix-bit", lbit, [](Rng &r) { return itok(r, 0, 3); });
  for (int m : {7, 65537}) {
    auto lm = [m](const std::string &t, size_t &p, std::string &o) { __int128 v; if (!digits(t, p, v, true) || !fits(v)) return false; long long x = (long long)v % m; o = num(x < 0 ? x + m : x); return true; };
    both(intmod_t(0, m), m == 7 ? "vector-mod7" : "vector-mod65537", m == 7 ? "matrix-mod7" : "matrix-mod65537", lm, [m](Rng &r) { return itok(r, -m, m); });
  }
  auto lf2 = [](const std::string &t, size_t &p, std::string &o) { o = lex_hex(t, p); return !o.empty(); };
  both(f2_poly_t(0), "vector-f2poly", "matrix-f2poly", lf2, htok);
  auto lpm = [](const std::string &t, size_t &p, std::string &o) { o = lex_hex(t, p); if (o.empty()) return false; o = hexmod(o, 0x11b); while (o.size() < 2) o = "0" + o; return true; };
  f2_poly_t m11b; m11b.from_string("11b"); both(f2_polymod_t(f2_poly_t(0), m11b), "vector-f2polymod", "matrix-f2polymod", lpm, htok);
  auto lrat = [](const std::string &t, size_t &p, std::string &o) {
    __int128 a, b = 1; if (!digits(t, p, a, true) || !fits(a)) return false;
    if (p < t.size() && t[p] == '/') { p++; if (!digits(t, p, b, true) || !fits(b) || b == 0) return false; }
    __int128 x = a < 0 ? -a : a, y = b < 0 ? -b : b; while (y) { __int128 z = x % y; x = y; y = z; }
    a /= x; b /= x; if (b < 0) a = -a, b = -b;
    o = num((long long)a) + (b == 1 ? "" : "/" + num((long long)b)); return true; };
  both(intrat_t(0), "vector-rat", "matrix-rat", lrat, [](Rng &r) { std::string s = itok(r, -9999, 9999); if (r.chance(1, 2)) s += "/" + num(r.range(1, 60)); return s; });
  for (int p : {5, 13}) {
    auto lfp = [p](const std::string &t, size_t &q, std::string &o) { std::vector<int> c; int k = lex_fp(t, q, p, c); o = show_fp(c, p); return k; };
    auto gfp = [p](Rng &r) { int d = r.range(0, 6); bool comma = p > 9 || (d && r.chance(1, 3)); std::string s; for (int i = 0; i <= d; i++) { if (i && comma) s += ","; s += num(r.below(p)); } return s; };
    both(fp_poly_t(intmod_t(0, p)), p == 5 ? "vector-f5poly" : "vector-f13poly", p == 5 ? "matrix-f5poly" : "matrix-f13poly", lfp, gfp);
    if (p == 5) {
      fp_poly_t m; m.from_string("102", 5); // x^2 + 2
      auto lfm = [](const std::string &t, size_t &q, std::string &o) { std::vector<int> c; int k = lex_fp(t, q, 5, c); if (!k) return 0; while (c.size() > 2) { int l = c.back(); c.pop_back(); c[c.size() - 2] = (c[c.size() - 2] + 3 * l) % 5; } if (c.size() < 2) c.resize(2, 0); o = show_fp(c, 5); return k; };
      both(fp_polymod_t(fp_poly_t(intmod_t(0, 5)), m), "vector-f5polymod", "matrix-f5polymod", lfm, gfp);
    }
  }
  auto lfr = [](const std::string &t, size_t &p, std::string &o) {
    std::string a = lex_hex(t, p), b = "1"; if (a.empty()) return false;
    if (p < t.size() && t[p] == '/') { p++; b = lex_hex(t, p); if (b.empty() || b == "0") return false; }
    if (a.size() > 14 || b.size() > 14) return false;
    uint64_t x = strtoull(a.c_str(), 0, 16), y = strtoull(b.c_str(), 0, 16); auto dg = [](uint64_t v) { return v ? 63 - __builtin_clzll(v) : -1; };
    auto div = [&](uint64_t n, uint64_t d, uint64_t &rem) { uint64_t q = 0; int dd = dg(d); while (dg(n) >= dd) { int s = dg(n) - dd; q |= 1ull << s; n ^= d << s; } rem = n; return q; };
    uint64_t g = x, h = y, r; while (h) { div(g, h, r); g = h; h = r; }
    x = div(x, g, r); y = div(y, g, r);
    o = sprintf_s("%llx", (unsigned long long)x) + (y == 1 ? "" : sprintf_s("/%llx", (unsigned long long)y)); return true; };
  both(f2_polyrat_t(0), "vector-f2polyrat", "matrix-f2polyrat", lfr, [](Rng &r) { std::string s = sprintf_s("%x", (unsigned)r.below(200)); if (r.chance(1, 2)) s += sprintf_s("/%x", 1 + (unsigned)r.below(60)); return s; });
  auto lb = [](const std::string &t, size_t &p, std::string &o) { __int128 v; if (!digits(t, p, v, true) || !fits(v)) return false; o = num((long long)(v & 1)); return true; };
  // polynomials over Q (whole coefficients) and over F_2^n
  auto lq = [](const std::string &t, size_t &p, std::string &o) { std::vector<int> c; bool comma = t.find(',', p) != std::string::npos; size_t q = p; int k = lex_fp(t, q, 2147483647, c); size_t e = q;
    std::string x = t.substr(p, e - p); if (x.find(',') == std::string::npos) { c.clear(); for (char ch : x) c.insert(c.begin(), ch - '0'); while (c.size() > 1 && !c.back()) c.pop_back(); k = !x.empty(); }
    (void)comma; p = e; o.clear(); for (size_t i = c.size(); i-- > 0;) { o += num(c[i]); if (i) o += ","; } return k; };
  list(q_poly_t(intrat_t(0)), "list-qpoly", lq, [](Rng &r) { int d = r.range(0, 6); bool c = r.chance(1, 2); std::string s; for (int i = 0; i <= d; i++) { if (i && c) s += ","; s += num(r.below(c ? 200 : 10)); } return s; });
  for (unsigned m : {0x7u, 0x11bu}) {
    f2_poly_t mm; mm.from_string(sprintf_s("%x", m));
    auto l2n = [m](const std::string &t, size_t &p, std::string &o) {
      std::vector<std::string> c;
      for (;;) { std::string h = lex_hex(t, p); if (h.empty()) return 0; c.push_back(hexmod(h, m)); if (p < t.size() && t[p] == ':') p++; else break; }
      while (c.size() > 1 && c[0] == "0") c.erase(c.begin());
      o.clear(); for (size_t i = 0; i < c.size(); i++) o += (i ? ":" : "") + c[i]; return 1; };
    list(f2n_poly_t(f2_polymod_t(f2_poly_t(0), mm)), m == 7 ? "list-f4poly" : "list-f256poly", l2n, [](Rng &r) { int d = r.range(0, 5); std::string s; for (int i = 0; i <= d; i++) s += (i ? ":" : "") + sprintf_s("%x", (unsigned)r.below(256)); return s; });
  }
  k.push_back({"bitvector", true, true, false, [] { return std::unique_ptr<Obj>(new BVObj); }, lb, [](Rng &r) { return itok(r, 0, 1); }});
  k.push_back({"bitmatrix", false, true, false, [] { return std::unique_ptr<Obj>(new BMObj); }, lb, [](Rng &r) { return itok(r, 0, 1); }});
  return k;
}
const std::vector<Kind> &kinds() { static std::vector<Kind> k = build(); return k; }
const Kind *kind(const std::string &n) { for (auto &k : kinds()) if (n == k.name) return &k; return nullptr; }

static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f' || c == '\n'; }
// One line: true if it is a row.
static bool row(const Kind &k, const std::string &l, Row &out, bool &odd, Row *each = nullptr) {
  size_t i = 0; out.clear();
  while (i < l.size()) {
    if (ws(l[i])) { if (l[i] == '\v' || l[i] == '\f' || (l[i] == '\r' && i + 1 < l.size())) odd = true; i++; continue; }
    size_t e = i; while (e < l.size() && !ws(l[e])) e++;
    std::string t = l.substr(i, e - i); size_t p = 0; int n = 0;
    if (t.back() == '/') { // a quotient with a blank inside
      size_t f = e; while (f < l.size() && ws(l[f])) f++;
      if (f < l.size()) { e = f; while (e < l.size() && !ws(l[e])) e++; t += l.substr(f, e - f); odd = true; }
    }
    while (p < t.size()) { std::string o; int f = k.lex(t, p, o); if (!f) return false; out.push_back(o); if (each) each->push_back(o); if (n++ || f == 2) odd = true; }
    i = e;
  }
  return !out.empty();
}
static Val model1(const Kind &k, const std::string &text, size_t from, bool skip) {
  Val v; size_t p = from, n = text.size();
  if (k.list) { // the elements up to the first thing that is none
    v.accept = true; v.rows.resize(1); v.need = SIZE_MAX; v.next = n; Row r; bool odd = false;
    for (;;) { while (p < n && ws(text[p])) p++; size_t e = p; while (e < n && !ws(text[e])) e++; if (p == e) break; if (skip && text[e - 1] == '/') { while (e < n && ws(text[e])) e++; while (e < n && !ws(text[e])) e++; } odd = false; bool ok = row(k, text.substr(p, e - p), r, odd, &v.rows[0]); if (odd) v.odd = true; if (!ok) { v.odd = true; v.need = p + 1; break; } p = e; }
    return v;
  }
  if (k.vec) {
    size_t e = text.find('\n', p); bool t = e != std::string::npos; std::string l = text.substr(p, t ? e - p : e);
    Row r; v.accept = row(k, l, r, v.odd); if (v.accept) v.rows = {r};
    v.need = t ? e + 1 : SIZE_MAX; v.next = t ? e + 1 : n; return v;
  }
  bool bad = false;
  while (p < n) {
    size_t e = text.find('\n', p); bool t = e != std::string::npos; std::string l = text.substr(p, t ? e - p : e); p = t ? e + 1 : n;
    size_t h = l.find('#'); bool comment = h != std::string::npos; if (comment) l.erase(h);
    bool blank = true; for (char c : l) if (!ws(c)) blank = false;
    if (blank) { if (v.rows.empty() || (comment && skip)) continue; v.need = t ? p : SIZE_MAX; v.next = p; goto done; }
    Row r; if (!row(k, l, r, v.odd)) { bad = true; break; }
    v.rows.push_back(r);
  }
  v.need = SIZE_MAX; v.next = n;
done:
  v.accept = !bad && !v.rows.empty();
  for (auto &r : v.rows) if (r.size() != v.rows[0].size()) v.accept = false;
  if (!v.accept) v.rows.clear();
  return v;
}
std::vector<Val> model(const Kind &k, const std::string &text, size_t from) {
  std::vector<Val> r{model1(k, text, from, false)};
  if (k.list && text.find('/') != std::string::npos) { Val b = model1(k, text, from, true); if (b.rows != r[0].rows) r.push_back(b); }
  if (!k.vec && text.find('#', from) != std::string::npos) { Val b = model1(k, text, from, true); if (b.rows != r[0].rows || b.accept != r[0].accept) r.push_back(b); }
  return r;
}
std::string show(const Rows &r) {
  std::string s = sprintf_s("%zu rows:", r.size());
  for (auto &x : r) { s += " ["; for (size_t i = 0; i < x.size(); i++) { if (i) s += " "; s += x[i]; if (s.size() > 500) return s + "..."; } s += "]"; }
  return s;
}
} // namespace sim::io
