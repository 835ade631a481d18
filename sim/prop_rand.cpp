// G01 (generator sequence), G02 (random elements), G03 (random device).
#include "core.h"
#include "os.h"
#include "rand_models.h"
#include "spffl/bitrand/psdes.h"
#include "spffl/base/spffl_exception.h"
#include "spffl/random/int_random.h"
#include "spffl/random/intmod_random.h"
#include "spffl/random/f2_poly_random.h"
#include "spffl/random/f2_polymod_random.h"
#include "spffl/random/fp_poly_random.h"
#include "spffl/random/fp_polymod_random.h"
#include "spffl/random/f2n_poly_random.h"
#include "spffl/random/f2n_polymod_random.h"
#include "spffl/factorization/f2_poly_factor.h"
#include "spffl/factorization/fp_poly_factor.h"
#include "spffl/factorization/f2n_poly_factor.h"
#include "spffl/units/f2_polymod_units.h"
#include <errno.h>
#include <string.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <unistd.h>
namespace spffl::random { int ur_get_random_int(void); uint32_t ur_get_random_uint32(void); uint64_t ur_get_random_uint64(void); }
namespace sim {
using namespace spffl::polynomials;
using spffl::intmath::intmod_t;
namespace br = spffl::bitrand;
namespace rnd = spffl::random;
namespace fac = spffl::factorization;
static void running(const std::string &s) { snprintf(R->msg, sizeof R->msg, "%s", s.c_str()); }

// ================================================================ G01
// An independent statement of the generator: a four-round Feistel network over
// the two halves of a 64-bit counter.
static uint32_t g01_f(uint32_t r, int i) {
  static const uint32_t k1[4] = {0xbaa96887u, 0x1e17d32cu, 0x03bcdc3cu, 0x0f33d1b2u}, k2[4] = {0x4b0f3b58u, 0xe874f0c3u, 0x6955c5a6u, 0x55a7ca46u};
  uint32_t a = r ^ k1[i], lo = a % 65536u, hi = a / 65536u;
  uint32_t b = (uint32_t)((uint64_t)lo * lo + (0xffffffffull - ((uint64_t)hi * hi & 0xffffffffull)));
  uint32_t c = (b >> 16) + (b << 16);
  return (uint32_t)((uint64_t)(c ^ k2[i]) + (uint64_t)lo * hi);
}
static uint64_t g01_hash(uint64_t v) {
  uint32_t l = v >> 32, r = (uint32_t)v;
  for (int i = 0; i < 4; i++) { uint32_t n = l ^ g01_f(r, i); l = r; r = n; }
  return ((uint64_t)l << 32) | r;
}
static uint64_t g01_unhash(uint64_t v) {
  uint32_t l = v >> 32, r = (uint32_t)v;
  for (int i = 3; i >= 0; i--) { uint32_t p = r ^ g01_f(l, i); r = l; l = p; }
  return ((uint64_t)l << 32) | r;
}
static float g01_float(uint32_t w) { return (float)(w % 8388608u) / 8388608.0f; }

static uint64_t near_carry(Rng &r) {
  if (r.chance(1, 4)) { // a state whose output, now or a few draws on, is a special word
    auto sp = [&] { static const uint32_t w[] = {0, 0, 0xffffffffu, 0x7fffffu, 0x800000u, 1, 0x7fffffffu, 0x80000000u, 0xff800000u}; return r.chance(1, 3) ? (uint32_t)r.next() : w[r.below(9)]; };
    uint32_t hi = sp(); return g01_unhash(((uint64_t)hi << 32) | sp()) - r.below(6);
  }
  uint32_t hi = r.chance(1, 3) ? (uint32_t)r.next() : r.chance(1, 3) ? 0xffffffffu : (uint32_t)r.below(3);
  uint32_t lo = r.chance(2, 3) ? 0xffffffffu - (uint32_t)r.below(r.chance(1, 2) ? 4 : 400) : r.chance(1, 3) ? (uint32_t)r.below(4) : (uint32_t)r.next();
  return ((uint64_t)hi << 32) | lo;
}
static void clock_line(Rng &r, Line &l) {
  long long us;
  switch (r.below(6)) {
  case 0: us = 0; break;
  case 1: us = 1700000000000000ll + (long long)r.below(5); break;
  case 2: us = (long long)(r.next() >> 1) % 4294967295000000ll; break;
  case 3: us = (long long)r.below(1ull << 33) * 1000000 + 999999; break;
  case 4: us = (long long)(2147483647ll + (long long)r.below(3) - 1) * 1000000 + (long long)r.below(1000000); break;
  default: us = 1600000000000000ll + (long long)(r.next() >> 24); break;
  }
  l.set("us", us); l.set("step", (long long)(r.chance(1, 3) ? 0 : r.chance(1, 3) ? 1 : r.below(3000000)));
  l.set("pid", (long long)(r.chance(1, 5) ? 1 : r.chance(1, 5) ? 0x3fffff : r.below(100000)));
}
static const char *G01_DRAW[] = {"i32", "i64", "f32"};
static void g01_gen(Rng &r, Plan &p) {
  { Line &l = p.add("clock"); clock_line(r, l); }
  int n = r.range(4, 40);
  for (int i = 0; i < n; i++) {
    int k = r.range(0, 19);
    if (k < 7) {
      Line &l = p.add("draw"); l.set("g", (long long)(r.chance(1, 2) ? 0 : r.range(1, 3))); l.set("how", G01_DRAW[r.below(3)]);
      l.set("n", (long long)(r.chance(1, 6) ? r.range(100, 4000) : r.range(1, 12)));
    } else if (k < 10) {
      Line &l = p.add("mix"); l.set("g", (long long)(r.chance(2, 3) ? 0 : r.range(1, 3))); l.setu("seed", r.next() >> 20); l.set("n", (long long)r.range(2, 60));
    } else if (k < 12) { Line &l = p.add("seed"); l.set("g", (long long)r.range(1, 3)); l.setu("s", near_carry(r)); }
    else if (k < 13) { Line &l = p.add("seedb"); l.setu("s", near_carry(r)); }
    else if (k < 14) { Line &l = p.add("seed32"); l.setu("s", near_carry(r) & 0xffffffffu); }
    else if (k < 15) { Line &l = p.add("tod"); l.set("g", (long long)r.range(0, 3)); clock_line(r, l); l.set("vary", (long long)r.range(0, 3)); l.set("by", (long long)r.range(1, 1000)); }
    else if (k < 18) { Line &l = p.add("clock"); clock_line(r, l); }
    else { Line &l = p.add("hash"); l.setu("s", near_carry(r)); }
  }
}
struct Gen { bool known = false; uint64_t st = 0, off = 0; struct D { char how; uint64_t off; uint64_t v; }; std::vector<D> pend; };
static void g01_exec(const Plan &p) {
  Gen g[4]; uint32_t s[4][2] = {};
  for (int i = 1; i < 4; i++) { g[i].known = true; s[i][0] = 0; s[i][1] = i; g[i].st = i; }
  bool touched = false, selfseeded = false; os::Clock atself;
  os::Clock cur; os::clock_set(cur);
  long drawn = 0;
  auto want = [&](char how, uint64_t st) -> uint64_t { uint64_t h = g01_hash(st); return how == '6' ? h : how == '3' ? (h & 0xffffffffu) : (uint64_t)(uint32_t)h % 8388608u; };
  auto fail = [&](const char *cls, int gi, const std::string &w) { violate(cls, (gi ? "caller-owned generator: " : "built-in generator: ") + w); };
  auto verify = [&](int gi, char how, uint64_t st, uint64_t v, uint64_t off) {
    count(C_oracle);
    uint64_t w = want(how, st);
    if (v != w) fail("wrong-draw", gi, sprintf_s("draw %llu after seeding (%s), counter 0x%016llx: got 0x%llx, the sequence has 0x%llx", (unsigned long long)off, how == '6' ? "64-bit" : how == '3' ? "32-bit" : "float", (unsigned long long)st, (unsigned long long)v, (unsigned long long)w));
  };
  auto resolve = [&](int gi, uint64_t st_at_last) {
    Gen &q = g[gi]; uint64_t seed = st_at_last - (q.off - 1);
    for (auto &d : q.pend) verify(gi, d.how, seed + d.off, d.v, d.off);
    q.known = true; q.st = st_at_last + 1; q.pend.clear();
  };
  auto draw = [&](int gi, char how) {
    Gen &q = g[gi]; uint64_t v; drawn++; count(C_steps);
    os::Clock before = cur; (void)before;
    if (gi == 0 && !touched) { touched = true; selfseeded = true; atself = cur; count(C_p_selfseed); }
    uint64_t reads = os::clock_reads();
    if (how == '3') v = gi ? br::iran32_r(s[gi][0], s[gi][1]) : br::iran32();
    else if (how == '6') { uint32_t a = 1, b = 2; if (gi) br::iran64_r(a, b, s[gi][0], s[gi][1]); else br::iran64(a, b); v = ((uint64_t)a << 32) | b; }
    else {
      float f = gi ? br::fran32_r(s[gi][0], s[gi][1]) : br::fran32();
      if (!(f >= 0.0f && f < 1.0f)) fail("float-out-of-range", gi, sprintf_s("floating-point draw %.9g is not in [0,1)", (double)f));
      double t = (double)f * 8388608.0; v = (uint64_t)t;
      if ((double)v != t) fail("wrong-draw", gi, sprintf_s("floating-point draw %.17g is not one of the values of the sequence", (double)f));
    }
    cur.us += (long long)(os::clock_reads() - reads) * cur.step_us;
    ev("draw %d %c -> %llx", gi, how, (unsigned long long)v);
    if (q.known) {
      verify(gi, how, q.st, v, q.off); if ((uint32_t)q.st == 0xffffffffu) count(C_p_carry);
      q.st++; q.off++;
      if (gi) { uint64_t got = ((uint64_t)s[gi][0] << 32) | s[gi][1]; if (got != q.st) fail("wrong-state", gi, sprintf_s("after a draw the caller's state is 0x%016llx, not 0x%016llx", (unsigned long long)got, (unsigned long long)q.st)); }
    } else {
      q.pend.push_back({how, q.off, v}); q.off++;
      if (how == '6') resolve(gi, g01_unhash(v));
    }
  };
  auto state_of_builtin = [&]() -> uint64_t { draw(0, '6'); return g[0].st - 1; };
  for (auto &l : p.lines) {
    running("generator: " + l.text());
    if (l.kind == "clock") { cur.us = l.num("us"); cur.step_us = (int)l.num("step"); cur.pid = (int)l.num("pid", 4242); os::clock_set(cur); }
    else if (l.kind == "draw") { std::string h = l.str("how"); char c = h == "i32" ? '3' : h == "i64" ? '6' : 'f'; for (long long i = 0, n = l.num("n", 1); i < n && i < 6000; i++) draw((int)l.num("g") & 3, c); }
    else if (l.kind == "mix") { Rng r(l.u64("seed")); for (long long i = 0, n = l.num("n", 1); i < n && i < 6000; i++) { draw((int)l.num("g") & 3, "36f"[r.below(3)]); if (r.chance(1, 9)) draw((int)r.below(4), "36f"[r.below(3)]); } }
    else if (l.kind == "seed") { int i = 1 + (int)(l.num("g") % 3 + 3) % 3; uint64_t v = l.u64("s"); s[i][0] = v >> 32; s[i][1] = (uint32_t)v; g[i] = Gen(); g[i].known = true; g[i].st = v; }
    else if (l.kind == "seedb") { uint64_t v = l.u64("s"); br::sran32b(v >> 32, (uint32_t)v); touched = true; if (selfseeded && !g[0].known) selfseeded = false; g[0] = Gen(); g[0].known = true; g[0].st = v; }
    else if (l.kind == "seed32") { uint32_t v = (uint32_t)l.u64("s"); br::sran32(v); touched = true; if (selfseeded && !g[0].known) selfseeded = false; g[0] = Gen(); g[0].known = true; g[0].st = v; }
    else if (l.kind == "hash") {
      uint64_t v = l.u64("s"); uint32_t a = v >> 32, b = (uint32_t)v; br::psdes_hash_64(a, b); count(C_oracle);
      uint64_t h = ((uint64_t)a << 32) | b; if (h != g01_hash(v)) violate("wrong-hash", sprintf_s("hash of 0x%016llx is 0x%016llx, not 0x%016llx", (unsigned long long)v, (unsigned long long)h, (unsigned long long)g01_hash(v)));
    } else if (l.kind == "tod") {
      // Seeding from the clock: a function of clock and process id, and of each of them.
      int gi = (int)l.num("g") & 3; int vary = (int)l.num("vary") & 3; long long by = l.num("by", 1); if (by < 1) by = 1;
      auto seed_at = [&](long long us, int pid) -> uint64_t {
        os::Clock c; c.us = us; c.step_us = 0; c.pid = pid; os::clock_set(c);
        if (gi) { s[gi][0] = 77; s[gi][1] = 99; br::sran32_timeofday_r(s[gi][0], s[gi][1]); uint64_t v = ((uint64_t)s[gi][0] << 32) | s[gi][1]; g[gi] = Gen(); g[gi].known = true; g[gi].st = v; return v; }
        br::sran32_timeofday(); touched = true; g[0] = Gen(); return state_of_builtin();
      };
      if (gi == 0 && selfseeded && !g[0].known) selfseeded = false; // its seed was never learned
      long long us = l.num("us"); int pid = (int)l.num("pid", 4242);
      uint64_t a = seed_at(us, pid), b;
      long long us2 = us; int pid2 = pid;
      if (vary == 1) pid2 = pid ^ (int)by; else if (vary == 2) us2 = us + by * 1000000; else if (vary == 3) us2 = us - us % 1000000 + (us % 1000000 + by) % 1000000;
      b = seed_at(us2, pid2); count(C_oracle); os::clock_set(cur);
      ev("seeded %llx %llx", (unsigned long long)a, (unsigned long long)b);
      if (!vary && a != b) fail("seed-not-from-clock", gi, sprintf_s("seeding twice from the same clock reading and process id gives states 0x%016llx and 0x%016llx", (unsigned long long)a, (unsigned long long)b));
      if (vary && (us2 != us || pid2 != pid) && a == b) fail("seed-ignores-clock", gi, sprintf_s("seeding at clock %lld pid %d and at clock %lld pid %d gives the same state 0x%016llx", us, pid, us2, pid2, (unsigned long long)a));
      distinct(mix(a, vary));
    }
    evh(hash_str(l.text()));
  }
  running("generator: final draw");
  if (touched && !g[0].known) state_of_builtin();
  (void)drawn; (void)atself; (void)selfseeded;
  R->nontrivial = drawn > 0;
  uint64_t h = 0; for (auto &l : p.lines) h = mix(h, hash_str(l.text()));
  distinct(h); count(C_histories);
}
static PropReg g01_reg({"G01", g01_gen, g01_exec, 24000, 240000,
  "a history counts once per distinct sequence of seedings, draws and clock settings",
  "spffl/bitrand (whole generator)", "clock, process id"});

// ================================================================ G02
} // namespace sim
// Every word the library takes from its generator passes here.
static std::vector<uint32_t> *g_words; static size_t g_wpos; static uint64_t g_wtaken;
extern "C" uint32_t __real__ZN5spffl7bitrand6iran32Ev();
extern "C" uint32_t __wrap__ZN5spffl7bitrand6iran32Ev() {
  if (!g_words) return __real__ZN5spffl7bitrand6iran32Ev();
  g_wtaken++;
  if (g_wpos < g_words->size()) { sim::count(sim::C_f_entropy); return (*g_words)[g_wpos++]; }
  return __real__ZN5spffl7bitrand6iran32Ev();
}
namespace sim {
struct Words { // scripted source, then the real generator
  std::vector<uint32_t> w;
  Words(Rng &r, int n, int style) {
    uint32_t c = (uint32_t)r.next(); int per = r.range(2, 5); std::vector<uint32_t> cyc; for (int i = 0; i < per; i++) cyc.push_back((uint32_t)r.next());
    static const uint32_t edge[] = {0, 0xffffffffu, 0x80000000u, 0x7fffffffu, 1, 0xfffffffeu, 0x0000ffffu, 0xffff0000u, 0x00020000u, 0x0001ffffu, 0x80000001u};
    for (int i = 0; i < n; i++) switch (style) {
      case 0: w.push_back(0); break;
      case 1: w.push_back(0xffffffffu); break;
      case 2: w.push_back(c); break;
      case 3: w.push_back(i & 1 ? 0xffffffffu : 0); break;
      case 4: w.push_back(cyc[i % per]); break;
      case 5: w.push_back(edge[r.below(11)]); break;
      case 6: w.push_back(0x80000000u); break;
      case 7: w.push_back(c + (uint32_t)i); break;
      default: w.push_back((uint32_t)r.next()); break;
    }
    g_words = &w; g_wpos = 0; g_wtaken = 0;
  }
  ~Words() { g_words = nullptr; }
};

static uint64_t f2bits(const f2_poly_t &a) { uint64_t v = 0; int d = a.find_degree(); for (int i = 0; i <= d && i < 64; i++) if (a.bit_at(i)) v |= 1ull << i; return v; }
static std::string f2text(uint64_t v) { return sprintf_s("%llx", (unsigned long long)v); }
template <class T> static std::string text(const T &v) { std::ostringstream o; o << v; return o.str(); }

static const uint64_t F2MODS[] = {0x2, 0x3, 0x6, 0x7, 0xb, 0xc, 0x13, 0x25, 0x43, 0x11b, 0x10000002d & 0x1ffff, 0x8000000000000003ull & 0xfffffffff};
static const int PRIMES[] = {2, 3, 5, 7, 11, 13, 101, 65537, 2147483647};
static const char *G02_KINDS[] = {"int", "intmod", "f2p", "f2pm", "fpp", "fppm", "f2np", "f2npm", "f2irr", "fpirr", "f2nirr", "f2prim", "cover", "spread"};
static void g02_gen(Rng &r, Plan &p) {
  int n = r.range(3, 8);
  { Line &l = p.add("source"); l.setu("s", near_carry(r)); }
  for (int i = 0; i < n; i++) {
    Line &l = p.add("elem"); l.set("kind", G02_KINDS[r.below(14)]); l.set("op", l.str("kind")); l.setu("seed", r.next() >> 20); l.set("style", (long long)r.range(0, 9)); l.set("words", (long long)(r.chance(1, 3) ? r.range(0, 6) : r.range(0, 200)));
    if (r.chance(1, 6)) l.set("oom", (long long)r.range(1, 40));
  }
}
static uint64_t pick_f2mod(Rng &r, int maxdeg) { for (;;) { uint64_t m = r.chance(1, 2) ? F2MODS[r.below(12)] : (r.next() % (2ull << r.range(1, maxdeg))); if (m > 1 && (63 - __builtin_clzll(m)) <= maxdeg) return m; } }
struct Bad { std::string cls, what; };
static f2_poly_t mkf2(uint64_t v) { f2_poly_t a(0); for (int i = 63; i >= 0; i--) if (v >> i & 1) a.set_bit(i); return a; }
// Checks shared by the element kinds.
static std::string chk_f2p(const f2_poly_t &a, int deg) {
  if (a.find_degree() != deg) return sprintf_s("degree %d, not %d", a.find_degree(), deg);
  if (!a.bit_at(deg)) return sprintf_s("leading coefficient is zero");
  std::string t = text(a), w; // degree is also visible in the printed form
  int digits = deg / 4 + 1; if ((int)t.size() != digits) return "printed as " + t;
  (void)w; return "";
}
static std::string chk_f2pm(const f2_polymod_t &a, uint64_t m) {
  f2_poly_t res = a.get_residue(), mod = a.get_modulus(); int d = 63 - __builtin_clzll(m);
  if (f2bits(mod) != m || mod.find_degree() != d) return "modulus " + text(mod) + ", not " + f2text(m);
  if (res.find_degree() >= d) return "residue " + text(res) + " is not reduced modulo " + f2text(m);
  return "";
}
static std::string chk_fpc(const intmod_t &c, int p) {
  if (c.get_modulus() != p) return sprintf_s("coefficient with modulus %d, not %d", c.get_modulus(), p);
  if (c.get_residue() < 0 || c.get_residue() >= p) return sprintf_s("residue %d is not in 0..%d", c.get_residue(), p - 1);
  return "";
}
static std::string chk_fpp(const fp_poly_t &a, int p, int deg, bool exact) {
  int d = a.find_degree(); std::string e;
  if (exact ? d != deg : d > deg) return sprintf_s("degree %d, wanted %s%d", d, exact ? "" : "at most ", deg);
  for (int i = 0; i <= d; i++) if ((e = chk_fpc(a.get_coeff(i), p)) != "") return e;
  if (exact && a.get_coeff(deg).get_residue() == 0) return "leading coefficient is zero";
  if (a.get_characteristic() != p) return sprintf_s("characteristic %d, not %d", a.get_characteristic(), p);
  return "";
}
static std::string chk_f2np(const f2n_poly_t &a, uint64_t m, int deg, bool exact) {
  int d = a.find_degree(); std::string e;
  if (exact ? d != deg : d > deg) return sprintf_s("degree %d, wanted %s%d", d, exact ? "" : "at most ", deg);
  for (int i = 0; i <= d; i++) if ((e = chk_f2pm(a.get_coeff(i), m)) != "") return e;
  if (exact && f2bits(a.get_coeff(deg).get_residue()) == 0) return "leading coefficient is zero";
  return "";
}
static std::vector<int> vec(const fp_poly_t &a) { std::vector<int> v; for (int i = 0; i <= a.find_degree(); i++) v.push_back(a.get_coeff(i).get_residue()); return v; }
static std::vector<int> vec(const f2n_poly_t &a) { std::vector<int> v; for (int i = 0; i <= a.find_degree(); i++) v.push_back((int)f2bits(a.get_coeff(i).get_residue())); return v; }

// One draw of a kind with arguments fixed by the generator; returns what is wrong with it.
struct Draw { std::string desc; std::function<void()> go; std::function<std::string()> judge; std::function<std::string()> id; double set = 0; };
static Draw g02_make(const std::string &kind, Rng &r, bool small) {
  Draw d; typedef std::string S;
  if (kind == "int") {
    auto v = std::make_shared<uint64_t>(); bool w64 = r.chance(1, 2);
    d.desc = w64 ? "get_random_uint64" : "get_random_uint32"; d.go = [=] { *v = w64 ? rnd::get_random_uint64() : rnd::get_random_uint32(); };
    d.judge = [=] { return S(); }; d.id = [=] { return sprintf_s("%llx", (unsigned long long)*v); }; d.set = w64 ? 1.8e19 : 4.2e9;
  } else if (kind == "intmod") {
    int m = small ? r.range(2, 24) : r.chance(1, 2) ? PRIMES[r.below(9)] : r.chance(1, 2) ? r.range(2, 1000) : 2147483647 - (int)r.below(1000);
    auto v = std::make_shared<intmod_t>(0, 2); d.desc = sprintf_s("intmod_random(%d)", m);
    d.go = [=] { *v = rnd::intmod_random(m); }; d.judge = [=] { return chk_fpc(*v, m); }; d.id = [=] { return text(*v); }; d.set = m;
  } else if (kind == "f2p") {
    int deg = small ? r.range(0, 5) : r.chance(1, 4) ? r.range(0, 3) : r.chance(1, 3) ? r.range(29, 35) : r.chance(1, 3) ? r.range(61, 66) : r.range(0, 300);
    auto v = std::make_shared<f2_poly_t>(0); d.desc = sprintf_s("f2_poly_random(%d)", deg);
    d.go = [=] { *v = rnd::f2_poly_random(deg); }; d.judge = [=] { return chk_f2p(*v, deg); }; d.id = [=] { return text(*v); }; d.set = deg > 60 ? 1e18 : (double)(1ull << deg);
  } else if (kind == "f2pm") {
    uint64_t m = pick_f2mod(r, small ? 5 : 36); auto v = std::make_shared<f2_polymod_t>(f2_poly_t(0), mkf2(2)); f2_poly_t mm = mkf2(m);
    d.desc = "f2_polymod_random(" + f2text(m) + ")"; d.go = [=] { *v = rnd::f2_polymod_random(mm); }; d.judge = [=] { return chk_f2pm(*v, m); }; d.id = [=] { return text(*v); }; d.set = (double)(1ull << (63 - __builtin_clzll(m)));
  } else if (kind == "fpp" || kind == "fppm") {
    int p = PRIMES[small ? r.below(3) : kind == "fppm" ? r.below(7) : r.below(9)]; int deg = small ? r.range(kind == "fppm", p == 2 ? 4 : p == 3 ? 3 : 2) : r.range(kind == "fppm", r.chance(1, 5) ? 60 : 8);
    double s = 1; for (int i = 0; i < deg; i++) s *= p;
    if (kind == "fpp") {
      auto v = std::make_shared<fp_poly_t>(0, p); d.desc = sprintf_s("fp_poly_random(%d, %d)", p, deg);
      d.go = [=] { *v = rnd::fp_poly_random(p, deg); }; d.judge = [=] { return chk_fpp(*v, p, deg, true); }; d.id = [=] { return text(*v); }; d.set = s * (p - 1);
    } else {
      fp_poly_t m(0, p); for (int i = deg; i >= 0; i--) m.set_coeff(i, intmod_t(i == deg ? 1 + (int)r.below(p - 1) : (int)r.below(p), p));
      fp_polymod_t z(m, m); auto v = std::make_shared<fp_polymod_t>(z); d.desc = "fp_polymod_random(" + text(m) + sprintf_s(" over F_%d)", p);
      d.go = [=] { *v = rnd::fp_polymod_random(m); };
      d.judge = [=] { if (!(v->get_modulus() == m)) return "modulus " + text(v->get_modulus()); S e = chk_fpp(v->get_residue(), p, deg - 1, false); return e; };
      d.id = [=] { return text(*v); }; d.set = s;
    }
  } else if (kind == "f2np" || kind == "f2npm") {
    uint64_t im = pick_f2mod(r, small ? 2 : 9); int e = 63 - __builtin_clzll(im); double q = 1 << e; int deg = small ? r.range(kind == "f2npm", e == 1 ? 4 : 2) : r.range(kind == "f2npm", 9);
    f2_poly_t m = mkf2(im); double s = 1; for (int i = 0; i < deg; i++) s *= q;
    if (kind == "f2np") {
      auto v = std::make_shared<f2n_poly_t>(0, m); d.desc = "f2n_poly_random(" + f2text(im) + sprintf_s(", %d)", deg);
      d.go = [=] { *v = rnd::f2n_poly_random(m, deg); }; d.judge = [=] { return chk_f2np(*v, im, deg, true); }; d.id = [=] { return text(*v); }; d.set = s * (q - 1);
    } else {
      f2n_poly_t om(0, m); for (int i = deg; i >= 0; i--) om.set_coeff(i, f2_polymod_t(mkf2(i == deg ? 1 : r.below((uint64_t)q)), m));
      f2n_polymod_t z(om, om); auto v = std::make_shared<f2n_polymod_t>(z); d.desc = "f2n_polymod_random(" + f2text(im) + ", " + text(om) + ")";
      d.go = [=] { *v = rnd::f2n_polymod_random(m, om); };
      d.judge = [=] { if (!(v->get_modulus() == om)) return "modulus " + text(v->get_modulus()); return chk_f2np(v->get_residue(), im, deg - 1, false); };
      d.id = [=] { return text(*v); }; d.set = s;
    }
  } else if (kind == "f2irr" || kind == "f2prim") {
    bool prim = kind == "f2prim"; int need = prim ? (int)r.below(2) : 0;
    int deg = small ? r.range(1, 6) : prim ? r.range(1, need ? 13 : 8) : r.range(1, 24);
    auto v = std::make_shared<f2_poly_t>(0); d.desc = prim ? sprintf_s("f2_poly_random_prim(%d, %d)", deg, need) : sprintf_s("f2_poly_random_irreducible(%d)", deg);
    d.go = [=] { *v = prim ? spffl::units::f2_poly_random_prim(deg, need) : fac::f2_poly_random_irreducible(deg); };
    d.judge = [=]() -> S {
      S e = chk_f2p(*v, deg); if (e != "") return e; uint64_t f = f2bits(*v);
      if (!prim || need) { if (!f2irr(f)) return "not irreducible"; count(C_p_irreducible); }
      if (prim && !f2prim(f)) return "not primitive";
      return "";
    };
    d.id = [=] { return text(*v); };
    if (small) { long c = 0; for (uint64_t f = 1ull << deg; f < (2ull << deg); f++) { if (f == 2) continue; if (!prim) { if (f2irr(f)) c++; continue; }
        if ((!need || f2irr(f)) && f2prim(f)) c++; } d.set = (double)c; }
  } else if (kind == "fpirr") {
    int p = PRIMES[small ? r.below(3) : r.below(6)]; int top = p == 2 ? 14 : p == 3 ? 8 : p == 5 ? 6 : p == 7 ? 5 : 4; int deg = small ? r.range(1, p == 2 ? 5 : p == 3 ? 3 : 2) : r.range(1, top);
    auto v = std::make_shared<fp_poly_t>(0, p); d.desc = sprintf_s("fp_poly_random_irr(%d, %d)", p, deg); auto F = std::make_shared<Fq>(Fq::prime(p));
    d.go = [=] { *v = fac::fp_poly_random_irr(p, deg); };
    d.judge = [=]() -> S { S e = chk_fpp(*v, p, deg, true); if (e != "") return e; if (!F->irr(vec(*v))) return "not irreducible"; count(C_p_irreducible); return ""; };
    d.id = [=] { return text(*v); };
    if (small) { long c = 0; std::vector<int> g(deg + 1, 0); g[deg] = 1; for (;;) { if (g[0] && F->irr(g)) c++; int i = 0; while (i < deg && ++g[i] == p) g[i++] = 0; if (i == deg) break; } d.set = (double)c; }
  } else { // f2nirr
    static const uint64_t FM[] = {0x7, 0xb, 0xd, 0x13}; uint64_t im = FM[small ? r.below(2) : r.below(4)]; int q = 1 << (63 - __builtin_clzll(im)); int deg = small ? (q == 4 ? r.range(1, 2) : 1) : r.range(1, q == 4 ? 4 : q == 8 ? 3 : 2);
    f2_poly_t m = mkf2(im); auto v = std::make_shared<f2n_poly_t>(0, m); auto F = std::make_shared<Fq>(Fq::two(im)); d.desc = "f2n_poly_random_irr(" + f2text(im) + sprintf_s(", %d)", deg);
    d.go = [=] { *v = fac::f2n_poly_random_irr(m, deg); };
    d.judge = [=]() -> S { S e = chk_f2np(*v, im, deg, true); if (e != "") return e; if (!F->irr(vec(*v))) return "not irreducible"; count(C_p_irreducible); return ""; };
    d.id = [=] { return text(*v); };
    if (small) { long c = 0; std::vector<int> g(deg + 1, 0); g[deg] = 1; for (;;) { if (g[0] && F->irr(g)) c++; int i = 0; while (i < deg && ++g[i] == q) g[i++] = 0; if (i == deg) break; } d.set = (double)c; }
  }
  return d;
}
static void g02_exec(const Plan &p) {
  const Line *src = p.first("source"); uint64_t s0 = src ? src->u64("s") : 1;
  os::clock_set(os::Clock()); int ncase = 0;
  br::sran32b((uint32_t)(mix64(s0) >> 32), (uint32_t)mix64(s0 + 1));
  for (auto &l : p.lines) {
    if (l.kind != "elem") continue;
    Rng r(l.u64("seed")); std::string kind = l.str("kind"); bool cover = kind == "cover", spread = kind == "spread";
    if (cover || spread) { static const char *K[] = {"intmod", "f2p", "f2pm", "fpp", "fppm", "f2np", "f2npm", "f2irr", "fpirr", "f2nirr", "f2prim", "int"}; kind = K[spread ? (r.chance(1, 6) ? 11 : r.below(7)) : r.below(11)]; }
    Draw d = g02_make(kind, r, cover);
    running(d.desc + ": " + l.text()); count(C_cases); ncase++;
    try {
      if (cover) {
        // Every element of a small set turns up.
        long n = (long)(d.set * 40) + 30; if (d.set > 32) continue; std::set<std::string> seen;
        for (long i = 0; i < n; i++) { d.go(); std::string e = d.judge(); count(C_oracle); if (e != "") violate("bad-element:" + kind, d.desc + " gives " + d.id() + ": " + e); seen.insert(d.id()); }
        ev("cover %s %zu", d.desc.c_str(), seen.size()); distinct(hash_str("cover" + d.desc));
        if ((double)seen.size() < d.set) violate("never-produced:" + kind, d.desc + sprintf_s(": %ld draws show %zu of the %.0f admissible elements", n, seen.size(), d.set));
        if ((double)seen.size() > d.set) violate("outside-set:" + kind, d.desc + sprintf_s(": %ld draws show %zu elements, the requested set has %.0f", n, seen.size(), d.set));
        continue;
      }
      if (spread) {
        // Large sets: no two of a few hundred draws may agree when that is astronomically unlikely.
        std::set<std::string> seen; int n = 200;
        for (int i = 0; i < n; i++) { d.go(); std::string e = d.judge(); count(C_oracle); if (e != "") violate("bad-element:" + kind, d.desc + " gives " + d.id() + ": " + e); seen.insert(d.id()); }
        ev("spread %s %zu", d.desc.c_str(), seen.size()); distinct(hash_str("spread" + d.desc));
        if (d.set > 1e17 && (int)seen.size() < n) violate("too-few:" + kind, d.desc + sprintf_s(": %d draws show only %zu different elements of about %.2g", n, seen.size(), d.set));
        if (d.set > 64 && (int)seen.size() < 30) violate("too-few:" + kind, d.desc + sprintf_s(": %d draws show only %zu different elements of %.2g", n, seen.size(), d.set));
        continue;
      }
      Words w(r, (int)l.num("words"), (int)l.num("style"));
      if (l.has("oom")) { // abandoned draw first: the next one must still be right
        os::AllocPlan ap; ap.fail.push_back(l.u64("oom")); bool oom = false;
        os::alloc_on(&ap); try { d.go(); os::alloc_off(); } catch (const std::bad_alloc &) { os::alloc_off(); oom = true; } 
        if (os::alloc_fired()) count(C_f_alloc, os::alloc_fired());
        if (oom) count(C_p_oom_reported); else { std::string e = d.judge(); if (e != "") violate("bad-element:" + kind, d.desc + " (allocation failed) gives " + d.id() + ": " + e); }
      }
      d.go(); std::string e = d.judge(); count(C_oracle);
      ev("%s -> %s (%llu words)", d.desc.c_str(), d.id().c_str(), (unsigned long long)g_wtaken); distinct(mix(hash_str(d.desc), mix(l.num("style"), l.num("words"))));
      if (e != "") violate("bad-element:" + kind, d.desc + " gives " + d.id() + ": " + e);
    } catch (const std::exception &x) { violate("threw:" + kind, d.desc + ": " + x.what()); }
    catch (const spffl::exception_t &x) { violate("threw:" + kind, d.desc + ": " + x.what()); }
  }
  R->nontrivial = ncase > 0;
}
static PropReg g02_reg({"G02", g02_gen, g02_exec, 6000, 100000,
  "an evaluation counts once per distinct request, source style and number of scripted words",
  "spffl/random, spffl/factorization (irreducible search), spffl/units (primitive search), spffl/bitrand after the scripted words",
  "the first words of the random source (scripted: zeros, ones, constants, cycles, edge words); clock; failing allocations"});

// ================================================================ G03
static void g03_gen(Rng &r, Plan &p) {
  Line &h = p.add("device"); h.setu("seed", r.next() >> 20);
  int no = r.chance(1, 3) ? r.range(1, 3) : 0;
  for (int i = 0; i < no; i++) { static const int E[] = {0, EMFILE, ENOENT, EACCES, EINTR, ENFILE}; p.add("open").set("err", (long long)E[r.below(6)]); }
  int n = r.range(1, 14);
  for (int i = 0; i < n; i++) {
    Line &l = p.add("read"); int k = r.range(0, 9);
    if (k < 5) { l.set("kind", (long long)0); l.set("n", (long long)(r.chance(1, 3) ? r.range(1, 3) : r.chance(1, 3) ? r.range(4, 40) : r.chance(1, 2) ? r.range(39990, 40010) : r.range(41, 9000))); }
    else if (k < 7) l.set("kind", (long long)1);
    else if (k < 9) l.set("kind", (long long)2);
    else l.set("kind", (long long)3);
  }
  int d = r.range(2, 8);
  for (int i = 0; i < d; i++) { Line &l = p.add("draw"); l.set("how", (long long)r.range(0, 2)); l.set("n", (long long)(r.chance(1, 4) ? r.range(200, 3000) : r.chance(1, 8) ? r.range(9990, 10500) : r.range(1, 12))); }
}
static void g03_exec(const Plan &p) {
  os::dev = os::Dev(); os::dev.active = true;
  os::clock_set(os::Clock()); br::sran32b(1, 2345);
  if (const Line *h = p.first("device")) os::dev.seed = h->u64("seed", 1);
  for (auto l : p.all("open")) os::dev.open_results.push_back((int)l->num("err"));
  for (auto l : p.all("read")) { os::DevStep s{(int)l->num("kind"), (int)l->num("n", 1)}; if (s.kind < 0 || s.kind > 3) s.kind = 0; os::dev.reads.push_back(s); }
  uint64_t next = 0, words = 0, errors = 0; int consecutive = 0;
  auto match = [&](uint32_t w, const char *what) {
    count(C_oracle);
    for (uint64_t o = next; o + 4 <= os::dev.pos; o++) {
      uint32_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | os::dev.byte(o + i);
      if (v == w) { next = o + 4; return; }
    }
    bool before = false; for (uint64_t o = 0; o + 4 <= next && !before; o++) { uint32_t v = 0; for (int i = 3; i >= 0; i--) v = v << 8 | os::dev.byte(o + i); before = v == w; }
    violate(before ? "used-again" : "not-from-device", std::string(what) + sprintf_s(": word %llu is 0x%08x, %s (device supplied %llu bytes, used up to byte %llu)", (unsigned long long)words, w, before ? "which was already used" : "which the device did not supply as four bytes in a row", (unsigned long long)os::dev.pos, (unsigned long long)next));
  };
  auto left = [&] { return os::dev.oi < os::dev.open_results.size() || os::dev.ri < os::dev.reads.size(); };
  uint64_t drawsleft = 0;
  auto one = [&](int how) {
    static const char *N[] = {"get_random_int", "get_random_uint32", "get_random_uint64"};
    bool faults = left(); size_t oi = os::dev.oi, ri = os::dev.ri;
    try {
      if (how == 2) { uint64_t v = rnd::ur_get_random_uint64(); ev("u64 %llx", (unsigned long long)v); match((uint32_t)v, N[2]); words++; match((uint32_t)(v >> 32), N[2]); words++; }
      else { uint32_t v = how ? rnd::ur_get_random_uint32() : (uint32_t)rnd::ur_get_random_int(); ev("u32 %x", v); match(v, N[how]); words++; }
      consecutive = 0;
    } catch (const std::exception &e) { errors++; ev("error"); consecutive++; }
    catch (const spffl::exception_t &e) { errors++; ev("error"); consecutive++; }
    count(C_steps);
    // An error needs a reason: some open or read since the previous draw failed or ended.
    if (consecutive) {
      bool reason = false;
      for (size_t i = oi; i < os::dev.oi && i < os::dev.open_results.size(); i++) reason |= os::dev.open_results[i] != 0;
      for (size_t i = ri; i < os::dev.ri && i < os::dev.reads.size(); i++) reason |= os::dev.reads[i].kind >= 2;
      if (!reason) violate("error-without-fault", std::string(N[how]) + ": reports an error although no open or read failed");
    }
    (void)faults;
  };
  for (auto l : p.all("draw")) {
    running("random device: " + l->text());
    for (long long i = 0, n = l->num("n", 1); i < n && i < 30000; i++) { one((int)((l->num("how") % 3 + 3) % 3)); drawsleft++; }
  }
  // Once the device works again so do the draws.
  running("random device: draws after the faults stop");
  int extra = 0; while (left() && extra < 200000) { one(1); extra++; }
  if (left()) { /* the code stopped reading: it must then be delivering words, which were checked */ }
  uint64_t e0 = errors; for (int i = 0; i < 3; i++) one(1);
  if (errors != e0) violate("never-recovers", sprintf_s("the device works again but %llu of 3 draws still fail", (unsigned long long)(errors - e0)));
  if (os::dev_open_count() > 1) violate("device-left-open", sprintf_s("%d descriptors for the device are open", os::dev_open_count()));
  count(C_p_retry_ok); R->nontrivial = words > 0; count(C_histories);
  uint64_t h = 0; for (auto &l : p.lines) h = mix(h, hash_str(l.text())); distinct(h);
}
static PropReg g03_reg({"G03", g03_gen, g03_exec, 12000, 240000,
  "a history counts once per distinct script of the device and the draws",
  "spffl/random/int_random.cpp built with USE_DEV_URANDOM", "the random device: failing opens, short, interrupted, failing reads, end of file"});
} // namespace sim
