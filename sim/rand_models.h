// Small independent models for polynomials over finite fields.
#ifndef SIM_RAND_MODELS_H
#define SIM_RAND_MODELS_H
#include <stdint.h>
#include <vector>
namespace sim {
// Independent models.  F_q elements are 0..q-1 with given tables.
static uint64_t f2mulmod(uint64_t a, uint64_t b, uint64_t m, int d) { uint64_t r = 0; while (b) { if (b & 1) r ^= a; b >>= 1; a <<= 1; if (a >> d & 1) a ^= m; } return r; }
static uint64_t f2rem(uint64_t a, uint64_t b) { int db = 63 - __builtin_clzll(b); while (a >> db) { int da = 63 - __builtin_clzll(a); a ^= b << (da - db); } return a; }
static bool f2irr(uint64_t f) { int d = 63 - __builtin_clzll(f); if (d < 1) return false; for (uint64_t g = 2; (63 - __builtin_clzll(g)) * 2 <= d; g++) if (f2rem(f, g) == 0) return false; return true; }
static uint64_t f2gcd(uint64_t a, uint64_t b) { while (b) { uint64_t t = f2rem(a, b); a = b; b = t; } return a; }
struct Fq { // small field given by tables
  int q; std::vector<int> mul; // q*q
  std::vector<int> add, inv, neg;
  static Fq prime(int p) { Fq f; f.q = p; f.mul.resize(p * p); f.add.resize(p * p); for (int a = 0; a < p; a++) for (int b = 0; b < p; b++) { f.mul[a * p + b] = (int)((long long)a * b % p); f.add[a * p + b] = (a + b) % p; } f.fin(); return f; }
  static Fq two(uint64_t m) { Fq f; int d = 63 - __builtin_clzll(m); int q = 1 << d; f.q = q; f.mul.resize(q * q); f.add.resize(q * q); for (int a = 0; a < q; a++) for (int b = 0; b < q; b++) { f.mul[a * q + b] = (int)f2mulmod(a, b, m, d); f.add[a * q + b] = a ^ b; } f.fin(); return f; }
  void fin() { inv.assign(q, 0); neg.assign(q, 0); for (int a = 0; a < q; a++) for (int b = 0; b < q; b++) { if (mul[a * q + b] == 1) inv[a] = b; if (add[a * q + b] == 0) neg[a] = b; } }
  bool divides(const std::vector<int> &g, std::vector<int> f) const { // g monic, little-endian
    int dg = (int)g.size() - 1;
    for (int i = (int)f.size() - 1; i >= dg; i--) if (f[i]) { int c = neg[f[i]]; for (int j = 0; j <= dg; j++) f[i - dg + j] = add[f[i - dg + j] * q + mul[c * q + g[j]]]; }
    for (int x : f) if (x) return false; return true;
  }
  bool irr(const std::vector<int> &f) const { // by trial division by every monic polynomial of at most half the degree
    int d = (int)f.size() - 1; if (d < 1) return false;
    for (int k = 1; 2 * k <= d; k++) {
      std::vector<int> g(k + 1, 0); g[k] = 1;
      for (;;) { if (divides(g, f)) return false; int i = 0; while (i < k && ++g[i] == q) g[i++] = 0; if (i == k) break; }
    }
    return true;
  }
};
static bool f2prim(uint64_t f) { // x generates the units modulo f
  int deg = 63 - __builtin_clzll(f); uint64_t units = 0; for (uint64_t a = 1; a < (1ull << deg); a++) if (f2gcd(f, a) == 1) units++;
  uint64_t x = f2rem(2, f), y = x, o = 1; while (y != 1 && o <= units) { if (!y) break; y = f2rem(f2mulmod(y, x, f, deg), f); o++; }
  return y == 1 && o == units;
}
} // namespace sim
#endif
