// Calls that hand vectors, matrices and numbers something they refuse.
#pragma once
#include "ops_mat.h"
namespace sim::ops {
template <class K> void reg_refuse(const std::string &k) {
  typedef typename K::E E; typedef tmatrix<E> M; typedef tvector<E> V;
  OPB(k + "_m_refuse", 0, GENB({ auto x = K::ctx(r); int m = dim<K>(r, 3), n = dim<K>(r, 3); int c = r.range(0, 23); M A = mat<K>(r, m, n, x), B = mat<K>(r, m, n + 1, x), C = mat<K>(r, n + 1, m, x), S = mat<K>(r, m, m + 1, x); V v = vec<K>(r, n + 1, x), w = vec<K>(r, m + 1, x);
    return std::tuple{A, B, C, S, v, w, K::of(0, x), K::of(1, x), c}; }), {
    M A = $0, B = $1, C = $2, S = $3, t; V v = $4, w = $5;
    switch ($8) {
    case 0: t = A + B; break;
    case 1: t = A - B; break;
    case 2: t = A * C; break;
    case 3: v = A * v; break;
    case 4: v = w * A; break;
    case 5: A += B; break;
    case 6: A -= B; break;
    case 7: A *= C; break;
    case 8: t = S + $7; break;
    case 9: t = S - $7; break;
    case 10: S.exp(3, t); break;
    case 11: t = S.make_I($6, $7); break;
    case 12: t = A.paste(C.get_num_rows() == A.get_num_rows() ? S.transpose() : C); break;
    case 13: t = A.paste_vector(w); break;
    case 14: { M l, rt; A.split(l, rt, A.get_num_cols() + 1); break; }
    case 15: A.put_column(A.get_num_cols(), w); break;
    case 16: A.put_column(0, w); break;
    case 17: v = A.get_column(-1); break;
    case 18: v = A[A.get_num_rows()]; break;
    case 19: t = M(0, 2); break;
    case 20: t = M($6, 2, -1); break;
    case 21: if constexpr (K::field) { E d = S.det(); (void)d; } break;
    case 22: if constexpr (K::field) S.inverse(t); break;
    default: A.store_to_file_or_die((char *)"/nonexistent/none"); break;
    }
    return 0; });
  OPB(k + "_v_refuse", 0, GENB({ auto x = K::ctx(r); int n = dim<K>(r, 4); int c = r.range(0, 8); return std::tuple{vec<K>(r, n, x), vec<K>(r, n + r.range(1, 3), x), K::of(1, x), c}; }), {
    V v = $0, w = $1, t; E e;
    switch ($3) {
    case 0: t = v + w; break;
    case 1: t = v - w; break;
    case 2: e = v.dot(w); break;
    case 3: t = v * w; break;
    case 4: t = V(0); break;
    case 5: t = V($2, -1); break;
    case 6: e = v[v.get_num_elements()]; break;
    case 7: v += w; break;
    default: v -= w; break;
    }
    return 0; });
}
} // namespace sim::ops
