#include "common.hpp"
#define AT1(S, V, E)                                                           \
  DRV S##_i(V &v, int i, E &o) { o = at(v, i); }                               \
  DRV S##_z(V &v, std::size_t i, E &o) { o = at(v, i); }                       \
  DRV S##_d(V &v, double i, E &o) { o = at(v, i); }                            \
  DRV S##_wi(V &v, int i, E x) { at(v, i) = x; }                               \
  DRV S##_wz(V &v, std::size_t i, E x) { at(v, i) = x; }                       \
  DRV S##_wd(V &v, double i, E x) { at(v, i) = x; }                            \
  DRV S##_ii(V &v, int i, int k, E &o) { o = at(v, i, k); }                    \
  DRV S##_di(V &v, double i, int k, E &o) { o = at(v, i, k); }                 \
  DRV S##_id(V &v, int i, double k, E &o) { o = at(v, i, k); }                 \
  DRV S##_dd(V &v, double i, double k, E &o) { o = at(v, i, k); }              \
  DRV S##_zz(V &v, std::size_t i, std::size_t k, E &o) { o = at(v, i, k); }    \
  DRV S##_wii(V &v, int i, int k, E x) { at(v, i, k) = x; }                    \
  DRV S##_wdi(V &v, double i, int k, E x) { at(v, i, k) = x; }                 \
  DRV S##_wid(V &v, int i, double k, E x) { at(v, i, k) = x; }                 \
  DRV S##_wdd(V &v, double i, double k, E x) { at(v, i, k) = x; }              \
  DRV S##_wzz(V &v, std::size_t i, std::size_t k, E x) { at(v, i, k) = x; }
AT1(vd, VD, double)
AT1(vi, VI, int)
AT1(vb, VB, bool)
AT1(wd, WD, double)
#define AT2(S, X)                                                              \
  DRV S##_ii(VD &v, int i, int k, double &o) { o = at(X, i, k); }              \
  DRV S##_di(VD &v, double i, int k, double &o) { o = at(X, i, k); }           \
  DRV S##_id(VD &v, int i, double k, double &o) { o = at(X, i, k); }           \
  DRV S##_dd(VD &v, double i, double k, double &o) { o = at(X, i, k); }
AT2(op, v + v)
AT2(un, -v)
DRV twice(VD &v, int i, int k, double x) { at(v, i) = x; at(v, k) = at(v, i); }
