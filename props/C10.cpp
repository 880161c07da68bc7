#include "common.hpp"
// r = m[rows, cols] for every combination of index types; T is TRUE
#define ONE(A, B, TA, TB, EA, EB) DRV drv_##A##_##B(VD &r, VD &m, TA i, TB k) { r = subset(m, EA, EB); }
#define ROW(A, TA, EA)             \
  ONE(A, T, TA, bool, EA, k)       \
  ONE(A, I, TA, int, EA, k)        \
  ONE(A, D, TA, double, EA, k)     \
  ONE(A, VI, TA, VI &, EA, k)      \
  ONE(A, VD, TA, VD &, EA, k)      \
  ONE(A, VB, TA, VB &, EA, k)
ROW(T, bool, i)
ROW(I, int, i)
ROW(D, double, i)
ROW(VI, VI &, i)
ROW(VD, VD &, i)
ROW(VB, VB &, i)
DRV drv_int(VI &r, VI &m, VI &i, VB &k) { r = subset(m, i, k); }
DRV drv_bool(VB &r, VB &m, VI &i, int k) { r = subset(m, i, k); }
DRV drv_op(VD &r, VD &m, double s, VI &i, VI &k) { r = subset(m + s, i, k); }
DRV drv_op_row(VD &r, VD &m, double s, int i, bool k) { r = subset(m + s, i, k); }
DRV drv_borrow(VD &r, WD &m, VI &i, VI &k) { r = subset(m, i, k); }
DRV drv_in_op(VD &r, VD &m, VI &i, int k, double s) { r = subset(m, i, k) + s; }
DRV drv_call(VD &r, VD &m, VI &i, VI &k) { r = m(i, k); }

DRV it_VI_VI(double *out, VD &m, VI &i, VI &k) { for (double x : subset(m, i, k)) *out++ = x; }
