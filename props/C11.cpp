#include "common.hpp"
// m[rows, cols] = w (a vector, a scalar) for every combination of index types; T is TRUE
#define ONE(A, B, TA, TB, EA, EB) \
  DRV drv_##A##_##B(VD &m, TA i, TB k, VD &w) { subset(m, EA, EB) = w; } \
  DRV drv_##A##_##B##_s(VD &m, TA i, TB k, double w) { subset(m, EA, EB) = w; }
#define ROW(A, TA, EA)             \
  ONE(A, T, TA, bool, EA, k)       \
  ONE(A, I, TA, int, EA, k)        \
  ONE(A, D, TA, double, EA, k)     \
  ONE(A, VI, TA, VI &, EA, k)      \
  ONE(A, VD, TA, VD &, EA, k)      \
  ONE(A, VB, TA, VB &, EA, k)
ROW(T, bool, i)
ROW(I, int, i)
ROW(D, double, i)
ROW(VI, VI &, i)
ROW(VD, VD &, i)
ROW(VB, VB &, i)
DRV drv_int(VI &m, VI &i, VI &k, VI &w) { subset(m, i, k) = w; }
DRV drv_bool(VB &m, VI &i, int k, bool w) { subset(m, i, k) = w; }
DRV drv_sum(VD &m, VI &i, VI &k, VD &v, VD &w) { subset(m, i, k) = v * w; }
DRV drv_self(VD &m, VI &i, VI &k) { subset(m, i, k) = m; }
DRV drv_own(VD &m, VI &i, int k, int l) { subset(m, i, k) = subset(m, i, l); }
DRV drv_borrow(WD &m, VI &i, VI &k, VD &w) { subset(m, i, k) = w; }
DRV drv_intscalar(VD &m, int i, bool k, int w) { subset(m, i, k) = w; }
DRV drv_call(VD &m, VI &i, VI &k, double w) { m(i, k) = w; }
