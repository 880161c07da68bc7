#include "common.hpp"
#define UN(N, EX)                                                              \
  DRV drv_##N(VD &r, VD &a) { r = EX(a); }
UN(neg, -)
UN(sinus, sinus)
UN(asinus, asinus)
UN(sinush, sinush)
UN(cosinus, cosinus)
UN(acosinus, acosinus)
UN(cosinush, cosinush)
UN(tangens, tangens)
UN(atangens, atangens)
UN(tangensh, tangensh)
UN(exp, etr::exp)
UN(ln, ln)
UN(sqroot, sqroot)
DRV drv_expr(VD &r, VD &a, VD &b) { r = sinus(a + b); }
DRV drv_expr2(VD &r, VD &a, VD &b) { r = -(a * b); }
DRV drv_expr3(VD &r, VD &a) { r = etr::exp(sinus(a)); }
DRV drv_expr4(VD &r, VD &a, VD &b) { r = a + sqroot(b); }
DRV drv_negint(VI &r, VI &a) { r = -a; }
DRV drv_int(VD &r, VI &a) { r = sinus(a); }
