// Driver units: the real headers of /repo, included in the order that lets them be used
// without the R back end, and the layout of the objects the contracts talk about.
#pragma once
#ifndef STANDALONE_ETR
#define STANDALONE_ETR
#endif
#define ALLOCATION_UTILS_ETR_H
#define ALLOCATION_ETR_H
#include "etr_bits/Core.hpp"
#include "etr_bits/BinaryCalculations.hpp"
#include "etr_bits/UnaryCalculations.hpp"
#include "etr_bits/Vector/VectorClass.hpp"
#undef ALLOCATION_UTILS_ETR_H
#undef ALLOCATION_ETR_H
#include "etr.hpp"
#include <cstddef>
using namespace etr;
using VD = Vec<double>;
using VI = Vec<int>;
using VB = Vec<bool>;
using WD = Vec<double, Borrow<double>>;
#define LAY(N, V)                                                              \
  extern "C" const unsigned long lay_##N[] = {                                 \
      sizeof(V),                 offsetof(V, d),                               \
      offsetof(V, d.p),          offsetof(V, d.sz),                            \
      offsetof(V, d.capacity),   offsetof(V, d.allocated),                     \
      offsetof(V, d.mp.ismatrix), offsetof(V, d.mp.rows),                      \
      offsetof(V, d.mp.cols),    offsetof(V, temp),                            \
      offsetof(V, temp.p),       offsetof(V, temp.sz),                         \
      offsetof(V, temp.capacity), offsetof(V, temp.allocated),                 \
      offsetof(V, temp.mp.ismatrix), offsetof(V, temp.mp.rows),                \
      offsetof(V, temp.mp.cols)};
LAY(VD, VD)
LAY(VI, VI)
LAY(VB, VB)
LAY(WD, WD)
using BD = Buffer<double>;
using BI = Buffer<int>;
using BB = Buffer<bool>;
using BS = Indices;
#define LAYB(N, V)                                                             \
  extern "C" const unsigned long lay_##N[] = {                                 \
      sizeof(V),                 0,                                            \
      offsetof(V, p),          offsetof(V, sz),                                \
      offsetof(V, capacity),   offsetof(V, allocated),                         \
      offsetof(V, mp.ismatrix), offsetof(V, mp.rows),                          \
      offsetof(V, mp.cols)};
LAYB(BD, BD)
LAYB(BI, BI)
LAYB(BB, BB)
LAYB(BS, BS)
#define DRV extern "C" void
