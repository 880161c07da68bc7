"""C03 unary functions"""
from prop import Prop
from lib import *

prop = Prop('C03', ['C03.cpp'], replay='C03.cpp')
FN = {'neg': 'fneg', 'sinus': 'sin', 'asinus': 'asin', 'sinush': 'sinh', 'cosinus': 'cos', 'acosinus': 'acos', 'cosinush': 'cosh', 'tangens': 'tan',
      'atangens': 'atan', 'tangensh': 'tanh', 'exp': 'exp', 'ln': 'log', 'sqroot': 'sqrt'}


def F1(n, x):
    return ufun(FN[n])(x)


for n in FN:
    prop.case(n, elementwise('drv_' + n, 'D', 'D', lambda c, st, o, j, n=n: F1(n, at(o[0], j)), shape=True))
prop.case('sinus_fresh', elementwise('drv_sinus', 'D', 'D', lambda c, st, o, j: F1('sinus', at(o[0], j)), alloc=False, shape=True))
prop.case('sinus_int', elementwise('drv_int', 'D', 'I', lambda c, st, o, j: F1('sinus', num(o[0], j)), shape=True))
prop.case('neg_int', elementwise('drv_negint', 'I', 'I', lambda c, st, o, j: c.ex.wrap(st, sub(0, at(o[0], j)), 32), shape=True))
prop.case('sinus_of_sum', elementwise('drv_expr', 'D', 'DD', lambda c, st, o, j: F1('sinus', fbin('fadd', at(o[0], j), at(o[1], j)))))
prop.case('neg_of_product', elementwise('drv_expr2', 'D', 'DD', lambda c, st, o, j: F1('neg', fbin('fmul', at(o[0], j), at(o[1], j)))))
prop.case('exp_of_sinus', elementwise('drv_expr3', 'D', 'D', lambda c, st, o, j: F1('exp', F1('sinus', at(o[0], j))), shape=True))
prop.case('sum_with_sqroot', elementwise('drv_expr4', 'D', 'DD', lambda c, st, o, j: fbin('fadd', at(o[0], j), F1('sqroot', at(o[1], j)))))
