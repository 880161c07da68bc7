"""C02 comparisons"""
from prop import Prop
from lib import *

prop = Prop('C02', ['C02.cpp'], replay='C02.cpp')
TOL = fconst(Fraction(1e-3))


def fabs(x):
    return ufun('fabs')(x)


D = {'eq': lambda x, y: flt(fabs(fbin('fsub', x, y)), TOL), 'ne': lambda x, y: flt(TOL, fabs(fbin('fsub', x, y))),
     'lt': flt, 'le': fle, 'gt': lambda x, y: flt(y, x), 'ge': lambda x, y: fle(y, x)}
N = {'lt': lt, 'le': le, 'gt': lambda x, y: lt(y, x), 'ge': lambda x, y: le(y, x)}


def inum(x, j):
    return at(x, j) if isinstance(x, Store) else x


def cmp(op, kinds):
    def fn(c, st, o, j):
        if all(k in 'Ii' for k in kinds):
            if op in N:
                return bit(N[op](inum(o[0], j), inum(o[1], j)))
            d = c.ex.wrap(st, sub(inum(o[0], j), inum(o[1], j)), 32)
            return bit(flt(fabs(i2f(I(d))), TOL) if op == 'eq' else flt(TOL, fabs(i2f(I(d)))))
        return bit(D[op](opnd(o[0], j), opnd(o[1], j)))
    return fn


for op in D:
    for kind, ts in (('dd', 'DD'), ('ds', 'Ds'), ('sd', 'sD'), ('di', 'DI'), ('id', 'ID'), ('ii', 'II'), ('is', 'Ii')):
        prop.case('%s_%s' % (op, kind), elementwise('drv_%s_%s' % (op, kind), 'B', ts, cmp(op, ts)))
    prop.case(op + '_fresh', elementwise('drv_%s_dd' % op, 'B', 'DD', cmp(op, 'DD'), alloc=False))


def nest(c, st, o, j):
    k = emod(j, mx(o[0].n, o[1].n))
    return bit(flt(fbin('fadd', at(o[0], k), at(o[1], k)), at(o[2], j)))


prop.case('nested', elementwise('drv_nest', 'B', 'DDD', nest, alloc=False), weight=3)
