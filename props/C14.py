"""C14 the colon operator"""
from prop import Prop
from lib import *
from C13 import wrap

prop = Prop('C14', ['C14.cpp'], replay='C14.cpp', fporder=True)
prop.assumptions += ['bounds are finite and the length of the sequence fits an int (hence no integer overflow)',
                     'rounding is monotone: a rounded sum or difference lies on the same side of its operands (of zero) as the exact one']


def twice(x, T):
    v = raw(x, 0) if isinstance(x, Store) else x
    return wrap(add(v, v)) if T == 'J' else fbin('fadd', v, v) if T == 'E' else v


def seq(fname, kinds, bounds=None, rT=None, pre=None, alias=False, new=False, plus=False):
    def go(c):
        ops = []
        for k, T in enumerate(kinds):
            x = 'abdefg'[k]
            ops.append(c.scalar({'s': 'D', 'd': 'D', 'i': 'I', 'b': 'B'}[T], x) if T in 'sdib' else
                       c.vec('D', x, matrix='any', layname='WD', owned=None) if T == 'W' else c.vec({'J': 'I', 'E': 'D'}.get(T, T), x, matrix='any', temp='alloc' if alias and k == 0 else None))

        def first(x):
            v = raw(x, 0) if isinstance(x, Store) else x
            return bit(v) if z3.is_bool(v) else v
        a, b = bounds(ops) if bounds else (first(ops[0]), first(ops[1]))
        T = 'D' if any(I(x).sort().eq(F) for x in (a, b)) else 'I'
        if T == 'D':
            a, b = (x if I(x).sort().eq(F) else i2f(I(x)) for x in (a, b))
            for x in (a, b):
                c.assume(z3.And(z3.Not(nan(x)), val(x) < INFV, val(x) > -INFV))
            one = fconst(1)
            ln = lambda lo, hi: fbin('fadd', fbin('fsub', hi, lo), one)
            up = flt(a, b)
            d = ite(up, ln(a, b), ln(b, a))
            c.assume(val(d) < 2 ** 31)
            n = ite(up, ftrunc_int(ln(a, b)), ftrunc_int(ln(b, a)))
        else:
            up = lt(a, b)
            n = ite(up, add(sub(b, a), 1), add(sub(a, b), 1))
            c.assume(B(le(n, SZMAX)))
        if alias:
            r = ops[0]
            R = r.T
        else:
            R = rT or T
            r = c.raw(R, 'r') if new else target(c, R, True)

        def elt(j):
            e = ite(up, fbin('fadd', a, i2f(I(j))), fbin('fsub', a, i2f(I(j)))) if T == 'D' else ite(up, add(a, j), sub(a, j))
            return i2f(e) if T == 'I' and R == 'D' else e
        m = mx(n, ops[-1].n) if plus else n
        for o in c.run(fname, ops if alias else [r] + ops):
            if o.kind != 'ret':
                c.require(o.st, 'the sequence is created', False)
                continue
            c.forall_elts(o.st, r, m, lambda j: fbin('fadd', elt(emod(j, n)), at(ops[-1], j)) if plus else elt(j), 'sequence')
            if not plus:
                c.shape(o.st, r, 0)
            c.clean(o, [r])
    return go


for n, k in (('ii', 'ii'), ('dd', 'ss'), ('id', 'is'), ('di', 'si'), ('bi', 'bi'), ('Dd', 'Ds'), ('Di', 'Di'), ('Id', 'Is'), ('Ii', 'Ii'), ('dD', 'sD'), ('iD', 'iD'), ('dI', 'sI'),
             ('iI', 'iI'), ('DD', 'DD'), ('II', 'II'), ('ID', 'ID'), ('DI', 'DI'), ('temp', 'ii'), ('borrow', 'WW')):
    prop.case(n, seq('drv_' + n, k))
for k in 'iJ iE dJ dE IJ IE DJ DE Ji Jd JI JD JJ JE Ei Ed EI ED EJ EE'.split():  # J, E: the bound is a sum x + x of integers, of doubles
    prop.case(k, seq('drv_' + k, k, lambda o, k=k: [twice(x, t) for x, t in zip(o, k)]))
prop.case('ii_to_double', seq('drv_ii_d', 'ii', rT='D'))
f0 = lambda op, x, y: fbin(op, raw(x, 0), raw(y, 0))
prop.case('sum_d', seq('drv_Dd_sum', 'DDs', lambda o: (f0('fadd', o[0], o[1]), o[2])))
prop.case('d_sum', seq('drv_dD_sum', 'sDD', lambda o: (o[0], f0('fadd', o[1], o[2]))))
prop.case('sums', seq('drv_DD_sums', 'DDD', lambda o: (f0('fadd', o[0], o[1]), f0('fsub', o[2], o[1]))))
prop.case('sum_D', seq('drv_DD_lsum', 'DDD', lambda o: (f0('fadd', o[0], o[1]), raw(o[2], 0))))
prop.case('D_sum', seq('drv_DD_rsum', 'DDD', lambda o: (raw(o[0], 0), f0('fadd', o[1], o[2]))))
prop.case('own_bound', seq('drv_own', 'Ds', alias=True))
prop.case('construct', seq('drv_new', 'ss', new=True))
prop.case('plus', seq('drv_plus', 'iiD', rT='D', plus=True), weight=2)
