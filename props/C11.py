"""C11 assigning into rows and columns of a matrix"""
from prop import Prop
from lib import *
from C10 import Axis, KINDS, FALSES
from C09 import fixed, stored, failed

prop = Prop('C11', ['C11.cpp'], replay='C11.cpp')
prop.assumptions += ['selections are within the dimensions, a logical vector has the length of its axis and selects something, '
                     'and the number of selected elements fits an int; double indices are finite']


class Whole:
    """last(p) in closed form when one axis is TRUE and the other TRUE or a single position: no position repeats"""
    def __init__(self, m, a, b):
        self.m, self.a, self.b = m, a, b

    def last(self, p, n):
        m, a, b = self.m, self.a, self.b
        if a.kind == 'T' and b.kind == 'T':
            return p
        if a.kind == 'T':
            lo = mul(b.at(0), m.nr)
            return ite(band(le(lo, p), lt(p, add(lo, m.nr))), sub(p, lo), -1)
        return ite(eqv(emod(p, m.nr), a.at(0)), ediv(p, m.nr), -1)


def write(fname, rk, ck, wk='w', T='D', layname=None):
    def go(c):
        m = c.vec(T, 'm', matrix=True, layname=layname, owned=None if layname else True)
        a, b = Axis(c, rk, 'i', m.nr), Axis(c, ck, 'k', m.nc)
        n = mul(a.n, b.n)
        c.assume(B(le(n, SZMAX)))
        args = [m, a.arg, b.arg]
        rlen = None
        if wk == 's':
            w = c.scalar(T, 'w')
            args.append(w)
            new = lambda l: bit(w) if T == 'B' else w
        elif wk == 'is':
            w = c.scalar('I', 'w')
            args.append(w)
            new = lambda l: i2f(I(w))
        elif wk == 'sum':
            v, w = c.vec('D', 'v', matrix='any'), c.vec('D', 'w', matrix='any')
            args += [v, w]
            rlen, new = mx(v.n, w.n), (lambda l: fbin('fmul', at(v, l), at(w, l)))
        elif wk == 'self':
            rlen, new = m.n, (lambda l: raw(m, l))
        elif wk == 'own':
            l_ = Axis(c, 'I', 'l', m.nc)
            args.append(l_.arg)
            rlen, new = n, (lambda l: raw(m, add(a.at(l), mul(l_.at(0), m.nr))))
        else:
            w = c.vec(T, 'w', matrix='any')
            args.append(w)
            rlen, new = w.n, (lambda l: raw(w, l))

        def where(j):
            row, col = (0, j) if isc(a.n) and a.n == 1 else (j, 0) if isc(b.n) and b.n == 1 else (emod(j, a.n), ediv(j, a.n))
            return add(a.at(row), mul(b.at(col), m.nr))
        L = Whole(m, a, b) if rk + ck in ('TT', 'TI', 'TD', 'IT', 'DT') else c.scatter(where)
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'throws only when the lengths differ', rlen is not None and bnot(eqv(rlen, n)))
                c.thrown(o, m, 'after a length mismatch')
                continue
            if rlen is not None:
                c.require(o.st, 'returns only for equal lengths', eqv(rlen, n))
            stored(c, o, m, L, n, new)
    return go


def refused(fname, rk, ck, scalar=False):
    """FALSE selects nothing: an exception, and nothing changes"""
    def go(c):
        m = c.vec('D', 'm', matrix=True, owned=True)
        a, b = Axis(c, rk, 'i', m.nr), Axis(c, ck, 'k', m.nc)
        c.assume(B(le(mul(m.nr, m.nc), SZMAX)))
        for x in (a, b):
            if not isc(x.n):
                c.assume(z3.And(B(le(mul(x.n, m.nr), SZMAX)), B(le(mul(x.n, m.nc), SZMAX))))
        w = c.scalar('D', 'w') if scalar else c.vec('D', 'w', matrix='any')
        for o in c.run(fname, [m, a.arg, b.arg, w]):
            c.require(o.st, 'FALSE is refused', o.kind != 'ret')
            c.thrown(o, m)
    return go


for rk, ck in FALSES:
    prop.case('%s_%s' % (rk, ck), refused(('drv_%s_%s' % (rk, ck)).replace('F', 'T'), rk, ck), expect=('exc',))
    prop.case('%s_%s_s' % (rk, ck), refused(('drv_%s_%s_s' % (rk, ck)).replace('F', 'T'), rk, ck, True), expect=('exc',))

for rk in KINDS:
    for ck in KINDS:
        w = sum(2 if x == 'VB' else 1 if x[0] == 'V' else 0 for x in (rk, ck)) + 1
        prop.case('%s_%s' % (rk, ck), write('drv_%s_%s' % (rk, ck), rk, ck), expect=('ret', 'exc'), weight=w)
        prop.case('%s_%s_s' % (rk, ck), write('drv_%s_%s_s' % (rk, ck), rk, ck, 's'), weight=w)
prop.case('int', write('drv_int', 'VI', 'VI', T='I'), expect=('ret', 'exc'), weight=3)
prop.case('bool_scalar', write('drv_bool', 'VI', 'I', 's', T='B'), weight=2)
prop.case('product', write('drv_sum', 'VI', 'VI', 'sum'), expect=('ret', 'exc'), weight=3)
prop.case('self', write('drv_self', 'VI', 'VI', 'self'), expect=('ret', 'exc'), weight=3)
prop.case('own_column', write('drv_own', 'VI', 'I', 'own'), weight=2)
prop.case('borrow', write('drv_borrow', 'VI', 'VI', layname='WD'), expect=('ret', 'exc'), weight=3)
prop.case('int_scalar', write('drv_intscalar', 'I', 'T', 'is'), weight=2)
prop.case('call', write('drv_call', 'VI', 'VI', 's'), weight=2)
