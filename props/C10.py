"""C10 reading rows and columns of a matrix"""
from prop import Prop
from lib import *
from C08 import inr, pos

prop = Prop('C10', ['C10.cpp'], replay='C10.cpp')
prop.assumptions += ['selections are within the dimensions, a logical vector has the length of its axis and selects something, '
                     'and the number of selected elements fits an int; double indices are finite']


class Axis:
    """a selection of one axis: how many positions, and the zero-based position of the k-th"""
    def __init__(self, c, kind, name, length):
        self.kind = kind
        self.plain = False
        if kind == 'T':
            self.arg = c.scalar('B', name)
            c.assume(self.arg)
            self.n, self.at = length, lambda k: k
        elif kind == 'F':
            self.arg = c.scalar('B', name)
            c.assume(B(bnot(self.arg)))
            self.n, self.at = 0, lambda k: k
        elif kind in 'ID':
            self.arg = c.scalar(kind, name)
            c.assume(inr(kind, I(self.arg) if kind == 'I' else self.arg, length))
            p = sub(pos(kind, self.arg), 1)
            self.n, self.at, self.plain = 1, (lambda k: p), True
        elif kind == 'VB':
            e = self.arg = c.vec('B', name, matrix='any', sz=length)
            f = c.filt(lambda k: B(eqv(raw(e, k), 1)))
            self.n = f.cnt(I(length))
            c.assume(B(lt(0, self.n)))
            self.at = lambda k: f.sel(I(k))
        else:
            e = self.arg = c.vec(kind[1], name, matrix='any')
            c.every(e, e.n, lambda x: inr(kind[1], x, length))
            self.n, self.at = e.n, lambda k: sub(pos(kind[1], raw(e, k)), 1)


def read(fname, rk, ck, T='D', src=None, layname=None, extra=False, post=None, shape=True, alloc=True):
    def go(c):
        r = target(c, T, alloc)
        m = c.vec(T, 'm', matrix=True, layname=layname, owned=None if layname else True)
        s = c.scalar('D', 's') if extra else None
        a, b = Axis(c, rk, 'i', m.nr), Axis(c, ck, 'k', m.nc)
        n = mul(a.n, b.n)
        c.assume(B(le(n, SZMAX)))
        args = [r, m, s, a.arg, b.arg] if extra == 'mid' else [r, m, a.arg, b.arg] + ([s] if extra else [])
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'a selection within the dimensions does not throw', False)
                c.thrown(o, r)
                continue
            def elt(j):
                row, col = (0, j) if isc(a.n) and a.n == 1 else (j, 0) if isc(b.n) and b.n == 1 else (emod(j, a.n), ediv(j, a.n))
                v = raw(m, add(a.at(row), mul(b.at(col), m.nr)))
                return post(v, s) if post else v
            c.forall_elts(o.st, r, n, elt, 'selection')
            if shape:
                if a.plain or b.plain:
                    c.shape(o.st, r, 0)
                else:
                    c.shape(o.st, r, 1, a.n, b.n)
            c.clean(o, [r])
    return go


KINDS = ['T', 'I', 'D', 'VI', 'VD', 'VB']
for rk in KINDS:
    for ck in KINDS:
        w = sum(2 if x == 'VB' else 1 if x[0] == 'V' else 0 for x in (rk, ck)) + 1
        prop.case('%s_%s' % (rk, ck), read('drv_%s_%s' % (rk, ck), rk, ck), weight=w)


def refused(fname, rk, ck):
    """FALSE selects nothing: an exception, and nothing changes"""
    def go(c):
        r = target(c, 'D', False)
        m = c.vec('D', 'm', matrix=True, owned=True)
        a, b = Axis(c, rk, 'i', m.nr), Axis(c, ck, 'k', m.nc)
        c.assume(B(le(mul(m.nr, m.nc), SZMAX)))
        for x in (a, b):
            if not isc(x.n):
                c.assume(z3.And(B(le(mul(x.n, m.nr), SZMAX)), B(le(mul(x.n, m.nc), SZMAX))))
        for o in c.run(fname, [r, m, a.arg, b.arg]):
            c.require(o.st, 'FALSE is refused', o.kind != 'ret')
            c.thrown(o, r)
    return go


FALSES = [('F', 'T'), ('T', 'F'), ('F', 'F')] + [('F', k) for k in KINDS[1:]] + [(k, 'F') for k in KINDS[1:]]
for rk, ck in FALSES:
    prop.case('%s_%s' % (rk, ck), refused(('drv_%s_%s' % (rk, ck)).replace('F', 'T'), rk, ck), expect=('exc',))
plus = lambda v, s: fbin('fadd', v, s)
prop.case('int_VI_VB', read('drv_int', 'VI', 'VB', T='I'), weight=4)
prop.case('bool_VI_I', read('drv_bool', 'VI', 'I', T='B'), weight=2)
prop.case('sum_VI_VI', read('drv_op', 'VI', 'VI', extra='mid', post=plus), weight=3)
prop.case('sum_I_T', read('drv_op_row', 'I', 'T', extra='mid', post=plus), weight=2)
prop.case('borrow_VI_VI', read('drv_borrow', 'VI', 'VI', layname='WD'), weight=3)
prop.case('in_operation', read('drv_in_op', 'VI', 'I', extra='end', post=plus), weight=2)
prop.case('call', read('drv_call', 'VI', 'VI', alloc=False), weight=3)


def selection(c):
    m = c.vec('D', 'm', matrix=True, owned=True)
    a, b = Axis(c, 'VI', 'i', m.nr), Axis(c, 'VI', 'k', m.nc)
    c.assume(B(le(mul(a.n, b.n), SZMAX)))
    selection.last = m, a, b
    return [m, a.arg, b.arg]


def visited(v, j):
    m, a, b = selection.last
    return raw(m, add(a.at(emod(j, a.n)), mul(b.at(ediv(j, a.n)), m.nr)))


prop.case('visit_VI_VI', iteration('it_VI_VI', selection, lambda v: mul(v[1].n, v[2].n), visited), weight=3)
