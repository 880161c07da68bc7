"""C01 element-wise arithmetic with recycling"""
from prop import Prop
from lib import *

prop = Prop('C01', ['C01.cpp'], replay='C01.cpp')
OPS = {'add': 'fadd', 'sub': 'fsub', 'mul': 'fmul', 'div': 'fdiv', 'pow': 'pow'}


for n, op in OPS.items():
    f = lambda c, st, o, j, op=op: fbin(op, opnd(o[0], j), opnd(o[1], j))
    for kind, ts in (('dd', 'DD'), ('ds', 'Ds'), ('sd', 'sD'), ('di', 'DI'), ('id', 'ID')):
        for alloc in ((False, True) if n == 'add' else (True,)):
            prop.case('%s_%s%s' % (n, kind, '' if alloc else '_fresh'), elementwise('drv_%s_%s' % (n, kind), 'D', ts, f, alloc))
for n, g in (('add', add), ('sub', sub), ('mul', mul)):
    prop.case(n + '_ii', elementwise('drv_%s_ii' % n, 'I', 'II', lambda c, st, o, j, g=g: c.ex.wrap(st, g(at(o[0], j), at(o[1], j)), 32), True))
prop.case('div_ii', elementwise('drv_div_ii', 'D', 'II', lambda c, st, o, j: fbin('fdiv', num(o[0], j), num(o[1], j)), True))


def nest(c):
    r = c.vec('D', 'r', alloc=False)
    a, b, d = (c.vec('D', x, matrix='any') for x in 'abc')
    n1 = mx(a.n, b.n)
    n = mx(n1, d.n)
    for o in c.run('drv_nest', [r, a, b, d]):
        if o.kind != 'ret':
            c.require(o.st, 'arithmetic on non-empty operands does not throw', False)
            continue

        def e(j):
            k = emod(j, n1)
            return fbin('fmul', fbin('fadd', at(a, k), at(b, k)), at(d, j))
        c.forall_elts(o.st, r, n, e, 'result')
        c.clean(o, [r])


prop.case('nested', nest, weight=3)


def nest2(c):
    r = c.vec('D', 'r', alloc=False)
    a, b = (c.vec('D', x, matrix='any') for x in 'ab')
    s = c.scalar('D', 's')
    n = mx(a.n, b.n)
    for o in c.run('drv_nest2', [r, a, b, s]):
        if o.kind != 'ret':
            c.require(o.st, 'arithmetic on non-empty operands does not throw', False)
            continue

        def e(j):
            return fbin('fsub', at(a, j), fbin('fdiv', fbin('fmul', s, at(b, j)), at(a, j)))
        c.forall_elts(o.st, r, n, e, 'result')
        c.clean(o, [r])


prop.case('nested_scalar', nest2, weight=3)
