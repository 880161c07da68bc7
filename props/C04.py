"""C04 the right side of an assignment is evaluated before the target changes"""
from prop import Prop
from lib import *
from C08 import inr, pos
import C09

prop = Prop('C04', ['C04.cpp'], replay='C04.cpp')


def alias(fname, T, other, n, fn, pre=None, alloc=True, exc=False, scal=None):
    """a = f(a, others): n(ops) elements, fn(ops, j) of the values before the call"""
    def go(c):
        a = c.vec(T, 'a', matrix='any', temp=alloc and 'alloc')
        ops = [a] + [c.vec(t, 'bde'[k], matrix='any') for k, t in enumerate(other)]
        args = list(ops)
        if scal:
            s = c.scalar(scal, 's')
            args.append(s)
            ops.append(s)
        if pre:
            pre(c, ops)
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'the assignment does not throw', False)
                continue
            c.forall_elts(o.st, a, n(ops), lambda j: fn(ops, j), 'target')
            c.clean(o, [a])
    return go


def within(k, src):
    return lambda c, ops: c.every(ops[k], ops[k].n, lambda x: inr(ops[k].T, x, ops[src].n))


L2 = lambda ops: longest([x for x in ops if isinstance(x, Store)])
F = fbin
prop.case('add', alias('drv_add', 'D', 'D', L2, lambda o, j: F('fadd', at(o[0], j), at(o[1], j))))
prop.case('add_right', alias('drv_add_r', 'D', 'D', L2, lambda o, j: F('fadd', at(o[1], j), at(o[0], j))))
prop.case('sub_scalar', alias('drv_sub_s', 'D', '', L2, lambda o, j: F('fsub', at(o[0], j), o[1]), scal='D'))
prop.case('mul', alias('drv_mul', 'D', 'D', L2, lambda o, j: F('fmul', at(o[1], j), at(o[0], j))))
prop.case('negate', alias('drv_neg', 'D', '', L2, lambda o, j: ufun('fneg')(raw(o[0], j))))
prop.case('sinus', alias('drv_sin', 'D', '', L2, lambda o, j: ufun('sin')(raw(o[0], j))))
prop.case('twice', alias('drv_twice', 'D', '', L2, lambda o, j: F('fadd', raw(o[0], j), raw(o[0], j))))
prop.case('nested', alias('drv_nest', 'D', 'D', L2, lambda o, j: F('fmul', F('fadd', at(o[0], j), at(o[1], j)), at(o[0], j))), weight=2)
for T in 'ID':
    prop.case('subset_vec%s' % T, alias('drv_V' + T, 'D', T, lambda o: o[1].n, lambda o, j: raw(o[0], sub(pos(o[1].T, raw(o[1], j)), 1)), within(1, 0)), weight=3)
prop.case('subset_by_itself', alias('drv_own', 'I', '', lambda o: o[0].n, lambda o, j: raw(o[0], sub(raw(o[0], j), 1)), within(0, 0)), weight=3)
prop.case('subset_plus_self', alias('drv_sub_add', 'D', 'I', L2, lambda o, j: F('fadd', raw(o[0], sub(at(o[1], j), 1)), at(o[0], j)), within(1, 0)), weight=3)
prop.case('subset_int', alias('drv_i', 'D', '', lambda o: 1, lambda o, j: raw(o[0], sub(o[1], 1)), lambda c, o: c.assume(inr('I', I(o[1]), o[0].n)), scal='I'))
prop.case('element', alias('drv_elem', 'D', '', lambda o: 1, lambda o, j: raw(o[0], 1), lambda c, o: c.assume(I(o[0].n) >= 2)))
prop.case('self', alias('drv_self', 'D', '', L2, lambda o, j: raw(o[0], j)))
prop.case('scalar', alias('drv_s', 'D', '', lambda o: 1, lambda o, j: o[1], scal='D'))
prop.case('copy', alias('drv_copy', 'D', 'D', lambda o: o[1].n, lambda o, j: raw(o[1], j)))
prop.case('int_add', alias('drv_int', 'I', 'I', L2, lambda o, j: sub(emod(add(add(at(o[0], j), at(o[1], j)), 2 ** 31), 2 ** 32), 2 ** 31)))
prop.case('copy_from_int', alias('drv_conv', 'D', 'I', lambda o: o[1].n, lambda o, j: i2f(raw(o[1], j))))
prop.case('copy_from_double', alias('drv_conv2', 'I', 'D', lambda o: o[1].n, lambda o, j: ftrunc_int(raw(o[1], j)),
                                    lambda c, o: c.every(o[1], o[1].n, C09.int_range)))
prop.case('copy_from_logical', alias('drv_conv3', 'D', 'B', lambda o: o[1].n, lambda o, j: i2f(raw(o[1], j))))


def chain(c):
    a, b, d = [c.vec('D', x, matrix='any') for x in 'abd']
    for o in c.run('drv_chain', [a, b, d]):
        c.require(o.st, 'the assignment does not throw', o.kind == 'ret')
        for t in (a, b):
            c.forall_elts(o.st, t, d.n, lambda j: raw(d, j), 'target ' + t.name)
        c.clean(o, [a, b])


prop.case('chain', chain)


def masked(cmp):
    def go(c):
        a = c.vec('D', 'a', matrix='any', temp='alloc')
        if cmp:
            s = c.scalar('D', 's')
            f = c.filt(lambda k: B(flt(s, at(a, k))))
            args = [a, s]
        else:
            e = c.vec('B', 'i', matrix='any')
            f = c.filt(lambda k: B(eqv(at(e, k), 1)))
            args = [a, e]
        m = f.cnt(I(a.n))
        for o in c.run('drv_cmp' if cmp else 'drv_VB', args):
            if o.kind != 'ret':
                c.require(o.st, 'throws only when nothing is selected', eqv(m, 0))
                c.thrown(o, a)
                continue
            c.forall_elts(o.st, a, m, lambda j: raw(a, f.sel(I(j))), 'target')
            c.clean(o, [a])
    return go


prop.case('subset_vecB', masked(False), expect=('ret', 'exc'), weight=4)
prop.case('subset_comparison', masked(True), expect=('ret', 'exc'), weight=4)


def ss(fname, kind):
    def go(c):
        a, e = c.vec('D', 'a', matrix='any'), c.vec('I', 'i')
        c.every(e, e.n, lambda x: inr('I', x, a.n))
        k = c.vec('I' if kind == 'ss' else 'D', 'k')
        if kind == 'ss':
            c.every(k, k.n, lambda x: inr('I', x, a.n))
            n, w = k.n, lambda l: raw(a, sub(raw(k, l), 1))
        elif kind == 'add':
            n, w = mx(a.n, k.n), lambda l: fbin('fadd', at(a, l), at(k, l))
        else:
            n, w = mx(e.n, k.n), lambda l: fbin('fadd', raw(a, sub(at(e, l), 1)), at(k, l))
        C09.run(c, fname, [a, e, k], a, lambda q: sub(raw(e, q), 1), e.n, n, w, True)
    return go


prop.case('subset_from_own_subset', ss('drv_ss', 'ss'), expect=('ret', 'exc'), weight=4)
prop.case('subset_from_own_sum', ss('drv_s_add', 'add'), expect=('ret', 'exc'), weight=4)
prop.case('subset_updated', ss('drv_s_sadd', 'sadd'), expect=('ret', 'exc'), weight=4)
