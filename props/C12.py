"""C12 dimensions"""
from prop import Prop
from lib import *
from C08 import inr
from C09 import int_range
from C10 import Axis

prop = Prop('C12', ['C12.cpp'], replay='C12.cpp')
prop.assumptions += ['operands of an element-wise operation are conformable: non-empty, matrices agree in their dimensions and no operand is longer than a matrix operand']


def conformable(c, vs):
    n = longest(vs)
    for k, v in enumerate(vs):
        c.assume(B(implies(eqv(v.im, 1), eqv(v.n, n))))
        for w in vs[:k]:
            c.assume(B(implies(band(eqv(v.im, 1), eqv(w.im, 1)), band(eqv(v.nr, w.nr), eqv(v.nc, w.nc)))))
    return n


def dims(c, st, r, vs, n):
    """r has n elements; a matrix exactly when one of vs is one, then with its dimensions"""
    c.require(st, 'length of the result', eqv(r.f(st, 'sz'), n))
    shape_of(c, st, r, vs)
    c.require(st, 'rows * columns = length of a matrix',
              implies(eqv(r.f(st, 'ismatrix'), 1), eqv(mul(r.f(st, 'rows'), r.f(st, 'cols')), r.f(st, 'sz'))))


def op(fname, rT, kinds, alias=False, conf=True, new=False, length=None, pre=None, plain=False, rlay=None, throws=None):
    """r = f(operands): kinds D I B vectors, W a borrowed one, s double, i int, n size"""
    def go(c):
        ops = []
        if alias:
            pass
        elif new:
            r = c.raw(rT, 'r')
        elif rlay:
            r = c.vec(rT, 'r', matrix='any', layname=rlay, owned=None)
        else:
            r = target(c, rT, True)
        for k, T in enumerate(kinds):
            x = 'abde'[k]
            ops.append(c.scalar('D', 's') if T == 's' else c.scalar('I', 's') if T == 'i' else c.size(x) if T == 'n' else
                       c.vec('D', x, matrix='any', layname='WD', owned=None) if T == 'W' else
                       c.vec(T, x, matrix='any', temp='alloc' if alias and k == 0 else None))
        vs = [x for x in ops if isinstance(x, Store)]
        n = conformable(c, vs) if vs and conf else None
        if alias:
            r = ops[0]
        if pre:
            pre(c, ops)
        if length:
            n = length(ops)
        for o in c.run(fname, ops if alias else [r] + ops):
            if o.kind != 'ret':
                c.require(o.st, 'does not throw', throws(r, n) if throws else False)
                c.thrown(o, r)
                continue
            if rlay:
                fits = band(le(n, r.cap), le(r.n, n))
                if throws:
                    c.require(o.st, 'the right side has the length of the borrowed memory', fits)
            dims(c, o.st, r, [] if plain else vs, n)
            c.clean(o, [r] + ([ops[0]] if new == 'move' else []), dead=[ops[0]] if False else [])
    return go


for N in ('add', 'sub', 'mul', 'div', 'pow', 'eq', 'ne', 'lt', 'le', 'gt', 'ge'):
    T = 'D' if N in ('add', 'sub', 'mul', 'div', 'pow') else 'B'
    prop.case(N, op('drv_' + N, T, 'DD'))
    prop.case(N + '_scalar', op('drv_%s_s' % N, T, 'Ds'))
    prop.case('scalar_' + N, op('drv_%s_l' % N, T, 'Ds'))
prop.case('mixed', op('drv_mixed', 'D', 'ID'))
prop.case('ints', op('drv_ints', 'I', 'II'))
prop.case('intdiv', op('drv_intdiv', 'D', 'II'))
for N in ('left', 'right', 'both'):
    prop.case('nested_' + N, op('drv_' + N, 'D', 'DDD'), weight=4)
prop.case('nested_scalars', op('drv_scalars', 'D', 'DDs'), weight=2)
prop.case('of_unary', op('drv_unary', 'D', 'DD'), weight=2)
prop.case('unary_of', op('drv_neg', 'D', 'DD'), weight=2)
prop.case('comparison_of', op('drv_cmp', 'B', 'DDD'), weight=4)
prop.case('self', op('drv_self', 'D', 'DD', alias=True))
prop.case('self_scalar', op('drv_own', 'D', 'Ds', alias=True))
one = lambda o: o[0].n
prop.case('copy', op('drv_copy', 'D', 'D'))
prop.case('copy_from_int', op('drv_from_int', 'D', 'I'))
prop.case('copy_from_double', op('drv_from_double', 'I', 'D', pre=lambda c, o: c.every(o[0], o[0].n, int_range)))
prop.case('copy_from_logical', op('drv_from_logical', 'I', 'B'))
prop.case('copy_to_logical', op('drv_to_logical', 'B', 'I'))
prop.case('copy_from_borrow', op('drv_from_borrow', 'D', 'W'))
prop.case('sum_with_borrow', op('drv_borrow_sum', 'D', 'WD'))
misfit = lambda r, n: bor(lt(r.cap, n), lt(n, r.n))
for N, k in (('to_borrow', 'D'), ('sum_to_borrow', 'DD'), ('borrow_to_borrow', 'W')):
    prop.case(N, op('drv_' + N, 'D', k, rlay='WD', throws=misfit), expect=('ret', 'exc'))
prop.case('scalar', op('drv_scalar', 'D', 's', length=lambda o: 1))
prop.case('scalar_int', op('drv_scalar_int', 'D', 'i', length=lambda o: 1))
prop.case('scalar_borrow', op('drv_scalar_borrow', 'D', 's', length=lambda o: 1, rlay='WD'))
few = lambda c, o: c.assume(B(le(add(o[0].n, o[1].n), SZMAX)))
prop.case('concatenation', op('drv_concat', 'D', 'DD', conf=False, plain=True, length=lambda o: add(o[0].n, o[1].n), pre=few))
prop.case('elements', op('drv_elements', 'D', 'DI', conf=False, plain=True, length=lambda o: o[1].n,
                         pre=lambda c, o: c.every(o[1], o[1].n, lambda x: inr('I', x, o[0].n))), weight=2)
prop.case('construct_copy', op('c_copy', 'D', 'D', new=True))
prop.case('construct_move', op('c_move', 'D', 'D', new=True))
prop.case('construct_sum', op('c_sum', 'D', 'DD', new=True))
prop.case('construct_from_int', op('c_int', 'D', 'I', new=True))


def mat(c):
    r, n, m = c.raw('D', 'r'), c.size('n'), c.size('m')
    c.assume(B(le(mul(n, m), SZMAX)))
    for o in c.run('c_mat', [r, n, m]):
        c.require(o.st, 'does not throw', o.kind == 'ret')
        c.require(o.st, 'length of the result', eqv(r.f(o.st, 'sz'), mul(n, m)))
        c.shape(o.st, r, 1, n, m)
        c.clean(o, [r])


prop.case('construct_matrix', mat)


def into(c):
    a, e, w = c.vec('D', 'a', matrix='any'), c.vec('I', 'i'), c.vec('D', 'w', matrix='any')
    c.every(e, e.n, lambda x: inr('I', x, a.n))
    for o in c.run('drv_into', [a, e, w]):
        dims(c, o.st, a, [a], a.n)


prop.case('assign_into', into, expect=('ret', 'exc'), weight=2)


def block(c):
    r = target(c, 'D', True)
    m, b = c.vec('D', 'm', matrix=True), c.vec('D', 'b', matrix='any')
    i, k = Axis(c, 'VI', 'i', m.nr), Axis(c, 'VI', 'k', m.nc)
    n = mul(i.n, k.n)
    c.assume(B(le(n, SZMAX)))
    c.assume(B(le(b.n, n)))
    c.assume(B(implies(eqv(b.im, 1), band(eqv(b.nr, i.n), eqv(b.nc, k.n)))))
    for o in c.run('drv_block_plus', [r, m, i.arg, k.arg, b]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        c.require(o.st, 'length of the result', eqv(r.f(o.st, 'sz'), n))
        c.shape(o.st, r, 1, i.n, k.n)
        c.clean(o, [r])


prop.case('block_plus', block, weight=3)


def row(c):
    r = target(c, 'D', True)
    m, i = c.vec('D', 'm', matrix=True), c.scalar('I', 'i')
    c.assume(inr('I', I(i), m.nr))
    for o in c.run('drv_row', [r, m, i]):
        if o.kind != 'ret':
            c.require(o.st, 'does not throw', False)
            continue
        c.require(o.st, 'length of the result', eqv(r.f(o.st, 'sz'), m.nc))
        c.shape(o.st, r, 0)
        c.clean(o, [r])


prop.case('row', row)


def whole(c):
    r = target(c, 'D', True)
    a = c.vec('D', 'a', matrix='any')
    for o in c.run('drv_all', [r, a]):
        c.require(o.st, 'does not throw', o.kind == 'ret')
        c.require(o.st, 'length of the result', eqv(r.f(o.st, 'sz'), a.n))
        c.require(o.st, 'rows * columns = length of a matrix',
                  implies(eqv(r.f(o.st, 'ismatrix'), 1), eqv(mul(r.f(o.st, 'rows'), r.f(o.st, 'cols')), r.f(o.st, 'sz'))))
        c.clean(o, [r])


prop.case('whole', whole)
prop.case('construct_sum_of_ints', op('c_conv_sum', 'D', 'II', new=True))
prop.case('construct_concatenation', op('c_concat', 'D', 'DD', new=True, conf=False, plain=True, length=lambda o: add(o[0].n, o[1].n), pre=few))
prop.case('construct_concatenation_of_ints', op('c_conv_concat', 'D', 'II', new=True, conf=False, plain=True, length=lambda o: add(o[0].n, o[1].n), pre=few))


def temporary(fname, rT, aT, kind):
    """a temporary matrix, of the same or another element type, as the initial or the new value of a vector"""
    def go(c):
        r = c.raw(rT, 'r') if kind == 'new' else c.vec('D', 'r', matrix='any', layname='WD', owned=None) if kind == 'borrow' else target(c, rT, True)
        a, n, m = c.vec(aT, 'a', matrix='any'), c.size('n'), c.size('m')
        c.assume(B(le(mul(n, m), SZMAX)))
        k = mul(n, m)
        for o in c.run(fname, [r, a, n, m]):
            if o.kind != 'ret':
                wrong = bnot(eqv(a.n, k))
                if kind == 'borrow':
                    wrong = bor(wrong, lt(r.cap, k), lt(k, r.n))
                c.require(o.st, 'throws only for a wrong length', wrong)
                if kind == 'new':
                    c.clean(o, [], dead=[r], also=[r.vrid])
                else:
                    c.thrown(o, r)
                continue
            c.require(o.st, 'length of the result', eqv(r.f(o.st, 'sz'), k))
            c.shape(o.st, r, 1, n, m)
            c.forall_elts(o.st, r, k, lambda j: raw(a, j) if aT == rT else i2f(raw(a, j)) if rT == 'D' else raw(a, j), 'elements')
            c.clean(o, [r])
    return go


prop.case('construct_from_matrix', temporary('c_matrix', 'D', 'D', 'new'), expect=('ret', 'exc'))
prop.case('construct_from_int_matrix', temporary('c_conv_matrix', 'D', 'I', 'new'), expect=('ret', 'exc'))
prop.case('construct_from_logical_matrix', temporary('c_conv_matrix_l', 'I', 'B', 'new'), expect=('ret', 'exc'))
prop.case('assign_int_matrix', temporary('drv_conv_matrix', 'D', 'I', 'assign'), expect=('ret', 'exc'))
prop.case('assign_matrix_to_borrow', temporary('drv_borrow_matrix', 'D', 'D', 'borrow'), expect=('ret', 'exc'))
