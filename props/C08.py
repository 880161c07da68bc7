"""C08 reading a subset of a vector"""
from prop import Prop
from lib import *

prop = Prop('C08', ['C08.cpp'], replay='C08.cpp')
prop.assumptions += ['double indices are finite and greater than -1 (the conversion of others to an unsigned position is undefined in C++)']


def pos(T, x):
    """the one-based position an index element denotes"""
    return x if T == 'I' else ftrunc_int(x)


def inr(T, x, n):
    if T == 'D':
        v = val(x)
        return z3.And(z3.Not(nan(x)), v >= 1, v < z3.ToReal(I(n) + 1))
    return z3.And(x >= 1, x <= I(n))


def conv(x):
    """a double that converts to a position"""
    v = val(x)
    return z3.And(z3.Not(nan(x)), v > -1, v < 2 ** 62)


def scalar_index(fname, T, src=None):
    def go(c):
        r = target(c, 'D', True)
        a = c.vec('D', 'a', matrix='any')
        extra = [c.vec('D', 'b', matrix='any')] if src else []
        i = c.scalar(T, 'i')
        n = longest([a] + extra)
        if T == 'D':
            c.assume(conv(i))
            p = pos(T, i)
        else:
            p = i
        for o in c.run(fname, [r, a] + extra + [i]):
            ok = inr(T, I(i) if T == 'I' else i, n)
            if o.kind != 'ret':
                c.require(o.st, 'throws only for a position outside 1..length', z3.Not(ok))
                c.thrown(o, r)
                continue
            c.require(o.st, 'returns only for a position within 1..length', ok)
            c.forall_elts(o.st, r, 1, lambda j: (src or (lambda vs, k: raw(vs[0], k)))([a] + extra, sub(p, 1)), 'selection')
            c.clean(o, [r])
    return go


def logical(c):
    r = target(c, 'D', True)
    a = c.vec('D', 'a', matrix='any')
    i = c.scalar('B', 'i')
    for o in c.run('drv_b', [r, a, i]):
        if o.kind != 'ret':
            c.require(o.st, 'throws only for FALSE', z3.Not(i))
            c.thrown(o, r)
            continue
        c.require(o.st, 'FALSE throws', i)
        c.forall_elts(o.st, r, a.n, lambda j: raw(a, j), 'selection')
        c.clean(o, [r])


def vector_index(fname, T, rT='D', inrange=True, alloc=False, src=None, layname=None, post=None, epos=None, extra=0, tail=None):
    """src(vs, k): the value of source element k; epos(vs, x): position denoted by index element x"""
    def go(c):
        r = target(c, rT, alloc)
        a = c.vec(rT, 'a', matrix='any', layname=layname, owned=None if layname else True)
        vs = [a] + [c.vec('D', 'b', matrix='any') for _ in range(extra)]
        e = c.vec(T, 'i', matrix='any')
        n = longest(vs)
        if inrange:
            c.every(e, e.n, lambda x: inr(T, x, n))
        elif T == 'D':
            c.every(e, e.n, conv)
        for o in c.run(fname, [r] + vs + [e]):
            if o.kind != 'ret':
                if inrange:
                    c.require(o.st, 'positions within 1..length are selected without an exception', False)
                c.thrown(o, r)
                continue
            if not inrange:
                s2 = o.st.copy()
                j = c.index(s2, e.n)
                c.instances(s2, j)
                c.require(s2, 'returns only when every position is within 1..length', inr(T, raw(e, j), n))
            c.forall_elts(o.st, r, e.n, lambda j: (src or (lambda vs, k: raw(vs[0], k)))(vs, sub(pos(T, raw(e, j)), 1)), 'selection')
            c.clean(o, [r])
    return go


def sum_src(vs, k):
    return fbin('fadd', at(vs[0], k), at(vs[1], k))


prop.case('bool', logical, expect=('ret', 'exc'))
prop.case('int', scalar_index('drv_i', 'I'), expect=('ret', 'exc'))
prop.case('double', scalar_index('drv_d', 'D'), expect=('ret', 'exc'))
prop.case('sum_int', scalar_index('drv_op_i', 'I', sum_src), expect=('ret', 'exc'), weight=2)
for T in 'ID':
    prop.case('vec%s' % T, vector_index('drv_V' + T, T, alloc=True), weight=3)
    prop.case('vec%s_any' % T, vector_index('drv_V' + T, T, inrange=False, alloc=True), expect=('ret', 'exc'), weight=3)
prop.case('int_vecI', vector_index('drv_int_VI', 'I', 'I', alloc=True), weight=3)
prop.case('bool_vecI', vector_index('drv_bool_VI', 'I', 'B', alloc=True), weight=3)
prop.case('fresh_vecI', vector_index('drv_VI', 'I', alloc=False), weight=3)
prop.case('borrow_vecI', vector_index('drv_borrow_VI', 'I', layname='WD'), weight=3)
prop.case('sum_vecI', vector_index('drv_op_VI', 'I', src=sum_src, extra=1), weight=4)


def mask(b):
    def go(c, cmpscalar=b):
        r = target(c, 'D', True)
        a = c.vec('D', 'a', matrix='any')
        if cmpscalar:
            s = c.scalar('D', 's')
            f = c.filt(lambda k: B(flt(s, at(a, k))))
            args, fn = [r, a, s], 'drv_cmp'
        else:
            e = c.vec('B', 'i', matrix='any')
            f = c.filt(lambda k: B(eqv(at(e, k), 1)))
            args, fn = [r, a, e], 'drv_VB'
        cnt = f.cnt(I(a.n))
        for o in c.run(fn, args):
            if o.kind != 'ret':
                c.require(o.st, 'throws only when nothing is selected', eqv(cnt, 0))
                c.thrown(o, r)
                continue
            c.require(o.st, 'an empty selection throws', lt(0, cnt))
            c.forall_elts(o.st, r, cnt, lambda j: raw(a, f.sel(I(j))), 'selection')
            c.clean(o, [r])
    return go


prop.case('vecB', mask(False), expect=('ret', 'exc'), weight=4)
prop.case('comparison', mask(True), expect=('ret', 'exc'), weight=4)


def nested(c):
    r = target(c, 'D', False)
    a, e, k = c.vec('D', 'a', matrix='any'), c.vec('I', 'i'), c.vec('I', 'k')
    c.every(e, e.n, lambda x: inr('I', x, a.n))
    c.every(k, k.n, lambda x: inr('I', x, e.n))
    for o in c.run('drv_sub_VI', [r, a, e, k]):
        if o.kind != 'ret':
            c.require(o.st, 'positions within 1..length are selected without an exception', False)
            continue
        c.forall_elts(o.st, r, k.n, lambda j: raw(a, sub(raw(e, sub(raw(k, j), 1)), 1)), 'selection')
        c.clean(o, [r])


prop.case('subset_of_subset', nested, weight=5)


def expr_index(c):
    r = target(c, 'D', False)
    a, e = c.vec('D', 'a', matrix='any'), c.vec('D', 'i')
    one = fconst(Fraction(1))
    c.every(e, e.n, lambda x: inr('D', fbin('fadd', x, one), a.n))
    for o in c.run('drv_expr', [r, a, e]):
        if o.kind != 'ret':
            c.require(o.st, 'positions within 1..length are selected without an exception', False)
            continue
        c.forall_elts(o.st, r, e.n, lambda j: raw(a, sub(pos('D', fbin('fadd', raw(e, j), one)), 1)), 'selection')
        c.clean(o, [r])


prop.case('expression_index', expr_index, weight=5)


def in_op(c):
    r = target(c, 'D', False)
    a, e, b = c.vec('D', 'a', matrix='any'), c.vec('I', 'i'), c.vec('D', 'b')
    c.every(e, e.n, lambda x: inr('I', x, a.n))
    for o in c.run('drv_in_op', [r, a, e, b]):
        if o.kind != 'ret':
            c.require(o.st, 'positions within 1..length are selected without an exception', False)
            continue
        c.forall_elts(o.st, r, mx(e.n, b.n), lambda j: fbin('fadd', raw(a, sub(at(e, j), 1)), at(b, j)), 'selection')
        c.clean(o, [r])


prop.case('in_operation', in_op, weight=5)


def selected(T, layname=None, filt=False):
    def mk(c):
        a = c.vec('D', 'a', matrix='any', layname=layname, owned=None if layname else True)
        e = c.vec(T, 'i', matrix='any')
        if T == 'D':
            c.every(e, e.n, conv)
        return [a, e]
    return mk


listed = lambda v, j: raw(v[0], sub(pos(v[1].T, raw(v[1], j)), 1))
exists = lambda v, j: inr(v[1].T, raw(v[1], j), v[0].n)
for n, T in (('vecI', 'I'), ('vecD', 'D')):
    prop.case('visit_' + n, iteration('it_V' + T, selected(T), lambda v: v[1].n, listed, exists), expect=('ret', 'exc'), weight=2)
prop.case('visit_borrow', iteration('it_borrow', selected('I', 'WD'), lambda v: v[1].n, listed, exists), expect=('ret', 'exc'), weight=2)
prop.case('visit_TRUE', iteration('it_TRUE', lambda c: [c.vec('D', 'a', matrix='any')], lambda v: v[0].n, lambda v, j: raw(v[0], j)))


def one(c):
    a, i = c.vec('D', 'a', matrix='any'), c.scalar('I', 'i')
    return [a, i]


prop.case('visit_int', iteration('it_i', one, lambda v: 1, lambda v, j: raw(v[0], sub(v[1], 1)), lambda v, j: inr('I', I(v[1]), v[0].n)), expect=('ret', 'exc'))


def masked(c):
    masked.v = selected('B')(c)
    a, e = masked.v
    masked.f = c.filt(lambda k: B(eqv(at(e, k), 1)))
    return masked.v


prop.case('visit_vecB', iteration('it_VB', masked, lambda v: masked.f.cnt(I(v[0].n)), lambda v, j: raw(v[0], masked.f.sel(I(j))), none=True), expect=('ret', 'exc'), weight=2)
