"""C09 assigning into a subset of a vector"""
from prop import Prop
from lib import *
from C08 import inr, pos, conv

prop = Prop('C09', ['C09.cpp'], replay='C09.cpp')
prop.assumptions += ['double indices are finite and greater than -1 (the conversion of others to an unsigned position is undefined in C++)']


def fixed(c, st, a):
    """what no assignment into a subset may change"""
    for f in ('sz', 'capacity', 'allocated', 'ismatrix', 'rows', 'cols'):
        x, y = a.f(st, f), a.f(c.pre, f)
        if x is not y:
            c.require(st, 'frame: %s of the vector unchanged' % f, eqv(x, y))
    p, q = a.f(st, 'p'), a.f(c.pre, 'p')
    c.require(st, 'frame: the vector keeps its storage', isinstance(p, Ptr) and p.reg == q.reg and eqv(p.off, q.off) is True)


def stored(c, o, a, L, m, w):
    """element p of a after the call"""
    fixed(c, o.st, a)
    s = o.st.copy()
    p = c.index(s, a.n, 'p')
    l = L.last(p, m)
    c.require(s, 'contents: selected elements take the new value, all others keep theirs',
              eqv(a.elt(s, p), ite(le(0, l), w(l), raw(a, p))))
    c.clean(o, [a])


def failed(c, o, a, L, m):
    fixed(c, o.st, a)
    s = o.st.copy()
    p = c.index(s, a.n, 'p')
    c.require(s, 'after an exception: elements that are not selected keep their value',
              bor(le(0, L.last(p, m)), eqv(a.elt(s, p), raw(a, p))))
    c.clean(o, [a], 'after an exception')


def run(c, fname, args, a, idx, m, rlen, w, valid, partial=True):
    """idx(k): the zero-based position selected by index k of m; rlen: length of the right side or
    None for a scalar; valid: every position lies in the vector (None: not a precondition)"""
    L = c.scatter(idx)
    for o in c.run(fname, args):
        if o.kind != 'ret':
            if rlen is None:
                c.require(o.st, 'throws only for a position outside the vector', valid is not True)
            elif valid is True:
                c.require(o.st, 'throws only when the lengths differ', bnot(eqv(rlen, m)))
            else:
                s = o.st.copy()
                s.assume(B(bnot(eqv(rlen, m))))
                if s.feasible():
                    o2 = Out_(o, s)
                    c.thrown(o2, a, 'after a length mismatch')
            failed(c, o, a, L, m)
            continue
        if rlen is not None:
            c.require(o.st, 'returns only for equal lengths', eqv(rlen, m))
        if valid is not True and valid is not None:
            valid(o.st)
        stored(c, o, a, L, m, w)


class Out_:
    def __init__(self, o, st):
        self.kind, self.st = o.kind, st


def vec_index(fname, T, aT='D', wT='D', wk='vec', valid=True, layname=None, src=None):
    def go(c):
        a = c.vec(aT, 'a', matrix='any', layname=layname, owned=None if layname else True)
        e = c.vec(T, 'i', matrix='any')
        args = [a, e]
        cv = (lambda x: x) if (aT == wT) else (lambda x: ftrunc_int(x))
        if wk == 's':
            w = c.scalar(wT, 'w')
            args.append(w)
            rlen, wf = None, (lambda l: cv(w))
            if aT == 'I' and wT == 'D':
                c.assume(int_range(w))
        elif wk == 'sum':
            v, w = c.vec('D', 'v', matrix='any'), c.vec('D', 'w', matrix='any')
            args += [v, w]
            rlen, wf = mx(v.n, w.n), (lambda l: fbin('fadd', at(v, l), at(w, l)))
        elif wk == 'self':
            rlen, wf = a.n, (lambda l: raw(a, l))
        else:
            w = c.vec(wT, 'w', matrix='any')
            args.append(w)
            rlen, wf = w.n, (lambda l: cv(raw(w, l)))
            if aT == 'I' and wT == 'D':
                c.every(w, w.n, int_range)
        ok = None
        if valid:
            c.every(e, e.n, lambda x: inr(T, x, a.n))
            ok = True
        else:
            if T == 'D':
                c.every(e, e.n, conv)

            def ok(st):
                s = st.copy()
                j = c.index(s, e.n)
                c.instances(s, j)
                c.require(s, 'returns only when every position lies in the vector', inr(T, raw(e, j), a.n))
        run(c, fname, args, a, lambda k: sub(pos(T, raw(e, k)), 1), e.n, rlen, wf, ok)
    return go


def int_range(x):
    v = val(x)
    return z3.And(z3.Not(nan(x)), v > -2 ** 31 - 1, v < 2 ** 31)


for T in 'ID':
    prop.case('vec%s' % T, vec_index('drv_V' + T, T), expect=('ret', 'exc'), weight=3)
    prop.case('vec%s_any' % T, vec_index('drv_V' + T, T, valid=False), expect=('ret', 'exc'), weight=3)
    prop.case('vec%s_scalar' % T, vec_index('drv_V%s_s' % T, T, wk='s'), weight=3)
    prop.case('vec%s_scalar_any' % T, vec_index('drv_V%s_s' % T, T, wk='s', valid=False), expect=('ret', 'exc'), weight=3)
prop.case('int_vec', vec_index('drv_int', 'I', 'I', 'I'), expect=('ret', 'exc'), weight=3)
prop.case('int_vec_from_double', vec_index('drv_int_d', 'I', 'I', 'D'), expect=('ret', 'exc'), weight=3)
prop.case('int_vec_double_scalar', vec_index('drv_int_sd', 'I', 'I', 'D', 's'), weight=3)
prop.case('expression', vec_index('drv_expr', 'I', wk='sum'), expect=('ret', 'exc'), weight=4)
prop.case('self', vec_index('drv_alias', 'I', wk='self'), expect=('ret', 'exc'), weight=3)
prop.case('borrow', vec_index('drv_borrow', 'I', layname='WD'), expect=('ret', 'exc'), weight=3)


def scalar_index(fname, T, wk):
    def go(c):
        a = c.vec('D', 'a', matrix='any')
        i = c.scalar(T, 'i')
        p = pos(T, i)
        if T == 'D':
            c.assume(conv(i))
        if wk == 's':
            w = c.scalar('D', 'w')
            rlen, wf = None, (lambda l: w)
            args = [a, i, w]
        else:
            w = c.vec('D', 'w', matrix='any')
            rlen, wf = w.n, (lambda l: raw(w, l))
            args = [a, i, w]
            if T != 'B':
                args = [a, w, i]

        def ok(st):
            c.require(st, 'returns only when the position lies in the vector', inr(T, I(i) if T == 'I' else i, a.n))
        run(c, fname, args, a, lambda k: sub(p, 1), 1, rlen, wf, ok)
    return go


prop.case('int', scalar_index('drv_i', 'I', 'vec'), expect=('ret', 'exc'))
prop.case('int_scalar', scalar_index('drv_i_s', 'I', 's'), expect=('ret', 'exc'))
prop.case('double_scalar', scalar_index('drv_d_s', 'D', 's'), expect=('ret', 'exc'))


def logical(fname, wk):
    def go(c):
        a = c.vec('D', 'a', matrix='any')
        i = c.scalar('B', 'i')
        w = c.scalar('D', 'w') if wk == 's' else c.vec('D', 'w', matrix='any')
        args = [a, w, i] if wk != 's' else [a, i, w]
        L = c.scatter(lambda k: k)
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for FALSE' + ('' if wk == 's' else ' or different lengths'),
                          bor(bnot(i), False if wk == 's' else bnot(eqv(w.n, a.n))))
                c.thrown(o, a)
                continue
            c.require(o.st, 'FALSE throws', i)
            if wk != 's':
                c.require(o.st, 'returns only for equal lengths', eqv(w.n, a.n))
            fixed(c, o.st, a)
            c.forall_elts(o.st, a, a.n, lambda j: w if wk == 's' else raw(w, j), 'contents')
            c.clean(o, [a])
    return go


prop.case('bool', logical('drv_b', 'vec'), expect=('ret', 'exc'))
prop.case('bool_scalar', logical('drv_b_s', 's'), expect=('ret', 'exc'))


def mask(fname, wk, cmp):
    def go(c):
        a = c.vec('D', 'a', matrix='any')
        if cmp:
            s = c.scalar('D', 's')
            f = c.filt(lambda k: B(flt(s, at(a, k))))
            args = [a, s]
        else:
            e = c.vec('B', 'i', matrix='any')
            f = c.filt(lambda k: B(eqv(at(e, k), 1)))
            args = [a, e]
        m = f.cnt(I(a.n))
        if wk == 's':
            w = c.scalar('D', 'w')
            rlen, wf = None, (lambda l: w)
        else:
            w = c.vec('D', 'w', matrix='any')
            rlen, wf = w.n, (lambda l: raw(w, l))
        args = args[:1] + ([w] if wk != 's' and cmp else []) + args[1:] + ([w] if not (wk != 's' and cmp) else [])
        for o in c.run(fname, args):
            if o.kind != 'ret':
                c.require(o.st, 'throws only for an empty selection or different lengths',
                          bor(eqv(m, 0), False if rlen is None else bnot(eqv(rlen, m))))
                c.thrown(o, a)
                continue
            c.require(o.st, 'an empty selection throws', lt(0, m))
            if rlen is not None:
                c.require(o.st, 'returns only for equal lengths', eqv(rlen, m))
            fixed(c, o.st, a)
            st = o.st.copy()
            p = c.index(st, a.n, 'p')
            b = f.b(p)
            c.require(st, 'contents: selected elements take the new value, all others keep theirs',
                      eqv(a.elt(st, p), ite(foldb(b) if not isinstance(b, bool) else b, wf(f.cnt(p)), raw(a, p))))
            c.clean(o, [a])
    return go


prop.case('vecB', mask('drv_VB', 'vec', False), expect=('ret', 'exc'), weight=4)
prop.case('vecB_scalar', mask('drv_VB_s', 's', False), expect=('ret', 'exc'), weight=4)
prop.case('comparison', mask('drv_cmp', 'vec', True), expect=('ret', 'exc'), weight=4)
prop.case('comparison_scalar', mask('drv_cmp_s', 's', True), expect=('ret', 'exc'), weight=4)


def from_subset(c):
    a, e, w, k = c.vec('D', 'a', matrix='any'), c.vec('I', 'i'), c.vec('D', 'w', matrix='any'), c.vec('I', 'k')
    c.every(e, e.n, lambda x: inr('I', x, a.n))
    c.every(k, k.n, lambda x: inr('I', x, w.n))
    run(c, 'drv_sub', [a, e, w, k], a, lambda q: sub(raw(e, q), 1), e.n, k.n, lambda l: raw(w, sub(raw(k, l), 1)), True)


prop.case('from_subset', from_subset, expect=('ret', 'exc'), weight=5)

for T in 'ID':
    prop.case('visit_V' + T, vec_index('it_V' + T, T, wk='s'), weight=2)
