"""C19 isNA, isInf, length and dim"""
from prop import Prop
from lib import *
from C10 import Axis
from C12 import conformable

prop = Prop('C19', ['C19.cpp'], replay='C19.cpp')
NA = lambda x: nan(x)
INF = lambda x: z3.And(z3.Not(nan(x)), z3.Or(val(x) >= INFV, val(x) <= -INFV))
TEST = {'na': NA, 'inf': INF}


def scalar(n, T):
    def go(c):
        t = c.scalar(T, 't')
        out = c.ref('B', c.scalar('B', 'x'))
        want = TEST[n](t) if T == 'D' else z3.BoolVal(False)
        for o in c.run('drv_%s_%s' % (n, T.lower()), [out, t]):
            if o.kind != 'ret':
                c.require(o.st, 'does not throw', False)
                continue
            c.require(o.st, 'value', eqv(o.st.mem[out.reg].cells[0][1], bit(want)))
            c.clean(o, [], also=[out.reg])
    return go


def size1(T):
    def go(c):
        out = c.ref('S', c.size('x'))
        for o in c.run('drv_len_' + T.lower(), [out, c.scalar(T, 't')]):
            c.require(o.st, 'does not throw', o.kind == 'ret')
            if o.kind == 'ret':
                c.require(o.st, 'value', eqv(o.st.mem[out.reg].cells[0][1], 1))
                c.clean(o, [], also=[out.reg])
    return go


def nodim(T):
    def go(c):
        for o in c.run('drv_dim_' + T.lower(), [c.scalar(T, 't')]):
            c.require(o.st, 'a scalar has no dimensions', o.kind == 'exc')
            c.clean(o, [])
    return go


def operand(c, k, name='a', temp=None, alloc=True):
    if k == 'WD':
        return c.vec('D', name, matrix='any', layname='WD', owned=None)
    return c.vec(k[1], name, matrix='any', temp=temp, alloc=alloc)


def tests(n, k, form=None):
    """r = isNA(a)"""
    def go(c):
        f = TEST[n]
        R = 'D' if form == 'dbl' else 'B'
        if form == 'self':
            r = a = operand(c, k, 'r', temp='alloc')
            args = [r]
        else:
            r = c.raw(R, 'r') if form == 'new' else target(c, R, True)
            a = operand(c, k)
            args = [r, a]
        ln, elt = a.n, lambda j: raw(a, j)
        if form == 'dbl':
            c.assume(B(lt(0, a.n)))
        if form == 'sum':
            b = operand(c, k, 'b')
            args.append(b)
            ln, elt = longest([a, b]), lambda j: fbin('fadd', at(a, j), at(b, j))
        val1 = lambda j: bit(f(elt(j))) if a.T == 'D' else 0
        res = (lambda j: fbin('fadd', i2f(I(val1(j))), fconst(1))) if form == 'dbl' else val1
        for o in c.run('drv_%s_%s' % (n, form or k), args):
            if o.kind != 'ret':
                c.require(o.st, 'does not throw', False)
                continue
            c.forall_elts(o.st, r, ln, res, 'truth value')
            c.clean(o, [r])
    return go


def length(k, form=None):
    def go(c):
        out, a = c.ref('S', c.size('x')), operand(c, k, alloc='any' if form is None else True)
        args, n = [out, a], a.n
        if form == 'sum':
            b = operand(c, k, 'b')
            args.append(b)
            n = longest([a, b])
        for o in c.run('drv_len_' + (form or k), args):
            c.require(o.st, 'does not throw', o.kind == 'ret')
            if o.kind == 'ret':
                c.require(o.st, 'value', eqv(o.st.mem[out.reg].cells[0][1], n))
                c.clean(o, [], also=[out.reg])
    return go


def dims(k, form=None):
    def go(c):
        if form == 'self':
            r = a = operand(c, k, 'r', temp='alloc', alloc='any')
            args = [r]
        else:
            r = c.raw('I', 'r') if form == 'new' else target(c, 'I', True)
            a = operand(c, k, alloc='any' if form is None else True)
            args = [r, a]
        im, nr, nc = a.im, a.nr, a.nc
        if form == 'sum':
            b = operand(c, k, 'b')
            args.append(b)
            conformable(c, [a, b])
            im, nr, nc = bit(bor(eqv(a.im, 1), eqv(b.im, 1))), ite(eqv(a.im, 1), a.nr, b.nr), ite(eqv(a.im, 1), a.nc, b.nc)
        judge(c, c.run('drv_dim_' + (form or k), args), r, im, nr, nc)
    return go


def judge(c, outs, r, im, nr, nc):
    for o in outs:
        if o.kind != 'ret':
            c.require(o.st, 'a matrix has dimensions', bnot(eqv(im, 1)))
            if getattr(r, 'israw', False):
                c.frame(o.st, [r.vrid])
            else:
                c.thrown(o, r)
            continue
        c.require(o.st, 'a vector that is no matrix has no dimensions', eqv(im, 1))
        c.forall_elts(o.st, r, 2, lambda j: ite(eqv(j, 0), nr, nc), 'rows and columns')
        c.shape(o.st, r, 0)
        c.clean(o, [r])


def rows(c):
    out, a = c.ref('D', c.scalar('D', 'x')), operand(c, 'VD', alloc='any')
    for o in c.run('drv_dim_rows', [out, a]):
        c.require(o.st, 'throws exactly without dimensions', eqv(a.im, 1) if o.kind == 'ret' else bnot(eqv(a.im, 1)))
        if o.kind == 'ret':
            c.require(o.st, 'value', eqv(o.st.mem[out.reg].cells[0][1], i2f(I(a.nr))))
        c.clean(o, [], also=[out.reg])


def block(fname, rk, ck):
    def go(c):
        r = target(c, 'I', True)
        m = c.vec('D', 'm', matrix=True)
        a, b = Axis(c, rk, 'i', m.nr), Axis(c, ck, 'k', m.nc)
        judge(c, c.run(fname, [r, m, a.arg, b.arg]), r, 0 if a.plain or b.plain else 1, a.n, b.n)
    return go


def made(c):
    r = target(c, 'I', True)
    i, k = c.scalar('I', 'i'), c.scalar('I', 'k')
    c.assume(z3.And(I(i) >= 1, I(k) >= 1))
    c.assume(B(le(mul(i, k), SZMAX)))
    judge(c, c.run('drv_dim_matrix', [r, i, k]), r, 1, i, k)


E = ('ret', 'exc')
for n in ('na', 'inf'):
    for T in 'DIB':
        prop.case('%s_%s' % (n, T.lower()), scalar(n, T))
    for k in ('VD', 'VI', 'VB', 'WD'):
        prop.case('%s_%s' % (n, k), tests(n, k))
    prop.case(n + '_const', tests(n, 'VD', 'const'))
    prop.case(n + '_self', tests(n, 'VB', 'self'))
    prop.case(n + '_sum', tests(n, 'VD', 'sum'))
    prop.case(n + '_new', tests(n, 'VD', 'new'))
    prop.case(n + '_plus', tests(n, 'VD', 'dbl'))
for T in 'DIB':
    prop.case('length_' + T.lower(), size1(T))
    prop.case('dim_' + T.lower(), nodim(T), expect=('exc',))
for k in ('VD', 'VI', 'VB', 'WD'):
    prop.case('length_' + k, length(k))
    prop.case('dim_' + k, dims(k), expect=E)
prop.case('length_const', length('VD', 'const'))
prop.case('length_sum', length('VD', 'sum'))
prop.case('dim_const', dims('VD', 'const'), expect=E)
prop.case('dim_self', dims('VI', 'self'), expect=E)
prop.case('dim_sum', dims('VD', 'sum'), expect=E)
prop.case('dim_neg', dims('VD', 'neg'), expect=E)
prop.case('dim_new', dims('VD', 'new'), expect=E)
prop.case('dim_rows', rows, expect=E)
prop.case('dim_subset', block('drv_dim_subset', 'VI', 'VI'))
prop.case('dim_row', block('drv_dim_row', 'I', 'VI'), expect=('exc',))
prop.case('dim_matrix', made)
