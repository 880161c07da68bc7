"""C15 rep, vector and matrix"""
from prop import Prop
from lib import *
from C13 import cast, P, Part

prop = Prop('C15', ['C15.cpp'], replay='C15.cpp')
prop.assumptions += ['a size given as a double is NaN or below 2^31 in magnitude (not NaN for vector_integer and vector_logical), and the number of elements created fits an int',
                     'warnings (written to standard error) have no other effect']


class Size:
    """a requested size: the value, whether it is valid (>= 1), what it truncates to"""
    def __init__(self, c, x, plus=None, finite=False):
        if isinstance(x, Store):
            x = fbin('fadd', raw(x, 0), raw(plus, 0)) if plus is not None else raw(x, 0)
        if z3.is_bool(x):
            x = bit(x)
        if I(x).sort().eq(F):
            c.assume(z3.Or(nan(x), z3.And(val(x) < 2 ** 31, val(x) > -2 ** 31)))
            if finite:
                c.assume(z3.Not(nan(x)))
            self.ok = B(fle(fconst(1), x))
            self.n = ftrunc_int(x)
        else:
            self.ok = B(le(1, x))
            self.n = x


def operands(c, kinds, alias=False):
    ops = []
    for k, T in enumerate(kinds):
        x = 'abdefg'[k]
        ops.append(c.scalar({'s': 'D', 'i': 'I', 'b': 'B', 'S': 'S'}[T], x) if T in 'sibS' else
                   c.vec('D', x, matrix='any', layname='WD', owned=None) if T == 'W' else c.vec(T, x, matrix='any', temp='alloc' if alias and k == 0 else None))
    return ops


def finish(c, fname, args, ops, r, ok, n, elt, dims=None, thrown=True, plus=None, changed=()):
    """returns exactly when ok, with the n elements elt"""
    for o in c.run(fname, args):
        if o.kind != 'ret':
            c.require(o.st, 'a valid request does not throw', B(bnot(ok)))
            if thrown:
                c.thrown(o, r)
            else:
                c.clean(o, [], 'after an exception', dead=[r])
            continue
        c.require(o.st, 'an invalid request throws', ok)
        o.st.assume(ok)
        c.forall_elts(o.st, r, mx(n, plus.n) if plus is not None else n, (lambda j: fbin('fadd', elt(emod(j, n)), at(plus, j))) if plus is not None else elt, 'contents')
        if plus is None:
            if dims:
                c.shape(o.st, r, 1, *dims)
            else:
                c.shape(o.st, r, 0)
        c.clean(o, [r] + list(changed))


def rep(fname, rT, kinds, x=None, times=None, alias=False, new=False, plus=False):
    def go(c):
        ops = operands(c, kinds, alias)
        r = ops[0] if alias else c.raw(rT, 'r') if new else target(c, rT, True)
        X = x(ops) if x else P(ops[0])
        t = times(c, ops) if times else Size(c, ops[1])
        n = mul(t.n, X.n)
        c.assume(z3.Implies(t.ok, B(le(n, SZMAX))))
        finish(c, fname, ops if alias else [r] + ops, ops, r, t.ok, n, lambda j: cast(X.T, X.fn(emod(j, X.n)), rT), thrown=not new, plus=ops[-1] if plus else None)
    return go


R = lambda n, rT, k, w=1, **a: prop.case('rep_' + n, rep('drv_rep_' + n, rT, k, **a), expect=('ret', 'exc'), weight=w)
for n, rT, k in (('di', 'D', 'si'), ('di_temp', 'D', 'si'), ('ii', 'I', 'ii'), ('bi', 'B', 'bi'), ('dd', 'D', 'ss'), ('id', 'I', 'is'), ('db', 'D', 'sb'), ('dI', 'D', 'sI'), ('dD', 'D', 'sD'),
                 ('iI', 'I', 'iI'), ('dB', 'D', 'sB'), ('Di', 'D', 'Di'), ('Di_temp', 'D', 'Di'), ('Dd', 'D', 'Ds'), ('Ii', 'I', 'Ii'), ('Bi', 'B', 'Bi'), ('Wi', 'D', 'Wi'), ('DI', 'D', 'DI'),
                 ('DD', 'D', 'DD'), ('ID', 'I', 'ID')):
    R(n, rT, k, 2 if k[0].isupper() else 1)
both = lambda o: Part('D', mx(o[0].n, o[1].n), lambda j: fbin('fadd', at(o[0], j), at(o[1], j)))
R('d_sum', 'D', 'sDD', times=lambda c, o: Size(c, o[1], o[2]))
R('sum_i', 'D', 'DDi', 3, x=both, times=lambda c, o: Size(c, o[2]))
R('sum_I', 'D', 'DDI', 3, x=both, times=lambda c, o: Size(c, o[2]))
R('neg_i', 'D', 'Di', 2, x=lambda o: Part('D', o[0].n, lambda j: ufun('fneg')(raw(o[0], j))))
R('own', 'D', 'Di', 2, alias=True)
R('own_times', 'D', 'Ds', 2, alias=True, x=lambda o: P(o[1]), times=lambda c, o: Size(c, o[0]))
R('plus', 'D', 'siD', 2, plus=True)
R('new', 'D', 'Di', 2, new=True)
R('new_s', 'D', 'si', 1, new=True)


def vector(fname, rT, kinds, new=False):
    def go(c):
        ops = operands(c, kinds)
        r = c.raw(rT, 'r') if new else target(c, rT, True)
        t = Size(c, ops[0], ops[1] if len(ops) > 1 else None, finite=rT != 'D')
        ok = t.ok
        for x in ops:
            if isinstance(x, Store):
                ok = z3.And(ok, B(eqv(x.n, 1)))
        c.assume(z3.Implies(ok, B(le(t.n, SZMAX))))
        finish(c, fname, [r] + ops, ops, r, ok, t.n, lambda j: fconst(0) if rT == 'D' else 0, thrown=not new)
    return go


for N, T in (('num', 'D'), ('int', 'I'), ('log', 'B')):
    for n, k in (('i', 'i'), ('i_temp', 'i'), ('d', 's'), ('d_temp', 's'), ('b', 'b'), ('S', 'S'), ('S_temp', 'S'), ('I', 'I'), ('D', 'D'), ('I_temp', 'I'), ('sum', 'DD'), ('new', 'i')):
        prop.case('%s_%s' % (N, n), vector('drv_%s_%s' % (N, n), T, k, new=n == 'new'), expect=('ret', 'exc'))
prop.case('int_to_d', vector('drv_int_to_d', 'D', 'i'), expect=('ret', 'exc'))
prop.case('log_to_d', vector('drv_log_to_d', 'D', 'i'), expect=('ret', 'exc'))


def matrix(fname, rT, kinds, x=None, dims=None, alias=False, new=False, changed=(), pre=None):
    def go(c):
        ops = operands(c, kinds, alias)
        r = ops[0] if alias else c.raw(rT, 'r') if new else target(c, rT, True)
        X = x(ops) if x else P(ops[0])
        a, b = dims(c, ops) if dims else (Size(c, ops[-2]), Size(c, ops[-1]))
        ok = z3.And(a.ok, b.ok)
        n = mul(a.n, b.n)
        c.assume(z3.Implies(ok, z3.And(B(le(n, SZMAX)), B(le(a.n, SZMAX)), B(le(b.n, SZMAX)))))
        c.assume(z3.Implies(ok, z3.And(B(le(a.n, n)), B(le(b.n, n)))))     # follows: both are positive
        scalar = x is None and not isinstance(ops[0], Store)
        if not scalar:
            ok = z3.And(ok, B(eqv(X.n, n)))
        if pre is not None:
            ok = z3.And(ok, pre(c, ops))
        finish(c, fname, ops if alias else [r] + ops, ops, r, ok, n, lambda j: cast(X.T, X.fn(0 if scalar else j), rT), dims=(a.n, b.n), thrown=not new, changed=[ops[k] for k in changed])
    return go


M = lambda n, rT, k, w=1, **a: prop.case('mat_' + n, matrix('drv_mat_' + n, rT, k, **a), expect=('ret', 'exc'), weight=w)
for n, rT, k in (('dii', 'D', 'sii'), ('iii', 'I', 'iii'), ('bii', 'B', 'bii'), ('ddd', 'D', 'sss'), ('ddi', 'D', 'ssi'), ('dbi', 'D', 'sbi'), ('dIi', 'D', 'sIi'), ('diI', 'D', 'siI'), ('dII', 'D', 'sII'),
                 ('dDi', 'D', 'sDi'), ('Dii', 'D', 'Dii'), ('Iii', 'I', 'Iii'), ('Bii', 'B', 'Bii'), ('Ddi', 'D', 'Dsi'), ('DIi', 'D', 'DIi'), ('DiI', 'D', 'DiI'), ('DII', 'D', 'DII'),
                 ('moved', 'D', 'Dii'), ('moved_dims', 'D', 'sID'), ('to_d', 'D', 'iii')):
    M(n, rT, k, 1 + sum(q.isupper() for q in k))
M('sum', 'D', 'DDii', 3, x=both)
M('neg', 'D', 'Dii', 2, x=lambda o: Part('D', o[0].n, lambda j: ufun('fneg')(raw(o[0], j))))
M('eq', 'B', 'DDii', 3, x=lambda o: Part('B', mx(o[0].n, o[1].n), lambda j: bit(flt(at(o[0], j), at(o[1], j)))))
M('sum_dim', 'D', 'sDDi', 2, dims=lambda c, o: (Size(c, o[1], o[2]), Size(c, o[3])))


def of_rep(o):
    return Part('D', o[1], lambda j: o[0])


M('rep', 'D', 'siii', 2, x=of_rep, pre=lambda c, o: B(le(1, o[1])))
M('own', 'D', 'Dii', 2, alias=True)
M('new', 'D', 'sii', 1, new=True)
M('new_D', 'D', 'Dii', 2, new=True)
